// Driver for divisor masks: calculators, computed, reset and lowered masks, public API only.
#include "vh.h"
#include "mathic/DivMask.h"
using namespace vh;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2000:hard_rss_limit_mb=3000:detect_stack_use_after_return=0"; }

template<class E, bool M>
struct Conf {
  typedef E Exponent;
  typedef std::vector<E> Monomial;
  typedef const Monomial& ConstMonoRef;
  typedef Monomial Entry;
  static const bool UseDivMask = M;
  explicit Conf(size_t n): _n(n) {}
  size_t getVarCount() const { return _n; }
  E getExponent(const Monomial& m, size_t v) const { return m[v]; }
  bool divides(const Monomial& a, const Monomial& b) const {
    for (size_t v = 0; v < _n; ++v) if (b[v] < a[v]) return false;
    return true;
  }
private:
  size_t _n;
};

typedef std::vector<int> Ints;
template<class E> std::vector<E> mono(const Ints& v) { return std::vector<E>(v.begin(), v.end()); }

static std::vector<Ints> monos(const Op& op, size_t from, size_t nv) {
  size_t k = op.i(from);
  std::vector<Ints> r;
  for (size_t j = 0; j < k; ++j) {
    Ints m;
    for (size_t v = 0; v < nv; ++v) m.push_back((int)op.i(from + 1 + j * nv + v));
    r.push_back(m);
  }
  return r;
}

static std::string js(const std::vector<Ints>& v) {
  std::ostringstream o;
  o << '[';
  for (size_t i = 0; i < v.size(); ++i) {
    o << (i ? "," : "") << '[';
    for (size_t j = 0; j < v[i].size(); ++j) o << (j ? "," : "") << v[i][j];
    o << ']';
  }
  o << ']';
  return o.str();
}

template<class E>
static void run(const Script& s) {
  typedef Conf<E, true> C;
  typedef typename C::Monomial Mono;
  typedef mathic::DivMask DM;
  typedef typename DM::template Calculator<C> Calc;
  typedef typename DM::template Extender<Mono, true> Ext;
  size_t nv = s.geti("nv", 1);
  C conf(nv);
  Calc calc(conf);
  Ev("begin").done();
  // a slot holds the same mask in the forms the library offers
  struct Slot { DM m; mathic::DivMask::HasDivMask<true> h; std::shared_ptr<Ext> x; bool one; };
  std::map<long, Slot> slots;
  for (auto& op : s.ops) {
    const std::string& o = op.name();
    if (o == "rebuild" || o == "rebuildx") {         // collection of plain or of extended monomials
      std::vector<Ints> ms = monos(op, 1, nv);
      slots.clear();
      if (o == "rebuild") {
        std::vector<Mono> v;
        for (auto& m : ms) v.push_back(mono<E>(m));
        calc.rebuild(v.begin(), v.end(), conf);
      } else {
        std::vector<Mono> keep;
        for (auto& m : ms) keep.push_back(mono<E>(m));
        Mono* b = keep.empty() ? nullptr : &keep[0];
        calc.rebuild(b, b + keep.size(), conf);
      }
      Ev("calc").j("ms", js(ms)).done();
    } else if (o == "default") {
      slots.clear();
      calc.rebuildDefault(conf);
      Ev("calc").j("ms", "[]").done();
    } else if (o == "mask" || o == "remask") {
      Ints m = op.ints(2);
      Mono x = mono<E>(m);
      Slot& t = slots[op.i(1)];
      if (o == "mask") {
        t.m = DM(x, calc, conf);
        t.x = std::make_shared<Ext>(x, calc, conf);
      } else {                                          // into an existing object
        t.m.recalculate(x, calc, conf);
        if (!t.x) t.x = std::make_shared<Ext>();
        t.x->get() = x;
        t.x->recalculateDivMask(calc, conf);
      }
      t.h = mathic::DivMask::HasDivMask<true>(x, calc, conf);
      t.one = true;
      Ev("mask").n("s", op.i(1)).a("m", m).done();
    } else if (o == "reset") {
      Slot& t = slots[op.i(1)];
      t.m = DM::getMaxMask();
      t.h.resetDivMask();
      t.x.reset();
      t.one = false;
      Ev("reset").n("s", op.i(1)).done();
    } else if (o == "lower") {
      if (!slots.count(op.i(1)) || !slots.count(op.i(2))) continue;
      Slot& a = slots[op.i(1)];
      Slot& b = slots[op.i(2)];
      a.m.combineAnd(b.m);
      a.h.updateToLowerBound(b.h);
      a.x.reset();
      a.one = false;
      Ev("lower").n("s", op.i(1)).n("t", op.i(2)).done();
    } else if (o == "copy") {
      if (!slots.count(op.i(2))) continue;
      Slot b = slots[op.i(2)];
      if (b.x) b.x = std::make_shared<Ext>(*b.x);
      slots[op.i(1)] = b;
      Ev("copy").n("s", op.i(1)).n("t", op.i(2)).done();
    } else if (o == "can") {
      if (!slots.count(op.i(1)) || !slots.count(op.i(2))) continue;
      Slot& a = slots[op.i(1)];
      Slot& b = slots[op.i(2)];
      if (b.one) {
        Ev("can").n("s", op.i(1)).n("t", op.i(2)).b("r", a.m.canDivide(b.m)).done();
        Ev("can").n("s", op.i(1)).n("t", op.i(2)).b("r", a.h.canDivide(b.h)).done();
        Ev("can").n("s", op.i(1)).n("t", op.i(2)).b("r", a.h.getDivMask().canDivide(b.x->getDivMask())).done();
      }
      Ev("eq").n("s", op.i(1)).n("t", op.i(2)).b("r", a.m == b.m).done();
      Ev("eq").n("s", op.i(1)).n("t", op.i(2)).b("r", !(a.h.getDivMask() != b.h.getDivMask())).done();
      if (a.one && b.one) {
        Ev("eq").n("s", op.i(1)).n("t", op.i(2)).b("r", a.m == b.x->getDivMask()).done();
        Ev("ext").n("s", op.i(1)).n("t", op.i(2)).b("r", a.x->divides(*b.x, conf)).done();
        typename DM::template Extender<const Mono&, true> ref(b.x->get(), calc, conf);
        Ev("ext").n("s", op.i(1)).n("t", op.i(2)).b("r", a.x->divides(ref, conf)).done();
        typedef Conf<E, false> C0;
        C0 conf0(nv);
        typename DM::template Calculator<C0> calc0(conf0);
        typename DM::template Extender<Mono, false> p(a.x->get(), calc0, conf0), q(b.x->get(), calc0, conf0);
        Ev("ext").n("s", op.i(1)).n("t", op.i(2)).b("r", p.canDivide(q) && p.divides(q, conf0)).done();
      }
    } else if (o == "row") {
      if (!slots.count(op.i(1))) continue;
      Slot& a = slots[op.i(1)];
      std::vector<Ints> ms = monos(op, 2, nv);
      std::vector<int> can, eq, div;
      for (size_t j = 0; j < ms.size(); ++j) {
        Mono y = mono<E>(ms[j]);
        DM d(y, calc, conf);
        Ext x(y, calc, conf);
        if (a.m.canDivide(d) && a.h.canDivide(x)) can.push_back(j + 1);
        if (a.m == d && !(a.m != d)) eq.push_back(j + 1);
        if (a.one && a.x->divides(x, conf)) div.push_back(j + 1);
      }
      Ev("row").n("s", op.i(1)).j("ms", js(ms)).a("can", can).a("eq", eq).a("div", div).done();
    } else throw std::runtime_error("bad op " + o);
  }
}

int main(int argc, char** argv) {
  addConfig("int", run<int>);
  addConfig("uchar", run<unsigned char>);
  addConfig("short", run<short>);
  addConfig("ulong", run<unsigned long>);
  addConfig("double", run<double>);
  return mainLoop(argc, argv);
}
