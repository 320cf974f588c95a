// Driver for the divisor simulation models; the models' public API only.
#include "vh.h"
#include "divsim/stdinc.h"
#include "divsim/DivListModel.h"
#include "divsim/KDTreeModel.h"

using namespace vh;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3000"; }

// exponents live here; the models copy only the pointer, which identifies the element
struct MonoStore {
  std::vector<std::unique_ptr<std::vector<int> > > v;
  std::map<const int*, int> ids;
  ::Monomial make(int id, const std::vector<int>& e) {
    v.emplace_back(new std::vector<int>(e));
    if (v.back()->empty()) v.back()->push_back(0);
    ::Monomial m(*v.back());
    ids[m.getPointer()] = id;
    return m;
  }
  int id(const ::Monomial& m) const { auto it = ids.find(m.getPointer()); return it == ids.end() ? -7 : it->second; }
};

struct Collect {
  const MonoStore& st;
  std::vector<int> out;
  long limit;
  Collect(const MonoStore& s, long l): st(s), limit(l) {}
  bool proceed(const ::Monomial& m) {
    out.push_back(st.id(m));
    if (out.size() > 100000) throw std::runtime_error("endless enumeration");
    return !(limit > 0 && (long)out.size() >= limit);
  }
  void push_back(const ::Monomial& m) { out.push_back(st.id(m)); }
};

template<class M> void iterate(M& f, const MonoStore& st, std::true_type) {
  std::vector<int> a, b;
  for (typename M::iterator it = f.begin(); it != f.end(); ++it) a.push_back(st.id(*it));
  const M& c = f;
  for (typename M::const_iterator it = c.begin(); it != c.end(); ++it) b.push_back(st.id(*it));
  Ev("iter").a("out", a).done();
  Ev("iter").a("out", b).done();
}
template<class M> void iterate(M&, const MonoStore&, std::false_type) {}

template<class M, bool IsList>
void ops(const Script& s, M& f, bool mini, bool sorted, long leaf, bool rem) {
  MonoStore st;
  Ev("begin").n("nv", s.geti("nv")).b("sorted", IsList && sorted).b("list", IsList).n("leaf", leaf).b("rem", rem).b("mini", mini).done();
  const M& cf = f;
  for (auto& op : s.ops) {
    const std::string& n = op.name();
    if (n == "I" || n == "J") {           // J: ask for the elements that become redundant
      std::vector<int> e = op.ints(2);
      ::Monomial m = st.make((int)op.i(1), e);
      Collect c(st, 0);
      bool fail = false;
      try { if (n == "I") f.insert(m); else f.insert(m, c); } catch (const std::logic_error&) { fail = true; }
      if (fail) Ev("insfail").n("id", op.i(1)).a("m", e).done();
      else Ev("mins").n("id", op.i(1)).a("m", e).b("tells", n == "J").a("out", c.out).done();
    } else if (n == "D" || n == "d") {
      std::vector<int> e = op.ints(1);
      ::Monomial q = st.make(-2, e);
      const ::Monomial* r = n == "D" ? f.findDivisor(q) : cf.findDivisor(q);
      Ev("div").a("m", e).n("r", r ? st.id(*r) : -1).done();
    } else if (n == "A" || n == "a") {
      std::vector<int> e = op.ints(2);
      ::Monomial q = st.make(-2, e);
      Collect c(st, op.i(1));
      if (n == "A") f.findAllDivisors(q, c); else cf.findAllDivisors(q, c);
      Ev("alldiv").n("lim", c.limit).a("m", e).a("out", c.out).done();
    } else if (n == "F" || n == "f") {
      Collect c(st, op.i(1));
      if (n == "F") f.forAll(c); else cf.forAll(c);
      Ev("all").n("lim", c.limit).a("out", c.out).done();
    } else if (n == "S") {
      Ev("size").n("n", cf.size()).b("empty", cf.size() == 0).done();
    } else if (n == "L") {
      iterate(f, st, std::integral_constant<bool, IsList>());
    } else throw std::runtime_error("bad op " + n);
  }
}

struct Rb { const char* n; double ratio; size_t min; };
static const Rb rbs[] = {{"norb", 0, 0}, {"rb1", 0.5, 1}, {"rb10", 0.5, 10}};

template<bool L, bool M> void addList() {
  for (int mini = 0; mini < 2; ++mini)
    for (int order = 0; order < 3; ++order)
      for (auto& r : rbs) {
        bool front = order == 1, sort = order == 2;
        double ratio = r.ratio;
        size_t min = r.min;
        std::string nm = std::string(mini ? "min-" : "all-") + "list-" + (L ? "linked" : "array") + (M ? "-mask" : "-nomask")
          + (front ? "-front" : sort ? "-sort" : "-plain") + "-" + r.n;
        addConfig(nm, [=](const Script& s) {
          DivListModel<L, M> f((size_t)s.geti("nv"), mini, front, sort, ratio, min);
          ops<DivListModel<L, M>, true>(s, f, mini, sort, 0, true);
        });
      }
}
template<bool UDM, bool UTDM, bool PT, size_t LS, bool AR> void addTree() {
  for (int mini = 0; mini < 2; ++mini) {
    if (mini && !AR) continue;
    for (int sort = 0; sort < 2; ++sort)
      for (int cache = 0; cache < 2; ++cache)
        for (auto& r : rbs) {
          double ratio = r.ratio;
          size_t min = r.min;
          std::string nm = std::string(mini ? "min-" : "all-") + "tree-" + (PT ? "packed" : "binary") + (UTDM ? "-treemask" : UDM ? "-mask" : "-nomask")
            + "-leaf" + std::to_string(LS) + (AR ? "-rem" : "-norem") + (sort ? "-sort" : "-nosort") + (cache ? "-cache" : "-nocache") + "-" + r.n;
          addConfig(nm, [=](const Script& s) {
            typedef KDTreeModel<UDM, UTDM, PT, LS, AR> M;
            M f((size_t)s.geti("nv"), mini, sort, cache, ratio, min);
            ops<M, false>(s, f, mini, sort, (long)LS, AR);
          });
        }
  }
}

int main(int argc, char** argv) {
  addList<false, false>(); addList<true, false>(); addList<false, true>(); addList<true, true>();
  addTree<1, 1, 1, 1, 1>(); addTree<1, 0, 1, 2, 1>(); addTree<0, 0, 1, 3, 1>(); addTree<1, 1, 0, 1, 1>(); addTree<0, 0, 0, 2, 1>(); addTree<1, 0, 0, 8, 1>();
  addTree<1, 1, 1, 2, 0>(); addTree<0, 0, 0, 3, 0>();
  return mainLoop(argc, argv);
}
