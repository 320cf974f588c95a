// Driver for the divisor finders (DivList, KDTree) and the divsim models, public API only.
#pragma once
#include "vh.h"
#include "life.h"
#include "mathic/DivFinder.h"
#include "mathic/DivList.h"
#include "mathic/KDTree.h"
#include <new>

namespace dv {
using namespace vh;

// A stored element or query. The id is ours; the library only copies it along.
struct Mono {
  int id;
  const int* e;
  Mono(): id(-1), e(nullptr) {}
  Mono(int i, const int* p): id(i), e(p) {}
};

inline long ident(const Mono& m) { return m.id; }
// an entry type of its own, with its own copying and destruction
typedef life::Obj<Mono, false> Rich;
typedef life::Obj<Mono, true> RichMv;
inline int idOf(const Mono& m) { return m.id; }
template<bool Mv> inline int idOf(const life::Obj<Mono, Mv>& m) { return m.read().id; }
// an entry type that is not a monomial
struct Item {
  Mono m;
  Item() {}
  explicit Item(const Mono& x): m(x) {}
};
inline int idOf(const Item& m) { return m.m.id; }
// a user may change what belongs to an entry besides its monomial
inline void relabel(Mono& m, int id) { m.id = id; }
template<bool Mv> inline void relabel(life::Obj<Mono, Mv>& m, int id) { m.get(); m._own->id = id; }
inline void relabel(Item& m, int id) { m.m.id = id; }
inline const Mono& monoOf(const Mono& m) { return m; }
inline const Mono& monoOf(const Item& m) { return m.m; }
template<bool Mv> inline const Mono& monoOf(const life::Obj<Mono, Mv>& m) { return m.get(); }

struct RunOpt {
  int ord;              // 0: lexicographic, 1: the same from the last variable, 2: degree first, 3: degree, ties reverse lexicographic
  bool sort, cache, autob;
  double ratio;
  size_t min;
};

template<class EN, class X = int>
struct BaseConf {
  typedef X Exponent;
  typedef Mono Monomial;
  typedef EN Entry;
  size_t vars;
  RunOpt o;
  BaseConf(size_t v, const RunOpt& r): vars(v), o(r) {}
  size_t getVarCount() const { return vars; }
  bool getSortOnInsert() const { return o.sort; }
  bool getUseDivisorCache() const { return o.cache; }
  bool getDoAutomaticRebuilds() const { return o.autob; }
  double getRebuildRatio() const { return o.ratio; }
  size_t getRebuildMin() const { return o.min; }
  template<class A> Exponent getExponent(const A& m, size_t v) const { return static_cast<Exponent>(monoOf(m).e[v]); }
  template<class A, class B> bool divides(const A& x, const B& y) const {
    const Mono& a = monoOf(x);
    const Mono& b = monoOf(y);
    for (size_t v = 0; v < vars; ++v) if (b.e[v] < a.e[v]) return false;
    return true;
  }
  template<class A, class B> bool isLessThan(const A& x, const B& y) const {
    const Mono& a = monoOf(x);
    const Mono& b = monoOf(y);
    if (o.ord >= 2) {
      long long da = 0, db = 0;
      for (size_t v = 0; v < vars; ++v) { da += a.e[v]; db += b.e[v]; }
      if (da != db) return da < db;
    }
    for (size_t k = 0; k < vars; ++k) {
      size_t v = o.ord % 2 ? vars - 1 - k : k;
      if (a.e[v] != b.e[v]) return (a.e[v] < b.e[v]) != (o.ord == 3);
    }
    return false;
  }
};

template<bool L, bool M, class EN, class X>
struct ListConf: BaseConf<EN, X> {
  ListConf(size_t v, const RunOpt& r): BaseConf<EN, X>(v, r) {}
  static const bool UseLinkedList = L;
  static const bool UseDivMask = M;
};

template<bool P, int M, size_t LS, bool AR, class EN, class X>
struct TreeConf: BaseConf<EN, X> {
  TreeConf(size_t v, const RunOpt& r): BaseConf<EN, X>(v, r) {}
  size_t getLeafSize() const { return LS; }
  static const bool UseDivMask = (M >= 1);
  static const bool UseTreeDivMask = (M >= 2);
  static const bool PackedTree = P;
  static const size_t LeafSize = LS;
  static const bool AllowRemovals = AR;
};

struct Collect {
  std::vector<int> ids;
  long limit;   // 0 = never stop
  explicit Collect(long l): limit(l) {}
  template<class EN> bool proceed(const EN& m) {
    ids.push_back(idOf(m));
    if (ids.size() > 100000) throw std::runtime_error("endless enumeration");
    return !(limit > 0 && (long)ids.size() >= limit);
  }
};
// gives every element it is shown a new identity
struct Relabel {
  std::vector<int> ids, now;
  long limit;
  int& fresh;
  Relabel(long l, int& f): limit(l), fresh(f) {}
  template<class EN> bool proceed(EN& m) {
    ids.push_back(idOf(m));
    relabel(m, ++fresh);
    now.push_back(fresh);
    if (ids.size() > 100000) throw std::runtime_error("endless enumeration");
    return !(limit > 0 && (long)ids.size() >= limit);
  }
};
struct Removed {
  std::vector<int> ids;
  template<class EN> void push_back(const EN& m) { ids.push_back(idOf(m)); }
};

// Heap allocated exponent vectors, freed when the script ends, so that dangling use is seen by ASan.
struct Store {
  std::vector<std::unique_ptr<int[]> > v;
  int fresh = 1000000;
  Mono make(int id, const std::vector<int>& e) {
    std::unique_ptr<int[]> p(new int[e.size() ? e.size() : 1]);
    for (size_t i = 0; i < e.size(); ++i) p[i] = e[i];
    v.push_back(std::move(p));
    return Mono(id, v.back().get());
  }
};

// Uninitialised members of the structures must not be relied upon: build them over a fixed byte pattern.
template<class T>
struct Holder {
  void* mem;
  T* t;
  template<class A> explicit Holder(const A& a): mem(::operator new(sizeof(T))), t(nullptr) {
    memset(mem, 0xA5, sizeof(T));
    t = new (mem) T(a);
  }
  ~Holder() { if (t) t->~T(); ::operator delete(mem); }
  T& operator*() { return *t; }
};

struct ListTag { static const bool list = true; };
struct TreeTag { static const bool list = false; };

template<class F, class Tag, bool AllowRemovals, int LeafSize>
struct Runner;

// operations common to both
template<class F, bool AR>
bool commonOp(F& f, const Op& op, Store& st, size_t nv) {
  const F& cf = f;
  const std::string& n = op.name();
  if (n == "I") {
    Mono m = st.make((int)op.i(1), op.ints(2));
    bool fail = false;
    try { f.insert(typename F::Entry(m)); } catch (const std::logic_error&) { fail = true; }
    Ev(fail ? "insfail" : "ins").n("id", m.id).a("m", op.ints(2)).done();
    return true;
  }
  if (n == "D" || n == "d") {
    Mono q = st.make(-2, op.ints(1));
    const typename F::Entry* r = (n == "D") ? f.findDivisor(q) : cf.findDivisor(q);
    Ev ev("div");
    ev.a("m", op.ints(1));
    ev.n("r", r ? idOf(*r) : -1);
    ev.done();
    return true;
  }
  if (n == "A" || n == "a" || n == "M" || n == "m") {
    Collect c(op.i(1));
    std::vector<int> e = op.ints(2);
    Mono q = st.make(-2, e);
    if (n == "A") f.findAllDivisors(q, c);
    else if (n == "a") cf.findAllDivisors(q, c);
    else if (n == "M") f.findAllMultiples(q, c);
    else cf.findAllMultiples(q, c);
    Ev(n == "A" || n == "a" ? "alldiv" : "allmul").n("lim", c.limit).a("m", e).a("out", c.ids).done();
    return true;
  }
  if (n == "F" || n == "f") {
    Collect c(op.i(1));
    if (n == "F") f.forAll(c); else cf.forAll(c);
    Ev("all").n("lim", c.limit).a("out", c.ids).done();
    return true;
  }
  if (n == "W") {          // change the divisor that was found
    std::vector<int> e = op.ints(1);
    typename F::Entry* r = f.findDivisor(st.make(-2, e));
    if (r == nullptr) { Ev("div").a("m", e).n("r", -1).done(); return true; }
    Relabel l(0, st.fresh);
    l.proceed(*r);
    Ev("relabel").s("k", "one").n("lim", 1).a("m", e).a("out", l.ids).a("now", l.now).done();
    return true;
  }
  if (n == "WA" || n == "WM" || n == "WF") {   // change every element shown
    Relabel l(op.i(1), st.fresh);
    std::vector<int> e = op.ints(2);
    Mono q = st.make(-2, e);
    if (n == "WA") f.findAllDivisors(q, l);
    else if (n == "WM") f.findAllMultiples(q, l);
    else f.forAll(l);
    Ev("relabel").s("k", n == "WA" ? "div" : n == "WM" ? "mul" : "all").n("lim", l.limit).a("m", e).a("out", l.ids).a("now", l.now).done();
    return true;
  }
  if (n == "S") {
    Ev("size").n("n", cf.size()).b("empty", cf.empty()).done();
    return true;
  }
  if (n == "B") {
    f.rebuild();
    Ev("rebuild").done();
    return true;
  }
  return false;
}

template<class F>
void removalOp(F& f, const Op& op, Store& st) {
  const std::string& n = op.name();
  std::vector<int> e = op.ints(1);
  Mono q = st.make(-2, e);
  if (n == "X") {
    Removed r;
    bool b = f.removeMultiples(q, r);
    Ev("rmul").a("m", e).b("r", b).a("out", r.ids).done();
  } else if (n == "x") {
    bool b = f.removeMultiples(q);
    Ev("rmulq").a("m", e).b("r", b).done();
  }
}

// The sets named here say which of the optional methods exist for a structure.
template<class F, bool Has> struct ElemRemover { static bool go(F&, const Mono&, bool&) { return false; } };
template<class F> struct ElemRemover<F, true> {
  static bool go(F& f, const Mono& m, bool& r) { r = f.removeElement(m); return true; }
};

template<class F, bool AR, bool HasRemoveElement>
void anyRemoval(F& f, const Op& op, Store& st, std::true_type) {
  if (op.name() == "E") {
    std::vector<int> e = op.ints(1);
    Mono q = st.make(-2, e);
    bool r = false;
    if (ElemRemover<F, HasRemoveElement>::go(f, q, r)) {
      // which of several equal elements went is not told, so look at what is left
      Collect c(0);
      const F& cf = f;
      cf.forAll(c);
      Ev("rel").a("m", e).b("r", r).a("left", c.ids).done();
    }
  } else
    removalOp(f, op, st);
}
template<class F, bool AR, bool HasRemoveElement>
void anyRemoval(F& f, const Op& op, Store& st, std::false_type) {
  // removals are disabled: the request is refused and nothing changes
  if (op.name() != "X" && op.name() != "x" && op.name() != "E") return;
  bool refused = false;
  std::vector<int> e = op.ints(1);
  Mono q = st.make(-2, e);
  Removed r;
  try {
    if (op.name() == "X") f.removeMultiples(q, r); else if (op.name() == "x") f.removeMultiples(q); else f.removeElement(q);
  } catch (const std::logic_error&) { refused = true; }
  Ev("refused").b("r", refused).a("out", r.ids).done();
}

template<class F>
void listOnly(F& f, const Op& op, Store& st, bool sorted) {
  int& fresh = st.fresh;
  const F& cf = f;
  const std::string& n = op.name();
  if (n == "i") {
    std::vector<int> e = op.ints(1);
    Mono q = st.make(-2, e);
    typename F::iterator it = f.findDivisorIterator(q);
    Ev("div").a("m", e).n("r", it == f.end() ? -1 : idOf(*it)).done();
  } else if (n == "G") {   // move the first divisor found to the front
    if (sorted) return;
    std::vector<int> e = op.ints(1);
    Mono q = st.make(-2, e);
    typename F::iterator it = f.findDivisorIterator(q);
    if (it == f.end()) { Ev("div").a("m", e).n("r", -1).done(); return; }
    int id = idOf(*it);
    f.moveToFront(it);
    Ev("mtf").a("m", e).n("id", id).n("first", idOf(*f.begin())).done();
  } else if (n == "g") {   // move the k-th element to the front
    if (sorted || f.empty()) return;
    size_t k = (size_t)op.i(1) % f.size();
    typename F::iterator it = f.begin();
    std::advance(it, k);
    int id = idOf(*it);
    f.moveToFront(it);
    Ev("mtfk").n("id", id).n("first", idOf(*f.begin())).done();
  } else if (n == "WI") {  // change the k-th element
    if (f.empty()) return;
    typename F::iterator it = f.begin();
    std::advance(it, (size_t)op.i(1) % f.size());
    std::vector<int> out(1, idOf(*it));
    relabel(*it.operator->(), ++fresh);
    Ev("relabel").s("k", "all").n("lim", 1).a("m", std::vector<int>()).a("out", out).a("now", std::vector<int>(1, fresh)).done();
  } else if (n == "L") {
    std::vector<int> ids;
    for (typename F::iterator it = f.begin(); it != f.end(); ++it) {
      ids.push_back(idOf(*it));
      if (ids.size() > 100000) throw std::runtime_error("endless iteration");
    }
    Ev("iter").a("out", ids).done();
  } else if (n == "l") {   // read-only, backwards
    std::vector<int> ids;
    typename F::const_iterator it = cf.end();
    while (it != cf.begin()) {
      --it;
      ids.push_back(idOf(*it));
      if (ids.size() > 100000) throw std::runtime_error("endless iteration");
    }
    std::reverse(ids.begin(), ids.end());
    Ev("iter").a("out", ids).done();
  }
}

template<class EN>
void parseRange(const Op& op, size_t nv, Store& st, std::vector<EN>& ms, std::vector<int>& ids, std::vector<std::vector<int> >& es) {
  size_t k = 1, cnt = (size_t)op.i(k++);
  for (size_t j = 0; j < cnt; ++j) {
    int id = (int)op.i(k++);
    std::vector<int> e;
    for (size_t v = 0; v < nv; ++v) e.push_back((int)op.i(k++));
    ms.push_back(EN(st.make(id, e)));
    ids.push_back(id);
    es.push_back(e);
  }
}

inline void beginEv(const Script& s, const RunOpt& o, bool list, long leaf, bool removals) {
  Ev("begin").n("nv", s.geti("nv")).b("sorted", list && o.sort).b("list", list).n("leaf", leaf).b("rem", removals).n("ord", o.ord).done();
}

template<bool L, bool M, class EN, class X>
void runList(const Script& s, RunOpt o) {
  typedef ListConf<L, M, EN, X> C;
  typedef mathic::DivList<C> F;
  o.ord = (int)s.geti("ord");
  size_t nv = (size_t)s.geti("nv");
  Store st;
  beginEv(s, o, true, 0, true);
  life::reg().start(s.geti("life") != 0);
  {
  Holder<F> h(C(nv, o));
  F& f = *h;
  for (const Op& op : s.ops) {
    if (op.name() == "R" || op.name() == "r") {
      std::vector<typename F::Entry> ms; std::vector<int> ids; std::vector<std::vector<int> > es;
      parseRange(op, nv, st, ms, ids, es);
      if (op.name() == "R") f.insert(ms.begin(), ms.end());
      else { typename F::Entry* p = ms.data(); f.insert(p, p + ms.size()); }
      Ev("insr").a("ids", ids).aa("ms", es).done();
    } else if (!commonOp<F, true>(f, op, st, nv)) {
      anyRemoval<F, true, true>(f, op, st, std::true_type());
      listOnly(f, op, st, o.sort);
    }
  }
  }
  Ev("gone").n("live", life::reg().live).done();
}

#ifndef HAS_TREE_RANGE
#define HAS_TREE_RANGE 1
#endif
#ifndef HAS_TREE_RMELEM
#define HAS_TREE_RMELEM 2   // 1: packed only, 2: both layouts
#endif
#ifndef HAS_TREE_CLEAR
#define HAS_TREE_CLEAR 1
#endif

template<bool P, int M, size_t LS, bool AR, class EN, class X>
void runTree(const Script& s, RunOpt o) {
  typedef TreeConf<P, M, LS, AR, EN, X> C;
  o.ord = (int)s.geti("ord");
  typedef mathic::KDTree<C> F;
  size_t nv = (size_t)s.geti("nv");
  Store st;
  beginEv(s, o, false, (long)LS, AR);
  life::reg().start(s.geti("life") != 0);
  {
  Holder<F> h(C(nv, o));
  F& f = *h;
  for (const Op& op : s.ops) {
    if (op.name() == "R" || op.name() == "r") {
      std::vector<typename F::Entry> ms; std::vector<int> ids; std::vector<std::vector<int> > es;
      parseRange(op, nv, st, ms, ids, es);
#if HAS_TREE_RANGE
      bool fail = false;
      try {
        if (op.name() == "R") f.insert(ms.begin(), ms.end());
        else { typename F::Entry* p = ms.data(); f.insert(p, p + ms.size()); }
      } catch (const std::logic_error&) { fail = true; }
      Ev(fail ? "insrfail" : "insr").a("ids", ids).aa("ms", es).n("size", f.size()).done();
#else
      for (size_t k = 0; k < ms.size(); ++k) {
        bool fail = false;
        try { f.insert(ms[k]); } catch (const std::logic_error&) { fail = true; }
        Ev(fail ? "insfail" : "ins").n("id", ids[k]).a("m", es[k]).done();
      }
#endif
#if HAS_TREE_CLEAR
    } else if (op.name() == "C") {
      f.clear();
      Ev("clear").done();
#endif
    } else if (!commonOp<F, AR>(f, op, st, nv))
      anyRemoval<F, AR, (HAS_TREE_RMELEM >= (P ? 1 : 2))>(f, op, st, std::integral_constant<bool, AR>());
  }
  }
  Ev("gone").n("live", life::reg().live).done();
}

template<class Fn>
void withOpts(const std::string& base, bool mask, bool tree, Fn fn) {
  struct { const char* n; bool a; double r; size_t m; } rb[] = {
    {"norb", false, 0, 0}, {"rb1", true, 0.5, 1}, {"rb4", true, 1.0, 4}, {"rb20", true, 0.1, 20}};
  for (int s = 0; s < 2; ++s)
    for (int c = 0; c < (tree ? 2 : 1); ++c)
      for (auto& r : rb) {
        RunOpt o;
        o.ord = 0; o.sort = s; o.cache = c; o.autob = r.a; o.ratio = r.r; o.min = r.m;
        std::string nm = base + (s ? "-sort" : "-nosort") + (tree ? (c ? "-cache" : "-nocache") : "") + "-" + r.n;
        addConfig(nm, [fn, o](const Script& sc) { fn(sc, o); });
      }
}
template<bool L, bool M, class EN = Mono, class X = int> void addList(const char* en = "") {
  withOpts(std::string("list-") + (L ? "linked" : "array") + (M ? "-mask" : "-nomask") + en, M, false,
    [](const Script& s, RunOpt o) { runList<L, M, EN, X>(s, o); });
}
template<bool P, int M, size_t LS, bool AR, class EN = Mono, class X = int> void addTree(const char* en = "") {
  static const char* mn[] = {"nomask", "mask", "treemask"};
  withOpts(std::string("tree-") + (P ? "packed" : "binary") + "-" + mn[M] + "-leaf" + std::to_string(LS) + (AR ? "-rem" : "-norem") + en,
    M > 0, true, [](const Script& s, RunOpt o) { runTree<P, M, LS, AR, EN, X>(s, o); });
}
} // namespace dv
