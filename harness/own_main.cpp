// Driver for the storage of the data structures: every block of memory that the library takes and gives back.
#include "vh.h"
#include "mathic.h"
#include <new>
using namespace vh;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2000:hard_rss_limit_mb=3000:detect_stack_use_after_return=0"; }

// Blocks taken inside calls of the library. No memory is allocated to keep this.
struct Block { const void* p; int id; char form; bool out; };
static Block g_tab[1 << 16];
static int g_n = 0, g_next = 1, g_track = 0;
static char g_log[(1 << 22) + 64];
static size_t g_len = 0;
static bool g_full = false;
static void note(const char* e, int id, const char* form) {
  if (g_len + 128 > sizeof g_log) { g_full = true; return; }
  g_len += (size_t)snprintf(g_log + g_len, 64, "{\"e\":\"%s\",\"b\":%d,\"f\":\"%s\"}\n", e, id, form);
}
static const char* nm(char f) { return f == 'a' ? "array" : "one"; }
static void* take(size_t n, char form) {
  void* p = malloc(n ? n : 1);
  if (p == nullptr) abort();
  if (g_track) {
    if (g_n == (1 << 16)) { g_full = true; return p; }
    g_tab[g_n++] = Block{p, g_next, form, true};
    note("take", g_next++, nm(form));
  }
  return p;
}
static void give(void* p, char form) {
  if (p == nullptr) return;
  for (int k = g_n - 1; k >= 0; --k)
    if (g_tab[k].out && g_tab[k].p == p) {
      g_tab[k].out = false;
      note("give", g_tab[k].id, nm(form));
      if (k == g_n - 1) while (g_n > 0 && !g_tab[g_n - 1].out) --g_n;
      break;
    }
  free(p);
}
void* operator new(size_t n) { return take(n, 'o'); }
void* operator new[](size_t n) { return take(n, 'a'); }
void operator delete(void* p) noexcept { give(p, 'o'); }
void operator delete[](void* p) noexcept { give(p, 'a'); }
void operator delete(void* p, size_t) noexcept { give(p, 'o'); }
void operator delete[](void* p, size_t) noexcept { give(p, 'a'); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, 'o'); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, 'a'); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p, 'o'); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p, 'a'); }
struct Track { Track() { ++g_track; } ~Track() { --g_track; } };
// the arena for temporary memory is of the whole process; what a call has put there it has taken away when it returns
static void scratch(long s) {
  memt::Arena& a = memt::Arena::getArena();
  bool empty = a.isEmpty();
  { Track t; a.freeAllAllocsAndBackingMemory(); }
  if (!empty) { int n = snprintf(g_log + g_len, 64, "{\"e\":\"scratch\",\"s\":%ld}\n", s); g_len += (size_t)n; }
}
static void flush() { if (g_full) throw TraceTooLong(); raw(g_log, g_len); g_len = 0; }

// something put into a structure, with memory of its own
struct Thing {
  int* v;
  explicit Thing(int x = 0): v(new int(x)) {}
  Thing(const Thing& o): v(new int(*o.v)) {}
  Thing& operator=(const Thing& o) { *v = *o.v; return *this; }
  ~Thing() { delete v; v = nullptr; }
  operator int() const { return *v; }
};
struct Boom {};

struct Subject {
  virtual ~Subject() {}
  virtual void make(int a) = 0;              // the structure itself
  virtual void op(int code, int a, int b) = 0;
  virtual bool copy(Subject&, int) { return false; }    // make this one from another
  virtual bool move(Subject&) { return false; }
};
typedef std::function<Subject*()> Maker;

// script: M slot a (make) | X slot code a b (call) | C slot from a (copy) | V slot from (move) | D slot (destroy)
static void run(const Script& s, const Maker& mk) {
  std::unique_ptr<Subject> t[3];
  int count = 0;
  g_n = 0; g_next = 1; g_len = 0; g_full = false;
  Ev("begin").done();
  auto gone = [&](long k) {
    if (!t[k]) return;
    Ev("call").n("s", k).done();
    { Track x; t[k].reset(); }
    scratch(k);
    flush();
    Ev("destroyed").n("s", k).done();
  };
  auto fresh = [&](long k) { gone(k); Ev("call").n("s", k).done(); Track x; t[k].reset(mk()); };
  for (auto& op : s.ops) {
    const std::string& o = op.name();
    long k = op.i(1) % 3, f = op.i(2) % 3;
    if (o == "M") { fresh(k); { Track x; t[k]->make((int)op.i(2)); } scratch(k); flush(); }
    else if (o == "D") gone(k);
    else if (o == "C" || o == "V") {
      if (k == f || !t[f]) continue;
      gone(k);
      Ev("call").n("s", k).done();
      bool ok;
      { Track x; t[k].reset(mk()); ok = o == "C" ? t[k]->copy(*t[f], (int)op.i(3)) : t[k]->move(*t[f]); }
      scratch(k);
      flush();
      if (!ok) gone(k);
      else if (o == "V") { Ev("moved").n("s", k).n("f", f).done(); gone(f); }
    } else if (o == "X") {
      if (!t[k]) continue;
      Ev("call").n("s", k).done();
      { Track x; try { t[k]->op((int)op.i(2), (int)op.i(3), (int)op.i(4)); } catch (const Boom&) {} catch (const mathic::MathicException&) {} }
      scratch(k);
      flush();
    } else throw std::runtime_error("bad op " + o);
    ++count;
  }
  for (long k = 0; k < 3; ++k) gone(k);
  int left = 0;
  for (int k = 0; k < g_n; ++k) left += g_tab[k].out;
  Ev("end").n("left", left).done();
}

// ---- divisor finders
static const size_t VARS = 3;
struct Mono { int id; int e[VARS]; Thing own; };
static Mono mono(int a, int b) { Mono m; m.id = a; unsigned x = (unsigned)(a * 31 + b * 7 + 3); for (int& e : m.e) { e = (int)(x % 5); x = x * 1103515245u + 12345u; x >>= 3; } return m; }
template<bool Packed, int Mask, size_t Leaf, bool Linked>
struct DConf {
  typedef int Exponent; typedef Mono Monomial; typedef Mono Entry;
  static const bool UseDivMask = Mask >= 1, UseTreeDivMask = Mask >= 2, PackedTree = Packed, AllowRemovals = true, UseLinkedList = Linked;
  static const size_t LeafSize = Leaf;
  int k;
  explicit DConf(int a): k(a) {}
  size_t getVarCount() const { return VARS; }
  size_t getLeafSize() const { return Leaf; }
  bool getSortOnInsert() const { return k & 1; }
  bool getUseDivisorCache() const { return k & 2; }
  bool getDoAutomaticRebuilds() const { return k & 4; }
  double getRebuildRatio() const { return 0.5; }
  size_t getRebuildMin() const { return 5; }
  int getExponent(const Mono& m, size_t v) const { return m.e[v]; }
  bool divides(const Mono& a, const Mono& b) const { for (size_t v = 0; v < VARS; ++v) if (a.e[v] > b.e[v]) return false; return true; }
  bool isLessThan(const Mono& a, const Mono& b) const { for (size_t v = 0; v < VARS; ++v) if (a.e[v] != b.e[v]) return a.e[v] < b.e[v]; return false; }
};
struct Sink { int n = 0, lim = 0; bool proceed(const Mono&) { return ++n != lim; } void push_back(const Mono&) { ++n; } };
struct Same { const Mono& m; bool found = false; explicit Same(const Mono& x): m(x) {} bool proceed(const Mono& o) { found = found || std::equal(m.e, m.e + VARS, o.e); return true; } };
template<class F> struct DivSubject: Subject {
  std::unique_ptr<F> f;
  template<class R> static auto clr(R& r, int) -> decltype(r.clear()) { r.clear(); }
  template<class R> static void clr(R&, long) {}
  bool fresh(const Mono& m) { Same x(m); f->forAll(x); return !x.found; }
  void make(int a) override { f.reset(new F(typename F::Configuration(a))); }
  void op(int code, int a, int b) override {
    Sink s; s.lim = b % 4;
    switch (code % 9) {
    case 0: case 1: { Mono m = mono(a, b); if (fresh(m)) f->insert(m); break; }
    case 2: { std::vector<Mono> v; for (int k = 0; k < a % 12; ++k) { Mono m = mono(a + 5 * k, b + k); bool in = false; for (auto& x : v) in = in || std::equal(m.e, m.e + VARS, x.e); if (!in && fresh(m)) v.push_back(m); } f->insert(v.begin(), v.end()); break; }
    case 3: { Mono m = mono(a, b); f->removeMultiples(m, s); break; }
    case 4: { Mono m = mono(a, b); f->removeMultiples(m); break; }
    case 5: { Mono m = mono(a, b); f->findDivisor(m); f->findAllDivisors(m, s); break; }
    case 6: { Mono m = mono(a, b); f->findAllMultiples(m, s); f->forAll(s); break; }
    case 7: if (a % 2) f->rebuild(); else if (a % 8 == 0) clr(*f, 0); break;
    case 8: { Mono m = mono(a, b); Mono* d = f->findDivisor(m); if (d != 0) { Mono c = *d; f->removeElement(c); } break; }
    }
  }
};
template<class F> void addDiv(const char* n) { addConfig(n, [](const Script& s) { run(s, [] { return new DivSubject<F>(); }); }); }

// ---- priority queues
struct En { int key; Thing own; En(int k = 0): key(k), own(k) {} };
template<bool Dedup, int St, bool Var>
struct QConf {
  typedef En Entry; typedef int CompareResult;
  size_t geoBase, minBucketSize;
  explicit QConf(int a): geoBase(2 + a % 3), minBucketSize(1 + a % 4) {}
  int compare(const En& a, const En& b) const { return a.key - b.key; }
  bool cmpLessThan(int c) const { return c < 0; }
  bool cmpEqual(int c) const { return c == 0; }
  En deduplicate(const En& a, const En&) const { return a; }
  static const bool supportDeduplication = Dedup, trackFront = Var, premerge = !Var, collectMax = Var, minBucketBinarySearch = Var, fastIndex = false;
  static const mathic::GeobucketBucketStorage bucketStorage = (mathic::GeobucketBucketStorage)St;
  static const size_t insertFactor = 1;
};
struct QSink { int n = 0; bool proceed(const En&) { ++n; return true; } };
template<class Q, class C> struct QSubject: Subject {
  std::unique_ptr<Q> q;
  void make(int a) override { q.reset(new Q(C(a))); }
  template<class R> static bool mv(std::unique_ptr<R>& to, R& from, std::true_type) { to.reset(new R(std::move(from))); return true; }
  template<class R> static bool mv(std::unique_ptr<R>&, R&, std::false_type) { return false; }
  bool move(Subject& o) override { return mv<Q>(q, *static_cast<QSubject&>(o).q, std::integral_constant<bool, std::is_move_constructible<Q>::value && !std::is_copy_constructible<Q>::value>()); }
  template<class R> static auto clr(R& r, int) -> decltype(r.clear()) { r.clear(); }
  template<class R> static void clr(R& r, long) { while (!r.empty()) r.pop(); }
  template<class R> static auto dec(R& r, const En& e, int) -> decltype(r.decreaseTop(e)) { r.decreaseTop(e); }
  template<class R> static void dec(R&, const En&, long) {}
  template<class R> static auto range(R& r, std::vector<En>& v, int) -> decltype(r.push(v.data(), v.data())) { const En* p = v.data(); r.push(p, p + v.size()); }
  template<class R> static void range(R& r, std::vector<En>& v, long) { for (auto& e : v) r.push(e); }
  void op(int code, int a, int b) override {
    switch (code % 8) {
    case 0: case 1: q->push(En(a % 40)); break;
    case 2: { std::vector<int> ks; for (int k = 0; k < b % 9; ++k) ks.push_back((a + 7 * k) % 60); std::sort(ks.rbegin(), ks.rend());
      ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
      std::vector<En> v; for (int k : ks) v.push_back(En(k)); range(*q, v, 0); break; }
    case 3: case 4: if (!q->empty()) { En e = q->pop(); (void)e; } break;
    case 5: if (!q->empty()) { En e = q->top(); (void)e; } break;
    case 6: if (!q->empty()) dec(*q, En(q->top().key - a % 5), 0); break;
    case 7: if (a % 6 == 0) clr(*q, 0); break;
    }
  }
};
template<class Q, class C> void addQ(const char* n) { addConfig(n, [](const Script& s) { run(s, [] { return new QSubject<Q, C>(); }); }); }

// ---- pair queue
struct PConf {
  struct Data { int* v; Data(): v(new int(0)) {} ~Data() { delete v; } private: Data(const Data&); void operator=(const Data&); };
  typedef Data PairData; typedef bool CompareResult;
  static int& bad() { static int b = -1; return b; }
  void computePairData(size_t c, size_t r, Data& d) const { if ((int)c == bad() && r % 2) throw Boom(); *d.v = (int)((c * 7 + r * 5) % 11); }
  bool compare(size_t, size_t, const Data& a, size_t, size_t, const Data& b) const { return *a.v < *b.v; }
  bool cmpLessThan(bool b) const { return b; }
};
struct PairSubject: Subject {
  std::unique_ptr<mathic::PairQueue<PConf> > q;
  std::vector<size_t> live;
  void make(int) override { q.reset(new mathic::PairQueue<PConf>(PConf())); live.clear(); }
  void op(int code, int a, int b) override {
    switch (code % 6) {
    case 0: case 1: case 2: {
      size_t c = q->columnCount();
      std::vector<size_t> rows;
      for (size_t k = live.size(); k > 0; --k) if ((a + (int)k * b) % 4) rows.push_back(live[k - 1]);
      PConf::bad() = b % 5 == 0 ? (int)c : -1;
      live.push_back(c);
      try { q->addColumnDescending(rows.begin(), rows.end()); } catch (const Boom&) { if (q->columnCount() == c) live.pop_back(); throw; }
      break; }
    case 3: case 4: if (!q->empty()) q->pop(); break;
    case 5: if (!live.empty() && a % 3 == 0) { size_t k = (size_t)b % live.size(); size_t c = live[k]; live.erase(live.begin() + k); q->retireIndex(c); } break;
    }
  }
};

// ---- hash table, complete tree, bit triangle
struct HConf { typedef int Key; typedef int Value; size_t hash(int k) { return (size_t)k * 5; } bool keysEqual(int a, int b) { return a == b; } };
struct HashSubject: Subject {
  typedef mathic::HashTable<HConf> T;
  std::unique_ptr<T> t;
  void make(int a) override { t.reset(new T(HConf(), 1 + a % 6)); }
  void op(int code, int a, int b) override {
    switch (code % 8) {
    case 5: { T::Handle* h = t->lookup(a % 90); if (h != nullptr) t->remove(h); break; }
    case 6: t->lookup(a % 90); break;
    case 7: if (a % 3 == 0) { for (int k = 0; k < 90; ++k) { T::Handle* h = t->lookup(k); if (h != nullptr) t->remove(h); } t->reset(); } break;
    default: for (int k = 0; k <= b % 12; ++k) t->insert((a + k) % 90, b);
    }
  }
};
template<bool FI> struct TreeSubject: Subject {
  typedef mathic::ComTree<int, FI> T;
  std::unique_ptr<T> t;
  void make(int a) override { t.reset(new T((size_t)(a % 20))); }
  bool copy(Subject& o, int a) override { t.reset(new T(*static_cast<TreeSubject&>(o).t, (size_t)(a % 40))); return true; }
  bool move(Subject& o) override { t.reset(new T(std::move(*static_cast<TreeSubject&>(o).t))); return true; }
  void op(int code, int a, int b) override {
    switch (code % 6) {
    case 3: for (int k = 0; k < b % 10 && !t->empty(); ++k) t->popBack(); break;
    case 4: if (a % 4 == 0) t->clear(); break;
    case 5: if (t->capacity() < 500) t->increaseCapacity(); break;
    default: for (int k = 0; k <= b % 20; ++k) t->pushBack(a + k);
    }
  }
};
struct BitSubject: Subject {
  std::unique_ptr<mathic::BitTriangle> t;
  void make(int) override { t.reset(new mathic::BitTriangle()); }
  void op(int code, int a, int b) override {
    if (code % 2) t->addColumn();
    else if (t->columnCount() > 1) { size_t x = 1 + (size_t)a % (t->columnCount() - 1); t->setBit(x, (size_t)b % x, a % 2); }
  }
};

// ---- tables and the command line
struct PrintSubject: Subject {
  std::unique_ptr<mathic::ColumnPrinter> p;
  void make(int a) override { p.reset(new mathic::ColumnPrinter((size_t)(a % 3))); }
  void op(int code, int a, int b) override {
    static const char* const words[] = {"", "a word that is longer than a small string buffer", "\n", "x", "1,234", "two\nlines"};
    size_t n = p->getColumnCount();
    switch (code % 6) {
    case 0: p->addColumn(a % 2 != 0, words[a % 6], words[b % 6]); break;
    case 1: case 2: if (n > 0) (*p)[(size_t)a % n] << words[b % 6] << '\n'; break;
    case 3: if (n > 0) p->repeatToEndOfLine('-', (size_t)a % n); else p->repeatToEndOfLine('='); break;
    case 4: { std::ostringstream o; p->print(o); break; }
    case 5: p->setPrefix(words[a % 6]); break;
    }
  }
};
struct Act: mathic::Action {
  mathic::IntegerParameter i; mathic::BoolParameter b; mathic::StringParameter s; Thing own;
  Act(): i("inte", "an integer, described at length", 3), b("bool", "a truth value, described at length", true), s("string", "a text, described at length", "a default that is long enough to be stored") {}
  void directOptions(std::vector<std::string> t, mathic::CliParser&) override { if (!t.empty()) mathic::reportError("unexpected"); }
  void performAction() override {}
  const char* name() const override { return "act"; }
  const char* description() const override { return "d"; }
  const char* shortDescription() const override { return "d"; }
  void pushBackParameters(std::vector<mathic::CliParameter*>& v) override { v.push_back(&i); v.push_back(&b); v.push_back(&s); }
};
struct CliSubject: Subject {
  std::unique_ptr<mathic::CliParser> p;
  std::unique_ptr<mathic::Action> last;
  void make(int) override {
    p.reset(new mathic::CliParser());
    p->registerAction<Act>("first action with a long name");
    p->registerAction<Act>("fourth");
    p->registerHelpAction("before, with more text than fits", "after, with more text than fits");
  }
  void op(int code, int a, int b) override {
    static const char* const words[] = {"program", "fi", "f", "fourth", "help", "-int", "-", "-b", "-string", "5", "off", "a text that is quite long for a word", "none"};
    std::vector<std::string> w(1, words[0]);
    if (code % 4 == 0) { last = p->createActionWithPrefix(words[1 + a % 12]); return; }
    w.push_back(words[1 + a % 4]);
    for (int k = 0; k < code % 5; ++k) w.push_back(words[1 + (a * (k + 3) + b * (k + 1)) % 12]);
    last = p->parse(w);
  }
};
template<class S> void add(const char* n) { addConfig(n, [](const Script& s) { run(s, [] { return new S(); }); }); }

int main(int argc, char** argv) {
  using namespace mathic;
  addDiv<DivList<DConf<false, 0, 1, false> > >("list-array");
  addDiv<DivList<DConf<false, 1, 1, true> > >("list-linked-mask");
  addDiv<KDTree<DConf<true, 0, 1, false> > >("tree-packed-1");
  addDiv<KDTree<DConf<true, 2, 3, false> > >("tree-packed-mask-3");
  addDiv<KDTree<DConf<false, 0, 2, false> > >("tree-binary-2");
  addDiv<KDTree<DConf<false, 2, 3, false> > >("tree-binary-mask-3");
  addQ<Heap<QConf<false, 0, false> >, QConf<false, 0, false> >("heap");
  addQ<Heap<QConf<true, 0, false> >, QConf<true, 0, false> >("heap-dedup");
  addQ<TourTree<QConf<false, 0, false> >, QConf<false, 0, false> >("tour");
  addQ<StlSet<QConf<false, 0, false> >, QConf<false, 0, false> >("set");
  addQ<Geobucket<QConf<false, 0, false> >, QConf<false, 0, false> >("geo-same");
  addQ<Geobucket<QConf<true, 1, true> >, QConf<true, 1, true> >("geo-pairs-front");
  addQ<Geobucket<QConf<true, 2, true> >, QConf<true, 2, true> >("geo-separate-front");
  addQ<Geobucket<QConf<true, 1, false> >, QConf<true, 1, false> >("geo-pairs-premerge");
  add<PairSubject>("pairs");
  add<HashSubject>("hash");
  add<TreeSubject<false> >("comtree");
  add<TreeSubject<true> >("comtree-fast");
  add<BitSubject>("bits");
  add<PrintSubject>("printer");
  add<CliSubject>("cli");
  return mainLoop(argc, argv);
}
