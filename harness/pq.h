// Driver for the priority queues (Heap, TourTree, Geobucket, StlSet), public API only.
#pragma once
#include "vh.h"
#include "life.h"
#include "mathic/Heap.h"
#include "mathic/TourTree.h"
#include "mathic/Geobucket.h"
#include "mathic/StlSet.h"

namespace pqd {
using namespace vh;

// An entry is a value and a handle that names it. Merging two entries makes a new handle.
struct Small { int v, h; Small(): v(-777), h(-777) {} Small(int a, int b): v(a), h(b) {} };
struct Odd {   // not a power of two in size
  int v, h; long pad[2];
  Odd(): v(-777), h(-777) { pad[0] = pad[1] = 0; }
  Odd(int a, int b): v(a), h(b) { pad[0] = pad[1] = 5; }
};
struct Big { int v, h; long pad[3]; Big(): v(-777), h(-777) { pad[0] = pad[1] = pad[2] = 0; } Big(int a, int b): v(a), h(b) { pad[0] = pad[1] = pad[2] = 5; } };
static_assert(sizeof(Small) == 8 && sizeof(Odd) == 24 && sizeof(Big) == 32, "entry sizes");
inline long ident(const Small& e) { return e.h; }
// objects with a lifetime that is watched; 8 bytes
struct Own: life::Obj<Small, false> { Own() {} Own(int v, int h): life::Obj<Small, false>(Small(v, h)) {} };
struct OwnMv: life::Obj<Small, true> { OwnMv() {} OwnMv(int v, int h): life::Obj<Small, true>(Small(v, h)) {} };
static_assert(sizeof(Own) == 8 && sizeof(OwnMv) == 8, "entry sizes");
inline int val(const Small& e) { return e.v; }
inline int val(const Odd& e) { return e.v; }
inline int val(const Big& e) { return e.v; }
inline int val(const Own& e) { return e.get().v; }
inline int val(const OwnMv& e) { return e.get().v; }
inline int han(const Small& e) { return e.h; }
inline int han(const Odd& e) { return e.h; }
inline int han(const Big& e) { return e.h; }
inline int han(const Own& e) { return e.read().h; }
inline int han(const OwnMv& e) { return e.read().h; }

inline int& nextRef() { static int n = 0; return n; }   // next handle
inline int& liveRef() { static int n = 0; return n; }   // number of live configuration objects
#define g_next (pqd::nextRef())
#define g_live (pqd::liveRef())

template<class E, bool Dedup>
struct Conf {
  typedef E Entry;
  struct CompareResult { int s; };
  const Conf* self;     // detects use of a configuration that no longer exists
  Conf(): self(this) { ++g_live; }
  Conf(const Conf&): self(this) { ++g_live; }
  Conf& operator=(const Conf&) { return *this; }
  ~Conf() { self = nullptr; --g_live; }
  CompareResult compare(const E& a, const E& b) const {
    if (self != this) throw std::runtime_error("configuration used after its destruction");
    int x = val(a), y = val(b);
    CompareResult r; r.s = x < y ? -1 : x > y ? 1 : 0;
    return r;
  }
  bool cmpLessThan(CompareResult r) const { return r.s < 0; }
  bool cmpEqual(CompareResult r) const { return r.s == 0; }
  E deduplicate(const E& a, const E& b) const {
    int c = g_next++;
    Ev("merge").n("a", han(a)).n("b", han(b)).n("c", c).n("va", val(a)).n("vb", val(b)).done();
    return E(val(a), c);
  }
  static const bool supportDeduplication = Dedup;
};

template<class E, bool D, bool FI> struct HeapConf: Conf<E, D> { static const bool fastIndex = FI; };
template<class E> struct TourConf: Conf<E, false> { static const bool fastIndex = false; };
template<class E> struct SetConf: Conf<E, false> {};
template<class E, bool D, bool TF, bool MB, bool PM, bool CM, int ST, size_t IF>
struct GeoConf: Conf<E, D> {
  size_t geoBase, minBucketSize;
  GeoConf(size_t b, size_t m): geoBase(b), minBucketSize(m) {}
  static const bool trackFront = TF;
  static const bool minBucketBinarySearch = MB;
  static const bool premerge = PM;
  static const bool collectMax = CM;
  static const mathic::GeobucketBucketStorage bucketStorage = (mathic::GeobucketBucketStorage)ST;
  static const size_t insertFactor = IF;
};

struct Visitor {
  std::vector<int> hs, vs;
  size_t lim;
  template<class E> bool proceed(const E& e) { hs.push_back(han(e)); vs.push_back(val(e)); return lim == 0 || hs.size() < lim; }
};

// what each queue can do
template<class Q> struct Can { static const bool dec = true, clear = true, all = true, size = false, move = false, call = false, geo = false, set = false; };
template<class C> struct Can<mathic::Heap<C> > { static const bool dec = true, clear = true, all = true, size = true, move = true, geo = false, set = false, call = false; };
template<class C> struct Can<mathic::TourTree<C> > { static const bool dec = true, clear = true, all = true, size = false, move = true, geo = false, set = false, call = true; };
template<class C> struct Can<mathic::Geobucket<C> > { static const bool dec = true, clear = true, all = true, size = true, move = false, geo = true, set = false, call = false; };
template<class C> struct Can<mathic::StlSet<C> > { static const bool dec = false, clear = false, all = false, size = false, move = true, geo = false, set = true, call = false; };

template<bool> struct If {};
template<class Q> void doDec(Q& q, const typename Q::Entry& e, If<true>) { q.decreaseTop(e); }
template<class Q> void doDec(Q&, const typename Q::Entry&, If<false>) {}
template<class Q> void doClear(Q& q, If<true>) { q.clear(); }
template<class Q> void doClear(Q&, If<false>) {}
template<class Q> void doAll(const Q& q, Visitor& v, If<true>) { q.forAll(v); }
template<class Q> void doAll(const Q&, Visitor&, If<false>) {}
template<class Q> void doAllM(Q& q, Visitor& v, If<true>) { q.forAll(v); }
template<class Q> void doAllM(Q&, Visitor&, If<false>) {}
template<class Q> long doSize(const Q& q, If<true>) { return (long)q.size(); }
template<class Q> long doSize(const Q&, If<false>) { return -1; }
template<class Q> Q* doMove(Q& q, If<true>) { return new Q(std::move(q)); }
template<class Q> Q* doMove(Q&, If<false>) { return nullptr; }
template<class Q, class E> void doRange(Q& q, std::vector<E>& v, If<true>) { const E* b = v.data(); q.push(b, b + v.size()); }
template<class Q, class E> void doRange(Q& q, std::vector<E>& v, If<false>) { q.push(v.begin(), v.end()); }

template<class Q, class MkQ>
void runQueue(const Script& s, MkQ mk) {
  typedef typename Q::Entry E;
  typedef Can<Q> can;
  const bool dedup = Q::Configuration::supportDeduplication;
  g_next = 1;
  life::reg().start(s.geti("life") != 0);
  Ev("begin").b("dedup", dedup).done();
  std::unique_ptr<Q> q(mk());
  size_t count = 0; // only to keep calls legal: the queue itself says when it is empty
  auto lessVal = [](const E& a, const E& b) { return val(a) > val(b); };
  for (auto& op : s.ops) {
    const std::string& o = op.name();
    if (o == "p") {                       // p v : push
      int h = g_next++;
      Ev("push").n("h", h).n("v", op.i(1)).done();
      q->push(E((int)op.i(1), h));
    } else if (o == "r") {                // r v... : push range
      std::vector<int> vs = op.ints(1);
      if (can::geo) {
        std::sort(vs.begin(), vs.end(), std::greater<int>());
        if (dedup) vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
      }
      std::vector<E> es;
      std::vector<int> hs;
      for (int v : vs) { hs.push_back(g_next); es.push_back(E(v, g_next++)); }
      Ev("pushr").a("hs", hs).a("vs", vs).done();
      doRange(*q, es, If<can::set>());
    } else if (o == "o" || o == "O") {    // o : pop;  O n : pop up to n
      long n = o == "O" ? op.i(1) : 1;
      for (; n > 0; --n) {
        if (q->empty()) { Ev("empty").b("r", true).done(); break; }
        E e = q->pop();
        Ev("pop").n("h", han(e)).n("v", val(e)).done();
      }
    } else if (o == "t") {                // t : top
      if (q->empty()) { Ev("empty").b("r", true).done(); continue; }
      E e = q->top();
      Ev("top").n("h", han(e)).n("v", val(e)).done();
    } else if (o == "d") {                // d k : replace the top by an entry smaller by k
      if (!can::dec) continue;
      if (q->empty()) { Ev("empty").b("r", true).done(); continue; }
      E e = q->top();
      Ev("top").n("h", han(e)).n("v", val(e)).done();
      int h = g_next++, v = val(e) - (int)op.i(1);
      Ev("dec").n("t", han(e)).n("h", h).n("v", v).done();
      doDec(*q, E(v, h), If<can::dec>());
    } else if (o == "e") {
      bool r = q->empty();
      Ev("empty").b("r", r).done();
    } else if (o == "s") {
      if (!can::size) continue;
      long n = doSize(*q, If<can::size>());
      Ev("size").n("n", n).done();
    } else if (o == "a" || o == "A") {    // a lim : visit all (A: through a non-const queue)
      if (!can::all) continue;
      Visitor v;
      v.lim = op.i(1);
      if (o == "A" && can::call) doAllM(*q, v, If<can::all>());
      else doAll(*q, v, If<can::all>());
      Ev("all").n("lim", op.i(1)).a("hs", v.hs).a("vs", v.vs).done();
    } else if (o == "c") {
      if (!can::clear) continue;
      doClear(*q, If<can::clear>());
      Ev("clear").done();
    } else if (o == "m") {                // m : move to a new queue; the old one is destroyed
      if (!can::move) continue;
      std::unique_ptr<Q> n(doMove(*q, If<can::move>()));
      q.swap(n);
      n.reset();
      Ev("move").done();
    } else if (o == "k") {                // k k : replay k of the current tops (pop then push back)
      for (long n = op.i(1); n > 0; --n) {
        if (q->empty()) break;
        E e = q->pop();
        Ev("pop").n("h", han(e)).n("v", val(e)).done();
        int h = g_next++;
        Ev("push").n("h", h).n("v", val(e)).done();
        q->push(E(val(e), h));
      }
    } else throw std::runtime_error("bad op " + o);
    (void)count; (void)lessVal;
  }
  q.reset();
  if (g_live != 0) { int n = g_live; g_live = 0; Ev("fault").s("why", "configuration objects leaked").n("n", n).done(); }
  Ev("gone").n("live", life::reg().live).done();
}

template<class E, bool D, bool FI>
void heapConfig(const char* en) {
  typedef mathic::Heap<HeapConf<E, D, FI> > Q;
  addConfig(std::string("heap+") + (FI ? "fi" : "si") + (D ? "+dd+" : "+") + en,
    [](const Script& s) { runQueue<Q>(s, [] { return new Q(HeapConf<E, D, FI>()); }); });
}
template<class E>
void tourConfig(const char* en) {
  typedef mathic::TourTree<TourConf<E> > Q;
  addConfig(std::string("tour+") + en, [](const Script& s) { runQueue<Q>(s, [] { return new Q(TourConf<E>()); }); });
}
template<class E>
void setConfig(const char* en) {
  typedef mathic::StlSet<SetConf<E> > Q;
  addConfig(std::string("stlset+") + en, [](const Script& s) { runQueue<Q>(s, [] { return new Q(SetConf<E>()); }); });
}
template<class E, bool D, bool TF, bool MB, bool PM, bool CM, int ST, size_t IF>
void geoConfig(const char* en) {
  typedef GeoConf<E, D, TF, MB, PM, CM, ST, IF> C;
  typedef mathic::Geobucket<C> Q;
  std::ostringstream n;
  n << "geo" << (D ? "+dd" : "") << (TF ? "+tf" : "+nf") << (MB ? "+mb" : "") << (PM ? "+pm" : "+np") << (CM ? "+cm" : "") << "+st" << ST << "+if" << IF << "+" << en;
  addConfig(n.str(), [](const Script& s) {
    size_t gb = s.geti("gb", 2), mb = s.geti("mb", 1);
    runQueue<Q>(s, [=] { return new Q(C(gb, mb)); });
  });
}
// the two entry kinds and three insert factors are spread over the combinations
template<bool D, bool TF, bool MB, bool PM, bool CM, int ST>
void geoCombo() {
  const int k = (D ? 1 : 0) + (TF ? 2 : 0) + (MB ? 1 : 0) + (PM ? 1 : 0) + (CM ? 2 : 0) + ST;
  geoConfig<Small, D, TF, MB, PM, CM, ST, (k % 3 == 0 ? 1 : k % 3 == 1 ? 2 : 4)>("small");
  if (k % 2 == 0) geoConfig<Own, D, TF, MB, PM, CM, ST, 1>("own");
  if (k % 4 == 1) geoConfig<OwnMv, D, TF, MB, PM, CM, ST, 2>("ownm");
}
template<bool D, bool TF, bool MB>
void geoPart() {
  geoCombo<D, TF, MB, 0, 0, 0>(); geoCombo<D, TF, MB, 0, 0, 1>(); geoCombo<D, TF, MB, 0, 0, 2>();
  geoCombo<D, TF, MB, 0, 1, 0>(); geoCombo<D, TF, MB, 0, 1, 1>(); geoCombo<D, TF, MB, 0, 1, 2>();
  geoCombo<D, TF, MB, 1, 0, 0>(); geoCombo<D, TF, MB, 1, 0, 1>(); geoCombo<D, TF, MB, 1, 0, 2>();
  geoCombo<D, TF, MB, 1, 1, 0>(); geoCombo<D, TF, MB, 1, 1, 1>(); geoCombo<D, TF, MB, 1, 1, 2>();
}
} // namespace pqd
