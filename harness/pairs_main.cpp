// Driver for the pair queue, public API only.
#include "vh.h"
#include "mathic/PairQueue.h"
#include <list>
#include <forward_list>
#include <set>

using namespace vh;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2000:hard_rss_limit_mb=3000:detect_stack_use_after_return=0"; }

typedef std::pair<unsigned, unsigned> P;
static std::string pj(unsigned c, unsigned r) { std::ostringstream o; o << '[' << c << ',' << r << ']'; return o.str(); }

struct World {
  int next;
  long failAt;                 // throw at the failAt-th computation from now, 0: never
  long cmpFailAt;              // the same for comparisons
  std::map<P, int> keys;
  bool logCmp;
};
static World* g_w;
struct Boom {};

// what is attached to a pair
struct PD {
  int o;            // identity of the object
  P p;              // the pair it holds
  std::string text; // owned memory, so that lifetime mistakes are visible
  PD(): o(g_w->next++), p(~0u, ~0u), text("a text that is longer than the small string buffer") { Ev("new").n("o", o).done(); }
  ~PD() { o = -5; }
private:
  PD(const PD&);
  void operator=(const PD&);
};
struct PDLog: PD {   // reports its own destruction
  ~PDLog() { Ev("del").n("o", o).j("p", "[]").done(); }
};

template<class Data, bool Bool>
struct Conf {
  typedef Data PairData;
  void computePairData(size_t col, size_t row, PairData& d) {
    if (g_w->failAt > 0 && --g_w->failAt == 0) { Ev("throw").done(); throw Boom(); }
    Ev("comp").n("o", d.o).j("p", pj(col, row)).done();
    d.p = P(col, row);
  }
  struct R3 { int s; };
  typedef typename std::conditional<Bool, bool, R3>::type CompareResult;
  static void mk(bool& r, int a, int b) { r = a < b; }
  static void mk(R3& r, int a, int b) { r.s = a < b ? -1 : a > b ? 1 : 0; }
  CompareResult compare(size_t c1, size_t r1, const PairData& d1, size_t c2, size_t r2, const PairData& d2) const {
    if (g_w->logCmp) Ev("cmp").n("x", d1.o).j("p", pj(c1, r1)).n("y", d2.o).j("q", pj(c2, r2)).done();
    if (g_w->cmpFailAt > 0 && --g_w->cmpFailAt == 0) { Ev("throw").done(); throw Boom(); }
    CompareResult r;
    mk(r, g_w->keys.at(d1.p), g_w->keys.at(d2.p));
    return r;
  }
  bool cmpLessThan(bool r) const { return r; }
  bool cmpLessThan(R3 r) const { return r.s < 0; }
};
struct ConfA: Conf<PDLog, true> {};      // default construction and destruction of the data
struct ConfB: Conf<PD, false> {};        // both specialized, with retirement
struct ConfC: Conf<PD, true> {};         // both specialized, without retirement
struct ConfD: Conf<PDLog, false> {};     // default, without retirement

namespace mathic {
  namespace PairQueueNamespace {
    template<class C> void mkData(void* m, Index col, Index row, C& conf) {
      PD* pd = new (m) PD();
      try { conf.computePairData(col, row, *pd); }
      catch (...) { Ev("del").n("o", pd->o).j("p", "[]").done(); pd->~PD(); throw; }
    }
    inline void rmData(PD* pd, Index col, Index row) { Ev("del").n("o", pd->o).j("p", pj(col, row)).done(); pd->~PD(); }
    template<> struct ConstructPairDataFunction<ConfB> { static void function(void* m, Index c, Index r, ConfB& f) { mkData(m, c, r, f); } };
    template<> struct DestructPairDataFunction<ConfB> { static void function(PD* d, Index c, Index r, ConfB&) { rmData(d, c, r); } };
    template<> struct ConstructPairDataFunction<ConfC> { static void function(void* m, Index c, Index r, ConfC& f) { mkData(m, c, r, f); } };
    template<> struct DestructPairDataFunction<ConfC> { static void function(PD* d, Index c, Index r, ConfC&) { rmData(d, c, r); } };
    template<> struct SupportRetirement<ConfC> { static bool const value = false; };
    template<> struct SupportRetirement<ConfD> { static bool const value = false; };
  }
}

// Built with NOFWD when the queue does not take ranges of less than random access.
#ifndef NOFWD
#define NOFWD 0
#endif
template<class Q, class It> void add(Q& q, It b, It e) { q.addColumnDescending(b, e); }

template<class C>
void run(const Script& s, bool logCmp) {
  typedef mathic::PairQueue<C> Q;
  World w;
  w.next = 1; w.failAt = 0; w.cmpFailAt = 0; w.logCmp = logCmp;
  g_w = &w;
  const bool ret = Q::SupportRetirement;
  Ev("begin").done();
  size_t cols = 0;
  std::set<size_t> gone;
  {
    C conf;
    std::unique_ptr<Q> q(new Q(conf));
    int iter = (int)s.geti("it");
    auto showTop = [&](bool d) {
      std::pair<size_t, size_t> t = q->topPair();
      Ev("top").j("p", pj(t.first, t.second)).done();
      if (d) { const PD& pd = q->topPairData(); Ev("topd").n("o", pd.o).j("p", pj(pd.p.first, pd.p.second)).done(); }
      return t;
    };
    for (auto& op : s.ops) {
      const std::string& o = op.name();
      if (o == "a" || o == "A" || o == "x" || o == "y") {
        // a r k r k ... : add a column (A: rows in exactly this order);  x (y) n r k ... : the n-th computation (comparison) throws
        size_t from = o == "a" || o == "A" ? 1 : 2;
        std::vector<unsigned> given;
        std::map<unsigned, int> rk;
        for (size_t k = from; k + 1 < op.size(); k += 2) {
          size_t r = (size_t)op.i(k);
          if (op.t[k][0] == '-') { if (cols < (size_t)-op.i(k)) continue; r = cols + op.i(k); }  // counted from the end
          if (r >= cols || gone.count(r)) continue;
          if (!rk.count((unsigned)r)) given.push_back((unsigned)r);
          rk[(unsigned)r] = (int)op.i(k + 1);
        }
        std::vector<std::pair<int, unsigned> > v;
        for (auto& e : rk) v.push_back(std::make_pair(-e.second, e.first));
        std::sort(v.begin(), v.end());
        if (o == "A")
          std::stable_sort(v.begin(), v.end(), [&](const std::pair<int, unsigned>& a, const std::pair<int, unsigned>& b) {
            return a.first != b.first ? a.first < b.first
              : std::find(given.begin(), given.end(), a.second) < std::find(given.begin(), given.end(), b.second); });
        std::vector<unsigned> rows;
        std::vector<int> keys;
        for (auto& e : v) { rows.push_back(e.second); keys.push_back(-e.first); }
        std::vector<P> fresh;
        for (size_t k = 0; k < rows.size(); ++k) { P p(cols, rows[k]); if (!w.keys.count(p)) fresh.push_back(p); w.keys[p] = keys[k]; }
        Ev("add").a("rows", rows).a("keys", keys).done();
        w.failAt = o == "x" ? op.i(1) : 0;
        w.cmpFailAt = o == "y" ? op.i(1) : 0;
        try {
          if (NOFWD && s.geti("fwd") && (iter == 1 || iter == 2)) { Ev("norange").done(); continue; }
          switch (iter) {
#if !NOFWD
          case 1: { std::list<size_t> l(rows.begin(), rows.end()); add(*q, l.begin(), l.end()); break; }
          case 2: { std::forward_list<unsigned> l(rows.begin(), rows.end()); add(*q, l.cbegin(), l.cend()); break; }
#endif
          case 3: { std::vector<unsigned long> l(rows.rbegin(), rows.rend()); add(*q, l.rbegin(), l.rend()); break; }
          default: { const unsigned* b = rows.data(); add(*q, b, b + rows.size()); }
          }
          Ev("added").done();
          ++cols;
        } catch (const Boom&) {
          Ev("addfail").done();
        }
        w.failAt = w.cmpFailAt = 0;
      } else if (o == "L") {              // L n : a column with the n previous rows, ordered by row
        size_t n = std::min(cols, (size_t)op.i(1));
        std::vector<unsigned> rows;
        for (size_t r = cols; r-- > cols - n; ) { rows.push_back((unsigned)r); w.keys[P(cols, r)] = (int)r; }
        Ev("addall").n("n", n).done();
        add(*q, rows.begin(), rows.end());
        Ev("added").done();
        ++cols;
      } else if (o == "K") {              // K n : n empty columns
        for (long k = op.i(1); k > 0; --k) { const unsigned* z = nullptr; q->addColumnDescending(z, z); ++cols; }
        Ev("skip").n("n", op.i(1)).done();
      } else if (o == "o" || o == "O") {
        for (long k = o == "O" ? op.i(1) : 1; k > 0; --k) {
          bool e = q->empty();
          if (e) { Ev("empty").b("r", e).done(); break; }
          auto t = showTop(false);
          Ev("pop").j("p", pj(t.first, t.second)).done();
          q->pop();
        }
      } else if (o == "t") {
        bool e = q->empty();
        if (e) Ev("empty").b("r", e).done();
        else showTop(true);
      } else if (o == "R") {              // R i : retire (negative: counted from the end)
        size_t i = op.t[1][0] == '-' ? cols + op.i(1) : (size_t)op.i(1);
        if (!ret || i >= cols || gone.count(i)) continue;
        gone.insert(i);
        Ev("retire").n("i", i).done();
        q->retireIndex(i);
      } else if (o == "T") {              // T k : retire the column (0) or row (1) of the top
        if (!ret || q->empty()) continue;
        auto t = showTop(false);
        size_t i = op.i(1) ? t.second : t.first;
        gone.insert(i);
        Ev("retire").n("i", i).done();
        q->retireIndex(i);
      } else if (o == "e") {
        bool e = q->empty();
        Ev("empty").b("r", e).done();
      } else if (o == "n") {
        size_t n = q->pairCount();
        Ev("count").n("n", n).done();
      } else if (o == "c") {
        size_t n = q->columnCount();
        Ev("cols").n("n", n).done();
      } else if (o == "q") {
        size_t i = op.t[1][0] == '-' ? cols + op.i(1) : (size_t)op.i(1);
        if (i >= cols) continue;
        bool r = q->retired(i);
        Ev("isret").n("i", i).b("r", r).done();
      } else throw std::runtime_error("bad op " + o);
    }
    q.reset();
  }
  Ev("end").done();
}

int main(int argc, char** argv) {
  for (int lc = 0; lc < 2; ++lc) {
    std::string x = lc ? "+cmp" : "";
    bool b = lc != 0;
    addConfig("default+ret" + x, [b](const Script& s) { run<ConfA>(s, b); });
    addConfig("special+ret" + x, [b](const Script& s) { run<ConfB>(s, b); });
    addConfig("special+noret" + x, [b](const Script& s) { run<ConfC>(s, b); });
    addConfig("default+noret" + x, [b](const Script& s) { run<ConfD>(s, b); });
  }
  return mainLoop(argc, argv);
}
