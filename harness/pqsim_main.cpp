// Driver for the queue simulator and its queue models (src/pqsim), public API only.
#include "vh.h"
#include "capture.h"
#include "pqsim/stdinc.h"
#include "pqsim/StlSetModel.h"
#include "pqsim/HeapModel.h"
#include "pqsim/GeobucketModel.h"
#include "pqsim/TourTreeModel.h"
#include "pqsim/Simulator.h"
#include "mayexit.h"
#include <deque>
#include <ctime>
using namespace vh;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3000"; }

// the processor clock and the random numbers, replaced by ones that the script controls
static clock_t g_clock = 0;
extern "C" clock_t clock() noexcept { return g_clock; }
static unsigned long long g_rand = 1, g_range = 1ull << 31;
extern "C" int rand() noexcept {
  g_rand = g_rand * 6364136223846793005ull + 1442695040888963407ull;
  return (int)((g_rand >> 20) % g_range);
}

// ---- one queue model: push runs, pop values
template<class M> void model(const Script& s, M& m) {
  std::deque<std::vector<Value> > runs;   // the model refers to the runs it was given
  const int shift = (int)s.geti("shift");   // the values in the script stand for ones that are 2^shift times as large
  auto shown = [shift](Value v) { return (v & ((1ul << shift) - 1)) == 0 ? (long)(v >> shift) : -1L; };
  Ev("begin").done();
  for (auto& op : s.ops) {
    const std::string& o = op.name();
    if (o == "p") {
      std::vector<Value> v;
      for (int x : op.ints(1)) v.push_back((Value)x << shift);
      runs.push_back(v);
      const Value* b = &runs.back()[0];
      m.push(b, b + v.size());
      Ev("push").a("vs", op.ints(1)).done();
    } else if (o == "o") {
      bool em = m.empty();
      Ev("empty").b("r", em).done();
      if (em) continue;
      Value v = m.pop();
      Ev("pop").n("r", shown(v)).done();
    } else throw std::runtime_error("bad op " + o);
  }
  for (int k = 0; k < 100000; ++k) {
    bool em = m.empty();
    Ev("empty").b("r", em).done();
    if (em) return;
    Value v = m.pop();
    Ev("pop").n("r", shown(v)).done();
  }
  throw std::runtime_error("does not become empty");
}
template<class M> void addPlain(const char* n) { addConfig(n, [](const Script& s) { M m; model(s, m); }); }
template<class M> void addGeo(const char* n) {
  addConfig(std::string(n) + "-4-32", [](const Script& s) { M m(4, 32); model(s, m); });
  addConfig(std::string(n) + "-2-1", [](const Script& s) { M m(2, 1); model(s, m); });
}

// ---- the simulator
struct Recorder {   // a queue that writes down what it is asked and answers from a set, wrongly once if told to
  std::string name;
  size_t comparisons, memory;
  long wrongAt, delta, ticks, pops = 0;
  std::set<Value> have;
  void push(const Value* b, const Value* e) {
    std::vector<Value> v(b, e);
    have.insert(b, e);
    Ev("spush").a("vs", v).done();
    g_clock += ticks; ticks = 0;
  }
  Value pop() {
    Value v = have.empty() ? 0 : *have.rbegin();
    if (!have.empty()) have.erase(v);
    if (++pops == wrongAt) v += delta;
    Ev("spop").n("r", v).done();
    g_clock += ticks; ticks = 0;
    return v;
  }
  std::string getName() const { return name; }
  size_t getComparisons() const { return comparisons; }
  size_t getMemoryUse() const { return memory; }
  void print(std::ostream&) const {}
};

static void simulate(const Script& s) {
  const pid_t self = getpid();
  g_clock = 1000000;
  g_rand = (unsigned long long)s.geti("rnd", 1);
  g_range = s.geti("rng", 0) ? (unsigned long long)s.geti("rng") : (1ull << 31);
  const size_t repeats = (size_t)s.geti("rep", 1);
  Simulator sim(repeats);
  Ev("sbegin").n("rep", repeats).done();
  try {
    for (auto& op : s.ops) {
      const std::string& o = op.name();
      if (o == "dup") { sim.dupSpans(op.i(1), op.i(2), op.i(3), op.i(4)); Ev("make").s("kind", o).a("a", op.ints(1)).done(); }
      else if (o == "order") { sim.orderSpans(op.i(1), op.i(2), op.i(3)); Ev("make").s("kind", o).a("a", op.ints(1)).done(); }
      else if (o == "random") { sim.randomSpans(op.i(1), op.i(2), op.i(3)); Ev("make").s("kind", o).a("a", op.ints(1)).done(); }
      else if (o == "run") {    // run NAME COMPARISONS MEMORY TICKS WRONGAT DELTA PRINT
        Recorder r;
        r.name = op.t[1]; r.comparisons = op.i(2); r.memory = op.i(3); r.ticks = op.i(4); r.wrongAt = op.i(5); r.delta = op.i(6);
        Ev("run").t("name", r.name).j("cmps", big(r.comparisons)).j("mem", big(r.memory)).j("ticks", big(r.ticks)).done();
        std::string out;
        auto go = [&]() {
          if (op.i(7)) { Capture c(2); sim.run(r, true); out = c.finish(); }
          else { Capture c(2); sim.run(r, false); out = c.finish(); }
        };
        if (r.wrongAt > 0) mayExit(go); else go();
        Ev("runend").n("code", 0).b("told", op.i(7) != 0).b("used", r.ticks == 0).j("out", lines(out)).done();
      }
      else if (o == "models") {
        auto go = [&]() {
          { TourTreeModel<1, 0> m; sim.run(m, false); Ev("real").s("q", "tour1").done(); }
          { TourTreeModel<0, 1> m; sim.run(m, false); Ev("real").s("q", "tour0").done(); }
          { GeobucketModel<0,0,0,0,0,0,0> m(4, 32); sim.run(m, false); Ev("real").s("q", "geo").done(); }
          { GeobucketModel<0,0,0,1,0,0,0> m(4, 32); sim.run(m, false); Ev("real").s("q", "geodedup").done(); }
          { StlSetModel<1> m; sim.run(m, false); Ev("real").s("q", "set1").done(); }
          { StlSetModel<0> m; sim.run(m, false); Ev("real").s("q", "set0").done(); }
          { HeapModel<0,0,0> m; sim.run(m, false); Ev("real").s("q", "heap0").done(); }
          { HeapModel<1,1,0> m; sim.run(m, false); Ev("real").s("q", "heap1dedup").done(); }
        };
        mayExit(go);
      }
      else if (o == "summary") { std::ostringstream out; sim.printEventSummary(out); Ev("summary").j("out", lines(out.str())).done(); }
      else if (o == "events") { std::ostringstream out; sim.printEvents(out); Ev("events").j("out", lines(out.str())).done(); }
      else if (o == "data") { std::ostringstream out; sim.printData(out); Ev("data").j("out", lines(out.str())).done(); }
      else throw std::runtime_error("bad op " + o);
    }
  } catch (const Ended& e) {
    if (e.code >= 0) Ev("exit").n("code", e.code).done();
  } catch (const std::exception& e) {
    Ev("fault").s("why", std::string("exception: ") + e.what()).done();
  }
  if (getpid() != self) _exit(0);
}

int main(int argc, char** argv) {
  addPlain<TourTreeModel<1,0> >("model-tour-spans"); addPlain<TourTreeModel<0,0> >("model-tour-elements");
  addPlain<TourTreeModel<1,1> >("model-tour-spans-fast"); addPlain<TourTreeModel<0,1> >("model-tour-elements-fast");
  addPlain<HeapModel<1,0,0> >("model-heap-spans"); addPlain<HeapModel<0,0,0> >("model-heap-elements");
  addPlain<HeapModel<1,1,0> >("model-heap-spans-dedup"); addPlain<HeapModel<0,1,0> >("model-heap-elements-dedup");
  addPlain<HeapModel<1,0,1> >("model-heap-spans-fast"); addPlain<HeapModel<0,1,1> >("model-heap-elements-dedup-fast"); addPlain<HeapModel<1,1,1> >("model-heap-spans-dedup-fast");
  addPlain<StlSetModel<1> >("model-set-spans"); addPlain<StlSetModel<0> >("model-set-elements");
  addGeo<GeobucketModel<0,0,0,0,0,0,0> >("model-geo-elements"); addGeo<GeobucketModel<0,0,0,1,0,0,0> >("model-geo-elements-dedup");
  addGeo<GeobucketModel<0,1,0,0,0,0,0> >("model-geo-elements-front"); addGeo<GeobucketModel<0,1,1,1,0,1,1> >("model-geo-elements-front-dedup-max");
  addGeo<GeobucketModel<0,0,0,1,1,0,2> >("model-geo-elements-dedup-premerge");
  addGeo<GeobucketModel<1,0,0,0,0,0,0> >("model-geo-spans"); addGeo<GeobucketModel<1,0,0,1,0,0,0> >("model-geo-spans-dedup");
  addGeo<GeobucketModel<1,1,1,0,0,1,1> >("model-geo-spans-front"); addGeo<GeobucketModel<1,1,0,1,1,0,2> >("model-geo-spans-front-dedup-premerge");
  addConfig("simulator", simulate);
  return mainLoop(argc, argv);
}
