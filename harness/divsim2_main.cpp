// Driver for the divisor simulation (src/divsim/Simulation.h), public API only. The finders here answer as the
// script says; the real ones of src/divsim are put through the same simulations.
#include "vh.h"
#include "capture.h"
#include "divsim/stdinc.h"
#include "divsim/Simulation.h"
#include "divsim/KDTreeModel.h"
#include "divsim/DivListModel.h"
#include "mayexit.h"
#include <ctime>
using namespace vh;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3000"; }
static clock_t g_clock = 0;
extern "C" clock_t clock() noexcept { return g_clock; }

struct Answers {
  std::string name;
  long salt, most;          // answers are numbers below most, which depend on the place in the history
  long wrongAt, wrong;      // except at this call, where it is changed by wrong
  long ticks, queries, size, period;
};
struct Finder {
  typedef std::vector<int> Entry;
  Answers a;
  mutable long calls;
  mutable std::vector<int> store;
  Finder(size_t vars, const Answers& x): a(x), calls(0), store(vars) {}
  long answer() const {
    long k = calls++;
    g_clock += k == 0 ? a.ticks : 0;
    long p = a.period > 0 ? k % a.period : k;
    unsigned long long z = (unsigned long long)(p + 1) * 0x9E3779B97F4A7C15ull + a.salt * 0xBF58476D1CE4E5B9ull;
    z ^= z >> 29; z *= 0x94D049BB133111EBull; z ^= z >> 32;
    long n = (long)(z % (unsigned long long)a.most);
    return std::max(0L, k + 1 == a.wrongAt ? n + a.wrong : n);
  }
  template<class S> void insert(std::vector<int>& m, S& s) {
    long n = answer();
    for (long k = 0; k < n; ++k) s.push_back(::Monomial(store));
    Ev("ins").a("m", m).n("n", n).done();
  }
  void insert(std::vector<int>&) {}
  Entry* findDivisor(std::vector<int>& m) {
    long n = answer();
    Ev("one").a("m", m).b("r", n > 0).done();
    return n > 0 ? &store : 0;
  }
  template<class S> void findAllDivisors(std::vector<int>& m, S& s) const {
    long n = answer();
    for (long k = 0; k < n; ++k) s.proceed(::Monomial(store));
    Ev("many").a("m", m).n("n", n).done();
  }
  template<class S> void forAll(S&) {}
  std::string getName() const { return a.name; }
  unsigned long long getExpQueryCount() const { return a.queries; }
  size_t size() const { return a.size; }
};

static void simulate(const Script& s) {
  const pid_t self = getpid();
  g_clock = 1000000;
  const bool tell = s.geti("tell") != 0;
  Simulation sim((size_t)s.geti("rep", 1), tell);
  Ev("dbegin").n("rep", s.geti("rep", 1)).b("tell", tell).done();
  long period = 0;
  try {
    for (auto& op : s.ops) {
      const std::string& o = op.name();
      if (o == "make") { sim.makeStandard(op.i(1), op.i(2), op.i(3), op.i(4) != 0); period = op.i(2) + op.i(3); Ev("make").n("nv", op.i(1)).n("ins", op.i(2)).n("qs", op.i(3)).b("all", op.i(4) != 0).done(); }
      else if (o == "run") {   // run NAME SALT MOST WRONGAT WRONG TICKS QUERIES SIZE
        Answers a;
        a.name = op.t[1]; a.salt = op.i(2); a.most = op.i(3); a.wrongAt = op.i(4); a.wrong = op.i(5); a.ticks = op.i(6); a.queries = op.i(7); a.size = op.i(8);
        a.period = period;
        Ev("run").t("name", a.name).j("ticks", big(a.ticks)).j("queries", big(a.queries)).n("size", a.size).done();
        std::string out, err;
        mayExit([&]() { Capture c(2); Capture d(1); sim.run<Finder>(a); std::cout << std::flush; out = d.finish(); err = c.finish(); });
        Ev("runend").j("out", lines(out)).j("err", lines(err)).done();
      }
      else if (o == "real") {
        mayExit([&]() {
          Capture c(2); Capture d(1);
          sim.run<DivListModel<0, 0> >(0, 0, 0, 0.0, 0); Ev("real").done();
          sim.run<DivListModel<1, 1> >(0, 0, 1, 0.5, 10); Ev("real").done();
          sim.run<KDTreeModel<1,1,1,1,1> >(0, 0, 0, 1.0, 10); Ev("real").done();
          sim.run<KDTreeModel<1,1,1,1,0> >(0, 0, 1, 0.5, 10); Ev("real").done();
          sim.run<KDTreeModel<0,0,0,2,1> >(0, 1, 1, 0.0, 0); Ev("real").done();
        });
      }
      else if (o == "minis") {
        mayExit([&]() {
          Capture c(2); Capture d(1);
          sim.run<DivListModel<0, 0> >(1, 0, 0, 0.0, 0); Ev("real").done();
          sim.run<DivListModel<1, 0> >(1, 1, 0, 0.5, 10); Ev("real").done();
          sim.run<KDTreeModel<1,1,1,1,1> >(1, 0, 0, 1.0, 10); Ev("real").done();
          sim.run<KDTreeModel<1,0,0,2,1> >(1, 1, 1, 0.5, 10); Ev("real").done();
        });
      }
      else if (o == "data") { std::ostringstream out; sim.printData(out); Ev("data").j("out", lines(out.str())).done(); }
      else throw std::runtime_error("bad op " + o);
    }
  } catch (const Ended& e) {
    if (e.code >= 0) Ev("exit").n("code", e.code).done();
  } catch (const std::exception& e) {
    Ev("fault").s("why", std::string("exception: ") + e.what()).done();
  }
  if (getpid() != self) _exit(0);
}

int main(int argc, char** argv) {
  addConfig("simulation", simulate);
  return mainLoop(argc, argv);
}
