// Driver for the bit triangle, public API only.
#include "vh.h"
#include "mathic/BitTriangle.h"
using namespace vh;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2000:hard_rss_limit_mb=3000:detect_stack_use_after_return=0"; }

static void readAll(const mathic::BitTriangle& t, size_t cols) {
  std::vector<std::vector<int> > a, b, c;
  for (size_t x = 0; x < cols; ++x)
    for (size_t y = 0; y < x; ++y) {
      std::vector<int> p{(int)x, (int)y};
      if (t.bit(x, y)) a.push_back(p);
      if (t.bitUnordered(x, y)) b.push_back(p);
      if (t.bitUnordered(y, x)) c.push_back(p);
    }
  Ev("all").aa("ord", a).aa("low", b).aa("high", c).done();
}

static void run(const Script& s) {
  mathic::BitTriangle t;
  bool every = s.geti("every", 0) != 0;
  Ev("begin").done();
  size_t cols = 0;
  for (auto& op : s.ops) {
    const std::string& o = op.name();
    size_t x = op.i(1), y = op.i(2);
    if (o == "c") { t.addColumn(); ++cols; Ev("col").done(); }
    else if (o == "C") { for (long k = op.i(1); k > 0; --k) { t.addColumn(); ++cols; Ev("col").done(); } }
    else if (o == "n") { size_t n = t.columnCount(); bool e = t.empty(); Ev("count").n("n", n).b("empty", e).done(); }
    else if (o == "A") readAll(t, cols);
    else {
      if (cols < 2) continue;
      if (s.geti("wrap", 0)) { x %= cols; y %= cols; if (x == y) continue; if (o == "s" || o == "b") { if (x < y) std::swap(x, y); } }
      if (o == "s") { t.setBit(x, y, op.i(3) != 0); Ev("set").n("c", x).n("r", y).b("v", op.i(3) != 0).done(); }
      else if (o == "u") { t.setBitUnordered(x, y, op.i(3) != 0); Ev("setu").n("c", x).n("r", y).b("v", op.i(3) != 0).done(); }
      else if (o == "b") { bool v = t.bit(x, y); Ev("bit").n("c", x).n("r", y).b("v", v).done(); }
      else if (o == "v") { bool v = t.bitUnordered(x, y); Ev("bitu").n("c", x).n("r", y).b("v", v).done(); }
      else throw std::runtime_error("bad op " + o);
    }
    if (every) readAll(t, cols);
  }
  size_t n = t.columnCount(); bool e = t.empty();
  Ev("count").n("n", n).b("empty", e).done();
  readAll(t, cols);
}

int main(int argc, char** argv) {
  addConfig("bits", run);
  return mainLoop(argc, argv);
}
