// Driver for the complete binary tree container, public API only.
#include "vh.h"
#include "mathic/ComTree.h"
using namespace vh;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3000:detect_stack_use_after_return=0"; }

template<size_t S> struct Pad { int v; char pad[S - 4]; Pad(int x = -7): v(x) { for (char& c : pad) c = (char)x; } operator int() const { for (char c : pad) if (c != (char)v) return -8; return v; } };
template<> struct Pad<4> { int v; Pad(int x = -7): v(x) {} operator int() const { return v; } };
template<> struct Pad<1> { signed char v; Pad(int x = -7): v((signed char)x) {} operator int() const { return v; } };

// Nodes are opaque; a node is named by its place when one goes from the root to the next node again and again.
template<class Tree> struct Places {
  typedef typename Tree::Node Node;
  std::vector<Node> at;
  long find(const Node& n) {
    for (;;) {
      for (size_t k = 0; k < at.size(); ++k) if (at[k] == n) return (long)k + 1;
      if (at.size() > 400) return -5;
      at.push_back(at.empty() ? Node() : at.back().next());
    }
  }
  Node get(size_t k) { while (at.size() < k) at.push_back(at.empty() ? Node() : at.back().next()); return at[k - 1]; }
};

template<class E, bool FI> void run(const Script& s) {
  typedef mathic::ComTree<E, FI> Tree;
  typedef typename Tree::Node Node;
  std::unique_ptr<Tree> t[3];
  for (auto& x : t) x.reset(new Tree());
  Places<Tree> pl;
  bool every = s.geti("every") != 0;
  Ev("begin").done();
  auto cap = [&](size_t k) { return t[k]->capacity(); };
  auto look = [&](size_t k) {
    std::vector<int> out;
    const Tree& c = *t[k];
    if (!c.empty()) for (Node n; n <= c.lastLeaf(); ++n) { out.push_back(c[n]); if (out.size() > 5000) break; }
    Ev("all").n("k", k).a("out", out).n("last", c.empty() ? 0 : out.size() > 300 ? (long)out.size() : pl.find(c.lastLeaf())).done();
    size_t sz = c.size(); bool em = c.empty();
    Ev("size").n("k", k).n("n", sz).b("empty", em).n("c", cap(k)).done();
  };
  for (auto& op : s.ops) {
    const std::string& o = op.name();
    size_t k = op.i(1) % 3, f = op.i(2) % 3;
    if (o == "p") { long m = op.size() > 3 ? op.i(3) : 1; for (long j = 0; j < m; ++j) { int v = (int)(op.i(2) + j) % 100; t[k]->pushBack(E(v)); Ev("push").n("k", k).n("v", v).n("c", cap(k)).done(); } }
    else if (o == "q") { if (!t[k]->hasFreeCapacity(1)) continue; t[k]->pushBackWithCapacity(E((int)op.i(2))); Ev("pushc").n("k", k).n("v", op.i(2)).n("c", cap(k)).done(); }
    else if (o == "P") { // from an entry of the tree itself
      if (t[k]->empty()) continue;
      Node n = pl.get(1 + op.i(2) % t[k]->size());
      int v = (*t[k])[n];
      t[k]->pushBack((*t[k])[n]);
      Ev("push").n("k", k).n("v", v).n("c", cap(k)).done();
    }
    else if (o == "o") { long m = op.size() > 2 ? op.i(2) : 1; for (; m > 0 && !t[k]->empty(); --m) { t[k]->popBack(); Ev("pop").n("k", k).n("c", cap(k)).done(); } }
    else if (o == "w") { if (t[k]->empty()) continue; size_t n = 1 + (op.i(2) - 1) % t[k]->size(); (*t[k])[pl.get(n)] = E((int)op.i(3)); Ev("write").n("k", k).n("n", n).n("v", op.i(3)).n("c", cap(k)).done(); }
    else if (o == "c") { t[k]->clear(); Ev("clear").n("k", k).n("c", cap(k)).done(); }
    else if (o == "g") { t[k]->increaseCapacity(); Ev("grow").n("k", k).n("c", cap(k)).done(); }
    else if (o == "n") { t[k].reset(new Tree((size_t)op.i(2))); Ev("create").n("k", k).n("room", op.i(2)).n("c", cap(k)).done(); }
    else if (o == "y") { if (k == f) continue; t[k].reset(op.i(3) ? new Tree(*t[f], (size_t)op.i(3)) : new Tree(*t[f])); Ev("copy").n("k", k).n("f", f).n("room", op.i(3)).n("c", cap(k)).done(); if (every) look(f); }
    else if (o == "m") { if (k == f) continue; t[k].reset(new Tree(std::move(*t[f]))); Ev("move").n("k", k).n("f", f).n("c", cap(k)).n("left", cap(f)).done(); if (every) look(f); }
    else if (o == "x") { if (k == f) continue; t[k]->swap(*t[f]); Ev("swap").n("k", k).n("f", f).done(); if (every) look(f); }
    else if (o == "f") { bool r = t[k]->hasFreeCapacity((size_t)op.i(2)); Ev("free").n("k", k).n("n", op.i(2)).b("r", r).done(); continue; }
    else if (o == "L") { look(k); continue; }
    else if (o == "v") { // navigation from node n, j places ahead
      size_t n = op.i(1), j = op.i(2);
      Node x = pl.get(n), y = x;
      ++y;
      if (!(y == x.next())) throw std::runtime_error("++ is not next");
      std::ostringstream r;
      auto num = [&](const char* c, long v) { r << '"' << c << "\":" << v << ','; };
      auto bo = [&](const char* c, bool v) { r << '"' << c << "\":" << (v ? "true" : "false") << ','; };
      r << '{';
      num("parent", n == 1 ? 0 : pl.find(x.parent())); num("left", pl.find(x.left())); num("right", pl.find(x.right()));
      num("sibling", n == 1 ? 0 : pl.find(x.sibling())); num("lsib", n == 1 ? 0 : pl.find(x.leftSibling()));
      num("next", pl.find(x.next())); num("prev", n == 1 ? 0 : pl.find(x.prev())); num("ahead", pl.find(x.next(j)));
      bo("isleft", x.isLeft() != 0); bo("isright", x.isRight() != 0); bo("isroot", x.isRoot());
      std::string z = r.str(); z.back() = '}';
      Ev("nav").n("n", n).n("j", j).j("r", z).done();
      continue;
    }
    else if (o == "u") {
      Node a = pl.get(op.i(1)), b = pl.get(op.i(2));
      std::ostringstream r;
      auto bo = [&](const char* c, bool v) { r << '"' << c << "\":" << (v ? "true" : "false") << ','; };
      r << '{'; bo("lt", a < b); bo("le", a <= b); bo("gt", a > b); bo("ge", a >= b); bo("eq", a == b); bo("ne", a != b);
      std::string z = r.str(); z.back() = '}';
      Ev("ord").n("a", op.i(1)).n("b", op.i(2)).j("r", z).done();
      continue;
    }
    else throw std::runtime_error("bad op " + o);
    if (every) look(k);
  }
  for (size_t k = 0; k < 3; ++k) look(k);
}

int main(int argc, char** argv) {
  addConfig("int-plain", run<Pad<4>, false>); addConfig("int-fast", run<Pad<4>, true>);
  addConfig("byte-plain", run<Pad<1>, false>); addConfig("byte-fast", run<Pad<1>, true>);
  addConfig("odd-plain", run<Pad<12>, false>); addConfig("32-plain", run<Pad<32>, false>); addConfig("32-fast", run<Pad<32>, true>);
  addConfig("16-fast", run<Pad<16>, true>); addConfig("40-plain", run<Pad<40>, false>);
  return mainLoop(argc, argv);
}
