// Driver for the hash table, public API only.
#include "vh.h"
#include "mathic/HashTable.h"
#include <unordered_map>
#include <set>

using namespace vh;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2000:hard_rss_limit_mb=3000:detect_stack_use_after_return=0"; }

// keys are numbers or texts that spell a number; equal means equal modulo mod
inline long num(long k) { return k; }
inline long num(const std::string& s) { return atol(s.c_str() + 1); }
template<class K> K mkKey(long k);
template<> long mkKey<long>(long k) { return k; }
template<> std::string mkKey<std::string>(long k) { return "k" + std::to_string(k) + " a key that is longer than the small string buffer"; }
inline long vnum(long v) { return v; }
inline long vnum(const std::string& s) { return atol(s.c_str()); }
template<class K> K mkVal(long k);
template<> long mkVal<long>(long k) { return k; }
template<> std::string mkVal<std::string>(long k) { return std::to_string(k) + " a value that is longer than the small string buffer"; }

static size_t mixHash(int kind, long c) {
  switch (kind) {
  case 0: return (size_t)c;
  case 1: return 7;                                   // all keys collide
  case 2: return (size_t)c % 3;
  case 3: return (size_t)c << 12;                     // differ above the first masks only
  case 4: return ~(size_t)c;
  case 5: return (size_t)c * 0x9E3779B97F4A7C15ull;
  case 7: return 2 * (size_t)c;                       // the ones of HashImpl
  case 8: return 4 * (size_t)c + (size_t)c % 2;
  case 9: return 7 - (size_t)c;
  case 10: return 0;
  default: return (size_t)c >> 2;
  }
}

template<class K, class V>
struct Conf {
  typedef K Key;
  typedef V Value;
  long mod;
  int kind;
  size_t hash(const K& k) { return mixHash(kind, num(k) % mod); }
  bool keysEqual(const K& a, const K& b) { return num(a) % mod == num(b) % mod; }
};

template<class K, class V>
void run(const Script& s) {
  typedef Conf<K, V> C;
  typedef mathic::HashTable<C> T;
  typedef typename T::Handle H;
  C conf;
  conf.mod = s.geti("mod", 1000000);
  conf.kind = (int)s.geti("hash", 0);
  int nbits = (int)s.geti("bits", 10);
  std::unique_ptr<T> t(nbits == 10 ? new T(conf) : new T(conf, nbits));
  Ev("begin").n("mod", conf.mod).done();
  std::unordered_map<H*, int> ids;
  std::vector<H*> known;      // in the table, in order of insertion
  int next = 1;
  auto idOf = [&](H* h) {
    auto it = ids.find(h);
    if (it != ids.end()) return it->second;
    ids[h] = next;
    return next++;
  };
  auto forget = [&](H* h) { known.erase(std::find(known.begin(), known.end(), h)); };
  for (auto& op : s.ops) {
    const std::string& o = op.name();
    if (o == "i") {                         // i k v
      std::pair<bool, H*> r = t->insert(mkKey<K>(op.i(1)), mkVal<V>(op.i(2)));
      if (r.second == nullptr) { Ev("fault").s("why", "insert gave no entry").done(); return; }
      int id = idOf(r.second);
      Ev("ins").n("k", op.i(1)).n("v", op.i(2)).b("r", r.first).n("h", id).n("hk", num(r.second->key())).n("hv", vnum(r.second->value())).done();
      if (r.first) known.push_back(r.second);
    } else if (o == "I") {                  // I from to step : insert keys that are absent, in one event
      std::vector<long> ks, vs, hs;
      bool bad = false;
      std::set<long> have;
      for (H* h : known) have.insert(num(h->key()) % conf.mod);
      for (long k = op.i(1); k < op.i(2); k += op.i(3)) {
        if (!have.insert(k % conf.mod).second) continue;
        std::pair<bool, H*> r = t->insert(mkKey<K>(k), mkVal<V>(k + 5));
        if (!r.first || r.second == nullptr) { bad = true; break; }
        ks.push_back(k); vs.push_back(k + 5); hs.push_back(idOf(r.second));
        known.push_back(r.second);
        if (num(r.second->key()) != k || vnum(r.second->value()) != k + 5) { bad = true; break; }
      }
      if (bad) { Ev("fault").s("why", "insertion of an absent key failed").done(); return; }
      if (!ks.empty()) Ev("insm").a("ks", ks).a("vs", vs).a("hs", hs).done();
    } else if (o == "f") {
      H* h = t->lookup(mkKey<K>(op.i(1)));
      if (h) Ev("find").n("k", op.i(1)).n("h", idOf(h)).n("hk", num(h->key())).n("hv", vnum(h->value())).done();
      else Ev("find").n("k", op.i(1)).n("h", 0).n("hk", 0).n("hv", 0).done();
    } else if (o == "F") {                  // F from to step : lookups in one event
      std::vector<long> ks;
      std::vector<std::vector<long> > out;
      for (long k = op.i(1); k < op.i(2); k += op.i(3)) {
        H* h = t->lookup(mkKey<K>(k));
        ks.push_back(k);
        out.push_back(h ? std::vector<long>{idOf(h), num(h->key()), vnum(h->value())} : std::vector<long>{0, 0, 0});
      }
      Ev("findm").a("ks", ks).aa("out", out).done();
    } else if (o == "r" || o == "w" || o == "x") {   // the k-th known entry: r read, w k v write, x remove
      if (known.empty()) continue;
      H* h = known[(size_t)op.i(1) % known.size()];
      if (o == "r") Ev("read").n("h", idOf(h)).n("hk", num(h->key())).n("hv", vnum(h->value())).done();
      else if (o == "w") {
        h->value() = mkVal<V>(op.i(2));
        Ev("set").n("h", idOf(h)).n("v", op.i(2)).done();
      } else {
        int id = idOf(h);
        forget(h);
        H* p = h;
        t->remove(p);
        Ev("rem").n("h", id).done();
      }
    } else if (o == "X" || o == "S") {      // the entry of the key k: X k remove, S k v write
      H* h = nullptr;
      for (H* x : known) if (num(x->key()) % conf.mod == op.i(1) % conf.mod) h = x;
      if (h == nullptr) continue;
      int id = idOf(h);
      if (o == "S") {
        h->value() = mkVal<V>(op.i(2));
        Ev("set").n("h", id).n("v", op.i(2)).done();
      } else {
        forget(h);
        t->remove(h);
        Ev("rem").n("h", id).done();
      }
    } else if (o == "Z") {                  // remove everything, then reset
      while (!known.empty()) {
        H* h = known[(size_t)op.i(1) % known.size()];
        int id = idOf(h);
        forget(h);
        t->remove(h);
        Ev("rem").n("h", id).done();
      }
      t->reset();
      Ev("reset").done();
      ids.clear();
    } else if (o == "H") {
      t->hardReset();
      Ev("hard").done();
      ids.clear();
      known.clear();
    } else if (o == "R") {                  // read every entry
      for (H* h : known) Ev("read").n("h", idOf(h)).n("hk", num(h->key())).n("hv", vnum(h->value())).done();
    } else throw std::runtime_error("bad op " + o);
  }
}

int main(int argc, char** argv) {
  addConfig("number-number", [](const Script& s) { run<long, long>(s); });
  addConfig("text-number", [](const Script& s) { run<std::string, long>(s); });
  addConfig("number-text", [](const Script& s) { run<long, std::string>(s); });
  addConfig("text-text", [](const Script& s) { run<std::string, std::string>(s); });
  return mainLoop(argc, argv);
}
