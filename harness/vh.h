// Common harness: reads operation scripts, runs each one on each selected configuration in a child
// process, and writes one ndjson trace per (script, configuration). Crashes, sanitizer reports,
// timeouts and unexpected exceptions become the event {"e":"fault",...}.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>

namespace vh {
typedef std::vector<std::string> Toks;

struct Op {
  Toks t;
  const std::string& name() const { return t[0]; }
  size_t size() const { return t.size(); }
  long i(size_t k) const { return k < t.size() ? atol(t[k].c_str()) : 0; }
  std::vector<int> ints(size_t from) const {
    std::vector<int> v;
    for (size_t k = from; k < t.size(); ++k) v.push_back((int)atol(t[k].c_str()));
    return v;
  }
};

struct Script {
  std::string id;
  std::map<std::string, std::string> opt;
  std::vector<Op> ops;
  long geti(const std::string& k, long d = 0) const {
    auto it = opt.find(k);
    return it == opt.end() ? d : atol(it->second.c_str());
  }
  std::string gets(const std::string& k, const std::string& d = "") const {
    auto it = opt.find(k);
    return it == opt.end() ? d : it->second;
  }
};

// Script file: "@ id key=value ..." starts a script, every other line is an operation.
inline std::vector<Script> readScripts(const char* file) {
  std::vector<Script> r;
  std::ifstream in(file);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    std::istringstream ls(line);
    Toks t;
    std::string w;
    while (ls >> w) t.push_back(w);
    if (t.empty()) continue;
    if (t[0] == "@") {
      Script s;
      s.id = t.at(1);
      for (size_t k = 2; k < t.size(); ++k) {
        size_t p = t[k].find('=');
        if (p != std::string::npos) s.opt[t[k].substr(0, p)] = t[k].substr(p + 1);
      }
      r.push_back(s);
    } else {
      Op o;
      o.t = t;
      r.back().ops.push_back(o);
    }
  }
  return r;
}

// The trace being written. It lives in shared memory so that the parent can complete it after a crash.
struct Shared {
  size_t script, config;
  size_t done;      // number of completed (script, config) pairs
  size_t len;
  char buf[1];
};
// one object for all translation units
inline Shared*& shRef() { static Shared* p = nullptr; return p; }
inline size_t& capRef() { static size_t n = 0; return n; }
#define g_sh (vh::shRef())
#define g_cap (vh::capRef())

struct TraceTooLong {};

inline void raw(const char* p, size_t n) {
  if (g_sh->len + n + 1 > g_cap) {
    const char m[] = "{\"e\":\"fault\",\"why\":\"trace too long\"}\n";
    size_t k = sizeof(m) - 1;
    if (g_sh->len + k < g_cap + 4096) { memcpy(g_sh->buf + g_sh->len, m, k); g_sh->len += k; }
    throw TraceTooLong();
  }
  memcpy(g_sh->buf + g_sh->len, p, n);
  g_sh->len += n;
}

inline std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

// One event; written when it goes out of scope (or by done()), so a crash inside a call leaves no event.
class Ev {
public:
  explicit Ev(const char* e) { o << "{\"e\":\"" << e << "\""; }
  template<class T> Ev& n(const char* k, T v) { o << ",\"" << k << "\":" << (long long)v; return *this; }
  Ev& b(const char* k, bool v) { o << ",\"" << k << "\":" << (v ? "true" : "false"); return *this; }
  Ev& s(const char* k, const std::string& v) { o << ",\"" << k << "\":" << jstr(v); return *this; }
  template<class V> Ev& a(const char* k, const V& v) {
    o << ",\"" << k << "\":[";
    bool f = true;
    for (auto x : v) { if (!f) o << ','; f = false; o << (long long)x; }
    o << ']';
    return *this;
  }
  template<class V> Ev& aa(const char* k, const V& v) {
    o << ",\"" << k << "\":[";
    bool f = true;
    for (auto& y : v) {
      if (!f) o << ',';
      f = false;
      o << '[';
      bool g = true;
      for (auto x : y) { if (!g) o << ','; g = false; o << (long long)x; }
      o << ']';
    }
    o << ']';
    return *this;
  }
  // text as a sequence of character codes
  Ev& t(const char* k, const std::string& v) {
    std::vector<int> c;
    for (unsigned char x : v) c.push_back(x);
    return a(k, c);
  }
  Ev& j(const char* k, const std::string& json) { o << ",\"" << k << "\":" << json; return *this; }
  void done() {
    o << "}\n";
    std::string s = o.str();
    raw(s.data(), s.size());
  }
private:
  std::ostringstream o;
};

typedef std::function<void(const Script&)> Runner;
struct Config { std::string name; Runner run; };
inline std::vector<Config>& configs() { static std::vector<Config> c; return c; }
inline void addConfig(const std::string& n, Runner r) { configs().push_back(Config{n, r}); }

struct Rng {
  unsigned long long s;
  explicit Rng(unsigned long long x): s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  unsigned long long next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
};

// main loop.  driver SCRIPTS OUT [key=value...]
//   cfg=REGEX-free prefix filter (comma separated substrings), max=K configurations per script, seed=N, only=NAME
inline int mainLoop(int argc, char** argv) {
  if (argc >= 2 && strcmp(argv[1], "--list") == 0) {
    for (auto& c : configs()) printf("%s\n", c.name.c_str());
    return 0;
  }
  if (argc < 3) { fprintf(stderr, "usage: driver SCRIPTS OUT [key=value]\n"); return 2; }
  std::map<std::string, std::string> opt;
  for (int k = 3; k < argc; ++k) {
    std::string s = argv[k];
    size_t p = s.find('=');
    if (p != std::string::npos) opt[s.substr(0, p)] = s.substr(p + 1);
  }
  std::vector<Script> scripts = readScripts(argv[1]);
  std::sort(configs().begin(), configs().end(), [](const Config& a, const Config& b) { return a.name < b.name; });
  unsigned long long seed = opt.count("seed") ? strtoull(opt["seed"].c_str(), 0, 10) : 1;
  size_t maxCfg = opt.count("max") ? strtoull(opt["max"].c_str(), 0, 10) : 0;
  long cpu = opt.count("cpu") ? atol(opt["cpu"].c_str()) : 10;
  std::vector<std::string> filters;
  if (opt.count("cfg")) {
    std::istringstream fs(opt["cfg"]);
    std::string f;
    while (std::getline(fs, f, ',')) filters.push_back(f);
  }
  auto matches = [](const std::string& name, const std::string& f) {
    // '+'-separated substrings that must all occur; '!' negates
    std::istringstream fs(f);
    std::string p;
    while (std::getline(fs, p, '+')) {
      if (!p.empty() && p[0] == '!') { if (name.find(p.substr(1)) != std::string::npos) return false; }
      else if (name.find(p) == std::string::npos) return false;
    }
    return true;
  };
  // pairs to run
  std::vector<std::pair<size_t, size_t> > work;
  for (size_t s = 0; s < scripts.size(); ++s) {
    std::vector<size_t> sel;
    std::string own = scripts[s].gets("cfg");
    for (size_t c = 0; c < configs().size(); ++c) {
      const std::string& nm = configs()[c].name;
      if (opt.count("only")) { if (nm == opt["only"]) sel.push_back(c); continue; }
      bool ok = filters.empty();
      for (auto& f : filters) if (matches(nm, f)) { ok = true; break; }
      if (ok && !own.empty()) ok = matches(nm, own);
      if (ok) sel.push_back(c);
    }
    if (maxCfg && sel.size() > maxCfg && !opt.count("only")) {
      Rng r(seed * 1000003 + std::hash<std::string>()(scripts[s].id));
      for (int k = 0; k < 5; ++k) r.next();
      for (size_t k = 0; k < maxCfg; ++k) std::swap(sel[k], sel[k + r.next() % (sel.size() - k)]);
      sel.resize(maxCfg);
      std::sort(sel.begin(), sel.end());
    }
    for (size_t c : sel) work.push_back(std::make_pair(s, c));
  }
  g_cap = 8u << 20;
  g_sh = (Shared*)mmap(0, sizeof(Shared) + g_cap + 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (g_sh == MAP_FAILED) { perror("mmap"); return 2; }
  int out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (out < 0) { perror("open"); return 2; }
  auto writeAll = [&](const std::string& s) {
    size_t o = 0;
    while (o < s.size()) {
      ssize_t k = write(out, s.data() + o, s.size() - o);
      if (k <= 0) { perror("write"); _exit(3); }
      o += k;
    }
  };
  auto header = [&](size_t w) {
    return "#" + scripts[work[w].first].id + " " + configs()[work[w].second].name + "\n";
  };
  size_t pos = 0, faults = 0;
  while (pos < work.size()) {
    g_sh->done = pos;
    fflush(0);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (pid == 0) {
      if (!opt.count("verbose")) {
        int nul = open("/dev/null", O_WRONLY);
        if (nul >= 0) { dup2(nul, 2); dup2(nul, 1); }
      }
      std::string pending;
      for (size_t w = pos; w < work.size(); ++w) {
        g_sh->len = 0;
        struct itimerval tv;
        memset(&tv, 0, sizeof tv);
        tv.it_value.tv_sec = cpu;
        setitimer(ITIMER_VIRTUAL, &tv, 0);
        try {
          configs()[work[w].second].run(scripts[work[w].first]);
        } catch (const TraceTooLong&) {
        } catch (const std::exception& e) {
          Ev("fault").s("why", std::string("exception: ") + e.what()).done();
        } catch (...) {
          Ev("fault").s("why", "unknown exception").done();
        }
        writeAll(header(w) + std::string(g_sh->buf, g_sh->len));
        g_sh->done = w + 1;
      }
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    pos = g_sh->done;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && pos == work.size()) break;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 2;
    if (pos < work.size()) {
      std::ostringstream why;
      why << "{\"e\":\"fault\",\"why\":\"";
      if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGKILL) { fprintf(stderr, "child killed from outside (SIGKILL)\n"); return 2; }
        why << (WTERMSIG(st) == SIGVTALRM ? "timeout" : "signal") << ' ' << WTERMSIG(st);
      }
      else why << "exit " << WEXITSTATUS(st);
      why << "\"}\n";
      writeAll(header(pos) + std::string(g_sh->buf, g_sh->len) + why.str());
      ++faults;
      ++pos;
      if (faults > 200) break;
    }
  }
  close(out);
  return 0;
}
} // namespace vh
