// Calls that may end the process, and output as lines of words.
#pragma once
#include "vh.h"
namespace vh {
struct Ended { int code; };
// Runs f in a child, which goes on with the script if f returns; the parent takes over if f ends the process.
template<class F> void mayExit(const F& f) {
  fflush(0);
  pid_t pid = fork();
  if (pid < 0) throw std::runtime_error("fork");
  if (pid == 0) {   // timers are not inherited
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = 10;
    setitimer(ITIMER_VIRTUAL, &tv, 0);
    f();
    return;
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) throw Ended{-1};        // the script has been carried out
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) throw Ended{1};
  if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
  _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98);
}

inline std::string codes(const std::string& s) {
  std::string r = "[";
  for (size_t k = 0; k < s.size(); ++k) { if (k) r += ","; r += std::to_string((int)(unsigned char)s[k]); }
  return r + "]";
}
// a number of any size: groups of three digits, the smallest first
inline std::string big(unsigned long long n) {
  std::string r = "[";
  for (; n; n /= 1000) { if (r.size() > 1) r += ","; r += std::to_string(n % 1000); }
  return r + "]";
}
// lines of words, as texts
inline std::string lines(const std::string& text) {
  std::istringstream in(text);
  std::string line, r = "[";
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string w, ws;
    while (ls >> w) { if (!ws.empty()) ws += ","; ws += codes(w); }
    if (ws.empty()) continue;
    if (r.size() > 1) r += ",";
    r += "[" + ws + "]";
  }
  return r + "]";
}

}
