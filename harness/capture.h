// Collects what is written to a file descriptor; texts in scripts are "x" followed by hexadecimal codes.
#pragma once
#include <string>
#include <cstdio>
#include <stdexcept>
#include <unistd.h>

namespace vh {
class Capture {
public:
  explicit Capture(int fd): _fd(fd), _tmp(tmpfile()) {
    if (!_tmp) throw std::runtime_error("cannot create a temporary file");
    fflush(0);
    _old = dup(fd);
    dup2(fileno(_tmp), fd);
  }
  std::string finish() {
    stop();
    std::string s;
    rewind(_tmp);
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, _tmp)) > 0) s.append(b, n);
    return s;
  }
  ~Capture() { stop(); fclose(_tmp); }
private:
  void stop() {
    if (_old < 0) return;
    fflush(0);
    dup2(_old, _fd);
    close(_old);
    _old = -1;
  }
  int _fd, _old;
  FILE* _tmp;
};

inline std::string unhex(const std::string& h) {
  std::string r;
  for (size_t k = 1; k + 1 < h.size(); k += 2) r += (char)strtol(h.substr(k, 2).c_str(), 0, 16);
  return r;
}
}
