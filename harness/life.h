// Objects whose every construction, copy, move, assignment and destruction is registered, so that the
// specification Lifetime.tla can judge how a container treats them. Misuse that cannot be continued aborts.
#pragma once
#include "vh.h"

namespace life {
struct Reg {
  bool on;                              // write events
  std::map<const void*, int> slot;      // a number for each address
  std::vector<char> alive;
  long live;
  Reg(): on(false), live(0) {}
  int at(const void* p) {
    auto it = slot.find(p);
    if (it != slot.end()) return it->second;
    int n = (int)alive.size();
    slot[p] = n;
    alive.push_back(0);
    return n;
  }
  void start(bool o) { on = o; slot.clear(); alive.clear(); live = 0; }
  void make(const void* p, const char* how, const char* k, long v) {
    int a = at(p);
    if (on) vh::Ev(how).n("o", a).n(k, v).done();
    if (alive[a]) abort();
    alive[a] = 1;
    ++live;
  }
  void assign(const char* how, const void* d, const void* s) {
    int a = at(d), b = at(s);
    if (on) vh::Ev(how).n("o", a).n("s", b).done();
    if (!alive[a] || !alive[b]) abort();
  }
  void use(const void* p) {
    int a = at(p);
    if (alive[a]) return;
    if (on) vh::Ev("read").n("o", a).n("id", -1).done();
    abort();
  }
  void drop(const void* p) {
    int a = at(p);
    if (on) vh::Ev("dtor").n("o", a).done();
    if (!alive[a]) abort();
    alive[a] = 0;
    --live;
  }
};
inline Reg& reg() { static Reg r; return r; }

// A payload P with a heap allocated copy and a registered lifetime; id(P) identifies the value.
template<class P, bool Movable>
class Obj {
public:
  Obj(): _own(new P()) { reg().make(this, "ctor", "id", ident(*_own)); }
  Obj(const P& p): _own(new P(p)) { reg().make(this, "ctor", "id", ident(p)); }
  Obj(const Obj& o): _own(nullptr) {
    int s = reg().at(&o);
    reg().make(this, "copy", "s", s);
    reg().use(&o);
    _own = new P(*o._own);
  }
  Obj& operator=(const Obj& o) {
    reg().assign("asg", this, &o);
    P p(*o._own);
    delete _own;
    _own = new P(p);
    return *this;
  }
  ~Obj() { reg().drop(this); delete _own; _own = nullptr; }
  operator const P&() const { return get(); }
  const P& get() const { reg().use(this); return *_own; }
  // a value that leaves the container: compared with what the specification says this object holds
  const P& read() const {
    reg().use(this);
    if (reg().on) vh::Ev("read").n("o", reg().at(this)).n("id", ident(*_own)).done();
    return *_own;
  }
  P* _own;
};

// the same with moves; what was moved from must not be looked at again
template<class P>
class Obj<P, true> {
public:
  Obj(): _own(new P()) { reg().make(this, "ctor", "id", ident(*_own)); }
  Obj(const P& p): _own(new P(p)) { reg().make(this, "ctor", "id", ident(p)); }
  Obj(const Obj& o): _own(nullptr) {
    int s = reg().at(&o);
    reg().make(this, "copy", "s", s);
    reg().use(&o);
    _own = new P(o.get());
  }
  Obj(Obj&& o) noexcept: _own(nullptr) {
    int s = reg().at(&o);
    reg().make(this, "mctor", "s", s);
    reg().use(&o);
    std::swap(_own, o._own);
  }
  Obj& operator=(const Obj& o) {
    reg().assign("asg", this, &o);
    P p(o.get());
    delete _own;
    _own = new P(p);
    return *this;
  }
  Obj& operator=(Obj&& o) noexcept {
    reg().assign("asgm", this, &o);
    P* p = o._own;
    o._own = nullptr;
    if (this != &o) delete _own;
    _own = p;
    return *this;
  }
  ~Obj() { reg().drop(this); delete _own; _own = nullptr; }
  operator const P&() const { return get(); }
  const P& get() const { reg().use(this); if (_own == nullptr) abort(); return *_own; }
  const P& read() const {
    const P& p = get();
    if (reg().on) vh::Ev("read").n("o", reg().at(this)).n("id", ident(p)).done();
    return p;
  }
  P* _own;
};
} // namespace life
