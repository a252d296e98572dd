// Instrumented user-side types and the transient fault controller.
#pragma once
#include "sim.h"
#include <stdexcept>
#include <string>

namespace sim {

struct CustomThrow { int code; };

/// Objects a user callback may throw, by kind.
enum ThrowKind { ThrowStd, ThrowString, ThrowInt, ThrowCustom, NumThrowKinds };
inline const char *throwKindName(int k) {
  static const char *n[] = {"throw.std", "throw.string", "throw.int", "throw.custom"};
  return n[k];
}
[[noreturn]] inline void throwKind(int k, const std::string &msg) {
  switch (k) {
  case ThrowStd: throw std::runtime_error(msg);
  case ThrowString: throw msg;
  case ThrowInt: throw 1337;
  default: throw CustomThrow{42};
  }
}

/// Transient faults: the n-th user callback invocation after arming throws.
struct FaultPlan {
  bool armed = false;
  std::uint32_t countdown = 0;
  int kind = 0;
  std::uint64_t fired = 0;
  std::uint64_t calls = 0;
  const char *last = "";
  void arm(Sim &s, std::uint32_t maxCountdown) {
    armed = true;
    countdown = 1 + s.choose(maxCountdown, "fault.at");
    kind = static_cast<int>(s.choose(NumThrowKinds, "fault.kind"));
  }
  void disarm() { armed = false; }
  /// Called by every user callback.
  void point(const char *where) {
    MemoryPause pause;
    calls++;
    if (current) current->step();
    if (!armed) return;
    if (--countdown == 0) {
      armed = false;
      fired++;
      last = where;
      if (current) current->fault(std::string(throwKindName(kind)) + "@" + where);
      throwKind(kind, std::string("injected at ") + where);
    }
  }
};
extern FaultPlan faults;

/// User value with heap state, an instance count and moved-from marking.
struct Elem {
  static long live;
  static bool copyFaults;
  int v;
  std::string heap;
  unsigned magic;
  static std::string render(int v) { return "payload-of-element-number-" + std::to_string(v); }
  explicit Elem(int x = 0) : v(x), heap(render(x)), magic(0xA11FE) { live++; }
  Elem(const Elem &o) : v(o.v), heap(o.heap), magic(0xA11FE) {
    o.alive();
    if (copyFaults) faults.point("elem-copy");
    live++;
  }
  Elem(Elem &&o) noexcept : v(o.v), heap(std::move(o.heap)), magic(0xA11FE) {
    o.alive();
    o.heap = "moved-from";
    live++;
  }
  Elem &operator=(const Elem &o) {
    alive(); o.alive();
    if (copyFaults) faults.point("elem-copy");
    v = o.v; heap = o.heap;
    return *this;
  }
  Elem &operator=(Elem &&o) noexcept {
    alive(); o.alive();
    if (this != &o) { v = o.v; heap = std::move(o.heap); o.heap = "moved-from"; }
    return *this;
  }
  ~Elem() { alive(); magic = 0xDEAD; live--; }
  void alive() const {
    if (magic != 0xA11FE && current) current->fail("dead-object", "a user object was used outside its lifetime");
  }
  bool intact() const { alive(); return heap == render(v); }
  bool operator==(const Elem &o) const { return v == o.v && heap == o.heap; }
  bool operator<(const Elem &o) const { return v < o.v; }
};
inline std::ostream &operator<<(std::ostream &os, const Elem &e) { return os << "E" << e.v; }

} // namespace sim
