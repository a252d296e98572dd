// C15: histories of operations over several value holders with exceptions
// injected at any construction, copy, move or assignment of a user object.
#include "payload.h"
#include <rapidcheck.h>
#include <array>
#include <map>
#include <memory>
#include <set>
using namespace sim;
using rc::Gen;
using rc::Maybe;
using rc::Random;
using rc::Seq;
using rc::Shrinkable;
using rc::detail::Any;
using rc::detail::Variant;

namespace {

// Registry of user objects by address.
struct Live { int kind; std::uint64_t serial; };
std::map<const void *, Live> registry;
std::uint64_t serial = 0;
bool faultsOn = false;

void point(const char *w) { MemoryPause pause; if (faultsOn) faults.point(w); }
void born(const void *p, int kind) {
  MemoryPause pause;
  auto it = registry.find(p);
  if (it != registry.end())
    current->fail("leaked", cat("an object of kind ", kind, " was constructed over a live object of kind ", it->second.kind));
  registry[p] = {kind, ++serial};
}
void used(const void *p, int kind) {
  MemoryPause pause;
  auto it = registry.find(p);
  if (it == registry.end()) current->fail("dead-object", cat("an object of kind ", kind, " was used while not alive"));
  if (it->second.kind != kind)
    current->fail("dead-object", cat("an object of kind ", it->second.kind, " was used as kind ", kind));
}
void died(const void *p, int kind) {
  MemoryPause pause;
  auto it = registry.find(p);
  if (it == registry.end()) current->fail("double-destroy", cat("an object of kind ", kind, " was destroyed while not alive"));
  if (it->second.kind != kind) current->fail("double-destroy", cat("an object of kind ", it->second.kind, " was destroyed as kind ", kind));
  registry.erase(it);
}

const int kMoved = -77;
std::unique_ptr<int> box(int x) { MemoryPause pause; return std::unique_ptr<int>(new int(x)); }
// K: distinguishes types; MoveThrows/CopyThrows say where faults may strike.
template <int K, bool CopyThrows, bool MoveThrows, std::size_t Pad>
struct Obj {
  int v;
  std::unique_ptr<int> heap; // sanitizers see double destruction and leaks
  std::array<unsigned char, Pad> pad;
  static int kind() { return K; }
  void fill() { for (std::size_t i = 0; i < Pad; i++) pad[i] = static_cast<unsigned char>(mix(static_cast<std::uint64_t>(v + 1000), i)); }
  void self() const {
    used(this, K);
    for (std::size_t i = 0; i < Pad; i++)
      if (pad[i] != static_cast<unsigned char>(mix(static_cast<std::uint64_t>(v + 1000), i)))
        current->fail("damaged", cat("the bytes of a live object of kind ", K, " were overwritten"));
  }
  Obj() : Obj(0) {}
  explicit Obj(int x) : v(x), heap(box(x)) { point("construct"); fill(); born(this, K); }
  Obj(const Obj &o) noexcept(!CopyThrows) : v(o.v), heap(box(o.v)) {
    o.self();
    if (CopyThrows) point("copy-construct");
    fill();
    born(this, K);
  }
  Obj(Obj &&o) noexcept(!MoveThrows) : v(o.v), heap(nullptr) {
    o.self();
    if (MoveThrows) point("move-construct");
    heap = std::move(o.heap);
    o.v = kMoved;
    o.fill();
    fill();
    born(this, K);
  }
  Obj &operator=(const Obj &o) noexcept(!CopyThrows) {
    self(); o.self();
    if (CopyThrows) point("copy-assign");
    if (this != &o) { v = o.v; heap = box(o.v); fill(); }
    return *this;
  }
  Obj &operator=(Obj &&o) noexcept(!MoveThrows) {
    self(); o.self();
    if (MoveThrows) point("move-assign");
    if (this != &o) { v = o.v; heap = std::move(o.heap); o.v = kMoved; o.fill(); fill(); }
    return *this;
  }
  ~Obj() { self(); died(this, K); v = -99; }
  int get() const {
    self();
    if (v != kMoved && (!heap || *heap != v)) current->fail("damaged", "a live object lost its heap state");
    return v;
  }
  bool operator==(const Obj &o) const { return get() == o.get(); }
  bool operator<(const Obj &o) const { return get() < o.get(); }
};
template <int K, bool C, bool M, std::size_t P>
std::ostream &operator<<(std::ostream &os, const Obj<K, C, M, P> &o) { return os << "O" << K << ":" << o.get(); }

using A = Obj<0, true, false, 1>;   // throwing copies, moves like most types
using B = Obj<1, false, false, 33>; // never throws when copied
using C = Obj<2, true, false, 100>; // bigger
using T = Obj<3, true, true, 5>;    // everything may throw
// Copies only: moving copies, so moves throw too.
struct D : Obj<4, true, true, 3> {
  using Base = Obj<4, true, true, 3>;
  explicit D(int x = 0) : Base(x) {}
  D(const D &) = default;
  D &operator=(const D &) = default;
};

// Outcome of one operation: true if it completed, false if the fault fired.
// Lazy holders keep a failed generation and rethrow it whenever they are asked
// (`sticky`), so there a throw is only spurious while no fault has fired yet.
bool sticky = false;
std::uint64_t firedAtStart = 0;
template <typename F>
bool attempt(Sim &s, const char *name, F f) {
  std::uint64_t before = faults.fired;
  int arm = s.choose(4, "arm");
  if (arm == 1) faults.arm(s, 4);
  const std::uint32_t starve = arm == 2 ? 1 + s.choose(6, "fault.memory") : 0;
  bool starved = false;
  faultsOn = true;
  bool threw = false, gaveUp = false;
  try {
    OutOfMemory oom(starve);
    struct Note { OutOfMemory &m; bool &b; ~Note() { b = m.struck(); } } note{oom, starved};
    f();
  } catch (const rc::GenerationFailure &) {
    threw = gaveUp = true; // a filtering generator that found nothing
  } catch (...) {
    threw = true;
  }
  faultsOn = false;
  faults.disarm();
  if (starved) faults.fired++;
  bool fired = faults.fired != before;
  if (threw && !fired && !gaveUp && !(sticky && faults.fired != firedAtStart)) s.fail("spurious-throw", cat(name, " threw although no user operation threw"));
  s.log(cat(name, threw ? " threw" : fired ? " swallowed a throw" : " done"));
  s.sig(name);
  s.sig(threw ? 1 : fired ? 2 : 0);
  if (fired) s.nontrivial();
  if (!threw && fired) s.probe("swallowed");
  return !threw;
}

void begin(bool lazy) {
  faults.disarm();
  registry.clear();
  sticky = lazy;
  firedAtStart = faults.fired;
}
void finish(Sim &s) {
  s.check(registry.empty(), "leaked", [&] {
    std::string r = cat(registry.size(), " user objects were never destroyed; kinds:");
    for (auto &e : registry) r += cat(" ", e.second.kind);
    return r;
  });
}

// ---------------------------------------------------------------- Maybe
template <typename X>
void maybeScenario(Sim &s) {
  begin(false);
  {
    struct Slot { std::unique_ptr<Maybe<X>> h; bool known = true; bool on = false; int v = 0; };
    const int n = s.range(2, 4, "slots");
    std::vector<Slot> slots(n);
    for (auto &sl : slots) sl.h.reset(new Maybe<X>());
    std::unique_ptr<X> ext(new X(5));
    int extV = 5;
    int next = 10;
    auto verify = [&](const char *op) {
      std::size_t want = 1;
      for (auto &sl : slots) {
        if (!sl.h) continue;
        bool on = static_cast<bool>(*sl.h);
        if (on) {
          want++;
          const Maybe<X> &c = *sl.h;
          used(&*c, X::kind());
          if (sl.h->operator->() != &**sl.h || c.operator->() != &*c)
            s.fail("wrong-value", "a holder's accessors disagree");
        }
        if (!sl.known) continue;
        s.check(on == sl.on, "wrong-state", [&] { return cat("after ", op, " an optional is ", on ? "engaged" : "empty", " but should be ", sl.on ? "engaged" : "empty"); });
        if (on) s.check((**sl.h).get() == sl.v, "wrong-value", [&] { return cat("after ", op, " an optional holds ", (**sl.h).get(), " but should hold ", sl.v); });
      }
      s.check(registry.size() == want, "leaked", [&] { return cat("after ", op, " ", registry.size(), " user objects are alive but the holders hold ", want); });
    };
    // After a failed assignment: either the old value or nothing.
    auto weak = [&](Slot &sl) {
      if (sl.known && sl.on && static_cast<bool>(*sl.h)) s.check((**sl.h).get() == sl.v || (**sl.h).get() == kMoved, "wrong-value", [&] { return cat("after a failed assignment an optional holds ", (**sl.h).get(), " but held ", sl.v); });
      if (sl.known && !sl.on && static_cast<bool>(*sl.h)) s.fail("wrong-state", "a failed assignment engaged an optional");
      sl.known = false;
    };
    const int ops = s.range(1, 25, "ops");
    for (int i = 0; i < ops; i++) {
      s.step();
      auto &a = slots[s.choose(n, "a")];
      auto &b = slots[s.choose(n, "b")];
      switch (s.choose(16, "op")) {
      case 0: { // assign lvalue
        int v = next++;
        X tmp(v);
        if (attempt(s, "assign-value", [&] { *a.h = static_cast<const X &>(tmp); })) { a.known = true; a.on = true; a.v = v; }
        else weak(a);
        break;
      }
      case 1: { // assign rvalue
        int v = next++;
        X tmp(v);
        if (attempt(s, "assign-rvalue", [&] { *a.h = std::move(tmp); })) { a.known = true; a.on = true; a.v = v; }
        else weak(a);
        break;
      }
      case 2: {
        int v = next++;
        if (attempt(s, "init", [&] { a.h->init(v); })) { a.known = true; a.on = true; a.v = v; }
        else { a.known = true; a.on = false; }
        break;
      }
      case 3: {
        int v = next++;
        X tmp(v);
        if (attempt(s, "init-copy", [&] { a.h->init(static_cast<const X &>(tmp)); })) { a.known = true; a.on = true; a.v = v; }
        else { a.known = true; a.on = false; }
        break;
      }
      case 4: {
        attempt(s, "reset", [&] { if (s.chance(1, 2)) a.h->reset(); else *a.h = rc::Nothing; });
        a.known = true; a.on = false;
        break;
      }
      case 5: case 6: { // copy-assign
        bool same = &a == &b;
        if (attempt(s, "copy-assign", [&] { *a.h = static_cast<const Maybe<X> &>(*b.h); })) {
          if (!same) { a.known = b.known; a.on = b.on; a.v = b.v; }
        } else if (same) weak(a);
        else weak(a);
        break;
      }
      case 7: { // move-assign
        if (&a == &b) break;
        if (attempt(s, "move-assign", [&] { *a.h = std::move(*b.h); })) {
          a.known = b.known; a.on = b.on; a.v = b.v; b.known = false;
        } else { weak(a); weak(b); }
        break;
      }
      case 8: { // copy-construct
        if (&a == &b) break;
        std::unique_ptr<Maybe<X>> fresh;
        if (attempt(s, "copy-construct", [&] { fresh.reset(new Maybe<X>(static_cast<const Maybe<X> &>(*b.h))); })) {
          a.h = std::move(fresh); a.known = b.known; a.on = b.on; a.v = b.v;
        }
        break;
      }
      case 9: {
        if (&a == &b) break;
        std::unique_ptr<Maybe<X>> fresh;
        if (attempt(s, "move-construct", [&] { fresh.reset(new Maybe<X>(std::move(*b.h))); })) {
          a.h = std::move(fresh); a.known = b.known; a.on = b.on; a.v = b.v; b.known = false;
        } else weak(b);
        break;
      }
      case 10: {
        int v = next++;
        X tmp(v);
        std::unique_ptr<Maybe<X>> fresh;
        bool rv = s.chance(1, 2);
        if (attempt(s, rv ? "construct-rvalue" : "construct-value", [&] { fresh.reset(rv ? new Maybe<X>(std::move(tmp)) : new Maybe<X>(static_cast<const X &>(tmp))); })) {
          a.h = std::move(fresh); a.known = true; a.on = true; a.v = v;
        }
        break;
      }
      case 11: { // take the value out
        if (!*a.h) break;
        int was = (**a.h).get();
        if (attempt(s, "copy-out", [&] { *ext = static_cast<const X &>(**a.h); })) { extV = was; }
        break;
      }
      case 12: {
        if (!*a.h) break;
        int was = (**a.h).get();
        if (attempt(s, "move-out", [&] { *ext = *std::move(*a.h); })) extV = was;
        a.known = false;
        break;
      }
      case 13: { // compare and show
        bool eq = *a.h == *b.h, ne = *a.h != *b.h;
        bool want = (static_cast<bool>(*a.h) == static_cast<bool>(*b.h)) && (!*a.h || (**a.h).get() == (**b.h).get());
        s.check(eq == want && ne == !want, "wrong-value", [] { return std::string("optional comparison disagrees with the held values"); });
        std::ostringstream os;
        os << *a.h;
        std::string w = *a.h ? cat(**a.h) : std::string("Nothing");
        s.check(os.str() == w, "wrong-value", [&] { return cat("optional shown as ", os.str(), " instead of ", w); });
        break;
      }
      case 14: { // aliasing: assign from its own value
        if (!*a.h) break;
        if (!attempt(s, "assign-own-value", [&] { *a.h = static_cast<const X &>(**a.h); })) weak(a);
        break;
      }
      default: { // destroy and start over
        attempt(s, "destroy", [&] { a.h.reset(); });
        a.h.reset(new Maybe<X>(rc::Nothing));
        a.known = true; a.on = false;
        break;
      }
      }
      verify("the operation");
      s.check(ext->get() == extV || ext->get() == kMoved || extV == kMoved, "wrong-value", [] { return std::string("an outside object changed"); });
    }
  }
  finish(s);
}
SCENARIO("maybe-A", 3) { maybeScenario<A>(s); }
SCENARIO("maybe-T", 3) { maybeScenario<T>(s); }
SCENARIO("maybe-D", 2) { maybeScenario<D>(s); }

// ---------------------------------------------------------------- Variant
using V = Variant<A, B, C>;
struct VM { int kind = 0; int v = 0; bool known = true; };
int kindOf(const V &v) {
  int k = (v.is<A>() ? 1 : 0) + (v.is<B>() ? 2 : 0) + (v.is<C>() ? 4 : 0);
  return k == 1 ? 0 : k == 2 ? 1 : k == 4 ? 2 : -k - 1;
}
int valueOf(const V &v) {
  switch (kindOf(v)) {
  case 0: return v.get<A>().get();
  case 1: return v.get<B>().get();
  case 2: return v.get<C>().get();
  default: return -1;
  }
}
template <typename X>
void variantAssign(Sim &s, V &h, VM &m, int v) {
  X tmp(v);
  bool rv = s.chance(1, 3);
  if (attempt(s, rv ? "assign-rvalue" : "assign-value", [&] { if (rv) h = std::move(tmp); else h = static_cast<const X &>(tmp); })) {
    m.kind = X::kind(); m.v = v; m.known = true;
    if (!rv) s.check(tmp.get() == v, "wrong-value", [] { return std::string("assigning a value changed the source"); });
  } // else: must be unchanged
}
template <typename X>
std::unique_ptr<V> variantOf(Sim &s, int v) {
  std::unique_ptr<V> r;
  X tmp(v);
  bool rv = s.chance(1, 2);
  attempt(s, rv ? "construct-rvalue" : "construct-value", [&] { r.reset(rv ? new V(std::move(tmp)) : new V(static_cast<const X &>(tmp))); });
  return r;
}
SCENARIO("variant", 8) {
  begin(false);
  {
    const int n = s.range(2, 4, "slots");
    struct Slot { std::unique_ptr<V> h; VM m; };
    std::vector<Slot> slots(n);
    int next = 10;
    for (int i = 0; i < n; i++) {
      int k = i % 3;
      slots[i].h.reset(k == 0 ? new V(A(next)) : k == 1 ? new V(B(next)) : new V(C(next)));
      slots[i].m.kind = k;
      slots[i].m.v = next++;
    }
    A extA(1);
    int extV = 1;
    const int ops = s.range(1, 25, "ops");
    for (int i = 0; i < ops; i++) {
      s.step();
      auto &a = slots[s.choose(n, "a")];
      auto &b = slots[s.choose(n, "b")];
      switch (s.choose(10, "op")) {
      case 0: case 1: {
        int v = next++;
        switch (s.choose(3, "kind")) {
        case 0: variantAssign<A>(s, *a.h, a.m, v); break;
        case 1: variantAssign<B>(s, *a.h, a.m, v); break;
        default: variantAssign<C>(s, *a.h, a.m, v); break;
        }
        break;
      }
      case 2: case 3: case 4:
        if (attempt(s, a.m.kind == b.m.kind ? "copy-assign-same" : "copy-assign-other", [&] { *a.h = static_cast<const V &>(*b.h); })) a.m = b.m;
        break;
      case 5:
        if (&a == &b) break;
        if (attempt(s, "move-assign", [&] { *a.h = std::move(*b.h); })) { a.m = b.m; b.m.known = false; }
        break;
      case 6: {
        std::unique_ptr<V> fresh;
        if (attempt(s, "copy-construct", [&] { fresh.reset(new V(static_cast<const V &>(*b.h))); })) { VM m = b.m; a.h = std::move(fresh); a.m = m; }
        break;
      }
      case 7: {
        if (&a == &b) break;
        std::unique_ptr<V> fresh;
        if (attempt(s, "move-construct", [&] { fresh.reset(new V(std::move(*b.h))); })) { VM m = b.m; b.m.known = false; a.h = std::move(fresh); a.m = m; }
        break;
      }
      case 8: {
        int v = next++;
        int k = s.choose(3, "kind");
        auto fresh = k == 0 ? variantOf<A>(s, v) : k == 1 ? variantOf<B>(s, v) : variantOf<C>(s, v);
        if (fresh) { a.h = std::move(fresh); a.m = VM{k, v, true}; }
        break;
      }
      default: {
        int old = extA.get();
        bool matched = false;
        bool done = attempt(s, "match", [&] { matched = a.h->match(extA); });
        if (done) {
          s.check(matched == (a.m.kind == 0), "wrong-state", [] { return std::string("match disagrees with the held type"); });
          extV = matched ? valueOf(*a.h) : old;
        } else extV = old;
        bool eq = *a.h == *b.h, ne = *a.h != *b.h;
        bool want = kindOf(*a.h) == kindOf(*b.h) && valueOf(*a.h) == valueOf(*b.h);
        s.check(eq == want && ne == !want, "wrong-value", [] { return std::string("variant comparison disagrees with the held values"); });
        std::ostringstream os;
        os << *a.h;
        s.check(os.str() == cat("O", kindOf(*a.h), ":", valueOf(*a.h)), "wrong-value", [&] { return "variant shown as " + os.str(); });
        break;
      }
      }
      for (auto &sl : slots) {
        int k = kindOf(*sl.h);
        s.check(k == sl.m.kind, "wrong-state", [&] { return cat("a variant holds kind ", k, " but should hold kind ", sl.m.kind); });
        int v = valueOf(*sl.h);
        if (sl.m.known) s.check(v == sl.m.v, "wrong-value", [&] { return cat("a variant holds ", v, " but should hold ", sl.m.v); });
      }
      s.check(extA.get() == extV, "wrong-value", [] { return std::string("an outside object changed"); });
      s.check(registry.size() == static_cast<std::size_t>(n) + 1, "leaked", [&] { return cat(registry.size(), " user objects are alive but the holders hold ", n + 1); });
    }
  }
  finish(s);
}

// ---------------------------------------------------------------- Any
template <typename X>
Any anyOf(Sim &s, int v, bool &ok, bool rv) {
  X tmp(v);
  Any r;
  ok = attempt(s, rv ? "any-of-rvalue" : "any-of-value", [&] { r = rv ? Any::of(std::move(tmp)) : Any::of(static_cast<const X &>(tmp)); });
  return r;
}
int anyValue(const Any &a, int kind) {
  switch (kind) {
  case 0: return a.get<A>().get();
  case 1: return a.get<B>().get();
  case 2: return a.get<C>().get();
  case 3: return a.get<T>().get();
  default: return a.get<D>().get();
  }
}
SCENARIO("any", 3) {
  begin(false);
  {
    struct Slot { std::unique_ptr<Any> h; bool on = false; int kind = 0; int v = 0; };
    const int n = s.range(1, 4, "slots");
    std::vector<Slot> slots(n);
    for (auto &sl : slots) sl.h.reset(new Any());
    int next = 10;
    const int ops = s.range(1, 20, "ops");
    for (int i = 0; i < ops; i++) {
      s.step();
      auto &a = slots[s.choose(n, "a")];
      auto &b = slots[s.choose(n, "b")];
      switch (s.choose(6, "op")) {
      case 0: case 1: {
        int v = next++, k = s.choose(5, "kind");
        bool rv = s.chance(1, 2), ok = false;
        Any fresh = k == 0 ? anyOf<A>(s, v, ok, rv) : k == 1 ? anyOf<B>(s, v, ok, rv) : k == 2 ? anyOf<C>(s, v, ok, rv) : k == 3 ? anyOf<T>(s, v, ok, rv) : anyOf<D>(s, v, ok, rv);
        s.check(ok == static_cast<bool>(fresh), "wrong-state", [] { return std::string("a failed construction made a non-null value"); });
        if (ok) { *a.h = std::move(fresh); a.on = true; a.kind = k; a.v = v; }
        break;
      }
      case 2:
        if (&a == &b) break;
        attempt(s, "move-assign", [&] { *a.h = std::move(*b.h); });
        a.on = b.on; a.kind = b.kind; a.v = b.v;
        b.on = false;
        break;
      case 3: {
        if (&a == &b) break;
        std::unique_ptr<Any> fresh;
        if (!attempt(s, "move-construct", [&] { fresh.reset(new Any(std::move(*b.h))); })) break; // out of memory
        a.h = std::move(fresh);
        a.on = b.on; a.kind = b.kind; a.v = b.v;
        b.on = false;
        break;
      }
      case 4:
        attempt(s, "reset", [&] { a.h->reset(); });
        a.on = false;
        break;
      default: {
        if (!a.on) break;
        std::ostringstream os, ty;
        a.h->showValue(os);
        a.h->showType(ty);
        s.check(os.str() == cat("O", a.kind, ":", a.v), "wrong-value", [&] { return "a type-erased value is shown as " + os.str(); });
        s.check(!ty.str().empty(), "wrong-value", [] { return std::string("no type name"); });
        break;
      }
      }
      std::size_t want = 0;
      for (auto &sl : slots) {
        s.check(static_cast<bool>(*sl.h) == sl.on, "wrong-state", [&] { return std::string("a type-erased value is ") + (sl.on ? "null" : "engaged") + " unexpectedly"; });
        if (!sl.on) continue;
        want++;
        int v = anyValue(*sl.h, sl.kind);
        s.check(v == sl.v, "wrong-value", [&] { return cat("a type-erased value holds ", v, " instead of ", sl.v); });
      }
      s.check(registry.size() == want, "leaked", [&] { return cat(registry.size(), " user objects are alive but the holders hold ", want); });
    }
  }
  finish(s);
}

// ----------------------------------------- Gen, Shrinkable, Seq handles
struct GenFn {
  A a;
  explicit GenFn(int v) : a(v) {}
  Shrinkable<A> operator()(const Random &, int) const {
    point("generate");
    A copy(a);
    return rc::shrinkable::shrinkRecur(std::move(copy), [](const A &x) {
      point("shrink");
      int v = x.get();
      std::vector<A> out;
      if (v > 0) { out.emplace_back(v / 2); if (v > 1) out.emplace_back(v - 1); }
      return rc::seq::fromContainer(std::move(out));
    });
  }
};
struct MapFn {
  A a;
  explicit MapFn(int v) : a(v) {}
  A operator()(const A &x) const { point("map"); return A(x.get() + a.get()); }
};
struct PredFn {
  A a;
  explicit PredFn(int v) : a(v) {}
  bool operator()(const A &x) const { point("pred"); return x.get() % 3 != a.get() % 3 ; }
};
struct ShrImpl {
  A a;
  explicit ShrImpl(int v) : a(v) {}
  ShrImpl(const ShrImpl &) = default;
  A value() const { point("value"); return a; }
  Seq<Shrinkable<A>> shrinks() const {
    point("shrinks");
    int v = a.get();
    if (v <= 0) return Seq<Shrinkable<A>>();
    return rc::seq::just(rc::makeShrinkable<ShrImpl>(v / 2), rc::makeShrinkable<ShrImpl>(v - 1));
  }
};

SCENARIO("handles", 8) {
  begin(true);
  {
    struct GS { std::unique_ptr<Gen<A>> h; bool empty = false; bool exact = true; int v = 0; std::string name; };
    struct SS { std::unique_ptr<Shrinkable<A>> h; bool empty = false; bool exact = false; int v = 0; };
    struct QS { std::unique_ptr<Seq<A>> h; };
    struct LS { std::unique_ptr<Seq<Shrinkable<A>>> h; };
    const std::size_t cap = 4;
    std::vector<GS> gs;
    std::vector<SS> ss;
    std::vector<QS> qs;
    std::vector<LS> ls;
    int next = 3;
    Random r(s.choose(1000, "seed"));
    const int ops = s.range(1, 40, "ops");
    auto put = [&](std::unique_ptr<Shrinkable<A>> h, bool exact, int v) {
      if (!h) return;
      SS x; x.h = std::move(h); x.exact = exact; x.v = v;
      if (ss.size() < cap) ss.push_back(std::move(x)); else ss[s.choose(cap, "slot")] = std::move(x);
    };
    for (int i = 0; i < ops; i++) {
      s.step();
      switch (s.choose(22, "op")) {
      case 0: case 1: { // make a generator
        if (gs.size() >= cap) break;
        int v = next++ % 40;
        GS g; g.v = v;
        bool rv = s.chance(1, 2);
        if (attempt(s, "gen-make", [&] { GenFn f(v); g.h.reset(rv ? new Gen<A>(std::move(f)) : new Gen<A>(static_cast<const GenFn &>(f))); })) gs.push_back(std::move(g));
        break;
      }
      case 2: { // derive
        if (gs.empty() || gs.size() >= cap) break;
        auto &g = gs[s.choose(gs.size(), "g")];
        if (g.empty) break;
        GS d; d.exact = false;
        int v = next++ % 40;
        int how = s.choose(6, "how");
        if (attempt(s, "gen-derive", [&] {
              Gen<A> x = how == 0   ? rc::gen::map(*g.h, MapFn(v))
                         : how == 1 ? rc::gen::suchThat(*g.h, PredFn(v))
                         : how == 2 ? rc::gen::resize(v, *g.h)
                         : how == 3 ? rc::gen::oneOf(*g.h, rc::gen::just(A(v)))
                         : how == 4 ? rc::gen::noShrink(*g.h)
                                    : rc::gen::mapcat(*g.h, [](const A &a) { return rc::gen::just(a); });
              d.h.reset(new Gen<A>(std::move(x)));
            }))
          gs.push_back(std::move(d));
        break;
      }
      case 3: { // copy / assign / move between slots
        if (gs.size() < 2) break;
        auto &a = gs[s.choose(gs.size(), "a")];
        auto &b = gs[s.choose(gs.size(), "b")];
        switch (s.choose(5, "how")) {
        case 0: *a.h = static_cast<const Gen<A> &>(*b.h); a.empty = b.empty; a.exact = b.exact; a.v = b.v; a.name = b.name; break;
        case 1: if (&a != &b) { *a.h = std::move(*b.h); a.empty = b.empty; a.exact = b.exact; a.v = b.v; a.name = b.name; b.empty = true; } break;
        case 2: { std::unique_ptr<Gen<A>> f(new Gen<A>(static_cast<const Gen<A> &>(*b.h))); if (&a != &b) { a.empty = b.empty; a.exact = b.exact; a.v = b.v; a.name = b.name; } a.h = std::move(f); break; }
        case 3: if (&a != &b) { std::unique_ptr<Gen<A>> f(new Gen<A>(std::move(*b.h))); a.empty = b.empty; a.exact = b.exact; a.v = b.v; a.name = b.name; b.empty = true; a.h = std::move(f); } break;
        default: { Gen<A> f = b.h->as("n" + std::to_string(next)); std::string nm = "n" + std::to_string(next); *a.h = std::move(f); if (&a != &b) { a.empty = b.empty; a.exact = b.exact; a.v = b.v; } a.name = nm; break; }
        }
        if (!a.empty) s.check(a.h->name() == a.name, "wrong-value", [&] { return cat("a copied generator is named '", a.h->name(), "' instead of '", a.name, "'"); });
        s.sig("gen-assign");
        break;
      }
      case 4: // drop
        if (!gs.empty()) { std::size_t k = s.choose(gs.size(), "g"); gs.erase(gs.begin() + k); s.sig("gen-drop"); }
        break;
      case 5: case 6: { // generate
        if (gs.empty()) break;
        auto &g = gs[s.choose(gs.size(), "g")];
        if (g.empty) break;
        std::unique_ptr<Shrinkable<A>> h;
        std::uint64_t before = faults.fired;
        attempt(s, "generate", [&] { h.reset(new Shrinkable<A>((*g.h)(r, 10))); });
        if (faults.fired == before) put(std::move(h), g.exact, g.v); else put(std::move(h), false, 0);
        break;
      }
      case 7: { // make a shrinkable
        int v = next++ % 40;
        std::unique_ptr<Shrinkable<A>> h;
        int how = s.choose(5, "how");
        A seed(v);
        if (attempt(s, "shrinkable-make", [&] {
              h.reset(how == 0   ? new Shrinkable<A>(rc::shrinkable::just(static_cast<const A &>(seed)))
                      : how == 1 ? new Shrinkable<A>(rc::shrinkable::just(std::move(seed)))
                      : how == 2 ? new Shrinkable<A>(rc::makeShrinkable<ShrImpl>(v))
                      : how == 3 ? new Shrinkable<A>(rc::shrinkable::lambda([seed]() { point("lambda"); return seed; }))
                                 : new Shrinkable<A>(rc::shrinkable::just(static_cast<const A &>(seed), rc::seq::just(rc::shrinkable::just(A(v + 1)), rc::makeShrinkable<ShrImpl>(v)))));
            }))
          put(std::move(h), true, v);
        break;
      }
      case 8: { // derive a shrinkable
        if (ss.empty()) break;
        auto &x = ss[s.choose(ss.size(), "s")];
        if (x.empty) break;
        std::unique_ptr<Shrinkable<A>> h;
        int v = next++ % 40, how = s.choose(3, "how");
        auto ex = x.exact; int xv = x.v;
        if (attempt(s, "shrinkable-derive", [&] {
              if (how == 0) h.reset(new Shrinkable<A>(rc::shrinkable::map(*x.h, MapFn(v))));
              else if (how == 1) h.reset(new Shrinkable<A>(rc::shrinkable::mapShrinks(*x.h, [](Seq<Shrinkable<A>> q) { point("map-shrinks"); return rc::seq::take(2, std::move(q)); })));
              else { auto m = rc::shrinkable::filter(*x.h, PredFn(v)); if (m) h.reset(new Shrinkable<A>(std::move(*m))); }
            }))
          put(std::move(h), ex, how == 0 ? xv + v : xv);
        break;
      }
      case 9: { // assign between
        if (ss.size() < 2) break;
        auto &a = ss[s.choose(ss.size(), "a")];
        auto &b = ss[s.choose(ss.size(), "b")];
        switch (s.choose(4, "how")) {
        case 0: *a.h = static_cast<const Shrinkable<A> &>(*b.h); a.empty = b.empty; a.exact = b.exact; a.v = b.v; break;
        case 1: if (&a != &b) { *a.h = std::move(*b.h); a.empty = b.empty; a.exact = b.exact; a.v = b.v; b.empty = true; } break;
        case 2: { std::unique_ptr<Shrinkable<A>> f(new Shrinkable<A>(static_cast<const Shrinkable<A> &>(*b.h))); a.empty = b.empty; a.exact = b.exact; a.v = b.v; a.h = std::move(f); break; }
        default: if (&a != &b) { std::unique_ptr<Shrinkable<A>> f(new Shrinkable<A>(std::move(*b.h))); a.empty = b.empty; a.exact = b.exact; a.v = b.v; b.empty = true; a.h = std::move(f); } break;
        }
        s.sig("shrinkable-assign");
        break;
      }
      case 10: if (!ss.empty()) { ss.erase(ss.begin() + s.choose(ss.size(), "s")); s.sig("shrinkable-drop"); } break;
      case 11: case 12: { // value
        if (ss.empty()) break;
        auto &x = ss[s.choose(ss.size(), "s")];
        if (x.empty) break;
        int got = 0;
        bool transientMade = !x.exact;
        bool threw = false;
        bool arm = s.chance(1, 3, "arm");
        std::uint64_t before = faults.fired;
        if (arm) faults.arm(s, 4);
        faultsOn = true;
        try { A a = x.h->value(); faultsOn = false; got = a.get(); } catch (...) { threw = true; }
        faultsOn = false;
        faults.disarm();
        bool fired = faults.fired != before;
        s.sig(threw ? "value-threw" : "value");
        if (!transientMade) {
          s.check(!threw || fired, "spurious-throw", [] { return std::string("reading a value threw although no user operation threw"); });
          if (!threw) s.check(got == x.v, "wrong-value", [&] { return cat("a shrink tree node yields ", got, " instead of ", x.v); });
        }
        break;
      }
      case 13: { // shrinks
        if (ss.empty()) break;
        auto &x = ss[s.choose(ss.size(), "s")];
        if (x.empty) break;
        LS l;
        attempt(s, "shrinks", [&] { l.h.reset(new Seq<Shrinkable<A>>(x.h->shrinks())); });
        if (!l.h) break;
        if (ls.size() < cap) ls.push_back(std::move(l)); else ls[s.choose(cap, "slot")] = std::move(l);
        break;
      }
      case 14: { // next shrink
        if (ls.empty()) break;
        auto &l = ls[s.choose(ls.size(), "l")];
        std::unique_ptr<Shrinkable<A>> h;
        attempt(s, "next-shrink", [&] { auto m = l.h->next(); if (m) h.reset(new Shrinkable<A>(std::move(*m))); });
        put(std::move(h), false, 0);
        break;
      }
      case 15: { // list copies
        if (ls.empty()) break;
        auto &a = ls[s.choose(ls.size(), "a")];
        auto &b = ls[s.choose(ls.size(), "b")];
        attempt(s, "list-assign", [&] { *a.h = static_cast<const Seq<Shrinkable<A>> &>(*b.h); });
        break;
      }
      case 16: if (!ls.empty()) { ls.erase(ls.begin() + s.choose(ls.size(), "l")); } break;
      case 17: { // make a sequence of objects
        QS q;
        int v = next++ % 40, how = s.choose(6, "how");
        A x(v), y(v + 1);
        std::vector<A> c{x, y};
        Seq<A> other;
        if (!qs.empty()) other = *qs[s.choose(qs.size(), "q")].h;
        attempt(s, "seq-make", [&] {
          Seq<A> r = how == 0   ? rc::seq::just(x, y)
                     : how == 1 ? rc::seq::fromContainer(static_cast<const std::vector<A> &>(c))
                     : how == 2 ? rc::seq::concat(std::move(other), rc::seq::just(std::move(x)))
                     : how == 3 ? rc::seq::map(std::move(other), MapFn(v))
                     : how == 4 ? rc::seq::filter(rc::seq::fromContainer(std::move(c)), PredFn(v))
                                : rc::seq::takeWhile(std::move(other), PredFn(v));
          q.h.reset(new Seq<A>(std::move(r)));
        });
        if (!q.h) break;
        if (qs.size() < cap) qs.push_back(std::move(q)); else qs[s.choose(cap, "slot")] = std::move(q);
        break;
      }
      case 18: case 19: {
        if (qs.empty()) break;
        auto &q = qs[s.choose(qs.size(), "q")];
        attempt(s, "seq-next", [&] { auto m = q.h->next(); if (m) (*m).get(); });
        break;
      }
      case 20: { // copies and moves of sequences: a throwing clone must not harm
        if (qs.empty()) break;
        auto &a = qs[s.choose(qs.size(), "a")];
        auto &b = qs[s.choose(qs.size(), "b")];
        int how = s.choose(3, "how");
        if (how == 2 && &a == &b) break;
        attempt(s, "seq-assign", [&] {
          if (how == 0) *a.h = static_cast<const Seq<A> &>(*b.h);
          else if (how == 1) { std::unique_ptr<Seq<A>> f(new Seq<A>(static_cast<const Seq<A> &>(*b.h))); a.h = std::move(f); }
          else *a.h = std::move(*b.h);
        });
        break;
      }
      default: if (!qs.empty()) { qs.erase(qs.begin() + s.choose(qs.size(), "q")); } break;
      }
    }
    // Drop in a drawn order.
    while (!gs.empty() || !ss.empty() || !qs.empty() || !ls.empty()) {
      int k = s.choose(4, "drop");
      if (k == 0 && !gs.empty()) gs.pop_back();
      else if (k == 1 && !ss.empty()) ss.erase(ss.begin());
      else if (k == 2 && !qs.empty()) qs.pop_back();
      else if (k == 3 && !ls.empty()) ls.erase(ls.begin());
      else if (!gs.empty()) gs.pop_back();
      else if (!ss.empty()) ss.pop_back();
      else if (!qs.empty()) qs.pop_back();
      else ls.pop_back();
    }
  }
  finish(s);
}

// ---------------- user objects travelling through generators and checks
template <typename X>
Gen<X> objGen(int v) {
  return rc::gen::map(rc::gen::inRange(0, v + 1), [](int x) { point("map"); return X(x); });
}
void touch(const A &a) { a.get(); }
void touch(const C &a) { a.get(); }
void touch(const std::shared_ptr<A> &a) { if (a) a->get(); }
template <typename X> void touch(const std::vector<X> &v) { for (auto &e : v) touch(e); }
template <typename X> void touch(const std::set<X> &v) { for (auto &e : v) touch(e); }
template <typename X> void touch(const std::list<X> &v) { for (auto &e : v) touch(e); }
template <typename X> void touch(const Maybe<X> &v) { if (v) touch(*v); }
template <typename X, std::size_t N> void touch(const std::array<X, N> &v) { for (auto &e : v) touch(e); }
template <typename X, typename Y> void touch(const std::pair<X, Y> &v) { touch(v.first); touch(v.second); }
template <typename X, typename Y> void touch(const std::map<X, Y> &v) { for (auto &e : v) touch(e); }
template <typename X, typename Y, typename Z> void touch(const std::tuple<X, Y, Z> &v) { touch(std::get<0>(v)); touch(std::get<1>(v)); touch(std::get<2>(v)); }

template <typename G>
void walkGen(Sim &s, const char *name, std::function<G()> make) {
  begin(true);
  {
    using X = rc::Decay<decltype(std::declval<G>()(Random(), 0).value())>;
    std::unique_ptr<Gen<X>> g;
    Random r(s.choose(100000, "seed"));
    int size = s.range(0, 12, "size");
    attempt(s, "make", [&] { g.reset(new Gen<X>(make())); });
    if (g) {
      std::unique_ptr<Shrinkable<X>> cur;
      attempt(s, "generate", [&] { cur.reset(new Shrinkable<X>((*g)(r, size))); });
      int hops = s.range(0, 8, "hops");
      for (int i = 0; cur && i < hops; i++) {
        attempt(s, "value", [&] {
          try { X x = cur->value(); bool on = faultsOn; faultsOn = false; touch(x); faultsOn = on; }
          catch (const rc::GenerationFailure &) {}
        });
        std::unique_ptr<Shrinkable<X>> nxt;
        int skip = s.range(0, 3, "skip");
        attempt(s, "descend", [&] {
          auto q = cur->shrinks();
          auto copy = q;
          for (int k = 0; k < skip; k++) if (!q.next()) break;
          auto m = q.next();
          if (!m) m = copy.next();
          if (m) nxt.reset(new Shrinkable<X>(*m));
        });
        if (s.chance(1, 4, "drop-gen")) g.reset();
        if (!nxt) break;
        cur = std::move(nxt);
      }
    }
    s.sig(name);
  }
  finish(s);
}
using rc::gen::container;
SCENARIO("travel", 6) {
  int v = s.range(0, 9, "v");
  switch (s.choose(12, "gen")) {
  case 0: walkGen<Gen<std::vector<A>>>(s, "vector", [=] { return container<std::vector<A>>(objGen<A>(v)); }); break;
  case 1: walkGen<Gen<std::vector<C>>>(s, "vector-n", [=] { return container<std::vector<C>>(v, objGen<C>(v)); }); break;
  case 2: walkGen<Gen<std::set<A>>>(s, "set", [=] { return container<std::set<A>>(objGen<A>(v)); }); break;
  case 3: walkGen<Gen<std::map<A, C>>>(s, "map", [=] { return container<std::map<A, C>>(objGen<A>(v), objGen<C>(v)); }); break;
  case 4: walkGen<Gen<std::tuple<A, C, A>>>(s, "tuple", [=] { return rc::gen::tuple(objGen<A>(v), objGen<C>(v), objGen<A>(1)); }); break;
  case 5: walkGen<Gen<Maybe<A>>>(s, "maybe", [=] { return rc::gen::maybe(objGen<A>(v)); }); break;
  case 6: walkGen<Gen<std::array<A, 3>>>(s, "array", [=] { return container<std::array<A, 3>>(objGen<A>(v)); }); break;
  case 7: walkGen<Gen<A>>(s, "element", [=] { return rc::gen::element(A(1), A(2), A(v)); }); break;
  case 8: walkGen<Gen<A>>(s, "elementOf", [=] { return rc::gen::elementOf(std::vector<A>{A(4), A(v)}); }); break;
  case 9: walkGen<Gen<std::vector<A>>>(s, "unique", [=] { return rc::gen::unique<std::vector<A>>(objGen<A>(v + 4)); }); break;
  case 10: walkGen<Gen<std::shared_ptr<A>>>(s, "shared", [=] { return rc::gen::makeShared<A>(rc::gen::inRange(0, 9)); }); break;
  default: walkGen<Gen<std::list<A>>>(s, "list", [=] { return rc::gen::nonEmpty(container<std::list<A>>(objGen<A>(v))); }); break;
  }
}

// Objects as test case inputs, held by the library from generation to report.
SCENARIO("inputs", 4) {
  begin(true);
  {
    int v = s.range(0, 9, "v"), limit = s.range(0, 12, "limit");
    int arm = s.choose(3, "arm");
    rc::detail::TestParams p;
    p.seed = s.choose(100000, "seed");
    p.maxSuccess = s.range(1, 8, "success");
    p.maxSize = 10;
    std::unique_ptr<rc::detail::TestResult> result;
    if (arm == 1) faults.arm(s, 60);
    const std::uint32_t starve = arm == 2 ? 1 + s.choose(s.chance(1, 2, "late") ? 2000 : 60, "fault.memory") : 0;
    const auto failed = memory.failed;
    faultsOn = true;
    auto body = [=](const A &a, std::vector<A> as) {
      auto c = *objGen<C>(v);
      auto b = *rc::gen::maybe(objGen<A>(v)).as("named");
      touch(c); touch(b); touch(a); touch(as);
      RC_LOG() << "a log line that does not fit into a small string " << c.get();
      RC_TAG("a tag that does not fit into a small string", c.get());
      RC_CLASSIFY(c.get() > 3, "a class of test cases, also long enough");
      point("body");
      if (a.get() + static_cast<int>(as.size()) + c.get() > limit) RC_FAIL("too big");
    };
    try {
      auto prop = [=] {
        const A a = *objGen<A>(v);
        body(a, *rc::gen::container<std::vector<A>>(objGen<A>(v)));
      };
      rc::detail::TestMetadata md;
      md.id = "C15";
      struct Quiet : rc::detail::TestListener {
        void onTestCaseFinished(const rc::detail::CaseDescription &) override {}
        void onShrinkTried(const rc::detail::CaseDescription &, bool) override {}
        void onTestFinished(const rc::detail::TestMetadata &, const rc::detail::TestResult &) override {}
      } quiet;
      auto property = rc::detail::toProperty(prop);
      OutOfMemory oom(starve);
      result.reset(new rc::detail::TestResult(rc::detail::checkProperty(property, md, p, quiet, {})));
    } catch (...) {
      if (memory.failed == failed) s.fail("escaped", "an exception escaped from a check of user objects");
    }
    if (memory.failed != failed) { s.sig(result ? "memory-in-case" : "memory-in-check"); }
    faultsOn = false;
    faults.disarm();
    if (result) {
      rc::detail::FailureResult f;
      if (result->match(f)) { s.sig(f.numSuccess); s.sig(f.counterExample.size()); s.probe("failed-check"); s.nontrivial(); }
    }
  }
  finish(s);
}

} // namespace
