// A zoo of generators: random compositions of every generator the library
// provides over one value type, with their documented contracts, user
// callbacks carrying heap state and fault points.
#pragma once
#include "rapidcheck.h"
#include "payload.h"
#include <algorithm>
#include <cstdio>
#include <memory>
#if defined(SIM_SCHED)
#include "simsched.h"
#define ZOO_QUIET sched::Quiet quiet
#else
#define ZOO_QUIET ((void)0)
#endif

namespace zoo {

struct Val {
  int tag = 0;
  long long n = 0;
  std::string s;
  std::vector<Val> k;
  Val() = default;
  explicit Val(int t, long long x = 0) : tag(t), n(x) {}
  Val(int t, long long x, std::vector<Val> kids) : tag(t), n(x), k(std::move(kids)) {}
  bool empty() const { return k.empty() && s.empty(); }
  std::string str() const;
  std::uint64_t hash() const;
};
bool operator==(const Val &a, const Val &b);
inline bool operator!=(const Val &a, const Val &b) { return !(a == b); }
bool operator<(const Val &a, const Val &b);
std::ostream &operator<<(std::ostream &os, const Val &v);
void showValue(const Val &v, std::ostream &os);
struct ValHash { std::size_t operator()(const Val &v) const { return static_cast<std::size_t>(v.hash()); } };

enum Kind {
  // leaves
  KJust, KInt, KInRange, KBool, KReal, KChar, KStr, KSign, KElement, KElementOf, KSizedElement, KWeightedElement, KDuration, KWithSize,
  // unary
  KMap, KMapcat, KJoin, KCast, KResize, KScale, KNoShrink, KShrink, KLazy, KSuchThat, KNonEmpty, KDistinct, KMaybe, KSeqContainer, KSetContainer, KUnique, KArray, KMakeUnique, KMakeShared, KNested,
  // n-ary
  KApply, KExec, KConstruct, KBuild, KOneOf, KWeightedOneOf, KSizedOneOf, KPair, KTuple, KMapContainer,
  NumKinds
};
extern const char *kindName[];

struct Spec {
  int kind = KJust;
  int t = 0;             // type / variant index
  long long a = 0, b = 0;
  std::uint32_t seed = 0;
  int throwMod = 0;      // callback throws purely when mix(seed, value) % throwMod == 1
  int throwKind = 0;
  std::vector<Spec> kids;
  std::string str() const;
};

struct Opts {
  int depth = 3;
  bool rejects = true;     // generators that can fail generation
  bool throwing = false;   // purely throwing callbacks
  bool exec = true;        // gen::exec (implicit context)
  bool heavy = true;       // containers of composite elements
  int maxCount = 6;
};

Spec genSpec(sim::Sim &s, const Opts &o);
rc::Gen<Val> build(const Spec &spec);
/// Number of nested containers of random size.
int nesting(const Spec &spec);
bool nesting1(const Spec &spec);  // grows with the size itself
/// A size at which the spec is affordable.
int genSize(sim::Sim &s, const Spec &spec);
/// gen::arbitrary<Val> yields the generator of this spec (for arguments).
extern thread_local const Spec *arbitrarySpec;

/// Empty if `v` satisfies the documented contract of `spec`; `size` is the
/// size the generator ran at, or -1 if unknown.
std::string violated(const Spec &spec, const Val &v, int size);
bool canReject(const Spec &spec);
bool canThrow(const Spec &spec);
/// Whether a value may occur twice on one shrink chain.
bool canRepeat(const Spec &spec);
/// True when the root of this spec is documented not to shrink.
bool neverShrinks(const Spec &spec);

/// Outcome of a computation yielding a Val: the value or what was thrown.
struct Outcome {
  bool ok = false;
  bool generationFailure = false;
  std::string what;
  Val v;
  std::string str() const { return ok ? v.str() : "<" + what + ">"; }
};
bool operator==(const Outcome &a, const Outcome &b);
template <typename F>
Outcome outcomeOf(const F &f) {
  Outcome o;
  try {
    o.v = f();
    o.ok = true;
  } catch (const rc::GenerationFailure &e) {
    o.generationFailure = true;
    o.what = std::string("GenerationFailure ") + e.what();
  } catch (const std::exception &e) {
    o.what = std::string("exception ") + e.what();
  } catch (const std::string &e) {
    o.what = "string " + e;
  } catch (int e) {
    o.what = sim::cat("int ", e);
  } catch (const sim::CustomThrow &) {
    o.what = "custom";
  } catch (...) {
    o.what = "other";
  }
  return o;
}

/// Heap state carried by every callback, to notice use after destruction.
extern long liveCanaries;
struct Canary {
  std::unique_ptr<std::string> p;
  Canary() : p(new std::string("callback state that lives on the heap")) { born(1); }
  Canary(const Canary &o) : p(new std::string(*o.p)) { born(1); }
  Canary(Canary &&o) noexcept : p(std::move(o.p)) { born(1); }
  ~Canary() { born(-1); }
  static void born(int n) { ZOO_QUIET; liveCanaries += n; }
  Canary &operator=(const Canary &o) { p.reset(new std::string(*o.p)); return *this; }
  void touch() const {
    if (!p || *p != "callback state that lives on the heap") sim::current->fail("dead-callback", "a callback was used after its state was moved from or destroyed");
  }
};

/// Called by every generator callback when set.
extern std::function<void(const char *where)> hook;

struct Cb {
  Canary c;
  std::uint32_t seed;
  int throwMod, kind;
  explicit Cb(const Spec &s) : seed(s.seed), throwMod(s.throwMod), kind(s.throwKind) {}
  /// Entry of every callback: state check, transient fault, pure throw.
  void enter(const char *where, const Val &v) const {
    c.touch();
    {
      ZOO_QUIET;
      if (hook) hook(where);
      sim::faults.point(where);
    }
    if (throwMod && sim::mix(seed + 77, v.hash()) % static_cast<unsigned>(throwMod) == 1) {
      { ZOO_QUIET; if (sim::current) sim::current->count(std::string("fault.pure-throw@") + where); }
      sim::throwKind(kind, std::string("pure throw in ") + where);
    }
  }
};

// building blocks shared between the two build files
rc::Gen<Val> buildA(const Spec &spec);
rc::Gen<Val> buildB(const Spec &spec);
rc::Gen<Val> buildC(const Spec &spec);
bool predOf(const Spec &s, const Val &v);
long long mapOf(const Spec &s, const Val &v);
long long keyOf(const Spec &s, const Val &v);

} // namespace zoo

namespace rc {
template <>
struct Arbitrary<zoo::Val> {
  static Gen<zoo::Val> arbitrary() { return zoo::build(*zoo::arbitrarySpec); }
};
} // namespace rc

namespace std {
template <> struct hash<zoo::Val> { size_t operator()(const zoo::Val &v) const { return static_cast<size_t>(v.hash()); } };
}
