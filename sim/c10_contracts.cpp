// C10: every generated value and every value on any shrink chain satisfies the
// contract of its generator, with rejecting, repeating and throwing inners.
#include "zoo.h"
#include <limits>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
using namespace sim;
using namespace zoo;
using rc::Random;
using rc::Shrinkable;

namespace {

struct Walker {
  Sim &s;
  const Spec &spec;
  int size;
  std::uint64_t firedAtStart;

  void contract(const Outcome &o, const std::string &where) {
    s.step();
    if (o.ok) {
      auto e = violated(spec, o.v, size);
      if (!e.empty()) s.fail("contract-broken", cat(where, " at size ", size, ": ", e));
      return;
    }
    s.probe(o.generationFailure ? "generation-failure" : "user-exception");
    if (o.generationFailure) {
      if (!canReject(spec) && faults.fired == firedAtStart) s.fail("spurious-failure", cat(where, " at size ", size, " of ", spec.str(), ": ", o.what, ", but nothing in it can reject"));
    } else if (!canThrow(spec) && faults.fired == firedAtStart)
      s.fail("foreign-exception", cat(where, " of ", spec.str(), " threw ", o.what, ", but no callback did"));
  }

  void noShrink(const Shrinkable<Val> &sh) {
    auto l = sh.shrinks();
    if (l.next()) s.fail("contract-broken", cat("shrinks of ", spec.str(), " which is documented not to shrink"));
  }

  void walk(Shrinkable<Val> cur, bool transient) {
    std::set<Val> seen;
    auto value = [&](const Shrinkable<Val> &x) { return outcomeOf([&]() -> Val { return x.value(); }); };
    auto o = value(cur);
    s.log(cat("root ", o.str().substr(0, 100)));
    s.sig(o.ok ? o.v.hash() : 1);
    contract(o, "generated value");
    if (neverShrinks(spec)) noShrink(cur);
    if (o.ok) seen.insert(o.v);
    bool repeats = canRepeat(spec);
    int hops = s.range(0, 12, "hops");
    bool greedy = false;
    int greedyHops = 0;
    while (true) {
      if (hops-- == 0) greedy = true;
      if (greedy && ++greedyHops > 3000) s.fail("no-end", cat("taking the first shrink did not end after 3000 steps: ", spec.str()));
      auto l = cur.shrinks();
      std::uint32_t target = greedy ? 0 : s.choose(s.chance(1, 10) ? 60 : 12, "which");
      rc::Maybe<Shrinkable<Val>> chosen;
      Outcome co;
      std::uint32_t i = 0;
      int looked = 0;
      if (transient && !greedy && s.chance(1, 3, "fault")) faults.arm(s, 15);
      while (true) {
        auto x = l.next();
        if (!x) break;
        auto xo = value(*x);
        contract(xo, cat("shrink ", i, " below ", o.str().substr(0, 80)));
        if (xo.ok && neverShrinks(spec)) s.fail("contract-broken", "shrinks of " + spec.str());
        if (xo.ok) { chosen = *x; co = xo; if (i >= target) break; }
        i++;
        if (++looked > 200) break;
      }
      faults.disarm();
      if (!chosen) break;
      if (!repeats && !seen.insert(co.v).second) s.fail("shrink-cycle", cat("value ", co.str().substr(0, 200), " is its own descendant in ", spec.str()));
      s.log(cat("hop ", i, " ", co.str().substr(0, 80)));
      s.sig(co.v.hash());
      cur = *chosen;
      o = co;
    }
    s.log(cat("end ", o.str().substr(0, 80)));
  }
};

void drive(Sim &s, const Spec &spec, int size) {
  s.log(cat("spec ", spec.str(), " size ", size));
  s.sig(hashStr(spec.str()));
  bool transient = s.chance(1, 3, "transient");
  auto g = build(spec);
  int n = s.range(1, 4, "values");
  Walker w{s, spec, size, faults.fired};
  if (canReject(spec)) s.fault("rejecting-inner");
  if (canThrow(spec)) s.fault("throwing-callback");
  for (int i = 0; i < n; i++) {
    Random r(s.choose(100000, "seed"));
    if (transient && s.chance(1, 3, "fault-gen")) {
      faults.arm(s, 30);
      auto sh = g(r, size);
      w.walk(sh, true);
      faults.disarm();
      continue;
    }
    w.walk(g(r, size), transient);
  }
}

SCENARIO("contract-walk", 5) {
  faults.disarm();
  Opts o;
  o.depth = s.range(1, 4, "depth");
  o.throwing = s.chance(1, 4, "throwing");
  Spec spec = genSpec(s, o);
  drive(s, spec, genSize(s, spec));
}

// Sizes far beyond the usual ones, for everything whose amount of data does not
// grow with the size.
bool boundedAt(const Spec &sp) {
  if (sp.kind == KResize) return true;
  if (sp.kind == KStr || nesting1(sp)) return false;
  for (auto &k : sp.kids) if (!boundedAt(k)) return false;
  return true;
}

SCENARIO("huge-size", 1) {
  faults.disarm();
  Opts o;
  o.depth = s.range(1, 3, "depth");
  o.throwing = s.chance(1, 6, "throwing");
  Spec spec = genSpec(s, o);
  for (int i = 0; i < 20 && !boundedAt(spec); i++) spec = genSpec(s, o);
  if (!boundedAt(spec)) { spec = Spec(); spec.kind = KInt; }
  s.probe("huge-size");
  static const std::vector<int> sizes{std::numeric_limits<int>::max(), std::numeric_limits<int>::max() - 1, std::numeric_limits<int>::max() - 50, 33554431, 33554432, 33554433, 67108864, 100000, 1000000000, 2000, 46341, 268435456, 134217728, 1431655766};
  drive(s, spec, s.pick(sizes, "size"));
}

// Combinators that need many tries, over inners with few distinct values.
SCENARIO("bad-inner", 3) {
  faults.disarm();
  Spec inner;
  switch (s.choose(6, "inner")) {
  case 0: inner.kind = KBool; break;
  case 1: inner.kind = KInRange; inner.t = 4; inner.a = 0; inner.b = 1 + s.choose(6, "domain"); break;
  case 2: inner.kind = KJust; inner.a = s.choose(5); break;
  case 3: inner.kind = KElement; inner.a = 3; break;
  case 4: { Spec x; x.kind = KInt; x.t = 4; inner.kind = KResize; inner.a = s.choose(4); inner.kids.push_back(x); break; }
  default: { Opts o; o.depth = 1; o.throwing = s.chance(1, 2); inner = genSpec(s, o); break; }
  }
  Spec r;
  static const std::vector<int> kinds{KSetContainer, KUnique, KMapContainer, KSuchThat, KDistinct, KNonEmpty};
  r.kind = s.pick(kinds, "kind");
  r.seed = s.choose(1000, "seed");
  r.t = s.choose(r.kind == KUnique ? 2 : 4, "variant");
  r.a = s.chance(1, 4) ? -1 : static_cast<int>(s.choose(8, "count"));
  r.b = r.kind == KSuchThat ? s.pick(std::vector<int>{0, 1, 3, 50}) : static_cast<int>(s.choose(2));
  if (s.chance(1, 4, "throws")) { r.throwMod = 2 + s.choose(5, "throwMod"); r.throwKind = s.choose(NumThrowKinds, "throwKind"); }
  r.kids.push_back(inner);
  if (r.kind == KMapContainer) r.kids.push_back(s.chance(1, 2) ? r.kids[0] : Spec());
  int wrap = s.range(0, 2, "wrap");
  Spec top = r;
  for (int i = 0; i < wrap; i++) {
    Spec w;
    static const std::vector<int> wk{KSeqContainer, KMap, KMaybe, KOneOf, KTuple, KNoShrink, KLazy, KScale, KExec};
    w.kind = s.pick(wk, "wrapper");
    w.seed = 7;
    if (w.kind == KSeqContainer) w.a = 2;
    if (w.kind == KScale) w.a = s.choose(17);
    if (w.kind == KExec) w.a = 1;
    w.kids.push_back(top);
    if (w.kind == KOneOf) w.kids.push_back(Spec());
    top = w;
  }
  drive(s, top, s.pick(std::vector<int>{3, 0, 1, 2, 10, 30}, "size"));
}

// Patience: an inner that offers a usable value within 40 tries, for every
// element anew, is never given up on, however many elements there are.
struct Script {
  int dull = 0;      // tries until the next usable value
  int calls = 0, next = 0, usable = 0;
  std::uint32_t salt = 0;
  int span = 1;
  int draw() {
    calls++;
    if (calls <= dull) return -1;
    calls = 0;
    usable++;
    dull = static_cast<int>(mix(salt, static_cast<std::uint64_t>(usable)) % static_cast<std::uint64_t>(span));
    return next++;
  }
};

SCENARIO("patience", 1) {
  faults.disarm();
  auto sc = std::make_shared<Script>();
  sc->salt = s.choose(1000, "salt");
  sc->span = 1 + static_cast<int>(s.choose(40, "span"));
  int count = s.range(1, 40, "count"), size = s.range(0, 100, "size");
  auto kind = s.choose(7, "kind");
  // -1 is the value that is already there (or refused)
  rc::Gen<int> inner([sc](const Random &, int) { return rc::shrinkable::just(sc->draw()); });
  auto n = static_cast<std::size_t>(count);
  Random r(s.choose(1000, "seed"));
  static const char *names[] = {"set", "map", "unordered_set", "uniqueBy", "vector of suchThat", "vector of distinctFrom", "unordered_map"};
  s.fault("rejecting-inner");
  s.log(cat(names[kind], " of ", count, " at size ", size, ", up to ", sc->span - 1, " rejections each"));
  s.sig(mix(kind, static_cast<std::uint64_t>(count)));
  s.sig(static_cast<std::uint64_t>(sc->span));
  std::size_t got = 0;
  try {
    switch (kind) {
    case 0: got = rc::gen::container<std::set<int>>(n, inner)(r, size).value().size(); break;
    case 1: got = rc::gen::container<std::map<int, int>>(n, inner, rc::gen::just(0))(r, size).value().size(); break;
    case 2: got = rc::gen::container<std::unordered_set<int>>(n, inner)(r, size).value().size(); break;
    case 3: got = rc::gen::uniqueBy<std::vector<int>>(n, inner, [](int x) { return x; })(r, size).value().size(); break;
    case 4: got = rc::gen::container<std::vector<int>>(n, rc::gen::suchThat(inner, [](int x) { return x >= 0; }))(r, size).value().size(); break;
    case 5: got = rc::gen::container<std::vector<int>>(n, rc::gen::distinctFrom(inner, -1))(r, size).value().size(); break;
    default: got = rc::gen::container<std::unordered_map<int, int>>(n, inner, rc::gen::just(0))(r, size).value().size(); break;
    }
  } catch (const rc::GenerationFailure &e) {
    s.fail("gave-up-early", cat(names[kind], " of ", count, ": ", e.what(), " although at most ", sc->span - 1, " values in a row are refused (after ", sc->usable, " usable ones)"));
  }
  s.step();
  if (got != n) s.fail("contract-broken", cat(names[kind], " of ", count, " elements has ", got));
}

} // namespace
