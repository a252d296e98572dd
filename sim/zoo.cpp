#include "zoo.h"
#include <set>
using namespace sim;

namespace zoo {

const char *kindName[] = {"just", "int", "inRange", "bool", "real", "char", "str", "sign", "element", "elementOf", "sizedElement", "weightedElement", "duration", "withSize",
  "map", "mapcat", "join", "cast", "resize", "scale", "noShrink", "shrink", "lazy", "suchThat", "nonEmpty", "distinct", "maybe", "seqContainer", "setContainer", "unique", "array", "makeUnique", "makeShared", "nested",
  "apply", "exec", "construct", "build", "oneOf", "weightedOneOf", "sizedOneOf", "pair", "tuple", "mapContainer"};

std::function<void(const char *)> hook;
long liveCanaries = 0;
thread_local const Spec *arbitrarySpec = nullptr;

static const Spec defaultArg = [] { Spec s; s.kind = KInRange; s.t = 4; s.a = 0; s.b = 100; return s; }();

std::string Val::str() const {
  std::string r = std::to_string(n);
  if (!s.empty()) r += quote(s);
  if (!k.empty()) {
    r += "[";
    for (auto &x : k) r += x.str() + " ";
    r += "]";
  }
  return r;
}
std::uint64_t Val::hash() const {
  std::uint64_t h = mix(static_cast<std::uint64_t>(tag), static_cast<std::uint64_t>(n));
  if (!s.empty()) h = mix(h, hashStr(s));
  for (auto &x : k) h = mix(h, x.hash());
  return h;
}
bool operator==(const Val &a, const Val &b) { return a.tag == b.tag && a.n == b.n && a.s == b.s && a.k == b.k; }
bool operator<(const Val &a, const Val &b) {
  if (a.tag != b.tag) return a.tag < b.tag;
  if (a.n != b.n) return a.n < b.n;
  if (a.s != b.s) return a.s < b.s;
  return std::lexicographical_compare(a.k.begin(), a.k.end(), b.k.begin(), b.k.end());
}
std::ostream &operator<<(std::ostream &os, const Val &v) { return os << v.str(); }
void showValue(const Val &v, std::ostream &os) { os << v.str(); }
bool operator==(const Outcome &a, const Outcome &b) { return a.ok == b.ok && a.what == b.what && a.v == b.v; }

std::string Spec::str() const {
  std::string r = kindName[kind];
  r += cat("(t", t, " a", a, " b", b, throwMod ? cat(" throw", throwMod) : std::string());
  for (auto &k : kids) r += " " + k.str();
  return r + ")";
}

bool predOf(const Spec &s, const Val &v) {
  if (s.b == 0) return false;                            // rejects everything
  return mix(s.seed, v.hash()) % static_cast<std::uint64_t>(s.b + 1) != 0; // b=1: half, b=3: 3/4 ...
}
long long mapOf(const Spec &s, const Val &v) { return static_cast<long long>(mix(s.seed, v.hash()) % 1000); }
long long keyOf(const Spec &s, const Val &v) { return static_cast<long long>(mix(s.seed, v.hash()) % 64); }

static const std::vector<std::pair<long long, long long>> kIntLimits = {
  {-128, 127}, {0, 255}, {-32768, 32767}, {0, 65535}, {-2147483648LL, 2147483647LL}, {0, 4294967295LL},
  {(-9223372036854775807LL - 1), 9223372036854775807LL}, {0, 0} /* uint64, see below */};

static Spec leaf(Sim &s, const Opts &o) {
  Spec r;
  static const std::vector<int> kinds{KInRange, KInt, KJust, KBool, KReal, KChar, KStr, KElement, KElementOf, KSizedElement, KWeightedElement, KDuration, KWithSize, KSign};
  r.kind = s.pick(kinds, "leaf");
  if (r.kind == KSign && !o.rejects) r.kind = KInt;
  r.seed = s.choose(1000, "seed");
  switch (r.kind) {
  case KJust: r.a = s.choose(20); break;
  case KInt: case KSign: r.t = s.choose(8, "int-type"); r.a = s.choose(4); break;
  case KInRange: {
    r.t = s.choose(8, "int-type");
    if (s.chance(1, 3, "extreme")) {
      auto l = kIntLimits[r.t];
      if (r.t == 7) { r.a = 0; r.b = -1; /* all of uint64 but its maximum */ }
      else {
        r.a = s.chance(1, 2) ? l.first : l.first / 2; r.b = s.chance(1, 2) ? l.second : l.second / 2;
        if (r.b <= r.a) r.b = l.second;
      }
    } else {
      r.a = s.choose(50); r.b = r.a + 1 + s.choose(60);
      if (r.t != 1 && r.t != 3 && r.t != 5 && r.t != 7 && s.chance(1, 3, "negative")) { r.a -= 60; r.b -= 60; if (r.b <= r.a) r.b = r.a + 1; }
    }
    if (o.rejects && s.chance(1, 30, "bad-range")) { r.b = r.a; }
    break;
  }
  case KReal: r.t = s.choose(4); break;
  case KDuration: r.t = s.choose(2); break;
  case KChar: r.t = s.choose(2); break;
  case KStr: r.t = s.choose(2); break;
  case KElement: case KElementOf: case KSizedElement: case KWeightedElement:
    r.t = s.choose(4);
    r.a = 1 + s.choose(9);
    if (o.rejects && s.chance(1, 30, "no-elements")) r.a = 0;
    r.b = s.choose(3); // weights variant
    break;
  default: break;
  }
  return r;
}

bool nesting1(const Spec &s) {
  return (s.kind == KSeqContainer || s.kind == KSetContainer || s.kind == KMapContainer || s.kind == KUnique) && s.a < 0;
}
int nesting(const Spec &s) {
  int n = 0;
  for (auto &k : s.kids) n = std::max(n, nesting(k));
  return n + nesting1(s);
}
int genSize(Sim &s, const Spec &sp) {
  int n = nesting(sp);
  if (n == 0) return s.pick(std::vector<int>{5, 0, 1, 2, 10, 20, 50, 99, 100, 101, 150}, "size");
  if (n == 1) return s.pick(std::vector<int>{3, 0, 1, 2, 5, 10, 20}, "size");
  return s.pick(std::vector<int>{2, 0, 1, 3, 5, 8}, "size");
}

Spec genSpec(Sim &s, const Opts &o) {
  if (o.depth <= 0 || s.chance(1, 5, "leaf")) return leaf(s, o);
  Spec r;
  Opts c = o;
  c.depth--;
  c.maxCount = std::max(2, o.maxCount - 2);
  r.kind = KMap + static_cast<int>(s.choose(NumKinds - KMap, "kind"));
  if (r.kind == KExec && !o.exec) r.kind = KApply;
  bool rejecting = r.kind == KSuchThat || r.kind == KNonEmpty || r.kind == KDistinct || r.kind == KUnique || r.kind == KSetContainer || r.kind == KMapContainer;
  if (rejecting && !o.rejects) r.kind = KSeqContainer;
  r.seed = s.choose(1000, "seed");
  if (o.throwing && s.chance(1, 5, "throws")) { r.throwMod = 2 + s.choose(8, "throwMod"); r.throwKind = s.choose(NumThrowKinds, "throwKind"); }
  int kids = 1;
  switch (r.kind) {
  case KSuchThat:
    r.b = s.pick(std::vector<int>{3, 1, 7, 20}, "pred");
    if (s.chance(1, 10, "reject-all")) r.b = 0;
    c.rejects = r.b != 0;
    break;
  case KResize: r.a = s.choose(30, "size"); break;
  case KScale: r.a = s.choose(16, "scale"); break; // a/8
  case KSeqContainer: r.t = s.choose(4); r.a = s.chance(1, 2) ? static_cast<int>(s.choose(o.maxCount + 1)) : -1; break;
  case KSetContainer: r.t = s.choose(4); r.a = s.chance(1, 2) ? static_cast<int>(s.choose(o.maxCount)) : -1; break;
  case KMapContainer: r.t = s.choose(4); r.a = s.chance(1, 2) ? static_cast<int>(s.choose(o.maxCount)) : -1; kids = 2; break;
  case KUnique: r.t = s.choose(2); r.b = s.choose(2); r.a = s.chance(1, 2) ? static_cast<int>(s.choose(o.maxCount)) : -1; break;
  case KMakeUnique: case KMakeShared: kids = 1; break;
  case KMaybe: r.t = s.choose(2); break;
  case KArray: r.t = s.choose(2); break;
  case KNested: r.a = 1 + s.choose(3); break;
  case KApply: case KConstruct: case KOneOf: case KWeightedOneOf: case KSizedOneOf: kids = 2 + static_cast<int>(s.choose(2)); r.b = s.choose(3); break;
  case KBuild: kids = 3; break;
  case KPair: kids = 2; break;
  case KTuple: kids = 1 + static_cast<int>(s.choose(3)); break;
  case KExec: kids = 1 + static_cast<int>(s.choose(2)); r.a = s.choose(3); break;
  default: break;
  }
  // keep the cost of nested containers in check
  if (r.kind == KSeqContainer || r.kind == KSetContainer || r.kind == KMapContainer || r.kind == KUnique || r.kind == KArray || r.kind == KNested)
    c.depth = std::min(c.depth, o.heavy ? 1 : 0);
  if (r.kind == KShrink) {
    Spec x;
    x.kind = KInRange; x.t = 4; x.a = s.choose(20); x.b = x.a + 1 + s.choose(200);
    r.kids.push_back(x);
    return r;
  }
  for (int i = 0; i < kids; i++) r.kids.push_back(genSpec(s, c));
  if (r.kind == KResize && nesting(r) > 0) r.a = r.a % (nesting(r) > 1 ? 6 : 13);
  return r;
}

rc::Gen<Val> build(const Spec &spec) {
  const Spec &sp = spec;
  if (sp.kind <= KWithSize) return buildA(sp);
  switch (sp.kind) {
  case KSeqContainer: case KSetContainer: case KUnique: case KArray: case KMapContainer: return buildC(sp);
  default: return buildB(sp);
  }
}

// ---- contracts --------------------------------------------------------------


std::string violated(const Spec &sp, const Val &v, int size) {
  auto bad = [&](const std::string &m) { return cat(kindName[sp.kind], ": ", m, " in ", v.str().substr(0, 300), " of ", sp.str()); };
  auto kid = [&](std::size_t i, const Val &x, int sz) { return violated(sp.kids[i], x, sz); };
  if (v.tag != 100 + sp.kind && sp.kind != KJoin && sp.kind != KResize && sp.kind != KScale && sp.kind != KNoShrink && sp.kind != KShrink && sp.kind != KLazy && sp.kind != KSuchThat &&
      sp.kind != KNonEmpty && sp.kind != KDistinct && sp.kind != KOneOf && sp.kind != KWeightedOneOf && sp.kind != KSizedOneOf)
    return bad(cat("value of another generator, tag ", v.tag));
  switch (sp.kind) {
  case KJust: if (v.n != sp.a) return bad("not the constant"); break;
  case KInt: break;
  case KInRange:
    if (sp.t == 7) {
      auto x = static_cast<std::uint64_t>(v.n), lo = static_cast<std::uint64_t>(sp.a), hi = static_cast<std::uint64_t>(sp.b);
      if (x < lo || x >= hi) return bad("out of range");
    } else if (v.n < sp.a || v.n >= sp.b) return bad("out of range");
    if (size == 0 && v.n != sp.a) return bad("not the minimum at size 0");
    break;
  case KBool: if (v.n != 0 && v.n != 1) return bad("not a bool"); break;
  case KReal: break;
  case KChar: if (sp.t == 0 && v.n == 0) return bad("null character"); break;
  case KStr:
    if (sp.t == 0 && v.s.find('\0') != std::string::npos) return bad("null character");
    if (size >= 0 && static_cast<int>(v.s.size()) > size * (sp.t == 0 ? 1 : 4)) return bad(cat("longer than size ", size));
    break;
  case KSign: {
    // a: 0 positive 1 negative 2 nonNegative 3 nonZero; unsigned types never generate negatives
    bool uns = sp.t == 1 || sp.t == 3 || sp.t == 5 || sp.t == 7;
    bool pos = sp.t == 7 ? v.n != 0 : v.n > 0;
    if (sp.a == 0 && !pos) return bad("not positive");
    if (sp.a == 1 && (uns || v.n >= 0)) return bad("not negative");
    if (sp.a == 2 && !uns && v.n < 0) return bad("negative");
    if (sp.a == 3 && v.n == 0) return bad("zero");
    break;
  }
  case KElement: case KElementOf: if (v.n < 0 || v.n >= (sp.kind == KElement ? 3 : sp.a)) return bad("not one of the elements"); break;
  case KSizedElement:
    if (v.n < 0 || v.n >= sp.a) return bad("not one of the elements");
    if (size == 0 && v.n != 0) return bad("not the first element at size 0");
    break;
  case KWeightedElement:
    if (v.n < 0 || v.n >= 3) return bad("not one of the elements");
    if ((sp.b == 1 && v.n == 1) || (sp.b == 2 && v.n != 2)) return bad("element of weight 0");
    break;
  case KDuration: break;
  case KWithSize:
    if (size >= 0 && v.n != size) return bad(cat("callable got size ", v.n, " instead of ", size));
    break;
  case KMap: case KCast:
    if (v.k.size() != 1) return bad("shape");
    if (v.n != mapOf(sp, v.k[0])) return bad("mapper not applied");
    return kid(0, v.k[0], size);
  case KMapcat:
    if (v.k.size() != 2) return bad("shape");
    if (v.k[1].n < 0 || v.k[1].n >= 1 + static_cast<long long>(v.k[0].hash() % 20)) return bad("inner generator does not match the outer value");
    return kid(0, v.k[0], size);
  case KJoin: case KOneOf: case KWeightedOneOf: case KSizedOneOf: {
    std::string first;
    for (std::size_t i = 0; i < sp.kids.size(); i++) {
      if (sp.kind == KWeightedOneOf && sp.b == 1 && i == 0) continue; // weight 0
      auto e = kid(i, v, size);
      if (e.empty()) return "";
      if (first.empty()) first = e;
    }
    return bad("no alternative yields this value (" + first + ")");
  }
  case KResize: return kid(0, v, static_cast<int>(sp.a));
  case KScale: return kid(0, v, size < 0 ? -1 : static_cast<int>(std::min(2147483647.0, size * (static_cast<double>(sp.a) / 8.0))));
  case KNoShrink: case KShrink: case KLazy: return kid(0, v, size);
  case KSuchThat: if (!predOf(sp, v)) return bad("predicate does not hold"); return kid(0, v, -1);
  case KNonEmpty: if (v.empty()) return bad("empty"); return kid(0, v, -1);
  case KDistinct: if (v.hash() % 8 == sp.seed % 8) return bad("equal to the excluded value"); return kid(0, v, -1);
  case KMaybe: if (v.n == 0) return v.k.empty() ? "" : bad("shape"); return kid(0, v.k[0], size);
  case KSeqContainer: case KSetContainer: case KUnique: case KArray: {
    long long want = sp.kind == KArray ? 3 : sp.a;
    if (want >= 0 && static_cast<long long>(v.k.size()) != want) return bad(cat("size ", v.k.size(), ", requested ", want));
    if (want < 0 && size >= 0 && static_cast<int>(v.k.size()) > size) return bad(cat("more elements than size ", size));
    bool uniq = sp.kind == KUnique || (sp.kind == KSetContainer && sp.t < 2);
    for (std::size_t i = 0; i < v.k.size(); i++) {
      auto e = kid(0, v.k[i], sp.kind == KUnique || uniq ? -1 : size);
      if (!e.empty()) return e;
    }
    if (uniq) {
      std::set<Val> seen;
      std::set<long long> keys;
      for (auto &x : v.k) {
        if (sp.kind == KUnique && sp.b == 1) { if (!keys.insert(keyOf(sp, x)).second) return bad("elements with the same key"); }
        else if (!seen.insert(x).second) return bad("repeated element");
      }
    }
    return "";
  }
  case KMapContainer: {
    if (sp.a >= 0 && static_cast<long long>(v.k.size()) != sp.a) return bad(cat("size ", v.k.size(), ", requested ", sp.a));
    if (sp.a < 0 && size >= 0 && static_cast<int>(v.k.size()) > size) return bad(cat("more elements than size ", size));
    std::set<Val> seen;
    for (auto &x : v.k) {
      if (x.k.size() != 2) return bad("shape");
      auto e = kid(0, x.k[0], sp.t < 2 ? -1 : size);
      if (e.empty()) e = kid(1, x.k[1], size);
      if (!e.empty()) return e;
      if (sp.t < 2 && !seen.insert(x.k[0]).second) return bad("repeated key");
    }
    return "";
  }
  case KMakeUnique: case KMakeShared: if (v.k.size() != 1) return bad("shape"); return kid(0, v.k[0], size);
  case KNested: { // tree: n = depth left
    std::function<std::string(const Val &, long long)> rec = [&](const Val &x, long long d) -> std::string {
      if (x.tag != 100 + KNested) return bad("shape");
      if (x.n == 0) return x.k.size() == 1 ? kid(0, x.k[0], size) : bad("shape");
      if (x.n != d || x.k.size() != 2) return bad("deeper than the recursion bound or wrong number of children");
      for (auto &y : x.k) { auto e = rec(y, d - 1); if (!e.empty()) return e; }
      return "";
    };
    return rec(v, sp.a);
  }
  case KApply: case KConstruct: case KTuple: case KPair: case KBuild: {
    if (v.k.size() != sp.kids.size()) return bad("shape");
    if (sp.kind == KApply) { long long m = 0; for (auto &x : v.k) m += mapOf(sp, x); if (m != v.n) return bad("callable not applied"); }
    for (std::size_t i = 0; i < v.k.size(); i++) { auto e = kid(i, v.k[i], size); if (!e.empty()) return e; }
    return "";
  }
  case KExec: { // k[0] = count, then picks
    if (v.k.empty()) return bad("shape");
    long long cnt = v.k[0].n;
    if (cnt < 0 || cnt > sp.a || static_cast<long long>(v.k.size()) != 1 + cnt + static_cast<long long>(sp.kids.size()) - 1) return bad("picks do not match the drawn count");
    std::size_t i = 1;
    for (; i <= static_cast<std::size_t>(cnt); i++) { auto e = kid(0, v.k[i], size); if (!e.empty()) return e; }
    for (std::size_t j = 1; j < sp.kids.size(); j++, i++) { auto e = kid(j, v.k[i], size); if (!e.empty()) return e; }
    return "";
  }
  }
  return "";
}

bool canReject(const Spec &s) {
  switch (s.kind) {
  case KSign: return s.a == 1 && (s.t == 1 || s.t == 3 || s.t == 5 || s.t == 7); // negatives of an unsigned type
  case KInRange: if (s.t == 7 ? static_cast<std::uint64_t>(s.b) <= static_cast<std::uint64_t>(s.a) : s.b <= s.a) return true; break;
  case KElementOf: case KSizedElement: if (s.a == 0) return true; break;
  case KSuchThat: case KNonEmpty: case KDistinct: return true;
  case KUnique: if (s.a < 0 || s.a > 1) return true; break;
  case KSetContainer: case KMapContainer: if (s.t < 2 && (s.a < 0 || s.a > 1)) return true; break;
  default: break;
  }
  for (auto &k : s.kids) if (canReject(k)) return true;
  return false;
}
bool canRepeat(const Spec &s) {
  if (s.kind == KJoin || s.kind == KSizedOneOf) return true; // the shrunk choice may yield the same value
  for (auto &k : s.kids) if (canRepeat(k)) return true;
  return false;
}
bool canThrow(const Spec &s) {
  if (s.throwMod) return true;
  for (auto &k : s.kids) if (canThrow(k)) return true;
  return false;
}
bool neverShrinks(const Spec &s) { return s.kind == KNoShrink || s.kind == KJust || s.kind == KElement || s.kind == KElementOf || s.kind == KWeightedElement; }

} // namespace zoo
