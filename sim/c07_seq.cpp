// C07: lazy sequences under interleaved consumers, copies and throwing callbacks.
#include <algorithm>
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <set>
#include "rapidcheck.h"
#include "rapidcheck/seq/Create.h"
#include "rapidcheck/seq/Operations.h"
#include "rapidcheck/seq/SeqIterator.h"
#include "rapidcheck/seq/Transform.h"
#include "payload.h"

using namespace sim;
using rc::Seq;
using rc::Maybe;
namespace seq = rc::seq;

namespace {

enum Kind {
  KEmpty, KJust, KVec, KDeque, KList, KSet, KIterRange, KRange, KSubranges, KIndex, KRepeat, KIterate, // sources
  KDrop, KTake, KDropWhile, KTakeWhile, KMap, KFilter, KMapcat, KMapMaybe, KCast, KCycle,              // unary
  KConcat, KZip, KJoin,                                                                               // n-ary
  NumKinds
};
const char *kindName[] = {"empty","just","vec","deque","list","set","iterrange","range","subranges","index","repeat","iterate",
  "drop","take","dropWhile","takeWhile","map","filter","mapcat","mapMaybe","cast","cycle","concat","zip","join"};

struct Spec {
  int kind = KEmpty;
  std::vector<int> vals;
  int a = 0, b = 0;
  std::uint32_t seed = 0;
  int throwMod = 0; // callback throws (purely) when mix(seed,v)%throwMod==1
  std::vector<Spec> kids;
  std::string str() const {
    std::string r = kindName[kind];
    r += "(";
    for (auto v : vals) r += std::to_string(v) + " ";
    r += cat("a", a, " b", b, throwMod ? " T" : "");
    for (auto &k : kids) r += " " + k.str();
    return r + ")";
  }
  bool usesCallback() const { return kind == KDropWhile || kind == KTakeWhile || kind == KMap || kind == KFilter || kind == KMapcat || kind == KMapMaybe || kind == KZip || kind == KIterate; }
};

// ---- reference model: plain lists -----------------------------------------
const std::size_t kLim = 400; // elements of "infinite" lists kept by the model
struct Invalid {};
// With transient faults a piece may end early, so what follows an infinite piece
// is reachable although the model says otherwise: keep such specs out.
bool noInfPrefix = false;
struct L {
  std::vector<int> v;
  bool inf = false; // list continues beyond kLim
};
bool pureThrow(const Spec &s, int v) { return s.throwMod && mix(s.seed + 77, v) % s.throwMod == 1; }
bool predOf(const Spec &s, int v) { return mix(s.seed, v) % 3 != 0; }
int mapOf(const Spec &s, int v) { return static_cast<int>(mix(s.seed, v) % 97); }
int zipOf(const Spec &s, int x, int y) { return static_cast<int>(mix(s.seed, mix(x, y)) % 97); }
int iterOf(const Spec &s, int v) { return (v * 3 + s.a + 1) % 101; }
int innerLen(const Spec &s, int v) { return static_cast<int>(mix(s.seed + 5, v) % 4); }

L model(const Spec &s) {
  L r;
  auto cap = [&] { if (r.v.size() > kLim) { r.v.resize(kLim); r.inf = true; } };
  switch (s.kind) {
  case KEmpty: break;
  case KJust: case KVec: case KDeque: case KList: case KIterRange: r.v = s.vals; break;
  case KSet: { std::set<int> t(s.vals.begin(), s.vals.end()); r.v.assign(t.begin(), t.end()); break; }
  case KRange: if (s.a <= s.b) for (int i = s.a; i < s.b; i++) r.v.push_back(i); else for (int i = s.a; i > s.b; i--) r.v.push_back(i); break;
  case KSubranges:
    for (int len = s.b - s.a; len > 0; len--)
      for (int st = s.a; st + len <= s.b; st++) r.v.push_back(st * 50 + st + len);
    break;
  case KIndex: for (std::size_t i = 0; i < kLim; i++) r.v.push_back(static_cast<int>(i)); r.inf = true; break;
  case KRepeat: r.v.assign(kLim, s.a); r.inf = true; break;
  case KIterate: { int x = s.b; for (std::size_t i = 0; i < kLim; i++) { r.v.push_back(x); if (pureThrow(s, x)) return r; x = iterOf(s, x); } r.inf = true; break; }
  case KDrop: { auto k = model(s.kids[0]); if (s.a < (int)k.v.size()) r.v.assign(k.v.begin() + s.a, k.v.end()); r.inf = k.inf; break; }
  case KTake: { auto k = model(s.kids[0]); r.v = k.v; if ((int)r.v.size() > s.a) r.v.resize(s.a); else if (k.inf) throw Invalid(); break; }
  case KDropWhile: { auto k = model(s.kids[0]); if (k.inf && noInfPrefix) throw Invalid(); std::size_t i = 0; for (; i < k.v.size(); i++) { if (pureThrow(s, k.v[i])) return r; if (!predOf(s, k.v[i])) break; }
    if (i == k.v.size() && k.inf) throw Invalid(); r.v.assign(k.v.begin() + i, k.v.end()); r.inf = k.inf; break; }
  case KTakeWhile: { auto k = model(s.kids[0]); for (int x : k.v) { if (pureThrow(s, x) || !predOf(s, x)) return r; r.v.push_back(x); } r.inf = k.inf; break; }
  case KMap: { auto k = model(s.kids[0]); for (int x : k.v) { if (pureThrow(s, x)) return r; r.v.push_back(mapOf(s, x)); } r.inf = k.inf; break; }
  case KCast: return model(s.kids[0]);
  case KFilter: { auto k = model(s.kids[0]); if (k.inf && noInfPrefix) throw Invalid(); for (int x : k.v) { if (pureThrow(s, x)) return r; if (predOf(s, x)) r.v.push_back(x); }
    r.inf = k.inf; if (r.inf && r.v.size() < 60) throw Invalid(); break; }
  case KMapMaybe: { auto k = model(s.kids[0]); if (k.inf && noInfPrefix) throw Invalid(); for (int x : k.v) { if (pureThrow(s, x)) return r; if (predOf(s, x)) r.v.push_back(mapOf(s, x)); }
    r.inf = k.inf; if (r.inf && r.v.size() < 60) throw Invalid(); break; }
  case KMapcat: { auto k = model(s.kids[0]); if (k.inf && noInfPrefix) throw Invalid(); for (int x : k.v) { if (pureThrow(s, x)) return r; for (int i = 0; i < innerLen(s, x); i++) r.v.push_back(x + i); }
    r.inf = k.inf; if (r.inf && r.v.size() < 60) throw Invalid(); break; }
  case KCycle: { auto k = model(s.kids[0]); if (k.inf) return k; if (k.v.empty()) throw Invalid(); while (r.v.size() < kLim) r.v.insert(r.v.end(), k.v.begin(), k.v.end()); r.v.resize(kLim); r.inf = true; break; }
  case KConcat: case KJoin: for (auto &k : s.kids) { auto m = model(k); if (r.inf) { if (noInfPrefix) throw Invalid(); continue; } r.v.insert(r.v.end(), m.v.begin(), m.v.end()); r.inf = m.inf; } break;
  case KZip: { auto x = model(s.kids[0]), y = model(s.kids[1]); auto n = std::min(x.v.size(), y.v.size());
    for (std::size_t i = 0; i < n; i++) { if (pureThrow(s, x.v[i])) return r; r.v.push_back(zipOf(s, x.v[i], y.v[i])); }
    r.inf = (x.inf && x.v.size() == n) || (y.inf && y.v.size() == n); // conservative
    if (x.inf && !y.inf) r.inf = n == x.v.size(); if (y.inf && !x.inf) r.inf = n == y.v.size();
    break; }
  }
  cap();
  return r;
}

// ---- callbacks given to the library: they carry heap state ----------------
struct Cb {
  std::shared_ptr<std::string> tag; // heap state: dangling use shows up
  Spec s;
  explicit Cb(const Spec &sp) : tag(std::make_shared<std::string>(sp.str())) { s.kind = sp.kind; s.a = sp.a; s.b = sp.b; s.seed = sp.seed; s.throwMod = sp.throwMod; }
  void enter(int v, const char *w) const {
    if (tag->empty()) current->fail("dead-object", "callback state destroyed");
    faults.point(w);
    if (pureThrow(s, v)) { current->fault("pure-throw"); throwKind(v & 3, "pure"); }
  }
  static int in(const Elem &e) {
    if (!e.intact()) current->fail("corrupt-element", cat("a callback received a moved-from or corrupted element ", e.v));
    return e.v;
  }
};
struct MapCb : Cb { using Cb::Cb; Elem operator()(const Elem &e) const { int v = in(e); enter(v, "map"); return Elem(mapOf(s, v)); } };
struct PredCb : Cb { using Cb::Cb; bool operator()(const Elem &e) const { int v = in(e); enter(v, "pred"); return predOf(s, v); } };
struct ZipCb : Cb { using Cb::Cb; Elem operator()(const Elem &a, const Elem &b) const { int x = in(a), y = in(b); enter(x, "zip"); return Elem(zipOf(s, x, y)); } };
struct IterCb : Cb { using Cb::Cb; Elem operator()(const Elem &e) const { int v = in(e); enter(v, "iterate"); return Elem(iterOf(s, v)); } };
struct MapMaybeCb : Cb { using Cb::Cb; Maybe<Elem> operator()(const Elem &e) const { int v = in(e); enter(v, "mapMaybe"); if (!predOf(s, v)) return rc::Nothing; return Elem(mapOf(s, v)); } };
struct InnerCb { int base; std::shared_ptr<std::string> tag; Elem operator()(int i) const { if (tag->empty()) std::abort(); return Elem(base + i); } };
struct MapcatCb : Cb { using Cb::Cb; Seq<Elem> operator()(const Elem &e) const { int v = in(e); enter(v, "mapcat"); return seq::map(seq::range(0, innerLen(s, v)), InnerCb{v, std::make_shared<std::string>("inner")}); } };
struct ToElem { Elem operator()(int x) const { return Elem(x); } };

template <typename C> C toC(const std::vector<int> &v) { C c; for (int x : v) c.push_back(Elem(x)); return c; }

Seq<Elem> build(const Spec &s) {
  switch (s.kind) {
  case KEmpty: return s.a ? Seq<Elem>() : Seq<Elem>(rc::Nothing);
  case KJust:
    if (s.vals.size() == 1) return seq::just(Elem(s.vals[0]));
    if (s.vals.size() == 2) return seq::just(Elem(s.vals[0]), Elem(s.vals[1]));
    return seq::just(Elem(s.vals[0]), Elem(s.vals[1]), Elem(s.vals[2]));
  case KVec: { auto c = toC<std::vector<Elem>>(s.vals); if (s.a) return seq::fromContainer(std::move(c)); return seq::fromContainer(c); }
  case KDeque: return seq::fromContainer(toC<std::deque<Elem>>(s.vals));
  case KList: { const auto c = toC<std::list<Elem>>(s.vals); return seq::fromContainer(c); }
  case KSet: { std::set<Elem> c; for (int x : s.vals) c.insert(Elem(x)); return seq::fromContainer(c); }
  case KIterRange: { auto c = toC<std::list<Elem>>(s.vals); return seq::fromIteratorRange(c.begin(), c.end()); }
  case KRange: return seq::map(seq::range(s.a, s.b), ToElem());
  case KSubranges: return seq::map(seq::subranges(s.a, s.b), [](const std::pair<std::size_t, std::size_t> &p) { return Elem(static_cast<int>(p.first * 50 + p.second)); });
  case KIndex: return seq::map(seq::index(), [](std::size_t i) { return Elem(static_cast<int>(i)); });
  case KRepeat: return seq::repeat(Elem(s.a));
  case KIterate: return seq::iterate(Elem(s.b), IterCb(s));
  case KDrop: return seq::drop(s.a, build(s.kids[0]));
  case KTake: return seq::take(s.a, build(s.kids[0]));
  case KDropWhile: return seq::dropWhile(build(s.kids[0]), PredCb(s));
  case KTakeWhile: return seq::takeWhile(build(s.kids[0]), PredCb(s));
  case KMap: { MapCb cb(s); if (s.a & 1) return seq::map(build(s.kids[0]), cb); return seq::map(build(s.kids[0]), std::move(cb)); }
  case KFilter: return seq::filter(build(s.kids[0]), PredCb(s));
  case KMapcat: return seq::mapcat(build(s.kids[0]), MapcatCb(s));
  case KMapMaybe: return seq::mapMaybe(build(s.kids[0]), MapMaybeCb(s));
  case KCast: { struct W { int v; explicit W(Elem &&e) : v(e.v) { if (!e.intact()) current->fail("corrupt-element", "cast got a moved-from element"); } };
    return seq::map(seq::cast<W>(build(s.kids[0])), [](W &&w) { return Elem(w.v); }); }
  case KCycle: return seq::cycle(build(s.kids[0]));
  case KConcat:
    if (s.kids.size() == 1) return seq::concat(build(s.kids[0]));
    if (s.kids.size() == 2) return seq::concat(build(s.kids[0]), build(s.kids[1]));
    return seq::concat(build(s.kids[0]), build(s.kids[1]), build(s.kids[2]));
  case KJoin: { std::vector<Seq<Elem>> v; for (auto &k : s.kids) v.push_back(build(k)); return seq::join(seq::fromContainer(std::move(v))); }
  case KZip: return seq::zipWith(ZipCb(s), build(s.kids[0]), build(s.kids[1]));
  }
  return Seq<Elem>();
}

Spec genSpec(Sim &s, int depth, bool pureFaults) {
  Spec r;
  r.kind = depth <= 0 ? s.choose(KIterate + 1, "kind") : s.choose(NumKinds, "kind");
  r.seed = s.choose(1000, "seed");
  r.a = s.choose(7, "a");
  r.b = s.choose(7, "b");
  if (pureFaults && s.chance(1, 4, "pure")) r.throwMod = 2 + s.choose(6, "mod");
  int n = 0;
  switch (r.kind) {
  case KJust: n = 1 + s.choose(3, "n"); break;
  case KVec: case KDeque: case KList: case KSet: case KIterRange: n = s.choose(7, "n"); break;
  case KSubranges: if (r.a > r.b) std::swap(r.a, r.b); break;
  default: break;
  }
  for (int i = 0; i < n; i++) r.vals.push_back(s.choose(12, "val"));
  int kids = 0;
  if (r.kind >= KDrop && r.kind <= KCycle) kids = 1;
  if (r.kind == KConcat || r.kind == KJoin) kids = 1 + s.choose(3, "kids");
  if (r.kind == KZip) kids = 2;
  for (int i = 0; i < kids; i++) r.kids.push_back(genSpec(s, depth - 1, pureFaults));
  return r;
}

bool anyInf(const Spec &s) {
  if (s.kind == KIndex || s.kind == KRepeat || s.kind == KIterate || s.kind == KCycle) return true;
  for (auto &k : s.kids) if (anyInf(k)) return true;
  return false;
}

struct Handle {
  Seq<Elem> seq;
  std::size_t pos = 0;
  bool ended = false;
  bool tainted = false; // a transient fault hit this very handle
};

} // namespace

SCENARIO("consumers", 10) {
  const bool pureFaults = s.chance(1, 2, "pureFaults");
  const bool transient = s.chance(1, 3, "transient");
  noInfPrefix = transient;
  Spec spec;
  L ref;
  bool ok = false;
  for (int i = 0; i < 5 && !ok; i++) {
    spec = genSpec(s, 1 + s.choose(4, "depth"), pureFaults);
    try { ref = model(spec); ok = true; } catch (const Invalid &) {}
  }
  if (!ok) { spec = Spec(); ref = L(); }
  s.log("spec " + spec.str());
  s.sig(spec.str().c_str());
  if (ref.inf) s.probe("infinite");
  const std::size_t maxPos = ref.inf ? std::min<std::size_t>(80, ref.v.size() - 10) : ref.v.size();
  const long live0 = Elem::live;
  {
    faults = FaultPlan();
    Elem::copyFaults = false;
    const auto callsBefore = faults.calls;
    std::vector<std::unique_ptr<Handle>> hs;
    hs.emplace_back(new Handle{build(spec)});
    // Building must not evaluate elements.
    s.check(faults.calls == callsBefore, "eager", [&] { return "constructing a sequence evaluated elements: " + spec.str(); });

    std::uint32_t starve = 0; // the allocation that fails in the next operation
    auto doNext = [&](Handle &h) {
      const auto fired = faults.fired + memory.failed;
      Maybe<Elem> m = [&] { OutOfMemory oom(starve); starve = 0; return h.seq.next(); }();
      const bool hit = faults.fired + memory.failed != fired;
      if (hit) h.tainted = true;
      if (h.tainted) {
        s.log(cat("next tainted -> ", m ? "some" : "end"));
        if (m && !m->intact()) s.fail("corrupt-element", "sequence delivered a moved-from element");
        return;
      }
      if (h.pos < ref.v.size()) {
        if (h.ended) s.fail("model", "harness");
        if (!m) s.fail("seq-short", cat("sequence ended at ", h.pos, " but the list has ", ref.v.size(), ref.inf ? "+" : "", " elements: ", spec.str()));
        if (!m->intact()) s.fail("corrupt-element", cat("sequence delivered a moved-from element at ", h.pos, ": ", spec.str()));
        if (m->v != ref.v[h.pos]) s.fail("seq-value", cat("element ", h.pos, " is ", m->v, " expected ", ref.v[h.pos], ": ", spec.str()));
        s.log(cat("next ", h.pos, "=", m->v));
        h.pos++;
      } else {
        if (m) s.fail("seq-long", cat("sequence yields ", m->v, " after its end (", ref.v.size(), " elements): ", spec.str()));
        h.ended = true;
        s.log("next end");
      }
    };

    const int ops = 4 + s.choose(40, "ops");
    for (int i = 0; i < ops && !hs.empty(); i++) {
      if (transient && s.chance(1, 6, "arm")) {
        faults.arm(s, 6);
        Elem::copyFaults = s.chance(1, 2, "copyFaults");
      }
      auto &h = *hs[s.choose(hs.size(), "handle")];
      const int op = s.choose(17, "op");
      s.sig(op);
      const auto fired = faults.fired + memory.failed;
      starve = transient && s.chance(1, 6, "no-memory") ? 1 + s.choose(10, "fault.memory") : 0;
      try {
        switch (op) {
        case 0: case 1: case 2: case 3:
          if (h.pos < maxPos || !ref.inf) doNext(h);
          break;
        case 4: { // burst
          int n = 1 + s.choose(8, "burst");
          for (int j = 0; j < n && (h.pos < maxPos || !ref.inf); j++) doNext(h);
          break;
        }
        case 5: case 6: // copy construct
          if (hs.size() < 6) {
            std::unique_ptr<Handle> c;
            { OutOfMemory oom(starve); c.reset(new Handle{h.seq, h.pos, h.ended, h.tainted}); }
            s.log("copy");
            s.nontrivial();
            hs.push_back(std::move(c));
          }
          break;
        case 7: { // copy assign
          auto &o = *hs[s.choose(hs.size(), "other")];
          s.log("assign");
          { OutOfMemory oom(starve); o.seq = h.seq; }
          o.pos = h.pos; o.ended = h.ended; o.tainted = h.tainted;
          break;
        }
        case 8: { // move construct + move assign back into a fresh handle
          s.log("move");
          OutOfMemory oom(starve);
          Seq<Elem> t(std::move(h.seq));
          h.seq = std::move(t);
          break;
        }
        case 9: // assign from empty / fresh
          s.log("assign-empty-then-copy");
          {
            Seq<Elem> t;
            Seq<Elem> e;
            t = e;
            Maybe<Elem> m = t.next();
            if (m) s.fail("seq-long", "an empty sequence yielded an element");
            t = h.seq;
            h.seq = t;
          }
          break;
        case 10: // drop
          if (hs.size() > 1) {
            auto k = s.choose(hs.size(), "drop");
            s.log("drop");
            hs.erase(hs.begin() + k);
          }
          break;
        case 11: { // rebuild from scratch
          s.log("rebuild");
          std::unique_ptr<Handle> c;
          { OutOfMemory oom(starve); c.reset(new Handle{build(spec)}); }
          if (hs.size() < 6) hs.push_back(std::move(c));
          break;
        }
        case 12: { // operations on a copy; must agree with the list and not affect h
          if (ref.inf || h.tainted) break;
          const bool save = faults.armed; faults.armed = false;
          std::vector<int> rest(ref.v.begin() + h.pos, ref.v.end());
          auto bad = [&](const char *w) { s.fail("seq-operation", cat(w, " disagrees with the list: ", spec.str(), " at ", h.pos)); };
          switch (s.choose(9, "oper")) {
          case 0: if (seq::length(h.seq) != rest.size()) bad("length"); break;
          case 1: { auto l = seq::last(h.seq); if (!!l != !rest.empty() || (l && l->v != rest.back())) bad("last"); break; }
          case 2: { int q = s.choose(12, "q"); if (seq::contains(h.seq, Elem(q)) != (std::find(rest.begin(), rest.end(), q) != rest.end())) bad("contains"); break; }
          case 3: { auto p = [](const Elem &e) { return e.v % 5 != 4; }; bool a = true, n = false; for (int x : rest) { a &= x % 5 != 4; n |= x % 5 != 4; }
            if (seq::all(h.seq, p) != a) bad("all"); if (seq::any(h.seq, p) != n) bad("any"); break; }
          case 4: { std::size_t k = s.choose(10, "k"); auto m = seq::at(h.seq, k); if (!!m != (k < rest.size()) || (m && m->v != rest[k])) bad("at"); break; }
          case 5: { std::vector<int> g; seq::forEach(h.seq, [&](Elem &&e) { g.push_back(e.v); }); if (g != rest) bad("forEach"); break; }
          case 6: { if (!(h.seq == seq::fromContainer(toC<std::vector<Elem>>(rest)))) bad("=="); auto d = rest; d.push_back(3); if (h.seq == seq::fromContainer(toC<std::vector<Elem>>(d))) bad("== longer"); if (!(h.seq != seq::fromContainer(toC<std::vector<Elem>>(d)))) bad("!="); break; }
          case 7: { std::vector<int> g; using std::begin; using std::end; auto e = rc::end(h.seq); for (auto it = rc::begin(h.seq); it != e; it++) g.push_back((*it).v); if (g != rest) bad("iterator"); break; }
          case 8: { std::ostringstream os; os << h.seq; std::string x = "["; for (std::size_t j = 0; j < rest.size(); j++) x += cat(j ? ", " : "", "E", rest[j]); x += "]"; if (os.str() != x) bad("<<"); break; }
          }
          faults.armed = save;
          s.log("operation");
          break;
        }
        case 13: { // use as an input of a further combinator, consumed apart
          if (ref.inf || h.tainted) break;
          const bool save = faults.armed; faults.armed = false;
          auto c = seq::concat(h.seq, h.seq);
          std::vector<int> rest(ref.v.begin() + h.pos, ref.v.end()), g;
          auto n = rest.size();
          rest.insert(rest.end(), rest.begin(), rest.begin() + n);
          while (auto m = c.next()) { if (!m->intact()) s.fail("corrupt-element", "moved-from"); g.push_back(m->v); }
          if (g != rest) s.fail("seq-operation", cat("concat(x,x) disagrees: ", spec.str()));
          faults.armed = save;
          break;
        }
        case 14: { // self assignment
          Seq<Elem> &r = h.seq;
          h.seq = r;
          s.log("self-assign");
          break;
        }
        case 15: { // infinite use: zip with index
          if (h.tainted) break;
          const bool save = faults.armed; faults.armed = false;
          auto z = seq::take(5, seq::zipWith([](Elem &&e, std::size_t i) { return e.v * 1000 + static_cast<int>(i); }, h.seq, seq::index()));
          std::size_t k = 0;
          while (auto m = z.next()) {
            if (h.pos + k >= ref.v.size() || *m != ref.v[h.pos + k] * 1000 + static_cast<int>(k)) s.fail("seq-operation", cat("zip with index disagrees: ", spec.str()));
            k++;
          }
          if (k != std::min<std::size_t>(5, ref.v.size() - h.pos)) s.fail("seq-operation", cat("zip with index has the wrong length: ", spec.str()));
          faults.armed = save;
          break;
        }
        case 16: { // swap two handles
          auto &o = *hs[s.choose(hs.size(), "other")];
          if (&o != &h) { std::swap(o.seq, h.seq); std::swap(o.pos, h.pos); std::swap(o.ended, h.ended); std::swap(o.tainted, h.tainted); }
          break;
        }
        }
      } catch (...) {
        // Only copying (of user objects) may throw out of an operation.
        if (faults.fired + memory.failed == fired) s.fail("escaped-exception", "an operation threw without an injected fault");
        s.probe("copy-threw");
        s.log("operation threw");
        h.tainted = h.tainted || op == 8 || op == 9;
      }
    }
    faults.disarm();
    Elem::copyFaults = false;
    // After faults stop every untainted handle still finishes exactly.
    for (auto &h : hs) {
      std::size_t n = 0;
      while (!h->tainted && h->pos < maxPos && n++ < 100) doNext(*h);
      if (!ref.inf && !h->tainted) { doNext(*h); doNext(*h); }
    }
  }
  s.check(Elem::live == live0, "leak", [&] { return cat("leaked or over-destroyed ", Elem::live - live0, " elements: ", spec.str()); });
}

// Exact demand: a stage asks the one before it only when it is itself asked,
// and for no more than its definition needs. The reference is the same pipeline
// of plain pull functions; every source counts the elements it is asked for.
struct Demand {
  using Pull = std::function<bool(int &)>;
  struct Counts { std::vector<long> calls; };
  Sim &s;
  std::shared_ptr<Counts> real = std::make_shared<Counts>(), ref = std::make_shared<Counts>();
  std::string d;
  explicit Demand(Sim &x) : s(x) {}

  struct P { Seq<int> q; Pull p; };
  static Pull ending(Pull p) {
    auto done = std::make_shared<bool>(false);
    return [=](int &x) { if (*done) return false; if (p(x)) return true; *done = true; return false; };
  }
  std::size_t counter() { real->calls.push_back(0); ref->calls.push_back(0); return ref->calls.size() - 1; }

  P source() {
    std::size_t id = counter();
    if (s.chance(1, 4, "iterate")) {
      d += "iterate ";
      int mod = 2 + static_cast<int>(s.choose(20, "mod"));
      auto c = ref, cr = real;
      auto x = std::make_shared<int>(-1);
      return {seq::iterate(0, [=](int v) { cr->calls[id]++; return (v + 1) % mod; }), ending([=](int &r) { if (*x >= 0) c->calls[id]++; *x = (*x + 1) % mod; r = *x; return true; })};
    }
    bool inf = s.chance(1, 2, "infinite");
    int n = inf ? 1000000000 : s.range(0, 8, "length"), step = 1 + static_cast<int>(s.choose(3, "step"));
    d += cat("src", inf ? std::string("inf") : cat(n), " ");
    auto mk = [=](std::shared_ptr<Counts> c) {
      int i = 0;
      return [=]() mutable -> rc::Maybe<int> { if (i >= n) return rc::Nothing; c->calls[id]++; return (i++) * step; };
    };
    auto r = std::make_shared<decltype(mk(ref))>(mk(ref));
    return {rc::makeSeq<decltype(mk(real))>(mk(real)), ending([r](int &x) { auto m = (*r)(); if (m) x = *m; return !!m; })};
  }
  // A predicate that counts, true on most values
  std::function<bool(int)> pred(std::shared_ptr<Counts> c, std::size_t id, int mod, int lim) {
    return [=](int x) { c->calls[id]++; return lim ? x < lim : x % mod != 0; };
  }
  P make(int depth) {
    if (depth == 0) return source();
    switch (s.choose(15, "stage")) {
    case 12: { // mapMaybe; finite below so that it ends
      auto id = counter();
      int mod = 2 + static_cast<int>(s.choose(3, "mod"));
      auto a = make(depth - 1);
      d += cat("mapMaybe%", mod, " ");
      auto p = a.p;
      auto c = ref, cr = real;
      auto left = std::make_shared<int>(200);
      auto lp = ending([=](int &x) { if (!*left) return false; --*left; return p(x); });
      return {seq::mapMaybe(seq::take(200, a.q), [=](int x) -> rc::Maybe<int> { cr->calls[id]++; if (x % mod == 0) return rc::Nothing; return x + 2; }),
              ending([=](int &x) { while (lp(x)) { c->calls[id]++; if (x % mod) { x += 2; return true; } } return false; })};
    }
    case 13: { // join: the next sequence is asked for when the one before has ended
      auto id = counter();
      auto a = make(depth - 1);
      int n = s.range(0, 3, "joined");
      d += cat("join", n, " ");
      auto pa = a.p;
      auto c = ref, cr = real;
      auto i = std::make_shared<int>(0), left = std::make_shared<int>(0), k = std::make_shared<int>(0);
      int j = 0;
      auto outer = [=]() mutable -> rc::Maybe<Seq<int>> {
        cr->calls[id]++;
        if (j == n + 1) return rc::Nothing;
        return j++ == n ? a.q : seq::range(0, j);
      };
      auto po = std::make_shared<bool>(false);
      return {seq::join(rc::makeSeq<decltype(outer)>(outer)), ending([=](int &x) {
        for (;;) {
          if (*left) { --*left; x = (*k)++; return true; }
          if (*po) { if (pa(x)) return true; *po = false; }
          c->calls[id]++;
          if (*i == n + 1) return false;
          if (*i == n) *po = true; else { *left = *i + 1; *k = 0; }
          ++*i;
        }
      })};
    }
    case 14: { // cast
      auto a = make(depth - 1);
      d += "cast ";
      return {seq::cast<int>(seq::cast<long>(a.q)), a.p};
    }
    case 0: { // take
      auto n = s.choose(6, "take");
      auto a = make(depth - 1);
      d += cat("take", n, " ");
      auto left = std::make_shared<std::uint32_t>(n);
      auto p = a.p;
      return {seq::take(n, a.q), ending([=](int &x) { if (!*left) return false; --*left; return p(x); })};
    }
    case 1: {
      auto n = s.choose(4, "drop");
      auto a = make(depth - 1);
      d += cat("drop", n, " ");
      auto left = std::make_shared<std::uint32_t>(n);
      auto p = a.p;
      return {seq::drop(n, a.q), ending([=](int &x) { while (*left) { --*left; if (!p(x)) return false; } return p(x); })};
    }
    case 2: case 3: { // takeWhile, by limit
      auto id = counter();
      int lim = 1 + static_cast<int>(s.choose(10, "limit"));
      auto a = make(depth - 1);
      d += cat("takeWhile<", lim, " ");
      auto p = a.p;
      auto f = pred(ref, id, 0, lim);
      return {seq::takeWhile(a.q, pred(real, id, 0, lim)), ending([=](int &x) { return p(x) && f(x); })};
    }
    case 4: {
      auto id = counter();
      int lim = 1 + static_cast<int>(s.choose(6, "limit"));
      auto a = make(depth - 1);
      d += cat("dropWhile<", lim, " ");
      auto p = a.p;
      auto f = pred(ref, id, 0, lim);
      auto dropped = std::make_shared<bool>(false);
      auto left = std::make_shared<int>(200);
      auto lp = ending([=](int &x) { if (!*left) return false; --*left; return p(x); });
      return {seq::dropWhile(seq::take(200, a.q), pred(real, id, 0, lim)), ending([=](int &x) {
        while (true) { if (!lp(x)) return false; if (*dropped) return true; if (!f(x)) { *dropped = true; return true; } }
      })};
    }
    case 5: case 6: { // filter; finite below so that it ends
      auto id = counter();
      int mod = 2 + static_cast<int>(s.choose(3, "mod"));
      auto a = make(depth - 1);
      d += cat("filter%", mod, " ");
      auto p = a.p;
      auto f = pred(ref, id, mod, 0);
      auto left = std::make_shared<int>(200);
      auto lp = ending([=](int &x) { if (!*left) return false; --*left; return p(x); });
      return {seq::filter(seq::take(200, a.q), pred(real, id, mod, 0)), ending([=](int &x) { while (lp(x)) if (f(x)) return true; return false; })};
    }
    case 7: {
      auto id = counter();
      auto a = make(depth - 1);
      d += "map ";
      auto p = a.p;
      auto c = ref, cr = real;
      return {seq::map(a.q, [=](int x) { cr->calls[id]++; return x + 1; }), ending([=](int &x) { if (!p(x)) return false; c->calls[id]++; x++; return true; })};
    }
    case 8: case 9: { // concat
      auto a = make(depth - 1);
      auto b = make(depth - 1);
      d += "concat ";
      auto pa = a.p, pb = b.p;
      return {seq::concat(a.q, b.q), ending([=](int &x) { return pa(x) || pb(x); })};
    }
    case 10: { // mapcat
      auto id = counter();
      int n = s.range(1, 3, "each");
      auto a = make(depth - 1);
      d += cat("mapcat", n, " ");
      auto p = a.p;
      auto c = ref, cr = real;
      auto left = std::make_shared<int>(0);
      auto cur = std::make_shared<int>(0);
      return {seq::mapcat(a.q, [=](int x) { cr->calls[id]++; return seq::take(static_cast<std::size_t>(n), seq::repeat(x)); }),
              ending([=](int &x) { if (!*left) { if (!p(x)) return false; c->calls[id]++; *cur = x; *left = n; } --*left; x = *cur; return true; })};
    }
    default: { // zip: both are asked for every element
      auto id = counter();
      auto a = make(depth - 1);
      auto b = make(depth - 1);
      d += "zip ";
      auto pa = a.p, pb = b.p;
      auto c = ref, cr = real;
      return {seq::zipWith([=](int x, int y) { cr->calls[id]++; return x + y; }, a.q, b.q),
              ending([=](int &x) { int y = 0, z = 0; bool f = pa(y), g = pb(z); if (!f || !g) return false; c->calls[id]++; x = y + z; return true; })};
    }
    }
  }
  void compare(const std::string &where) {
    for (std::size_t i = 0; i < ref->calls.size(); i++)
      if (real->calls[i] > ref->calls[i]) s.fail("eager", cat(where, ": source or callback ", i, " was used ", real->calls[i], " times, ", ref->calls[i], " are enough: ", d));
  }
};

SCENARIO("demand", 2) {
  Demand m(s);
  auto p = m.make(static_cast<int>(s.choose(5, "depth")));
  m.compare("after composing");
  s.log(m.d);
  s.sig(hashStr(m.d));
  s.nontrivial();
  auto q = p.q;
  int n = s.range(0, 12, "pulls");
  for (int i = 0; i < n; i++) {
    s.step();
    auto x = q.next();
    int y = 0;
    bool got = p.p(y);
    if (!!x != got || (got && *x != y)) s.fail("seq-element", cat("element ", i, ": ", x ? cat(*x) : std::string("none"), " instead of ", got ? cat(y) : std::string("none"), ": ", m.d));
    m.compare(cat("element ", i));
  }
  // consumers that may stop early
  auto id = m.counter();
  int y = 0, k = 0;
  auto cap = seq::take(150, q);
  int left = 150;
  auto next = [&] { return left-- > 0 && p.p(y); };
  switch (s.choose(5, "consumer")) {
  case 0: {
    int v = static_cast<int>(s.choose(12, "value"));
    bool r = seq::contains(cap, v), e = false;
    while (!e && next()) e = y == v;
    if (r != e) s.fail("seq-operation", "contains: " + m.d);
    break;
  }
  case 1: {
    int lim = static_cast<int>(s.choose(12, "limit"));
    bool r = seq::all(cap, m.pred(m.real, id, 0, lim + 1)), e = true;
    auto f = m.pred(m.ref, id, 0, lim + 1);
    while (e && next()) e = f(y);
    if (r != e) s.fail("seq-operation", "all: " + m.d);
    break;
  }
  case 2: {
    int mod = 2 + static_cast<int>(s.choose(5, "mod"));
    bool r = seq::any(cap, m.pred(m.real, id, mod, 0)), e = false;
    auto f = m.pred(m.ref, id, mod, 0);
    while (!e && next()) e = f(y);
    if (r != e) s.fail("seq-operation", "any: " + m.d);
    break;
  }
  case 3: {
    auto i = s.choose(8, "index");
    auto r = seq::at(cap, i);
    bool got = false;
    for (std::uint32_t j = 0; j <= i; j++) if (!(got = next())) break;
    if (!!r != got || (got && *r != y)) s.fail("seq-operation", "at: " + m.d);
    break;
  }
  default: {
    auto r = seq::length(cap);
    while (next()) k++;
    if (r != static_cast<std::size_t>(k)) s.fail("seq-operation", cat("length ", r, " instead of ", k, ": ", m.d));
  }
  }
  m.compare("consumer");
}

// Demand: a consumer of k elements evaluates at most k(+1) elements per stage.
SCENARIO("laziness", 2) {
  faults = FaultPlan();
  Elem::copyFaults = false;
  const int depth = 1 + s.choose(4, "depth");
  Seq<Elem> q = s.choose(2, "src") ? seq::repeat(Elem(3)) : seq::map(seq::index(), [](std::size_t i) { return Elem(static_cast<int>(i)); });
  std::string d;
  for (int i = 0; i < depth; i++) {
    Spec sp;
    sp.seed = s.choose(1000, "seed");
    switch (s.choose(6, "stage")) {
    case 0: sp.kind = KMap; q = seq::map(std::move(q), MapCb(sp)); d += "map "; break;
    case 1: q = seq::drop(s.choose(3, "n"), std::move(q)); d += "drop "; break;
    case 2: q = seq::take(1000000, std::move(q)); d += "take "; break;
    case 3: sp.kind = KZip; q = seq::zipWith(ZipCb(sp), q, std::move(q)); d += "zip "; break;
    case 4: q = seq::concat(std::move(q), seq::repeat(Elem(1))); d += "concat "; break;
    case 5: q = seq::cycle(std::move(q)); d += "cycle "; break;
    }
  }
  s.log("lazy " + d);
  s.sig(d.c_str());
  s.nontrivial();
  const auto c0 = faults.calls;
  Seq<Elem> q2 = q;
  s.check(faults.calls == c0, "eager", [&] { return "copying evaluated elements: " + d; });
  const int k = s.choose(20, "k");
  for (int i = 0; i < k; i++) {
    auto m = q.next();
    if (!m) s.fail("seq-short", "infinite sequence ended: " + d);
  }
  // every stage may be evaluated once per delivered element plus what drop
  // stages (at most 2 each) skip; zip doubles what is below it.
  const std::uint64_t bound = (std::uint64_t(k) + 2 * depth + 1) * ((1u << depth) * depth + 1);
  s.check(faults.calls - c0 <= bound, "eager", [&] { return cat("consuming ", k, " elements evaluated ", faults.calls - c0, " callbacks: ", d); });
}
