// C05: reported counterexamples are truthful, really fail, and are locally minimal.
#include "prog.h"
#include "pretty.h"
#include <iostream>
#include <forward_list>
#include <unordered_map>
#include <unordered_set>
using namespace sim;
using namespace prog;
using namespace rc::detail;
namespace gen = rc::gen;

namespace c05 {
std::string exStr(const Example &e) {
  std::string r;
  for (auto &p : e) r += p.first + "=" + p.second + "; ";
  return r;
}

// The text a user reads.
void checkPrinted(Sim &s, const FailureResult &f) {
  std::ostringstream os;
  printResultMessage(TestResult(f), os);
  auto t = os.str();
  auto head = cat("after ", f.numSuccess + 1, " test");
  if (t.find(head) == std::string::npos) s.fail("untruthful-report", cat("the report of a failure after ", f.numSuccess, " successes reads ", quote(t)));
  auto n = f.reproduce.shrinkPath.size();
  bool says = t.find(cat(" ", n, " shrink")) < t.find('\n');
  if (says != (n > 0)) s.fail("untruthful-report", cat("the report of a failure after ", n, " shrinks reads ", quote(t)));
  std::size_t at = 0;
  for (auto &p : f.counterExample) {
    at = t.find(cat(p.first, ":\n", p.second, "\n"), at);
    if (at == std::string::npos) s.fail("untruthful-report", cat("the report lacks ", p.first, "=", p.second, ": ", quote(t)));
    at++;
  }
  if (t.find(f.description, at ? at - 1 : 0) == std::string::npos) s.fail("untruthful-report", cat("the report lacks the description ", quote(f.description)));
}
}
using namespace c05;

namespace {

struct InFrame {
  std::size_t depth;
  explicit InFrame(Frame &f) : depth(frames.size()) { frames.push_back(&f); }
  ~InFrame() { frames.resize(depth); }
};

// Walks the tree of the reported case independently of the library's own walk.
void recheck(Sim &s, const Body &b, const Property &prop, const TestParams &p, const Report &r) {
  FailureResult f;
  if (!r.result.match(f)) return;
  Frame fr;
  fr.body = &b;
  InFrame in(fr);
  auto cur = prop(f.reproduce.random, f.reproduce.size);
  auto d = cur.value();
  if (d.result.type != CaseType::Failure) s.fail("not-a-failure", cat(b.str(), ": the original case did not fail when run again"));
  std::string orig;
  for (auto &e : r.events) if (e.kind == 'c' && e.type == CaseType::Failure) orig = e.desc;
  if (d.result.description != orig) s.fail("other-case", cat(b.str(), ": the reproduce information leads to a case described as ", quote(d.result.description), ", the failing case was ", quote(orig)));
  std::size_t at = 0;
  auto &path = f.reproduce.shrinkPath;
  if (p.disableShrinking && !path.empty()) s.fail("shrunk-anyway", b.str());
  std::size_t tried = 0;
  while (!p.disableShrinking) {
    auto list = cur.shrinks();
    std::size_t i = 0;
    bool found = false;
    rc::Maybe<rc::Shrinkable<CaseDescription>> next;
    while (true) {
      s.step();
      next = list.next();
      if (!next) break;
      auto x = next->value();
      tried++;
      if (x.result.type == CaseType::Failure) { found = true; break; }
      i++;
    }
    if (!found) {
      if (at != path.size()) s.fail("wrong-path", cat(b.str(), ": the path goes on where nothing fails any more"));
      break;
    }
    if (at == path.size()) s.fail("not-minimal", cat(b.str(), ": shrink ", i, " of the reported counterexample fails too: ", exStr(next->value().example())));
    if (path[at] != i) s.fail("wrong-path", cat(b.str(), ": step ", at, " of the path is ", path[at], " but the first failing shrink is ", i));
    at++;
    cur = *next;
  }
  d = cur.value();
  if (d.result.description != f.description) s.fail("other-case", cat(b.str(), ": the path leads to ", quote(d.result.description), " but the report describes ", quote(f.description)));
  if (d.example() != f.counterExample) s.fail("other-case", cat(b.str(), ": the path leads to ", exStr(d.example()), " but the report shows ", exStr(f.counterExample)));
  if (!fr.execs.empty() && fr.argsThrewAfter != fr.execs.size()) checkExample(fr.execs.back(), f.counterExample, "counterexample");
  s.count("shrinks-walked", tried);
  if (!path.empty()) s.probe("shrunk");
  if (path.size() > 3) s.probe("shrunk-far");
  s.fault("failing-program");
}

// A body that takes inputs and can fail.
std::shared_ptr<Body> drawFailing(Sim &s, const BodyOpts &o) {
  auto b = drawBody(s, o);
  if (!s.chance(7, 8, "failing")) return b;
  if (b->arity == 0) b->arity = s.range(1, 3, "arity");
  bool ends = b->retCond != 0;
  for (auto &st : b->steps) ends = ends || (st.kind >= SAssert && st.kind <= SFail && st.cond);
  if (!ends) {
    b->ret = 1;
    b->retCond = o.monotone ? -1 : 2;
    b->retThreshold = 2 + s.choose(12, "threshold");
  }
  return b;
}

SCENARIO("recheck", 4) {
  reset("C05");
  BodyOpts o;
  o.genDepth = s.range(0, 2, "gen-depth");
  o.monotone = s.chance(1, 2, "monotone");
  o.throwingGens = s.chance(1, 4, "throwing-gens");
  o.rejectingGens = s.chance(1, 3, "rejecting-gens");
  o.nestDepth = !o.monotone && s.chance(1, 6, "nesting") ? 1 : 0;
  drawSlots(s, o);
  auto b = drawFailing(s, o);
  s.log(b->str());
  s.sig(hashStr(b->str()));
  auto p = drawParams(s, paramSize(s) * (o.monotone ? s.range(1, 3, "larger") : 1));
  p.maxSuccess = 20;
  p.maxDiscardRatio = 10;
  auto prop = makeProperty(b);
  CheckOpts co;
  co.property = &prop;
  auto r = runCheck(b, p, co);
  s.sig(hashStr(r.trace.back()));
  FailureResult f;
  if (r.result.match(f)) checkPrinted(s, f);
  recheck(s, *b, prop, p, r);
}

SCENARIO("faulty-shrinking", 2) {
  reset("C05");
  BodyOpts o;
  o.genDepth = s.range(0, 2, "gen-depth");
  o.monotone = s.chance(1, 2, "monotone");
  o.throwingGens = s.chance(1, 2, "throwing-gens");
  o.rejectingGens = s.chance(1, 3, "rejecting-gens");
  drawSlots(s, o);
  auto b = drawFailing(s, o);
  s.log(b->str());
  s.sig(hashStr(b->str()));
  auto p = drawParams(s, paramSize(s));
  p.maxSuccess = 20;
  bool flaky = s.chance(2, 3, "flaky");
  if (flaky) { flakyMod = s.range(2, 6, "flaky-mod"); s.fault("flaky-body"); }
  if (!flaky || s.chance(1, 2, "transient")) faults.arm(s, 400);
  CheckOpts co;
  co.examples = false;
  auto r = runCheck(b, p, co);
  faults.disarm();
  s.sig(hashStr(r.trace.back()));
  bool failed = false;
  for (auto &e : r.events) failed = failed || (e.kind == 'c' && e.type == CaseType::Failure);
  FailureResult f;
  bool reported = r.result.match(f);
  if (failed != reported) s.fail("failure-lost", cat(b->str(), ": a test case ", failed ? "failed" : "never failed", " but the check ended as ", resultStr(r.result)));
  if (reported) s.probe("failure-under-faults");
  flakyMod = 0;
}

// -- bodies whose minimal failing inputs are known -------------------------------

struct Quiet : TestListener {
  Sim &s;
  explicit Quiet(Sim &x) : s(x) {}
  void onTestCaseFinished(const CaseDescription &) override { s.step(); }
  void onShrinkTried(const CaseDescription &, bool) override { s.step(); }
  void onTestFinished(const TestMetadata &, const TestResult &) override {}
};

std::string lastArgs;  // what the body received when it last ran

template <typename T> std::string shown(const T &x) { return pretty::of(x); }

template <typename F>
void minimal(Sim &s, const TestParams &p, const std::string &what, const std::string &want, const F &testable) {
  Quiet q(s);
  auto prop = toProperty(testable);
  auto res = testProperty(prop, TestMetadata(), p, q);
  FailureResult f;
  if (!res.match(f)) { s.log(what + ": no failure found"); return; }
  s.fault("failing-program");
  std::string got;
  for (auto &e : f.counterExample) got += e.second + ";";
  s.log(cat(what, " reported ", got, " after ", f.reproduce.shrinkPath.size()));
  s.sig(hashStr(want));
  s.sig(f.reproduce.shrinkPath.size());
  s.count(cat("minimum.", what.substr(0, what.find_first_of(" (<"))));
  if (got != want) s.fail("not-minimal", cat(what, " seed ", p.seed, ": reported ", got, ", the smallest failing input is ", want));
  if (lastArgs != want) s.fail("untruthful-example", cat(what, " seed ", p.seed, ": the reported case ran with ", lastArgs, ", reported is ", got));
  checkPrinted(s, f);
}

// the same for values without an order of their own: `canon` names what the
// body received last, apart from how it is printed
std::string lastCanon;

template <typename T> std::string canonOf(const T &x) { return shown(x); }
template <typename A, typename B> std::string canonOf(const std::pair<A, B> &x) { return canonOf(x.first) + "=" + canonOf(x.second); }
template <typename C> std::string canonAll(const C &c) {
  std::vector<std::string> v;
  for (const auto &x : c) v.push_back(canonOf(x));
  std::sort(v.begin(), v.end());
  std::string r = "{";
  for (auto &x : v) r += x + ",";
  return r + "}";
}

template <typename T, typename Canon, typename Fails>
void minimalOf(Sim &s, const TestParams &p, const std::string &what, const std::string &want, const rc::Gen<T> &g, const Canon &canon, const Fails &fails) {
  Quiet q(s);
  lastArgs.clear();
  lastCanon.clear();
  auto prop = toProperty([=] {
    const auto x = *g;
    lastArgs = shown(x) + ";";
    lastCanon = canon(x);
    RC_ASSERT(!fails(x));
  });
  auto res = testProperty(prop, TestMetadata(), p, q);
  FailureResult f;
  GaveUpResult gu;
  if (res.match(gu)) s.fail("gave-up", cat(what, " seed ", p.seed, ": nothing rejects, but ", gu.description));
  if (!res.match(f)) { s.log(what + ": no failure found"); return; }
  s.fault("failing-program");
  std::string got;
  for (auto &e : f.counterExample) got += e.second + ";";
  s.log(cat(what, " reported ", got, " after ", f.reproduce.shrinkPath.size()));
  s.sig(hashStr(want));
  s.sig(f.reproduce.shrinkPath.size());
  s.count(cat("minimum.", what.substr(0, what.find_first_of(" ("))));
  if (lastArgs != got) s.fail("untruthful-example", cat(what, " seed ", p.seed, ": the reported case ran with ", lastArgs, ", reported is ", got));
  if (lastCanon != want) s.fail("not-minimal", cat(what, " seed ", p.seed, ": reported ", lastCanon, ", the smallest failing input is ", want));
  checkPrinted(s, f);
}

// containers: at least k elements which are at least t
template <typename C>
void manyOf(Sim &s, const TestParams &p, const char *name, bool distinct, int k, int t) {
  using T = typename C::value_type;
  std::vector<T> w;
  for (int i = 0; i < k; i++) w.push_back(static_cast<T>(distinct ? t + i : t));
  auto g = gen::container<C>(s.chance(1, 2, "range") ? gen::inRange<T>(0, 1000) : gen::nonNegative<T>());
  minimalOf(s, p, cat(name, " with ", k, " elements >= ", t), canonAll(w), g, [](const C &c) { return canonAll(c); }, [=](const C &c) {
    int n = 0;
    for (auto x : c) n += x >= static_cast<T>(t);
    return n >= k;
  });
}

// maps: at least k entries whose value is at least t (and key at least u)
template <typename M>
void mapOf(Sim &s, const TestParams &p, const char *name, bool distinct, int k, int t, int u) {
  std::vector<std::pair<int, short>> w;
  for (int i = 0; i < k; i++) w.emplace_back(distinct ? u + i : u, static_cast<short>(t));
  auto g = gen::container<M>(s.chance(1, 2, "range") ? gen::inRange<int>(0, 1000) : gen::nonNegative<int>(), gen::nonNegative<short>());
  minimalOf(s, p, cat(name, " with ", k, " entries >= ", u, "=", t), canonAll(w), g, [](const M &c) { return canonAll(c); }, [=](const M &c) {
    int n = 0;
    for (auto &x : c) n += x.first >= u && x.second >= t;
    return n >= k;
  });
}

// An arbitrary pure failure condition: what is reported must not fail any more
// with any run of elements dropped, nor with any element lowered to zero or by
// one.
SCENARIO("local-minimum", 2) {
  reset("C05");
  TestParams p;
  p.seed = s.choose(1000000, "seed");
  p.maxSuccess = 100;
  p.maxSize = s.pick(std::vector<int>{100, 30, 60}, "max-size");
  using V = std::vector<int>;
  std::uint32_t salt = s.choose(1000, "salt");
  unsigned mod = 2 + s.choose(20, "modulus"), least = s.choose(16, "least"), domain = 1 + s.choose(60, "domain");
  bool text = s.chance(1, 3, "string"), fixed = !text && s.chance(1, 4, "fixed");
  auto fails = [=](const V &v) {
    if (v.size() < least) return false;
    std::uint64_t h = salt;
    for (int x : v) h = mix(h, static_cast<std::uint64_t>(x));
    return h % mod == 0;
  };
  V last;
  Quiet q(s);
  auto g = fixed ? gen::container<V>(static_cast<std::size_t>(least), gen::inRange<int>(0, static_cast<int>(domain))) : gen::container<V>(gen::inRange<int>(0, static_cast<int>(domain)));
  auto gs = gen::container<std::string>(gen::inRange<char>(0, static_cast<char>(domain)));
  auto prop = toProperty([&] {
    last = text ? [&] { auto x = *gs; return V(x.begin(), x.end()); }() : *g;
    RC_ASSERT(!fails(last));
  });
  auto res = testProperty(prop, TestMetadata(), p, q);
  FailureResult f;
  if (!res.match(f)) { s.log("no failure found"); return; }
  s.fault("failing-program");
  s.count("minimum.local");
  std::string ls = shown(last);
  s.log(cat("reported ", ls));
  s.sig(hashStr(ls));
  V v = last;
  if (!fails(v)) s.fail("untruthful-example", "the case reported as failing does not fail: " + ls);
  if (!fixed)
    for (std::size_t n = 1; n <= v.size(); n++)
      for (std::size_t i = 0; i + n <= v.size(); i++) {
        V w(v.begin(), v.begin() + static_cast<long>(i));
        w.insert(w.end(), v.begin() + static_cast<long>(i + n), v.end());
        if (fails(w)) s.fail("not-minimal", cat("seed ", p.seed, ": reported ", ls, " fails just as well without the ", n, " elements from ", i));
      }
  for (std::size_t i = 0; i < v.size(); i++)
    for (int x : {0, v[i] - 1}) {
      if (v[i] == 0) continue;
      V w = v;
      w[i] = x;
      if (fails(w)) s.fail("not-minimal", cat("seed ", p.seed, ": reported ", ls, " fails just as well with element ", i, " as ", x));
    }
}

SCENARIO("container-threshold", 3) {
  reset("C05");
  TestParams p;
  p.seed = s.choose(1000000, "seed");
  p.maxSuccess = 100;
  p.maxSize = s.pick(std::vector<int>{100, 30, 60}, "max-size");
  int k = s.chance(1, 4, "many") ? (s.chance(1, 24, "more") ? s.range(15, 24, "count") : s.range(5, 14, "count")) : s.range(0, 4, "count");
  int t = s.chance(1, 2, "high") ? s.range(0, 300, "threshold") : s.range(0, 5, "threshold");
  int u = s.range(0, 20, "key");
  auto str = [](const std::vector<int> &v) { std::string r; for (int x : v) r += cat(x, ","); return r; };
  switch (s.choose(20, "shape")) {
  case 0: manyOf<std::set<int>>(s, p, "set", true, k, t); break;
  case 1: manyOf<std::unordered_set<int>>(s, p, "unordered_set", true, k, t); break;
  case 2: manyOf<std::multiset<int>>(s, p, "multiset", false, k, t); break;
  case 3: manyOf<std::unordered_multiset<short>>(s, p, "unordered_multiset", false, k, t); break;
  case 4: manyOf<std::forward_list<int>>(s, p, "forward_list", false, k, t); break;
  case 5: manyOf<std::vector<std::uint16_t>>(s, p, "vector", false, k, t); break;
  case 6: mapOf<std::map<int, short>>(s, p, "map", true, k, t, u); break;
  case 7: mapOf<std::unordered_map<int, short>>(s, p, "unordered_map", true, k, t, u); break;
  case 8: mapOf<std::multimap<int, short>>(s, p, "multimap", false, k, t, u); break;
  case 9: mapOf<std::unordered_multimap<int, short>>(s, p, "unordered_multimap", false, k, t, u); break;
  case 10: { // unique by a key
    int m = s.pick(std::vector<int>{0, 2, 5}, "by");
    std::vector<int> w;
    // keys are x / m: the smallest values with distinct keys; each may only
    // take a value whose key is free or its own
    for (int i = 0; i < k; i++) w.push_back(m ? i * m : t + i);
    auto key = [m](int x) { return m ? x / m : x; };
    auto g = gen::uniqueBy<std::vector<int>>(gen::inRange(0, 2000), key);
    int lim = m ? 0 : t;
    minimalOf(s, p, cat("unique by ", m, " with ", k, " elements >= ", lim), canonAll(w), g, [](const std::vector<int> &c) { return canonAll(c); }, [=](const std::vector<int> &c) {
      int n = 0;
      for (int x : c) n += x >= lim;
      return n >= k;
    });
    break;
  }
  case 11: { // arrays and tuples: each element has a threshold of its own
    std::array<int, 5> w;
    for (auto &x : w) x = s.range(0, 40, "element");
    auto fails = [=](const std::array<int, 5> &a) { for (int i = 0; i < 5; i++) if (a[i] < w[i]) return false; return true; };
    minimalOf(s, p, "array of 5", shown(w), gen::container<std::array<int, 5>>(gen::nonNegative<int>()), [](const std::array<int, 5> &a) { return shown(a); }, fails);
    break;
  }
  case 12: {
    auto w = std::make_tuple(s.range(0, 40, "a"), static_cast<short>(s.range(0, 40, "b")), s.chance(1, 2), static_cast<std::uint64_t>(s.range(0, 90, "d")), std::make_pair(s.range(0, 9), s.range(0, 9)));
    using W = decltype(w);
    auto g = gen::tuple(gen::nonNegative<int>(), gen::nonNegative<short>(), gen::arbitrary<bool>(), gen::arbitrary<std::uint64_t>(), gen::pair(gen::nonNegative<int>(), gen::inRange(0, 30)));
    minimalOf(s, p, "tuple of 5", shown(w), g, [](const W &x) { return shown(x); }, [=](const W &x) {
      return std::get<0>(x) >= std::get<0>(w) && std::get<1>(x) >= std::get<1>(w) && std::get<2>(x) >= std::get<2>(w) && std::get<3>(x) >= std::get<3>(w) &&
          std::get<4>(x).first >= std::get<4>(w).first && std::get<4>(x).second >= std::get<4>(w).second;
    });
    break;
  }
  case 13: { // a fixed number of elements
    std::size_t n = static_cast<std::size_t>(s.range(1, 12, "n"));
    int kk = std::min<int>(k, static_cast<int>(n));
    auto g = gen::container<std::vector<int>>(n, gen::nonNegative<int>());
    std::vector<int> w(n, 0);
    // the first kk cross
    for (int i = 0; i < kk; i++) w[static_cast<std::size_t>(i)] = t;
    minimalOf(s, p, cat("fixed vector of ", n, " first ", kk, " >= ", t), str(w), g, str, [=](const std::vector<int> &c) {
      for (int i = 0; i < kk; i++) if (c[static_cast<std::size_t>(i)] < t) return false;
      return true;
    });
    break;
  }
  case 14: { // containers of containers
    int j = s.range(0, 4, "inner");
    using VV = std::vector<std::vector<int>>;
    int kk = std::min(k, 5);
    minimalOf(s, p, cat("nested vectors ", kk, " of ", j), shown(VV(static_cast<std::size_t>(kk), std::vector<int>(static_cast<std::size_t>(j), 0))), gen::container<VV>(gen::container<std::vector<int>>(gen::inRange(0, 100))),
              [](const VV &x) { return shown(x); }, [=](const VV &x) {
                int n = 0;
                for (auto &v : x) n += static_cast<int>(v.size()) >= j;
                return n >= kk;
              });
    break;
  }
  case 15: { // strings: 'a' is the simplest character, 'b' the next
    int kk = std::min(k, 8);
    bool b = s.chance(1, 2, "b");
    minimalOf(s, p, cat("string of ", kk, b ? " not a" : " chars"), std::string(static_cast<std::size_t>(kk), b ? 'b' : 'a'), gen::arbitrary<std::string>(), [](const std::string &x) { return x; }, [=](const std::string &x) {
      int n = 0;
      for (char c : x) n += !b || c != 'a';
      return n >= kk;
    });
    break;
  }
  case 16: { // any run of elements can be dropped at once
    int m = s.range(2, 16, "modulus"), r = s.range(0, m - 1, "rest"), min = std::max(0, s.range(-10, 8, "least"));
    int w = r;
    while (w < min) w += m;
    minimalOf(s, p, cat("length of ", m, "n+", r, " from ", min), cat(w), gen::container<std::vector<int>>(gen::inRange(0, 10)), [](const std::vector<int> &c) { return cat(c.size()); }, [=](const std::vector<int> &c) {
      int n = static_cast<int>(c.size());
      return n >= min && n % m == r;
    });
    break;
  }
  case 17: { // a run in the middle can be dropped, the two ends stay
    int a = s.range(1, 3, "a");
    using V = std::vector<int>;
    minimalOf(s, p, cat("ends of ", a), str(V(static_cast<std::size_t>(2 * a), 7)), gen::container<V>(gen::element(7, 8, 9)), str, [=](const V &c) {
      int n = static_cast<int>(c.size());
      if (n % 2 || n < 2 * a) return false;
      for (int i = 0; i < a; i++) if (c[static_cast<std::size_t>(i)] != c[static_cast<std::size_t>(n - 1 - i)] || c[static_cast<std::size_t>(i)] != 7) return false;
      return true;
    });
    break;
  }
  case 18: { // nothing is simpler than something
    bool need = s.chance(1, 2, "needed");
    minimalOf(s, p, cat("maybe ", need ? "something" : "anything"), need ? shown(rc::Maybe<int>(t)) : shown(rc::Maybe<int>()), gen::maybe(gen::nonNegative<int>()), [](const rc::Maybe<int> &m) { return shown(m); },
              [=](const rc::Maybe<int> &m) { return need ? m && *m >= t : true; });
    break;
  }
  default: { // shared pointers, and mapped, resized and combined ones
    auto g = gen::apply([](int a, std::vector<int> b) { b.push_back(a); return b; }, gen::nonNegative<int>(), gen::resize(s.range(1, 100, "size"), gen::container<std::vector<int>>(gen::inRange(0, 50))));
    int kk = std::min(k, 3);
    std::vector<int> w(static_cast<std::size_t>(kk) + 1, 0);
    w.back() = t;
    minimalOf(s, p, cat("applied ", kk, " and ", t), str(w), g, str, [=](const std::vector<int> &c) { return static_cast<int>(c.size()) > kk && c.back() >= t; });
  }
  }
}

// number: the smallest value failing is the threshold, on either side of zero
template <typename T>
void number(Sim &s, const TestParams &p, const char *name) {
  bool neg = std::is_signed<T>::value && s.chance(1, 3, "negative");
  long long t = 1 + s.choose(100, "threshold");
  long long min = neg ? -t : t;
  if (s.chance(1, 2, "as-pick")) {
    minimal(s, p, cat(name, neg ? " <= " : " >= ", min), shown(static_cast<T>(min)) + ";", [=] {
      auto x = *gen::arbitrary<T>();
      lastArgs = shown(x) + ";";
      RC_ASSERT((neg ? x > static_cast<T>(min) : x < static_cast<T>(min)));
    });
  } else {
    minimal(s, p, cat(name, neg ? " <= " : " >= ", min), shown(std::make_tuple(static_cast<T>(min))) + ";", [=](T x) {
      lastArgs = shown(std::make_tuple(x)) + ";";
      return neg ? x > static_cast<T>(min) : x < static_cast<T>(min);
    });
  }
}

template <typename C>
void container(Sim &s, const TestParams &p, const char *name) {
  using T = typename C::value_type;
  int k = s.range(0, 4, "count"), t = s.range(0, 30, "threshold");
  C want(static_cast<std::size_t>(k), static_cast<T>(t));
  auto fails = [=](const C &c) { int n = 0; for (auto x : c) n += x >= static_cast<T>(t); return n >= k; };
  if (s.chance(1, 2, "as-pick")) minimal(s, p, cat(name, " with ", k, " elements >= ", t), shown(want) + ";", [=] {
    auto c = *gen::container<C>(gen::nonNegative<T>());
    lastArgs = shown(c) + ";";
    RC_ASSERT(!fails(c));
  });
  else minimal(s, p, cat(name, " with ", k, " elements >= ", t), shown(std::make_tuple(want)) + ";", [=](const C &c) {
    lastArgs = shown(std::make_tuple(c)) + ";";
    // (negative elements are never necessary)
    return !fails(c);
  });
}

SCENARIO("threshold", 3) {
  reset("C05");
  TestParams p;
  p.seed = s.choose(1000000, "seed");
  p.maxSuccess = 100;
  p.maxSize = s.pick(std::vector<int>{100, 30, 60, 150}, "max-size");
  lastArgs.clear();
  switch (s.choose(15, "shape")) {
  case 0: number<int>(s, p, "int"); break;
  case 1: number<unsigned char>(s, p, "uint8"); break;
  case 2: number<std::int64_t>(s, p, "int64"); break;
  case 3: number<short>(s, p, "short"); break;
  case 4: number<std::uint64_t>(s, p, "uint64"); break;
  case 5: container<std::vector<int>>(s, p, "vector<int>"); break;
  case 6: container<std::list<short>>(s, p, "list<short>"); break;
  case 7: container<std::deque<std::int64_t>>(s, p, "deque<int64>"); break;
  case 8: { // several picks, failing when all cross
    int n = s.range(1, 4, "picks");
    std::vector<int> t;
    std::string want;
    for (int i = 0; i < n; i++) { t.push_back(s.range(0, 20, "threshold")); want += cat(t.back(), ";"); }
    bool inner = s.chance(1, 2, "in-exec");
    minimal(s, p, cat(n, " picks"), want, [=] {
      lastArgs.clear();
      bool all = true;
      for (int x : t) {
        int v = inner ? *gen::exec([] { return *gen::inRange(0, 50); }) : *gen::inRange(0, 50);
        lastArgs += cat(v, ";");
        all = all && v >= x;
      }
      RC_ASSERT(!all);
    });
    break;
  }
  case 9: { // a range shrinks towards its lower end
    int lo = s.range(-50, 50, "lo"), w = s.range(1, 100, "width"), t = lo + s.range(0, w - 1, "threshold");
    minimal(s, p, cat("inRange(", lo, ",", lo + w, ") >= ", t), cat(t, ";"), [=] {
      int x = *gen::inRange(lo, lo + w);
      lastArgs = cat(x, ";");
      if (x >= t) RC_FAIL("large");
    });
    break;
  }
  case 10: { // independent arguments
    int a = s.range(0, 20, "a"), k = s.range(0, 3, "k");
    minimal(s, p, cat("arguments >= ", a, " and ", k, " elements"), shown(std::make_tuple(a, std::vector<int>(static_cast<std::size_t>(k), 0), false)) + ";", [=](int x, const std::vector<int> &v, bool b) {
      lastArgs = shown(std::make_tuple(x, v, b)) + ";";
      return !(x >= a && static_cast<int>(v.size()) >= k);
    });
    break;
  }
  case 11: { // a dependent pick
    int k = s.range(0, 6, "k");
    minimal(s, p, cat("dependent vector of ", k), cat(k, ";") + shown(std::vector<int>(static_cast<std::size_t>(k), 0)) + ";", [=] {
      int n = *gen::inRange(0, 15);
      auto v = *gen::container<std::vector<int>>(static_cast<std::size_t>(n), gen::inRange(0, 10));
      lastArgs = cat(n, ";") + shown(v) + ";";
      if (static_cast<int>(v.size()) >= k) throw std::runtime_error("long");
    });
    break;
  }
  case 12: { // any map, set or string of a given size
    int k = s.range(0, 4, "k");
    Quiet q(s);
    std::size_t got = 999, prevFailing = 999;
    auto kind = s.choose(4, "kind");
    auto body = [&](std::size_t n) { if (n >= static_cast<std::size_t>(k)) { got = n; RC_FAIL("large"); } };
    auto prop = kind == 0 ? toProperty([&] { body((*gen::arbitrary<std::map<int, int>>()).size()); })
        : kind == 1 ? toProperty([&] { body((*gen::arbitrary<std::set<short>>()).size()); })
        : kind == 2 ? toProperty([&] { body((*gen::arbitrary<std::string>()).size()); })
                    : toProperty([&] { body((*gen::unique<std::vector<int>>(gen::arbitrary<int>())).size()); });
    auto res = testProperty(prop, TestMetadata(), p, q);
    FailureResult f;
    (void)prevFailing;
    if (!res.match(f)) break;
    s.fault("failing-program");
    s.sig(mix(kind, f.reproduce.shrinkPath.size()));
    s.count("minimum.size");
    if (got != static_cast<std::size_t>(k)) s.fail("not-minimal", cat("container kind ", kind, " seed ", p.seed, ": reported a container of ", got, " elements, ", k, " are enough"));
    break;
  }
  case 13: { // a sum: neither part can be lowered alone
    int t = s.range(0, 60, "sum");
    Quiet q(s);
    long long a = 0, b = 0;
    auto prop = toProperty([&](unsigned char x, unsigned short y) {
      if (x + y >= t) { a = x; b = y; RC_FAIL("sum"); }
    });
    auto res = testProperty(prop, TestMetadata(), p, q);
    FailureResult f;
    if (!res.match(f)) break;
    s.fault("failing-program");
    s.sig(mix(static_cast<std::uint64_t>(a), f.reproduce.shrinkPath.size()));
    s.count("minimum.sum");
    if (a + b != t) s.fail("not-minimal", cat("seed ", p.seed, ": reported ", a, " + ", b, ", a sum of ", t, " is enough"));
    break;
  }
  default: { // mapped, and shrunk only as far as allowed
    int t = s.range(0, 20, "threshold");
    bool frozen = s.chance(1, 2, "frozen");
    std::vector<int> seen;
    Quiet q(s);
    auto g = gen::map(gen::inRange(0, 60), [](int x) { return x * 3 + 1; });
    auto prop = toProperty([&] {
      int f = *gen::noShrink(gen::inRange(0, 1000));
      int x = frozen ? *gen::noShrink(g) : *g;
      if (x >= t * 3 + 1) { seen = {f, x}; RC_FAIL("large"); }
    });
    auto pr = p;
    pr.disableShrinking = true;
    auto r0 = testProperty(prop, TestMetadata(), pr, q);
    auto first = seen;
    auto r1 = testProperty(prop, TestMetadata(), p, q);
    FailureResult f;
    if (!r1.match(f)) break;
    s.fault("failing-program");
    s.count("minimum.frozen");
    s.sig(f.reproduce.shrinkPath.size());
    if (first.size() != 2) s.fail("failure-lost", "a check fails or not depending on shrinking");
    if (first[0] != seen[0]) s.fail("shrunk-anyway", cat("seed ", p.seed, ": an input that does not shrink went from ", first[0], " to ", seen[0]));
    if (frozen && first[1] != seen[1]) s.fail("shrunk-anyway", cat("seed ", p.seed, ": an input that does not shrink went from ", first[1], " to ", seen[1]));
    if (!frozen && seen[1] != t * 3 + 1) s.fail("not-minimal", cat("seed ", p.seed, ": reported ", seen[1], ", the smallest failing input is ", t * 3 + 1));
    std::string want = cat(seen[0], ";", seen[1], ";"), got;
    for (auto &e : f.counterExample) got += e.second + ";";
    if (got != want) s.fail("untruthful-example", cat("reported ", got, ", ran with ", want));
  }
  }
}

} // namespace
