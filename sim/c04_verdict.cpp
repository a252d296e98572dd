// C04: verdict, counts, sizes, distribution and listener events account for
// every executed test case.
#include "prog.h"
#include "detail/LogTestListener.h"
#include "detail/MulticastTestListener.h"
#include <limits>
using namespace sim;
using namespace prog;
using namespace rc::detail;

namespace {

// ---- scripted checks: the n-th executed case ends as the script says ---------

struct Outcome {
  CaseType type = CaseType::Success;
  int how = 0;
  Tags tags;
};

struct Script {
  std::uint64_t seed = 0;
  int shape = 0;          // how discards are distributed
  long long failAt = -1;  // ordinal of the search case that fails
  int tagMod = 3;
  Outcome at(long long n) const {
    Outcome o;
    auto h = mix(seed, static_cast<std::uint64_t>(n));
    switch (shape) {
    case 0: break;                                                     // all successes
    case 1: if (h % 4 == 0) o.type = CaseType::Discard; break;         // scattered
    case 2: if ((n / 60) % 2 == 1) o.type = CaseType::Discard; break;  // runs of 60
    case 3: if (h % 8) o.type = CaseType::Discard; break;              // mostly discards
    case 4: o.type = CaseType::Discard; break;                         // nothing but discards
    case 5: if ((n / 3) % 2 == 1) o.type = CaseType::Discard; break;
    case 6: if (n % 131 != 130) o.type = CaseType::Discard; break;     // long runs
    }
    if (n == failAt) o.type = CaseType::Failure;
    o.how = static_cast<int>((h >> 20) % 6);
    if (tagMod) for (std::uint64_t i = 0; i < (h >> 8) % 3; i++) {
      auto t = (h >> (10 + i)) % static_cast<unsigned>(tagMod);
      o.tags.push_back(t ? std::to_string(t) : ""); // a tag may be shown as nothing
    }
    return o;
  }
};

struct Rec : TestListener {
  struct E {
    char kind;
    CaseType type;
    Tags tags;
    std::string desc;
    bool accepted;
    bool operator==(const E &o) const { return kind == o.kind && type == o.type && tags == o.tags && desc == o.desc && accepted == o.accepted; }
  };
  std::vector<E> ev;
  std::vector<TestResult> results;
  std::vector<std::string> ids;
  std::vector<int> *order = nullptr;
  int me = 0;
  void onTestCaseFinished(const CaseDescription &d) override { ev.push_back({'c', d.result.type, d.tags, d.result.description, false}); if (order) order->push_back(me); }
  void onShrinkTried(const CaseDescription &d, bool a) override { ev.push_back({'s', d.result.type, d.tags, d.result.description, a}); if (order) order->push_back(me); }
  void onTestFinished(const TestMetadata &m, const TestResult &r) override { ev.push_back({'f', CaseType::Success, {}, "", false}); results.push_back(r); ids.push_back(m.id); if (order) order->push_back(me); }
};

struct Fwd : TestListener {
  TestListener *to;
  explicit Fwd(TestListener *t) : to(t) {}
  void onTestCaseFinished(const CaseDescription &d) override { to->onTestCaseFinished(d); }
  void onShrinkTried(const CaseDescription &d, bool a) override { to->onShrinkTried(d, a); }
  void onTestFinished(const TestMetadata &m, const TestResult &r) override { to->onTestFinished(m, r); }
};

std::string evStr(const Rec::E &e) { return cat(e.kind, typeName(e.type), e.accepted, " ", quote(e.desc), " tags ", e.tags.size()); }

void endAs(const Outcome &o, long long n) {
  for (auto &t : o.tags) ImplicitParam<param::CurrentPropertyContext>::value()->addTag(t);
  auto msg = cat("case ", n);
  auto type = o.type;
  switch (type) {
  case CaseType::Success:
    if (o.how % 2) RC_SUCCEED(msg);
    return;
  case CaseType::Discard:
    if (o.how % 3 == 0) RC_DISCARD(msg);
    if (o.how % 3 == 1) RC_PRE(n < 0);
    throw rc::GenerationFailure(msg);
  case CaseType::Failure:
    switch (o.how) {
    case 0: RC_FAIL(msg);
    case 1: RC_ASSERT(n < 0); return;
    case 2: throw std::runtime_error(msg);
    case 3: throw msg;
    case 4: throw 5;
    default: throw CaseResult(type, msg);
    }
  }
}

const int kBig[] = {0, 1, 2, 3, 5, 10, 20, 50, 100, 150, 101, 99, 202, 37};
const int kHuge[] = {1000, 46341, 65536, 100000, 1000000, std::numeric_limits<int>::max() / 2, std::numeric_limits<int>::max() - 1, std::numeric_limits<int>::max()};

SCENARIO("script", 4) {
  reset("C04");
  bool huge = s.chance(1, 4, "huge-params");
  TestParams p;
  p.seed = s.choose(1000, "seed");
  Script sc;
  sc.seed = s.choose(100000, "script");
  sc.shape = static_cast<int>(s.choose(7, "shape"));
  sc.tagMod = s.range(0, 4, "tags");
  p.maxSuccess = kBig[s.choose(14, "max-success")];
  p.maxSize = kBig[s.choose(14, "max-size")];
  p.maxDiscardRatio = s.pick(std::vector<int>{10, 1, 0, 2, 3, 50, 100}, "ratio");
  if (s.chance(1, 2, "fails")) sc.failAt = static_cast<long long>(s.choose(300, "fail-at"));
  if (huge) {
    s.fault("huge-params");
    if (s.chance(1, 2, "huge-success")) p.maxSuccess = kHuge[s.choose(8, "max-success")];
    if (s.chance(1, 2, "huge-size")) p.maxSize = kHuge[s.choose(8, "max-size")];
    if (s.chance(1, 2, "huge-ratio")) p.maxDiscardRatio = kHuge[s.choose(8, "ratio")];
    // such a check only ends by failing
    if (static_cast<long long>(p.maxSuccess) * (1 + static_cast<long long>(p.maxDiscardRatio)) > 5000) sc.failAt = static_cast<long long>(s.choose(700, "fail-at-huge"));
  }
  bool shrinky = s.chance(1, 3, "shrinking");
  int shrinkBar = s.range(0, 3, "shrink-bar");
  p.disableShrinking = s.chance(1, 5, "noshrink");
  s.sig(mix(mix(static_cast<std::uint64_t>(p.maxSuccess), static_cast<std::uint64_t>(p.maxSize)), mix(sc.shape, sc.failAt)));
  s.log(cat("params success ", p.maxSuccess, " size ", p.maxSize, " ratio ", p.maxDiscardRatio, " shape ", sc.shape, " fail ", sc.failAt));

  long long executed = 0;
  bool shrinkPhase = false;
  int failX = 0;
  std::vector<int> sizes;
  std::vector<std::pair<CaseType, Tags>> shrinkExecs;
  auto body = [&](int x) {
    s.step();
    if (executed > 60000) s.fail("too-many-cases", "a check executes cases without end");
    if (shrinkPhase) { // failing for larger values, discarding some
      CaseType t = x >= 40 + (failX - 40) * shrinkBar / 3 ? CaseType::Failure : x % 3 == 0 ? CaseType::Discard : CaseType::Success;
      Tags tags{std::to_string(x)};
      RC_TAG(x);
      shrinkExecs.emplace_back(t, tags);
      if (t == CaseType::Failure) RC_FAIL(cat("shrink ", x));
      if (t == CaseType::Discard) RC_DISCARD(cat("shrink ", x));
      return;
    }
    auto n = executed++;
    auto o = sc.at(n);
    if (n == sc.failAt) { shrinkPhase = true; failX = x; }
    endAs(o, n);
  };
  Property p0 = shrinky ? toProperty([&] { int x = *rc::gen::resize(100, rc::gen::inRange(40, 90)); body(x); })
                        : toProperty([&] { body(50); });
  Property inner = [&sizes, p0](const rc::Random &r, int size) { sizes.push_back(size); return p0(r, size); };

  int nListeners = s.range(1, 3, "listeners");
  std::vector<Rec> recs(static_cast<std::size_t>(nListeners));
  std::vector<int> order;
  std::ostringstream logText;
  bool vp = s.chance(1, 2, "verbose-progress"), vs = s.chance(1, 2, "verbose-shrinking");
  MulticastTestListener::Listeners ls;
  for (int i = 0; i < nListeners; i++) {
    recs[i].order = &order;
    recs[i].me = i;
    ls.push_back(std::unique_ptr<TestListener>(new Fwd(&recs[i])));
    if (i == 0) ls.push_back(std::unique_ptr<TestListener>(new LogTestListener(logText, vp, vs)));
  }
  MulticastTestListener multi(std::move(ls));
  TestMetadata meta;
  meta.id = "scripted";
  bool via = s.chance(1, 2, "via-check");
  TestResult result{SuccessResult()};
  try {
    if (via) result = checkProperty(inner, meta, p, multi, std::unordered_map<std::string, Reproduce>());
    else result = testProperty(inner, meta, p, multi);
  } catch (const std::exception &e) {
    s.fail("exception-escaped", cat("a check was left by an exception: ", e.what()));
  } catch (...) {
    s.fail("exception-escaped", "a check was left by an exception");
  }

  // -- the expected history
  long long succ = 0, disc = 0, n = 0;
  long long limit = static_cast<long long>(p.maxDiscardRatio) * p.maxSuccess;
  Distribution dist;
  std::vector<Outcome> want;
  char verdict = 'S';
  while (succ < p.maxSuccess) {
    auto o = sc.at(n++);
    want.push_back(o);
    if (o.type == CaseType::Failure) { verdict = 'F'; break; }
    if (o.type == CaseType::Discard) { if (++disc > limit) { verdict = 'G'; break; } }
    else { succ++; if (!o.tags.empty()) dist[o.tags]++; }
  }
  s.log(cat("expected ", verdict, " succ ", succ, " disc ", disc, " cases ", n));
  // -- against what happened
  SuccessResult su; FailureResult fa; GaveUpResult ga;
  char got = result.match(su) ? 'S' : result.match(fa) ? 'F' : result.match(ga) ? 'G' : 'E';
  auto ctx = [&] { return cat("max_success ", p.maxSuccess, " max_size ", p.maxSize, " ratio ", p.maxDiscardRatio, " script ", sc.shape, "/", sc.failAt); };
  if (got != verdict) s.fail("wrong-verdict", cat(ctx(), ": expected ", verdict, ", got ", resultStr(result)));
  long long gotSucc = got == 'S' ? su.numSuccess : got == 'F' ? fa.numSuccess : ga.numSuccess;
  if (gotSucc != succ) s.fail("wrong-count", cat(ctx(), ": reported ", gotSucc, " successes, executed ", succ));
  if (got == 'S' && su.distribution != dist) s.fail("wrong-distribution", cat(ctx(), ": ", resultStr(result)));
  // (the reported case itself is run again)
  if (verdict == 'S' ? executed != n : executed < n || executed > n + 2) s.fail("wrong-case-count", cat(ctx(), ": ", executed, " cases were executed instead of ", n));
  if (static_cast<long long>(sizes.size()) != n) s.fail("wrong-case-count", cat(ctx(), ": the property was asked for ", sizes.size(), " cases instead of ", n));
  auto &ev = recs[0].ev;
  for (int i = 1; i < nListeners; i++) if (!(recs[i].ev == ev)) s.fail("listeners-differ", cat("listener ", i, " saw other events than the first one"));
  for (std::size_t i = 0; i < order.size(); i++) if (order[i] != static_cast<int>(i % static_cast<std::size_t>(nListeners))) s.fail("listeners-differ", "an event reached one listener before the previous event reached all");
  for (auto &r : recs) if (r.results.size() != 1 || resultStr(r.results[0]) != resultStr(result) || r.ids[0] != "scripted") s.fail("wrong-final-event", ctx());
  std::size_t cases = 0, shrinks = 0, nextExec = 0;
  Tags bestTags{std::to_string(failX)};
  for (std::size_t i = 0; i < ev.size(); i++) {
    if (ev[i].kind == 'c') {
      if (cases != i) s.fail("event-order", "a case was announced after something else");
      if (cases >= want.size()) s.fail("event-invented", ctx());
      auto &o = want[cases];
      if (ev[i].type != o.type || ev[i].tags != o.tags) s.fail("wrong-event", cat(ctx(), ": case ", cases, " announced as ", evStr(ev[i])));
      bool named = !(o.type == CaseType::Success && o.how % 2 == 0) && !(o.type == CaseType::Discard && o.how % 3 == 1) && !(o.type == CaseType::Failure && (o.how == 1 || o.how == 4));
      if (named && ev[i].desc.find(cat("case ", cases)) == std::string::npos) s.fail("wrong-event", cat(ctx(), ": case ", cases, " announced with ", quote(ev[i].desc)));
      cases++;
    } else if (ev[i].kind == 's') {
      if (cases != want.size() || verdict != 'F') s.fail("event-order", "a shrink was announced without a failure");
      if (p.disableShrinking) s.fail("shrunk-anyway", ctx());
      // the case being shrunk may be run again in between
      while (nextExec < shrinkExecs.size() && shrinkExecs[nextExec].second == bestTags && ev[i].tags != bestTags) nextExec++;
      if (nextExec >= shrinkExecs.size()) s.fail("event-invented", "more shrinks announced than tried");
      auto &x = shrinkExecs[nextExec++];
      if (ev[i].accepted) bestTags = x.second;
      if (ev[i].type != x.first || ev[i].tags != x.second || ev[i].accepted != (x.first == CaseType::Failure)) s.fail("wrong-event", cat("shrink ", shrinks, " announced as ", evStr(ev[i])));
      shrinks++;
    } else if (i + 1 != ev.size()) s.fail("event-order", "events after the final result");
  }
  if (cases != want.size()) s.fail("event-lost", cat(ctx(), ": ", cases, " of ", want.size(), " cases announced"));
  if (ev.empty() || ev.back().kind != 'f') s.fail("event-lost", "no final result");
  // after the last announced shrink only the reported case itself is run again
  while (nextExec < shrinkExecs.size() && shrinkExecs[nextExec].second == bestTags) nextExec++;
  if (nextExec < shrinkExecs.size()) s.fail("event-lost", cat(shrinkExecs.size(), " shrinks were tried, ", shrinks, " announced"));

  // -- sizes
  long long recent = 0, baseSeen = -1, lastPlain = -1, maxPlain = 0;
  std::map<int, int> distinct;
  std::map<long long, long long> growth;
  long long index = -1;
  long long prevInRun = -1;
  long long done = 0;
  for (std::size_t i = 0; i < want.size(); i++) {
    long long z = sizes[i];
    if (i == 0 && z != 0) s.fail("wrong-size", cat(ctx(), ": the first case has size ", z));
    if (z < 0) s.fail("wrong-size", cat(ctx(), ": case ", i, " has size ", z));
    if (recent == 0) {
      if (z > p.maxSize) s.fail("wrong-size", cat(ctx(), ": case ", i, " has size ", z, " without discards before it"));
      if (lastPlain >= 0 && z < lastPlain && z != 0) s.fail("wrong-size", cat(ctx(), ": case ", i, " has size ", z, " after ", lastPlain));
      if (lastPlain >= 0 && p.maxSuccess > 1 && z > lastPlain) {
        long long maxStep = p.maxSuccess > p.maxSize ? 1 : 0;
        // the last, partial sweep also takes larger steps
        long long full = (static_cast<long long>(p.maxSuccess) / (static_cast<long long>(p.maxSize) + 1)) * (static_cast<long long>(p.maxSize) + 1);
        if (maxStep && done < full && z > lastPlain + 1) s.fail("wrong-size", cat(ctx(), ": case ", i, " has size ", z, " right after ", lastPlain));
      }
      lastPlain = z;
      baseSeen = z;
      maxPlain = std::max(maxPlain, z);
      if (p.maxSize < 100000) distinct[static_cast<int>(z)]++;
      (void)index;
      prevInRun = z;
    } else {
      if (z < prevInRun) s.fail("wrong-size", cat(ctx(), ": case ", i, " has size ", z, " after ", recent, " discards, ", prevInRun, " before"));
      if (z > baseSeen + recent) s.fail("wrong-size", cat(ctx(), ": case ", i, " has size ", z, " after ", recent, " discards from ", baseSeen));
      if (recent >= 50 && z <= baseSeen && z < std::numeric_limits<int>::max()) s.fail("wrong-size", cat(ctx(), ": size ", z, " does not grow after ", recent, " discards"));
      if (recent >= 50) s.probe("size-grew");
      if (z < std::numeric_limits<int>::max()) { // how much depends on this run of discards alone
        auto it = growth.emplace(recent, z - baseSeen);
        if (it.first->second != z - baseSeen) s.fail("wrong-size", cat(ctx(), ": size ", z, " of case ", i, " after ", recent, " discards from ", baseSeen, ", but growth by ", it.first->second, " after as many before"));
      }
      prevInRun = z;
    }
    if (want[i].type == CaseType::Discard) recent++;
    else {
      if (want[i].type == CaseType::Success) done++;
      recent = 0;
    }
  }
  if (verdict == 'S' && p.maxSuccess >= 2 && maxPlain != p.maxSize) s.fail("wrong-size", cat(ctx(), ": the largest size was ", maxPlain));
  if (verdict == 'S' && p.maxSuccess > p.maxSize && p.maxSize < 100000 && static_cast<int>(distinct.size()) != p.maxSize + 1) s.fail("wrong-size", cat(ctx(), ": only ", distinct.size(), " different sizes were used"));

  // -- progress output
  std::string marks, wantMarks;
  auto text = logText.str();
  for (const char *cut : {"Found failure, shrinking...", "Found failure, shrinking:"}) {
    auto at = text.find(cut);
    if (at != std::string::npos) text.erase(at, std::string(cut).size());
  }
  for (char c : text) if (c == '.' || c == 'x' || c == '!') marks += c;
  for (auto &e : ev) {
    if (e.kind == 'c' && vp && e.type != CaseType::Failure) wantMarks += e.type == CaseType::Success ? '.' : 'x';
    if (e.kind == 's' && vs) wantMarks += e.accepted ? '!' : '.';
  }
  if (marks != wantMarks) s.fail("wrong-progress", cat("progress output ", quote(text.substr(0, 200))));
  if (!vp && !vs && !logText.str().empty()) s.fail("wrong-progress", "output although nothing verbose was asked for");

  // -- the printed result
  {
    std::ostringstream ss;
    printResultMessage(result, ss);
    auto text = ss.str();
    auto need = [&](const std::string &what) {
      if (text.find(what) == std::string::npos) s.fail("wrong-report", cat(ctx(), ": no ", quote(what), " in ", quote(text.substr(0, 300))));
    };
    if (verdict == 'S') {
      need(cat("passed ", succ, " test"));
      std::istringstream is(text);
      std::string line;
      std::map<std::string, int> lines;
      double last = 1e9;
      std::getline(is, line);
      while (std::getline(is, line)) {
        lines[line]++;
        double v = std::atof(line.c_str());
        if (v > last) s.fail("wrong-report", cat("the distribution is not in order: ", quote(text.substr(0, 300))));
        last = v;
      }
      std::map<std::string, int> wantLines;
      for (auto &d : dist) {
        char b[64];
        std::snprintf(b, sizeof b, "%5.2f%% - ", 100.0 * d.second / static_cast<double>(succ));
        std::string l = b;
        for (std::size_t i = 0; i < d.first.size(); i++) l += (i ? ", " : "") + d.first[i];
        wantLines[l]++;
      }
      if (lines != wantLines) s.fail("wrong-report", cat("the distribution was reported as ", quote(text.substr(0, 300))));
      if (dist.size() > 1) s.probe("distribution-printed");
    } else if (verdict == 'F') {
      need(cat("after ", succ + 1, " test"));
      if (!fa.reproduce.shrinkPath.empty()) need(cat(" ", fa.reproduce.shrinkPath.size(), " shrink"));
      need(fa.description);
      for (auto &e : fa.counterExample) { need(e.first); need(e.second); }
    } else {
      need(cat("after ", succ, " test"));
      need(ga.description);
    }
  }
  s.sig(mix(static_cast<std::uint64_t>(verdict), mix(static_cast<std::uint64_t>(succ), static_cast<std::uint64_t>(disc))));
  s.count(cat("verdict.", verdict));
  if (disc) s.fault("discarded-cases");
  if (verdict == 'F') s.fault("failing-case");
  if (shrinks) s.probe("shrinks-announced");
}

// ---- simulated programs -------------------------------------------------------

SCENARIO("program", 1) {
  reset("C04");
  BodyOpts o;
  o.genDepth = s.range(0, 2, "gen-depth");
  o.throwingGens = s.chance(1, 3, "throwing-gens");
  o.rejectingGens = s.chance(1, 2, "rejecting-gens");
  o.nestDepth = s.chance(1, 4, "nesting") ? 1 : 0;
  drawSlots(s, o);
  int n = s.range(1, 3, "checks");
  for (int i = 0; i < n; i++) {
    auto b = drawBody(s, o);
    s.log(b->str());
    s.sig(hashStr(b->str()));
    auto p = drawParams(s, paramSize(s));
    bool transient = s.chance(1, 3, "transient");
    if (transient) faults.arm(s, 200);
    CheckOpts co;
    co.examples = false;
    co.viaCheckProperty = s.chance(1, 2, "via");
    auto r = runCheck(b, p, co);
    faults.disarm();
    s.sig(hashStr(r.trace.back()));
  }
}

} // namespace
