// C14: test programs written for Google Test, Google Mock, Boost Test, Catch, doctest
// each run in a process of its own from a drawn script.
#include "c14.h"
#include <rapidcheck.h>
#include <rapidcheck/detail/ExecFixture.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
using namespace sim;
using namespace c14;

namespace c14 {
Script script;
std::string out;
Plan &plan(int slot) {
  for (auto &p : script.plans) if (p.slot == slot) return p;
  static Plan none;
  return none;
}
std::string oneLine(std::string s) {
  for (auto &c : s) if (c == '\n' || c == '\r') c = ' ';
  return s;
}
Life::Life(int s) : slot(s), id(0) {
  Plan &p = plan(slot);
  id = ++p.instances;
  if (p.outer && id == 1) return;
  if (++p.ctors == p.ctorThrowAt) {
    emit(cat("ctor-throws ", slot, " ", id));
    RC_LOG() << "tok-c" << id << "." << std::endl;
    throw std::runtime_error("constructor of the fixture");
  }
  p.live++;
  emit(cat("ctor ", slot, " ", id));
}
Life::~Life() {
  if (plan(slot).outer && id == 1) return;
  plan(slot).live--; emit(cat("dtor ", slot, " ", id)); }
void Life::setUp() {
  Plan &p = plan(slot);
  if (p.outer && id == 1) return;
  if (++p.setUps == p.setUpThrowAt) {
    emit(cat("setup-throws ", slot, " ", id));
    RC_LOG() << "tok-s" << id << "." << std::endl;
    throw std::runtime_error("SetUp of the fixture");
  }
  emit(cat("setup ", slot, " ", id));
}
void Life::tearDown() {
  Plan &p = plan(slot);
  if (p.outer && id == 1) return;
  if (++p.tearDowns == p.tearDownThrowAt) {
    emit(cat("teardown-throws ", slot, " ", id));
    RC_LOG() << "tok-t" << id << "." << std::endl;
    throw std::runtime_error("TearDown of the fixture");
  }
  emit(cat("teardown ", slot, " ", id));
}
End body(int slot, int inst, int x) {
  Plan &p = plan(slot);
  int n = ++p.execs;
  End e = n == p.bodyThrowAt ? ThrowStd : p.endOf(x);
  emit(cat("body ", slot, " ", inst, " ", n, " ", x, " ", static_cast<int>(e)));
  RC_LOG() << "tok-b" << n << "." << std::endl;
  switch (e) {
  case Succeed: RC_SUCCEED("enough");
  case DiscardCase: RC_DISCARD("not this one");
  case FailMacro: RC_FAIL("failed by the script");
  case Assert: RC_ASSERT(x < -2000000000); break;
  case ThrowStd: throw std::runtime_error("thrown by the script");
  case ThrowInt: throw 17;
  case ThrowString: throw std::string("thrown string");
  default: break;
  }
  return e;
}
} // namespace c14

namespace {

bool countsAsFailure(End e, int listener, bool gtest) {
  switch (e) {
  case FailMacro: case Assert: case ThrowStd: case ThrowInt: case ThrowString: return true;
  case Framework: case FrameworkTwice: case MockUnexpected: case MockMissing: return gtest && listener != 0;
  case FrameworkFatal: return !gtest;
  default: return false;
  }
}
int rawParts(End e) {
  switch (e) {
  case Framework: case FrameworkDiscard: case MockUnexpected: case MockMissing: case FrameworkFatal: return 1;
  case FrameworkTwice: return 2;
  default: return 0;
  }
}

struct Tally {
  int ok = 0, discards = 0, fails = 0, raw = 0;
  int last = -1; // how the last case ended: 0 passed, 1 failed, 2 discarded
  // Tokens of the last failing case and of those that ran after it (the library
  // may run a counterexample once more for its report).
  std::vector<std::string> toks;
  bool carried(const std::string &report) const {
    for (auto &k : toks) if (report.find(k) != std::string::npos) return true;
    return false;
  }
  std::string lastFailTok() const { return toks.empty() ? "-" : toks[0]; }
};

// One case's events, in order, for a slot.
void grammar(Sim &s, const std::vector<std::vector<std::string>> &ev, int slot, bool fixture, bool tearDown, bool gtest, int listener, Tally &t, long maxDiscard = 1L << 40) {
  std::string st = "idle"; // idle made set ran torn
  std::string inst;
  bool bodyFail = false, bodyDiscard = false, lifeFail = false;
  std::string tok;
  auto closeCase = [&] {
    if (!t.fails && t.discards > maxDiscard) { // already given up: the last case once more, for the report
      bodyFail = bodyDiscard = lifeFail = false;
      return;
    }
    if (bodyFail || lifeFail) { if (bodyDiscard && !lifeFail) { t.discards++; } else { t.fails++; t.toks.clear(); } }
    else if (bodyDiscard) t.discards++;
    else t.ok++;
    t.last = (bodyFail || lifeFail) ? (bodyDiscard && !lifeFail ? 2 : 1) : bodyDiscard ? 2 : 0;
    if (t.fails) t.toks.push_back(tok);
    bodyFail = bodyDiscard = lifeFail = false;
  };
  auto bad = [&](const std::vector<std::string> &e) {
    std::string all;
    for (auto &w : e) all += w + " ";
    s.fail("fixture-order", cat("property ", slot, ": '", all, "' after state ", st, " of fixture ", inst));
  };
  for (auto &e : ev) {
    if (e.size() < 3 || e[1] != std::to_string(slot)) continue;
    const std::string &w = e[0];
    if (w == "ctor") {
      if (st != "idle") bad(e);
      st = "made"; inst = e[2];
    } else if (w == "ctor-throws") {
      if (st != "idle") bad(e);
      lifeFail = true; tok = "tok-c" + e[2] + ".";
      closeCase();
    } else if (w == "setup" || w == "setup-throws") {
      if (st != "made" || e[2] != inst) bad(e);
      if (w == "setup") st = "set"; else { st = "torn"; lifeFail = true; tok = "tok-s" + e[2] + "."; }
    } else if (w == "enter") { // the body began but may be left from an inner fixture
      if (st != "set" || e[2] != inst) bad(e);
      st = "entered";
    } else if (w == "body") {
      if (fixture ? (st != "set" && st != "entered") || e[2] != inst : st != "idle") bad(e);
      End x = static_cast<End>(std::stoi(e[5]));
      t.raw += rawParts(x);
      tok = "tok-b" + e[3] + ".";
      if (x == DiscardCase || x == FrameworkDiscard) bodyDiscard = true;
      else if (countsAsFailure(x, listener, gtest)) bodyFail = true;
      if (fixture) st = "ran"; else closeCase();
    } else if (w == "teardown" || w == "teardown-throws") {
      if ((st != "ran" && st != "torn" && st != "entered") || e[2] != inst || !tearDown) bad(e);
      st = "torn";
      if (w == "teardown-throws") { lifeFail = true; bodyDiscard = false; tok = "tok-t" + e[2] + "."; }
    } else if (w == "dtor") {
      if (e[2] != inst || !(st == "torn" || (!tearDown && (st == "ran" || st == "set" || st == "made")))) bad(e);
      st = "idle";
      closeCase();
    }
  }
  s.check(st == "idle", "fixture-order", [&] { return cat("property ", slot, " ended with fixture ", inst, " in state ", st); });
}

std::string inProcess(Sim &s, const std::string &params, void (*run)(), bool &crashed, std::string &console) {
  int pfd[2];
  if (pipe(pfd)) s.fail("harness", "pipe");
  int mem = memfd_create("console", 0);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(60);
    close(pfd[0]);
    dup2(mem, 1);
    dup2(mem, 2);
    setenv("RC_PARAMS", params.c_str(), 1);
    sim::current = nullptr;
    out.clear();
    try { run(); } catch (...) { _exit(70); }
    fflush(stdout);
    emit("finished");
    std::size_t at = 0;
    while (at < out.size()) {
      ssize_t w = write(pfd[1], out.data() + at, out.size() - at);
      if (w <= 0) break;
      at += w;
    }
    _exit(0);
  }
  close(pfd[1]);
  std::string r;
  char buf[65536];
  for (;;) {
    ssize_t n = read(pfd[0], buf, sizeof buf);
    if (n <= 0) break;
    r.append(buf, n);
  }
  close(pfd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  off_t len = lseek(mem, 0, SEEK_END);
  lseek(mem, 0, SEEK_SET);
  if (len > (1 << 20)) len = 1 << 20;
  console.resize(len);
  if (len) { ssize_t n = read(mem, &console[0], len); (void)n; }
  close(mem);
  crashed = !(WIFEXITED(status) && WEXITSTATUS(status) == 0) || r.find("finished\n") == std::string::npos;
  return r;
}

void drawScript(Sim &s, bool gtest, bool boost) {
  script = Script();
  for (int i = 0; i < kSlots; i++) {
    if (i && !s.chance(2, 3, "slot")) continue;
    Plan p;
    p.slot = i;
    p.plain = i == 3;
    p.outer = gtest && i == 2;
    p.seed = s.choose(100000, "plan");
    if (p.plain) { p.plainFailures = s.range(0, 3, "plain-failures"); script.plans.push_back(p); continue; }
    if (s.chance(1, 2, "fails")) p.threshold = s.range(-5, 40, "threshold");
    p.discardNum = s.chance(1, 3, "discards") ? s.range(1, 8, "n") : 0;
    static const End g[] = {FailMacro, Assert, ThrowStd, ThrowInt, ThrowString, Framework, FrameworkTwice, FrameworkDiscard, MockUnexpected, MockMissing};
    static const End o[] = {FailMacro, Assert, ThrowStd, ThrowInt, ThrowString, FrameworkFatal};
    p.failEnd = gtest ? g[s.choose(10, "end")] : o[s.choose(6, "end")];
    if (s.chance(1, 6, "ctor-throws")) p.ctorThrowAt = s.range(1, 12, "at");
    if (s.chance(1, 6, "setup-throws")) p.setUpThrowAt = s.range(1, 12, "at");
    if (s.chance(1, 6, "teardown-throws")) p.tearDownThrowAt = s.range(1, 12, "at");
    if (s.chance(1, 6, "body-throws")) p.bodyThrowAt = s.range(1, 12, "at");
    (void)boost;
    script.plans.push_back(p);
  }
  script.listener = gtest ? s.choose(4, "listener") : 0;
  script.shuffle = gtest && s.chance(1, 3, "shuffle");
}

void judgeProgram(Sim &s, const char *name, void (*run)(), bool gtest, bool boost, bool catchLike) {
  drawScript(s, gtest, boost);
  int maxSuccess = s.range(1, 25, "max-success"), ratio = s.range(1, 5, "ratio");
  std::string params = cat("seed=", s.choose(100000, "seed"), " max_success=", maxSuccess, " max_discard_ratio=", ratio, " max_size=", s.range(1, 60, "size"));
  bool noshrink = s.chance(1, 6, "noshrink");
  if (noshrink) params += " noshrink=1";
  s.sig(name);
  s.log(cat("program ", name, " ", params, " listener ", script.listener));
  bool crashed = false;
  std::string console;
  std::string events = inProcess(s, params, run, crashed, console);
  s.check(!crashed, "crashed", [&] { return cat("the ", name, " program did not end normally; console: ", oneLine(console.substr(0, 400))); });
  std::vector<std::vector<std::string>> ev;
  std::vector<std::string> lines;
  std::istringstream is(events);
  std::string l;
  while (std::getline(is, l)) {
    lines.push_back(l);
    std::istringstream ws(l);
    std::vector<std::string> w;
    std::string x;
    while (w.size() < 8 && ws >> x) w.push_back(x);
    ev.push_back(w);
    s.step();
    if (l.size() < 200) s.log(l);
  }
  s.sig(ev.size());
  // Where each test begins and ends: no property's case outside of its test.
  std::string open;
  for (auto &e : ev) {
    if (e.empty()) continue;
    if (e[0] == "start") open = e[1];
    if (e[0] == "end") open.clear();
    if (e[0] == "body" && !(gtest && script.listener >= 2))
      s.check(open == "s" + e[1], "wrong-test", [&] { return cat("a case of property ", e[1], " ran inside test '", open, "'"); });
  }
  std::vector<std::string> expectDelegate; // kinds of parts the delegate must see
  for (auto &p : script.plans) {
    std::string test = "s" + std::to_string(p.slot);
    int verdicts = 0;
    bool failed = false;
    int good = -1; // assertions that held, where the framework counts them
    int fatal = 0, nonfatal = 0, reports = 0;
    std::string report;
    for (std::size_t i = 0; i < ev.size(); i++) {
      auto &e = ev[i];
      if (e.size() < 2 || e[1] != test) continue;
      if (e[0] == "verdict") { verdicts++; failed = e[2] == "fail"; if (e.size() > 3) good = std::stoi(e[3]); }
      if (e[0] == "part") {
        (e[2] == "fatal" ? fatal : nonfatal)++;
        if (lines[i].find("Falsifiable after") != std::string::npos || lines[i].find("Gave up after") != std::string::npos) { reports++; report = lines[i]; }
      }
    }
    s.check(verdicts == 1, "verdict-count", [&] { return cat("test ", test, " has ", verdicts, " verdicts"); });
    if (p.plain) {
      s.check(failed == (p.plainFailures > 0) && fatal + nonfatal == p.plainFailures, "outside-failures", [&] { return cat("an ordinary test raised ", p.plainFailures, " failures, the framework got ", fatal + nonfatal); });
      continue;
    }
    Tally t;
    bool fixture = p.slot != 1;
    grammar(s, ev, p.slot, fixture, gtest, gtest, script.listener, t, static_cast<long>(maxSuccess) * ratio);
    bool falsified = t.fails > 0;
    bool enough = t.ok >= maxSuccess;
    if (falsified || t.discards) s.nontrivial();
    s.sig(mix(t.fails, mix(t.ok, t.discards)));
    if (!falsified) s.check(t.ok <= maxSuccess, "too-many", [&] { return cat("property ", test, " succeeded ", t.ok, " times of ", maxSuccess); });
    bool mustFail = falsified || !enough || t.raw > 0;
    s.check(failed == mustFail, "wrong-verdict", [&] { return cat("property ", test, " (", t.fails, " failing, ", t.ok, " passing, ", t.discards, " discarded cases, ", t.raw, " framework failures) is reported as ", failed ? "failed" : "passed"); });
    int wantReports = falsified || !enough ? 1 : 0;
    if (boost) {
      // The log carries the reports; the observer counts the failures.
      s.check(fatal + nonfatal == wantReports + t.raw, "verdict-count", [&] { return cat("property ", test, " has ", fatal + nonfatal, " framework failures, expected ", wantReports + t.raw); });
    } else {
      s.check(reports == wantReports, "verdict-count", [&] { return cat("property ", test, " has ", reports, " reports, expected ", wantReports); });
      s.check(fatal + nonfatal == wantReports + t.raw, "verdict-count", [&] { return cat("property ", test, " has ", fatal + nonfatal, " framework failures, expected ", wantReports + t.raw); });
      if (falsified) {
        s.check(report.find("Falsifiable after") != std::string::npos, "wrong-report", [&] { return cat("property ", test, " failed but its report is ", report); });
        s.check(t.carried(report), "wrong-report", [&] { return cat("the report of ", test, " does not carry the failing case ", t.lastFailTok(), ": ", report); });
      } else if (!enough)
        s.check(report.find("Gave up after") != std::string::npos, "wrong-report", [&] { return cat("property ", test, " gave up but its report is ", report); });
    }
    if (boost && falsified) {
      bool found = false;
      for (auto &x : lines) if (x.compare(0, 4, "log ") == 0 && x.find("Falsifiable after") != std::string::npos && t.carried(x)) found = true;
      s.check(found, "wrong-report", [&] { return cat("the log does not carry the report of ", test, " with ", t.lastFailTok()); });
    }
    if (good >= 0) s.check(good == (wantReports ? 0 : 1), "verdict-count", [&] { return cat("property ", test, " counts as ", good, " passed assertions of the framework, it is reported as ", failed ? "failed" : "passed"); });
    if (falsified) s.probe(cat(name, ".falsified"));
    if (!falsified && !enough) s.probe(cat(name, ".gave-up"));
    if (!mustFail) s.probe(cat(name, ".passed"));
    // Failures inside cases that must be shrunk: something below must have been tried.
  }
  if (gtest && (script.listener == 0 || script.listener == 1)) {
    // What the framework's own listener must have seen, in order.
    int outsideRaised = 0, outsideSeen = 0, insideSeen = 0, reportsSeen = 0;
    int raw = 0, wantReports = 0;
    for (std::size_t i = 0; i < ev.size(); i++) {
      auto &e = ev[i];
      if (e.empty()) continue;
      if (e[0] == "raise") outsideRaised++;
      if (e[0] == "body") raw += rawParts(static_cast<End>(std::stoi(e[5])));
      if (e[0] == "part" && e[2] == "fatal") wantReports++;
      if (e[0] == "delegate") {
        if (lines[i].find("outside-") != std::string::npos) outsideSeen++;
        else if (e[1] == "fatal") reportsSeen++;
        else insideSeen++;
      }
    }
    s.check(outsideSeen == outsideRaised, "outside-failures", [&] { return cat(outsideRaised, " failures were raised outside of properties, the framework's listener saw ", outsideSeen); });
    s.check(reportsSeen == wantReports, "outside-failures", [&] { return cat(wantReports, " verdicts were raised, the framework's listener saw ", reportsSeen); });
    s.check(insideSeen == (script.listener ? 0 : raw), "inside-failures", [&] { return cat(raw, " failures were raised inside cases, the framework's listener saw ", insideSeen); });
  }
  if (gtest && script.listener == 3) {
    int raised = 0;
    for (auto &e : ev) if (!e.empty() && e[0] == "raise") raised++;
    for (int i = 0; i < raised; i++) {
      std::size_t n = 0, pos = 0;
      std::string w = cat("outside-", i);
      while ((pos = console.find(w, pos)) != std::string::npos) { n++; pos++; }
      s.check(n == 1, "outside-failures", [&] { return cat("failure ", w, " raised outside of properties was printed ", n, " times"); });
    }
    s.check(console.find("nf-tok") == std::string::npos || console.find("Falsifiable") != std::string::npos, "inside-failures", [] { return std::string("a failure inside a case was printed"); });
  }
  if (gtest && script.listener == 2) {
    int raised = 0;
    for (auto &e : ev) if (!e.empty() && e[0] == "raise") raised++;
    for (int i = 0; i < raised; i++) s.check(console.find(cat("outside-", i)) != std::string::npos, "outside-failures", [&] { return cat("failure outside-", i, " without a delegate was not printed"); });
  }
  (void)catchLike;
}

SCENARIO("gtest", 4) { judgeProgram(s, "gtest", &runGtest, true, false, false); }
SCENARIO("boost-test", 2) { judgeProgram(s, "boost", &runBoost, false, true, false); }
SCENARIO("catch", 2) { judgeProgram(s, "catch", &runCatch, false, false, true); }
SCENARIO("doctest", 2) { judgeProgram(s, "doctest", &runDoctest, false, false, true); }

// ------------------- fixtures through the library's own adaptor, in process
struct F0 {
  Life life{0};
  void rapidCheck_fixtureSetUp() { life.setUp(); }
  void rapidCheck_fixtureTearDown() { life.tearDown(); }
  void operator()(int x, const std::vector<int> &) { c14::body(0, life.id, x); }
};
struct F2 {
  Life life{2};
  void rapidCheck_fixtureSetUp() { life.setUp(); }
  void rapidCheck_fixtureTearDown() { life.tearDown(); }
  void operator()() {
    int x = *rc::gen::inRange(-5, 40);
    emit(cat("enter 2 ", life.id));
    if (x % 7 == 3) rc::detail::ExecFixture<F0>::exec(x + 1, std::vector<int>()); // used inside another fixture
    c14::body(2, life.id, x);
  }
};
struct L : rc::detail::TestListener {
  std::vector<rc::detail::CaseDescription> cases;
  void onTestCaseFinished(const rc::detail::CaseDescription &d) override { add(d); }
  void onShrinkTried(const rc::detail::CaseDescription &d, bool) override { add(d); }
  void onTestFinished(const rc::detail::TestMetadata &, const rc::detail::TestResult &) override {}
  void add(const rc::detail::CaseDescription &d) { cases.push_back(d); emit(cat("case ", static_cast<int>(d.result.type), " ", oneLine(d.result.description))); }
};
SCENARIO("exec-fixture", 10) {
  drawScript(s, false, false);
  bool inner = s.chance(1, 3, "inner");
  int slot = inner ? 2 : 0;
  if (inner && plan(2).slot != 2) { Plan p; p.slot = 2; p.threshold = s.range(0, 40, "threshold"); script.plans.push_back(p); }
  for (auto &p : script.plans) if (p.failEnd == FrameworkFatal) p.failEnd = Assert;
  out.clear();
  rc::detail::TestParams tp;
  tp.seed = s.choose(100000, "seed");
  tp.maxSuccess = s.range(1, 30, "success");
  tp.maxSize = s.range(1, 50, "size");
  tp.maxDiscardRatio = s.range(0, 5, "ratio");
  tp.disableShrinking = s.chance(1, 6, "noshrink");
  rc::detail::TestMetadata md;
  md.id = "C14";
  L l;
  const std::unordered_map<std::string, rc::detail::Reproduce> none;
  rc::detail::checkProperty(inner ? rc::detail::toProperty(&rc::detail::ExecFixture<F2>::exec) : rc::detail::toProperty(&rc::detail::ExecFixture<F0>::exec), md, tp, l, none);
  std::vector<std::vector<std::string>> ev;
  std::istringstream is(out);
  std::string line;
  std::vector<std::string> lines;
  std::vector<std::size_t> caseEnds;
  while (std::getline(is, line)) {
    std::istringstream ws(line);
    std::vector<std::string> w;
    std::string x;
    while (w.size() < 8 && ws >> x) w.push_back(x);
    if (!w.empty() && w[0] == "case") caseEnds.push_back(ev.size());
    ev.push_back(w);
    lines.push_back(line);
    s.step();
    s.log(line);
  }
  // Each announced case: its events make exactly one fixture life, and its
  // outcome is that of the life.
  std::size_t from = 0;
  for (std::size_t end : caseEnds) {
    std::vector<std::vector<std::string>> part(ev.begin() + from, ev.begin() + end);
    from = end + 1;
    Tally t, ti;
    grammar(s, part, slot, true, true, false, 0, t);
    if (inner) grammar(s, part, 0, true, true, false, 0, ti);
    int type = std::stoi(ev[end][1]);
    int want = -1;
    if (!inner) want = t.last;
    s.check(t.fails + t.discards + t.ok >= 1, "fixture-order", [] { return std::string("a case used no fixture"); });
    if (want >= 0) {
      using T = rc::detail::CaseResult::Type;
      T w = want == 1 ? T::Failure : want == 2 ? T::Discard : T::Success;
      s.check(type == static_cast<int>(w), "wrong-verdict", [&] { return cat("a case whose fixture life should end as ", want, " was announced as ", type); });
      if (want == 1) s.check(t.carried(lines[end]), "wrong-report", [&] { return cat("the case's description does not carry ", t.lastFailTok(), ": ", lines[end]); });
    }
    s.sig(type);
    if (type) s.nontrivial();
  }
  for (auto &p : script.plans) s.check(p.live == 0, "leaked", [&] { return cat(p.live, " fixtures of property ", p.slot, " were never destroyed"); });
  if (plan(slot).bodyThrowAt && plan(slot).bodyThrowAt <= plan(slot).execs) s.fault("throw@body");
  if (plan(slot).ctorThrowAt && plan(slot).ctorThrowAt <= plan(slot).ctors) s.fault("throw@fixture-constructor");
  if (plan(slot).setUpThrowAt && plan(slot).setUpThrowAt <= plan(slot).setUps) s.fault("throw@set-up");
  if (plan(slot).tearDownThrowAt && plan(slot).tearDownThrowAt <= plan(slot).tearDowns) s.fault("throw@tear-down");
}

} // namespace
