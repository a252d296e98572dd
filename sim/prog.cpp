#include "prog.h"
#include <map>
#include "detail/MulticastTestListener.h"
#include <iostream>
#include <new>
using namespace sim;
using namespace zoo;
namespace gen = rc::gen;
using namespace rc::detail;

namespace prog {

Property propR0(std::shared_ptr<Body>);
Property propR1(std::shared_ptr<Body>);
Property propR2(std::shared_ptr<Body>);
Property propR3(std::shared_ptr<Body>);

Spec slotSpecs[kSlots];
std::vector<Frame *> frames;
bool ordinalTokens = false;
std::uint64_t execCounter = 0;
std::string focus;
bool disableNested = false;
int flakyMod = 0;

void viol(const char *props, const std::string &cls, const std::string &msg) {
  if (std::string(props).find(focus) != std::string::npos) current->fail(cls, msg);
}

std::string typeName(CaseType t) { return t == CaseType::Success ? "success" : t == CaseType::Failure ? "failure" : "discard"; }

static const char *stepName[] = {"pick", "pickMany", "log", "logStream", "tag", "classify", "report", "assert", "assertFalse", "assertThrows", "assertThrowsAs", "fail", "pre", "discard", "succeed", "succeedIf",
  "throwStd", "throwString", "throwInt", "throwCustom", "throwGenFailure", "throwResult", "throwBadAlloc", "throwCStr", "nested", "fault"};

std::string Body::str() const {
  std::string r = cat("body", id, "(slot", slot, " arity", arity, " ret", ret, " retCond", retCond);
  if (retCond == -1) r += cat(">=", retThreshold);
  for (auto &st : steps) {
    r += cat("; ", stepName[st.kind], " c", st.cond);
    if (st.cond == -1) r += cat(">=", st.threshold);
    if (st.kind == SPick || st.kind == SPickMany) r += " " + st.spec.str();
    if (st.nested) r += " {" + st.nested->str() + "}";
  }
  return r + ")";
}

long long measure(const Val &v) {
  long long m = 1 + (v.n > 0 ? (v.n > 1000000 ? 1000000 : v.n) : 0);
  for (auto &k : v.k) m += measure(k);
  return m + static_cast<long long>(v.s.size());
}
long long measure(const std::vector<Val> &vs) { long long m = 0; for (auto &v : vs) m += measure(v); return m; }

// ---- executing bodies ----------------------------------------------------------

void Exec::report(CaseType t, const std::string &token) {
  switch (t) {
  case CaseType::Discard:
    if (type != t) { must.clear(); must.push_back(token); type = t; }
    break;
  case CaseType::Failure:
    if (type == CaseType::Discard) break;
    if (type == CaseType::Success) must.clear();
    must.push_back(token);
    type = t;
    break;
  case CaseType::Success:
    if (type == CaseType::Success) { must.clear(); must.push_back(token); }
    break;
  }
}
std::string Exec::inputs() const {
  std::string r = "(";
  for (auto &a : args) r += a.str() + ",";
  r += ")";
  for (auto &p : picks) r += " " + p.first + "=" + p.second.str();
  if (pickThrew) r += " pick!";
  return r;
}
std::string Exec::str() const {
  std::string r = inputs() + " -> " + typeName(type);
  for (auto &t : tags) r += " #" + t;
  for (auto &t : logs) r += " @" + t;
  return r;
}

namespace {

struct Operand {
  static int lhs, rhs;
};
int Operand::lhs = 0;
int Operand::rhs = 0;
int opL(int x) { Operand::lhs++; return x; }
int opR(int x) { Operand::rhs++; return x; }
bool opB(bool x) { Operand::lhs++; Operand::rhs++; return x; }
void maybeThrow(bool t) { Operand::lhs++; Operand::rhs++; if (t) throw CustomThrow{1}; }
void maybeThrowStd(int kind) {
  Operand::lhs++; Operand::rhs++;
  if (kind == 1) throw std::runtime_error("expected");
  if (kind == 2) throw CustomThrow{2};
}

struct Runner {
  const Body &b;
  Exec &e;
  std::vector<Val> inputs;
  std::uint64_t h;
  int tokens = 0;

  Runner(const Body &body, Exec &x) : b(body), e(x), h(mix(body.seed, 99)) {}
  void input(const Val &v) { inputs.push_back(v); h = mix(h, v.hash()); }
  std::string token() {
    return cat("<", b.id, ".", ordinalTokens ? e.ordinal : h % 100000, ".", tokens++, ">");
  }
  /// What a step says when it ends the case; some say nothing.
  std::string words(const Step &st) { return st.t >= 6 ? std::string() : token(); }
  bool cond(const Step &st, std::size_t i) { return condOf(st.cond, st.threshold, i); }
  bool condOf(int c, long long threshold, std::size_t i) {
    bool r;
    if (c == 0) r = false;
    else if (c == 1) r = true;
    else if (c == -1) r = measure(inputs) >= threshold;
    else r = mix(h, i + 1) % static_cast<std::uint64_t>(c) == 0;
    if (flakyMod > 0 && c != 0 && mix(e.ordinal, i + b.seed) % static_cast<std::uint64_t>(flakyMod) == 0) r = !r;
    return r;
  }
  // Around a macro which has to end the case exactly when `ends`.
  template <typename F>
  void ending(bool ends, CaseType t, const std::string &must, const char *what, const F &f) {
    Operand::lhs = Operand::rhs = 0;
    bool threw = false;
    try {
      f();
    } catch (const CaseResult &r) {
      threw = true;
      if (!ends) viol("C12", "assertion-spurious", cat(what, " ended the test case although its condition does not ask for it"));
      if (r.type != t) viol("C12", "assertion-type", cat(what, " ended the case as ", typeName(r.type), " instead of ", typeName(t)));
      if (r.description.find(must) == std::string::npos) viol("C12", "assertion-message", cat(what, ": message ", quote(r.description), " lacks ", must));
      e.report(t, must);
      evaluated(what);
      throw;
    } catch (...) {
      viol("C12", "assertion-type", cat(what, " ended the case by something that is not a case result"));
      throw;
    }
    if (ends && !threw) viol("C12", "assertion-ignored", cat(what, " did not end the test case"));
    evaluated(what);
  }
  void evaluated(const char *what) {
    if (Operand::lhs > 1 || Operand::rhs > 1) viol("C12", "evaluated-twice", cat(what, " evaluated an operand ", std::max(Operand::lhs, Operand::rhs), " times"));
  }
  void evaluatedOnce(const char *what) {
    if (Operand::lhs != 1 || Operand::rhs != 1) viol("C12", "evaluated-twice", cat(what, " evaluated its operands ", Operand::lhs, " and ", Operand::rhs, " times"));
  }

  void step(const Step &st, std::size_t i) {
    current->step();
    bool c = cond(st, i);
    switch (st.kind) {
    case SPick: pick(st); break;
    case SPickMany: {
      std::uint64_t n = h % 3;
      for (std::uint64_t k = 0; k < n; k++) pick(st);
      break;
    }
    case SLog: { auto t = token(); e.logs.push_back(t); RC_LOG(t); break; }
    case SLogStream: { auto t = token(); e.logs.push_back(t); RC_LOG() << t << std::hex << std::showbase; break; }
    case STag: {
      if (st.t == 0) { auto t = cat("tag", h % 3); RC_TAG(t); e.tags.push_back("\"" + t + "\""); }
      else if (st.t == 1) { RC_TAG(static_cast<int>(h % 4), static_cast<int>(i)); e.tags.push_back(std::to_string(h % 4)); e.tags.push_back(std::to_string(i)); }
      else if (ordinalTokens) { auto t = token(); RC_TAG(t); e.tags.push_back("\"" + t + "\""); }
      break;
    }
    case SClassify: {
      bool flag = h % 2;
      if (st.t == 0) { RC_CLASSIFY(flag); if (flag) e.tags.push_back("flag"); }
      else { RC_CLASSIFY(flag, static_cast<int>(i)); if (flag) e.tags.push_back(std::to_string(i)); }
      break;
    }
    case SReport: { // the way the Google Mock integration reports
      if (!c) break;
      auto t = token();
      auto type = st.t == 0 ? CaseType::Failure : st.t == 1 ? CaseType::Success : CaseType::Discard;
      e.report(type, t);
      bool handled = ImplicitParam<param::CurrentPropertyContext>::value()->reportResult(CaseResult(type, t));
      if (!handled) viol("C06 C12", "report-ignored", "a result reported inside a test case was not accepted");
      break;
    }
    case SAssert: {
      int x = static_cast<int>(h % 1000), y = c ? x + 1 : x;
      switch (st.t % 4) {
      case 0: ending(c, CaseType::Failure, "RC_ASSERT", "RC_ASSERT", [&] { RC_ASSERT(opL(x) == opR(y)); evaluatedOnce("RC_ASSERT"); }); break;
      case 1: ending(c, CaseType::Failure, cat(y, " <= ", x), "RC_ASSERT", [&] { RC_ASSERT(opL(y) <= opR(x)); evaluatedOnce("RC_ASSERT"); }); break;
      case 2: ending(c, CaseType::Failure, "Expands to", "RC_ASSERT", [&] { RC_ASSERT(opB(!c)); evaluatedOnce("RC_ASSERT"); }); break;
      default: ending(c, CaseType::Failure, "RC_ASSERT", "RC_ASSERT", [&] { RC_ASSERT(opL(x) + 0 == opR(y) + 0); evaluatedOnce("RC_ASSERT"); }); break;
      }
      break;
    }
    case SAssertFalse: ending(c, CaseType::Failure, "RC_ASSERT_FALSE", "RC_ASSERT_FALSE", [&] { RC_ASSERT_FALSE(opB(c)); evaluatedOnce("RC_ASSERT_FALSE"); }); break;
    case SAssertThrows: ending(c, CaseType::Failure, "No exception was thrown", "RC_ASSERT_THROWS", [&] { RC_ASSERT_THROWS(maybeThrow(!c)); evaluatedOnce("RC_ASSERT_THROWS"); }); break;
    case SAssertThrowsAs: {
      int kind = !c ? 1 : st.t % 2 ? 2 : 0;
      ending(c, CaseType::Failure, kind == 2 ? "did not match std::exception" : "No exception was thrown", "RC_ASSERT_THROWS_AS", [&] { RC_ASSERT_THROWS_AS(maybeThrowStd(kind), std::exception); evaluatedOnce("RC_ASSERT_THROWS_AS"); });
      break;
    }
    case SFail: if (c) { auto t = words(st); ending(true, CaseType::Failure, t, "RC_FAIL", [&] { RC_FAIL(t); }); } break;
    case SPre: ending(c, CaseType::Discard, "RC_PRE", "RC_PRE", [&] {
      int x = static_cast<int>(h % 1000);
      if (st.t % 2) { RC_PRE(opB(!c)); } else { RC_PRE(opL(x) != opR(c ? x : x + 1)); }
      evaluatedOnce("RC_PRE"); });
      break;
    case SDiscard: if (c) { auto t = words(st); ending(true, CaseType::Discard, t, "RC_DISCARD", [&] { RC_DISCARD(t); }); } break;
    case SSucceed: if (c) { auto t = words(st); ending(true, CaseType::Success, t, "RC_SUCCEED", [&] { RC_SUCCEED(t); }); } break;
    case SSucceedIf: ending(c, CaseType::Success, "RC_SUCCEED_IF", "RC_SUCCEED_IF", [&] { RC_SUCCEED_IF(opL(7) == opR(c ? 7 : 8)); evaluatedOnce("RC_SUCCEED_IF"); }); break;
    case SThrowStd: if (c) { thrown(st.kind); auto t = words(st); if (st.t % 2) throw std::out_of_range(t); throw std::runtime_error(t); } break;
    case SThrowString: if (c) { thrown(st.kind); throw words(st); } break;
    case SThrowInt: if (c) { thrown(st.kind); throw 1337; } break;
    case SThrowCustom: if (c) { thrown(st.kind); throw CustomThrow{3}; } break;
    case SThrowGenFailure: if (c) { thrown(st.kind); throw rc::GenerationFailure(words(st)); } break;
    case SThrowResult: if (c) { thrown(st.kind); throw CaseResult(st.t % 3 == 0 ? CaseType::Failure : st.t % 3 == 1 ? CaseType::Success : CaseType::Discard, words(st)); } break;
    case SThrowBadAlloc: if (c) { thrown(st.kind); throw std::bad_alloc(); } break;
    case SThrowCStr: if (c) { thrown(st.kind); throw st.t >= 6 ? "" : "a C string"; } break;
    case SNested: if (!disableNested) nested(st); break;
    case SFault: faults.point("body"); break;
    }
  }
  void thrown(int kind) { current->count(cat("fault.body-", stepName[kind])); current->nontrivial(); }
  void pick(const Step &st) {
    std::string name = st.named ? cat("pick", e.picks.size()) : std::string();
    auto g = build(st.spec);
    if (st.named) g = g.as(name);
    e.pickThrew = true;
    Val v = *g;
    e.pickThrew = false;
    e.picks.emplace_back(name, v);
    input(v);
  }
  void nested(const Step &st) {
    current->probe("nested-check");
    TestParams p;
    p.seed = mix(st.seed, h);
    p.maxSuccess = 1 + static_cast<int>(h % 5);
    p.maxSize = 3;
    p.maxDiscardRatio = static_cast<int>(h % 3);
    p.disableShrinking = frames.size() > 1 || mix(h, 5) % 3 != 0;   // keeps shrinking inside shrinking affordable
    CheckOpts o;
    if (st.t % 4 == 1) o.throwAt = static_cast<int>(h % 4);   // the listener throws: the check is torn down
    o.viaCheckProperty = h % 2;
    auto r = runCheck(st.nested, p, o);
    if (r.escaped && o.throwAt < 0) viol("C12", "exception-escaped", "from a nested check: " + r.escapedWhat);
    if (st.t % 4 == 2) { // the verdict of the nested check matters
      if (!r.isSuccess()) { auto t = token(); e.report(CaseType::Failure, t); throw CaseResult(CaseType::Failure, t); }
    } else if (st.t % 4 == 3) {
      CaseResult::Type t = r.isFailure() ? CaseType::Discard : CaseType::Success;
      if (r.isFailure()) { auto k = token(); e.report(t, k); throw CaseResult(t, k); }
    }
    if (r.escaped && st.t % 8 == 5) { thrown(SThrowCustom); throw CustomThrow{9}; }
  }

  void classify() { // called in a catch block: what left the body
    try {
      throw;
    } catch (const CaseResult &r) {
      // may already be accounted for by ending()
      if (r.description.find('<') != std::string::npos && std::find(e.must.begin(), e.must.end(), r.description) != e.must.end()) return;
      if (std::any_of(e.must.begin(), e.must.end(), [&](const std::string &m) { return !m.empty() && r.description.find(m) != std::string::npos; }) && e.type == r.type) return;
      e.report(r.type, r.description);
    } catch (const rc::GenerationFailure &x) {
      e.report(CaseType::Discard, x.what());
    } catch (const std::exception &x) {
      e.report(CaseType::Failure, x.what());
    } catch (const std::string &x) {
      e.report(CaseType::Failure, x);
    } catch (...) {
      e.report(CaseType::Failure, "");
    }
  }

  void run() {
    for (std::size_t i = 0; i < b.steps.size(); i++) {
      if (!b.steps[i].swallow) { step(b.steps[i], i); continue; }
      auto before = e.type;
      auto mustBefore = e.must;
      try {
        step(b.steps[i], i);
      } catch (...) { // user code may catch anything; then it never happened
        e.type = before;
        e.must = mustBefore;
        if (e.pickThrew) { e.pickThrew = false; e.picks.emplace_back("?", Val()); }
        current->probe("swallowed");
      }
    }
  }
};

Exec *enter(const Body &b, std::vector<Val> args) {
  Frame &f = *frames.back();
  f.execs.emplace_back();
  Exec &e = f.execs.back();
  e.body = b.id;
  e.ordinal = execCounter++;
  e.args = std::move(args);
  return &e;
}

bool runBody(const Body &b, std::vector<Val> args, std::string *text, CaseResult *res) {
  Frame *f = frames.back();
  if (f->body != &b) current->fail("harness", "wrong frame");
  enter(b, args);
  std::size_t at = f->execs.size() - 1;
  // nested checks have their own frames, so this one only grows after us
  Exec mine = f->execs[at];
  Runner r(b, mine);
  for (auto &a : args) r.input(a);
  bool ok = true;
  f->running = true;
  struct Stop { Frame *f; ~Stop() { f->running = false; } } stop{f};
  try {
    r.run();
    bool bad = r.condOf(b.retCond, b.retThreshold, 1000);
    switch (b.ret) {
    case 0: mine.report(CaseType::Success, ""); break;
    case 1: ok = !bad; mine.report(ok ? CaseType::Success : CaseType::Failure, ok ? "" : "alse"); break;
    case 2: { *text = bad ? r.token() : std::string(); mine.report(bad ? CaseType::Failure : CaseType::Success, bad ? *text : ""); break; }
    default: {
      auto t = r.token();
      auto type = bad ? (b.seed % 2 ? CaseType::Failure : CaseType::Discard) : CaseType::Success;
      *res = CaseResult(type, t);
      mine.report(type, t);
    }
    }
  } catch (...) {
    r.classify();
    mine.finished = true;
    frames.back()->execs[at] = mine;
    if (frames.back() != f) current->fail("harness", "frame stack");
    current->log("exec " + mine.str());
    throw;
  }
  mine.finished = true;
  f->execs[at] = mine;
  current->log("exec " + mine.str());
  return ok;
}

} // namespace

bool runBodyOf(const Body &b, std::vector<Val> args, std::string *text, CaseResult *res) { return runBody(b, std::move(args), text, res); }

Property makeProperty(std::shared_ptr<Body> b) {
  switch (b->ret) {
  case 0: return propR0(b);
  case 1: return propR1(b);
  case 2: return propR2(b);
  default: return propR3(b);
  }
}

// ---- verification of events ---------------------------------------------------

static void tokensIn(const std::string &s, std::vector<std::string> &out) {
  for (std::size_t i = 0; i < s.size(); i++) {
    if (s[i] != '<') continue;
    std::size_t j = i + 1;
    while (j < s.size() && (std::isdigit(static_cast<unsigned char>(s[j])) || s[j] == '.')) j++;
    if (j < s.size() && s[j] == '>' && j > i + 2) out.push_back(s.substr(i, j - i + 1));
  }
}

void checkDescription(const Exec &e, const std::string &d, const char *where) {
  for (auto &m : e.must)
    if (!m.empty() && d.find(m) == std::string::npos) viol("C12", "message-lost", cat(where, ": description ", quote(d), " of case ", e.str(), " lacks ", quote(m)));
  for (auto &l : e.logs)
    if (d.find(l) == std::string::npos) viol("C06", "log-lost", cat(where, ": description ", quote(d), " of case ", e.str(), " lacks log ", l));
  std::vector<std::string> allowed = e.logs, found;
  for (auto &m : e.must) tokensIn(m, allowed);
  tokensIn(d, found);
  for (auto &t : found)
    if (std::find(allowed.begin(), allowed.end(), t) == allowed.end()) viol("C06 C12", "foreign-message", cat(where, ": description ", quote(d), " of case ", e.str(), " contains ", t));
}

void checkExample(const Exec &e, const Example &ex, const char *where) {
  std::vector<std::pair<std::string, std::string>> want;
  if (!e.args.empty()) {
    std::string t = "(";
    for (std::size_t i = 0; i < e.args.size(); i++) t += (i ? ", " : "") + e.args[i].str();
    want.emplace_back("", t + ")");
  }
  for (auto &p : e.picks) want.emplace_back(p.first, p.second.str());
  std::size_t n = want.size() + (e.pickThrew || e.argsThrew);
  bool ok = ex.size() == n;
  for (std::size_t i = 0; ok && i < want.size(); i++) {
    if (want[i].first == "?") continue;
    if (want[i].second != ex[i].second) ok = false;
    if (!want[i].first.empty() && want[i].first != ex[i].first) ok = false;
  }
  if (ok) return;
  std::string w, g;
  for (auto &p : want) w += p.first + "=" + p.second + "; ";
  for (auto &p : ex) g += p.first + "=" + p.second + "; ";
  viol("C05 C02", "untruthful-example", cat(where, ": displayed ", g, " but the test case received ", w, e.pickThrew ? "and a pick that threw" : ""));
}

static std::string tagStr(const Tags &t) { std::string r; for (auto &x : t) r += x + ","; return r; }

void CheckingListener::common(const CaseDescription &d, Event &e, bool search) {
  Frame &f = m_frame;
  if (frames.back() != &f) current->fail("harness", "event of another check");
  std::size_t fresh = f.execs.size() - f.announced;
  e.type = d.result.type;
  e.desc = d.result.description;
  e.tags = d.tags;
  const Exec *x = nullptr;
  if (search) {
    if (fresh > 1) viol("C04", "unannounced-case", cat(fresh, " test cases were executed before one was announced"));
    if (fresh == 1) x = &f.execs.back();
  } else if (fresh >= 1) x = &f.execs.back();
  if (x && f.argsThrewAfter == f.execs.size()) x = nullptr; // that was an earlier case
  f.announced = f.execs.size();
  if (x) {
    if (!x->finished) current->fail("harness", "unfinished exec");
    e.inputs = x->inputs();
    if (x->type != d.result.type) viol("C12 C04", "wrong-classification", cat("a test case that was a ", typeName(x->type), " (", x->str(), ") was announced as a ", typeName(d.result.type), ": ", quote(d.result.description)));
    checkDescription(*x, d.result.description, search ? "test case" : "shrink");
    if (x->tags != d.tags) viol("C06 C04", "wrong-tags", cat("case ", x->str(), " announced with tags ", tagStr(d.tags)));
    if (examples) checkExample(*x, d.example(), search ? "test case" : "shrink");
  } else { // generating the arguments ended this case
    e.inputs = "no arguments";
    if (d.result.type == CaseType::Success) viol("C12 C04", "phantom-success", "a success was announced although no test body ran");
    std::vector<std::string> found;
    tokensIn(d.result.description, found);
    if (!found.empty()) viol("C06 C12", "foreign-message", cat("a case whose arguments could not be generated contains ", found[0]));
    if (!d.tags.empty()) viol("C06 C04", "wrong-tags", cat("a case whose arguments could not be generated has tags ", tagStr(d.tags)));
    current->probe("argument-generation-ended-case");
  }
  current->log(cat(e.kind, " ", typeName(e.type), " ", e.inputs));
  // A failing case of two unrelated 64 bit numbers may take very many shrinks.
  if (stepsUpTo && current->steps() > stepsUpTo) {
    std::map<std::string, int> accepted;
    std::size_t trailing = 0;
    for (auto &x : events) {
      trailing++;
      if (x.kind == 's' && x.accepted) { trailing = 0; if (++accepted[x.inputs] > 50) current->fail("no-progress", "shrinking accepts the same case again and again"); }
    }
    if (trailing > 20000) current->fail("no-progress", "shrinking tries more and more cases without accepting any");
    current->abandon();
  }
}

void CheckingListener::onTestCaseFinished(const CaseDescription &d) {
  Event e;
  e.kind = 'c';
  if (finished) viol("C04", "event-after-verdict", "a test case was announced after the final result");
  if (!events.empty() && (events.back().kind != 'c' || events.back().type == CaseType::Failure)) viol("C04", "case-after-verdict", "a new test case was generated after the verdict was known");
  common(d, e, true);
  events.push_back(e);
  if (throwAt == static_cast<int>(events.size()) - 1) { current->fault("listener-throws"); throw CustomThrow{77}; }
}
void CheckingListener::onShrinkTried(const CaseDescription &d, bool accepted) {
  Event e;
  e.kind = 's';
  e.accepted = accepted;
  if (events.empty() || finished || (events.back().kind == 'c' && events.back().type != CaseType::Failure)) viol("C04", "event-order", "a shrink was announced without a failing case before it");
  common(d, e, false);
  if (accepted != (d.result.type == CaseType::Failure)) viol("C05 C04", "wrong-acceptance", cat("shrink ", e.inputs, " which was a ", typeName(d.result.type), accepted ? " was accepted" : " was not accepted"));
  events.push_back(e);
  if (throwAt == static_cast<int>(events.size()) - 1) { current->fault("listener-throws"); throw CustomThrow{77}; }
}
void CheckingListener::onTestFinished(const TestMetadata &m, const TestResult &r) {
  if (finished++) viol("C04", "event-order", "more than one final result");
  Event e;
  e.kind = 'f';
  lastId = m.id;
  events.push_back(e);
  if (throwAt == static_cast<int>(events.size()) - 1) { current->fault("listener-throws"); throw CustomThrow{77}; }
}

std::string resultStr(const TestResult &r) {
  std::ostringstream os;
  SuccessResult su; FailureResult fa; GaveUpResult ga; Error er;
  if (r.match(su)) { os << "success " << su.numSuccess; for (auto &d : su.distribution) { os << " [" << tagStr(d.first) << "]=" << d.second; } }
  else if (r.match(fa)) {
    os << "failure after " << fa.numSuccess << " " << quote(fa.description) << " size " << fa.reproduce.size << " random " << fa.reproduce.random << " path";
    for (auto p : fa.reproduce.shrinkPath) os << " " << p;
    for (auto &p : fa.counterExample) os << "; " << p.first << "=" << p.second;
  } else if (r.match(ga)) os << "gave up after " << ga.numSuccess << " " << quote(ga.description);
  else if (r.match(er)) os << "error " << quote(er.description);
  return os.str();
}

struct FrameScope {
  Frame &f;
  std::size_t depth;
  explicit FrameScope(Frame &x) : f(x), depth(frames.size()) { frames.push_back(&f); }
  ~FrameScope() { frames.resize(depth); }
};

// The whole history of one check against its verdict.
static void verify(const Body &b, const TestParams &p, const Report &r, const Frame &f, const CheckingListener &l) {
  long long succ = 0, disc = 0;
  Distribution dist;
  const Event *failing = nullptr;
  std::size_t shrinks = 0;
  for (auto &e : r.events) {
    if (e.kind == 'c') {
      if (e.type == CaseType::Success) { succ++; if (!e.tags.empty()) dist[e.tags]++; }
      else if (e.type == CaseType::Discard) disc++;
      else failing = &e;
    } else if (e.kind == 's' && e.accepted) shrinks++;
  }
  if (l.finished != 1) viol("C04", "event-order", cat("the final result was announced ", l.finished, " times"));
  long long limit = static_cast<long long>(p.maxDiscardRatio) * p.maxSuccess;
  SuccessResult su; FailureResult fa; GaveUpResult ga; Error er;
  if (r.result.match(su)) {
    if (failing) viol("C04 C12 C05", "failure-lost", "a test case failed but the check succeeded");
    if (succ != p.maxSuccess || su.numSuccess != succ) viol("C04", "wrong-count", cat("success reported after ", su.numSuccess, " of ", p.maxSuccess, " cases; ", succ, " were executed"));
    if (disc > limit) viol("C04", "wrong-verdict", cat("success with ", disc, " discards, limit ", limit));
    if (su.distribution != dist) viol("C04 C06", "wrong-distribution", resultStr(r.result));
    if (f.execs.size() != f.announced) viol("C04", "unannounced-case", "a test case was executed after the last one announced");
  } else if (r.result.match(ga)) {
    if (failing) viol("C04 C12 C05", "failure-lost", "a test case failed but the check gave up");
    if (disc != limit + 1) viol("C04", "wrong-verdict", cat("gave up after ", disc, " discards, limit ", limit));
    if (ga.numSuccess != succ) viol("C04", "wrong-count", cat("gave up reporting ", ga.numSuccess, " successes, ", succ, " were executed"));
    if (!r.events.empty() && r.events.size() >= 2 && r.events[r.events.size() - 2].type != CaseType::Discard) viol("C04", "wrong-verdict", "gave up after a case that was not discarded");
  } else if (r.result.match(fa)) {
    if (!failing) viol("C04 C05 C12", "failure-invented", "the check failed but no test case did: " + resultStr(r.result));
    if (fa.numSuccess != succ) viol("C04", "wrong-count", cat("failure reports ", fa.numSuccess, " successes, ", succ, " were executed"));
    if (fa.reproduce.shrinkPath.size() != shrinks) viol("C05 C04", "wrong-path", cat("path has ", fa.reproduce.shrinkPath.size(), " steps, ", shrinks, " shrinks were accepted"));
    if (p.disableShrinking && r.events.size() && r.events[r.events.size() - 2].kind == 's') viol("C05 C04", "shrunk-anyway", "a shrink was tried although shrinking is disabled");
    // the path is the recorded acceptances
    std::vector<std::size_t> path;
    std::size_t i = 0;
    for (auto &e : r.events) if (e.kind == 's') { if (e.accepted) { path.push_back(i); i = 0; } else i++; }
    if (path != fa.reproduce.shrinkPath) viol("C05", "wrong-path", "the shrink path does not follow the accepted shrinks");
    // the reported case is the last one executed
    if (!f.execs.empty() && f.execs.size() > f.announced && f.argsThrewAfter != f.execs.size()) {
      const Exec &x = f.execs.back();
      if (flakyMod == 0 && x.type != CaseType::Failure && !faults.fired) viol("C05", "not-a-failure", cat("the reported case ", x.str(), " did not fail"));
      if (l.examples) checkExample(x, fa.counterExample, "counterexample");
      checkDescription(x, fa.description, "failure");
    }
  } else viol("C04 C12", "wrong-verdict", "a check that was not reproducing anything ended as " + resultStr(r.result));
}

Report runCheck(std::shared_ptr<Body> b, const TestParams &params, const CheckOpts &o) {
  Report r;
  Frame f;
  f.body = b.get();
  CheckingListener l(f);
  l.throwAt = o.throwAt;
  l.examples = o.examples;
  auto depth = frames.size();
  if (frames.empty()) l.stepsUpTo = current->steps() + 150000;
  TestMetadata m;
  m.id = o.id;
  {
    FrameScope scope(f);
    auto prop = o.property ? *o.property : makeProperty(b);
    try {
      struct Fwd : TestListener {
        TestListener &a, *b;
        Fwd(TestListener &x, TestListener *y) : a(x), b(y) {}
        void onTestCaseFinished(const CaseDescription &d) override { if (b) b->onTestCaseFinished(d); a.onTestCaseFinished(d); }
        void onShrinkTried(const CaseDescription &d, bool acc) override { if (b) b->onShrinkTried(d, acc); a.onShrinkTried(d, acc); }
        void onTestFinished(const TestMetadata &m, const TestResult &x) override { if (b) b->onTestFinished(m, x); a.onTestFinished(m, x); }
      } both(l, o.also);
      if (o.viaCheckProperty) r.result = checkProperty(prop, m, params, both, std::unordered_map<std::string, Reproduce>());
      else r.result = testProperty(prop, m, params, both);
    } catch (const Abandon &) {
      throw;
    } catch (const CustomThrow &e) {
      r.escaped = true;
      r.escapedWhat = e.code == 77 ? "listener" : "custom";
    } catch (const std::exception &e) {
      r.escaped = true;
      r.escapedWhat = e.what();
    } catch (...) {
      r.escaped = true;
      r.escapedWhat = "unknown";
    }
  }
  if (frames.size() != depth) current->fail("harness", "frames");
  r.events = l.events;
  r.execs = f.execs;
  r.lastRan = !f.execs.empty() && f.argsThrewAfter != f.execs.size();
  if (r.escaped) {
    if (r.escapedWhat != "listener") viol("C12", "exception-escaped", cat("a check of ", b->str(), " was left by an exception: ", r.escapedWhat));
  } else verify(*b, params, r, f, l);
  for (auto &e : f.execs) r.trace.push_back("exec " + e.str());
  for (auto &e : r.events) r.trace.push_back(cat(e.kind, typeName(e.type), e.accepted, e.inputs, e.desc, tagStr(e.tags)));
  r.trace.push_back(r.escaped ? "escaped " + r.escapedWhat : resultStr(r.result));
  current->log("verdict " + r.trace.back());
  return r;
}

Report runReproduce(std::shared_ptr<Body> b, const TestParams &params, const std::string &id, const std::unordered_map<std::string, Reproduce> &map, TestListener *tl) {
  Report r;
  Frame f;
  f.body = b.get();
  CheckingListener l(f);
  if (frames.empty()) l.stepsUpTo = current->steps() + 150000;
  TestMetadata m;
  m.id = id;
  {
    FrameScope scope(f);
    auto prop = makeProperty(b);
    try {
      r.result = checkProperty(prop, m, params, tl ? *tl : l, map);
    } catch (const Abandon &) {
      throw;
    } catch (const std::exception &e) {
      r.escaped = true;
      r.escapedWhat = e.what();
    } catch (...) {
      r.escaped = true;
      r.escapedWhat = "unknown";
    }
  }
  r.events = l.events;
  r.execs = f.execs;
  r.lastRan = !f.execs.empty() && f.argsThrewAfter != f.execs.size();
  r.trace.push_back(r.escaped ? "escaped " + r.escapedWhat : resultStr(r.result));
  current->log("reproduced " + r.trace.back());
  return r;
}

// ---- drawing programs -----------------------------------------------------------

void drawSlots(Sim &s, const BodyOpts &o) {
  for (int i = 0; i < kSlots; i++) {
    Opts z;
    z.depth = o.genDepth;
    z.rejects = o.rejectingGens;
    z.throwing = o.throwingGens;
    z.maxCount = 3;
    z.heavy = false;
    slotSpecs[i] = genSpec(s, z);
    s.log(cat("slot ", i, " ", slotSpecs[i].str()));
  }
}

int paramSize(Sim &s) { return s.pick(std::vector<int>{3, 0, 1, 2, 6, 10}, "max-size"); }

TestParams drawParams(Sim &s, int maxSize) {
  TestParams p;
  p.seed = s.choose(1000000, "seed");
  p.maxSuccess = s.pick(std::vector<int>{5, 0, 1, 2, 3, 10, 20}, "max-success");
  p.maxSize = maxSize;
  p.maxDiscardRatio = s.pick(std::vector<int>{2, 0, 1, 5, 10}, "ratio");
  p.disableShrinking = s.chance(1, 6, "noshrink");
  return p;
}

static int bodyIds = 0;
std::shared_ptr<Body> drawBody(Sim &s, const BodyOpts &o, int depth) {
  auto b = std::make_shared<Body>();
  b->id = ++bodyIds;
  b->seed = s.choose(1000, "body-seed");
  b->slot = static_cast<int>(s.choose(kSlots, "slot"));
  b->arity = static_cast<int>(s.choose(static_cast<std::uint32_t>(o.arities + 1), "arity"));
  b->ret = static_cast<int>(s.choose(4, "ret"));
  static const std::vector<int> conds{0, 3, 7, 2, 20, 1, -1};
  auto drawCond = [&](long long &threshold) {
    if (o.monotone) { threshold = 2 + s.choose(s.pick(std::vector<std::uint32_t>{8, 60, 20}, "threshold-range"), "threshold"); return -1; }
    int c = s.pick(conds, "cond");
    if (c == -1) threshold = 2 + s.choose(s.pick(std::vector<std::uint32_t>{8, 60, 20}, "threshold-range"), "threshold");
    return c;
  };
  b->retCond = b->ret ? drawCond(b->retThreshold) : 0;
  int n = s.range(0, o.maxSteps, "steps");
  static const std::vector<int> plain{SPick, SPickMany, SLog, SLogStream, STag, SClassify};
  static const std::vector<int> ends{SAssert, SReport, SFail, SPre, SDiscard, SThrowStd, SAssertFalse, SAssertThrows, SAssertThrowsAs, SSucceed, SSucceedIf, SThrowString, SThrowInt, SThrowCustom, SThrowGenFailure, SThrowResult, SThrowBadAlloc, SThrowCStr};
  static const std::vector<int> monoEnds{SAssert, SFail, SThrowStd, SAssertFalse, SThrowInt, SThrowCustom};
  for (int i = 0; i < n; i++) {
    Step st;
    bool end = o.endings && s.chance(1, 3, "ending");
    if (o.nestDepth > depth && s.chance(1, 4, "nest")) {
      st.kind = SNested;
      st.nested = drawBody(s, o, depth + 1);
      st.seed = s.choose(1000, "nested-seed");
    } else if (end) st.kind = o.monotone ? s.pick(monoEnds, "kind") : s.pick(ends, "kind");
    else {
      st.kind = s.pick(plain, "kind");
      if (o.faults && s.chance(1, 6, "fault")) st.kind = SFault;
      if (!o.picks && (st.kind == SPick || st.kind == SPickMany)) st.kind = SLog;
    }
    st.t = static_cast<int>(s.choose(8, "variant"));
    if (st.kind == STag || st.kind == SReport) st.t %= 3;
    if (end) st.cond = drawCond(st.threshold);
    if (st.kind == SPick || st.kind == SPickMany) {
      Opts z;
      z.depth = o.genDepth;
      z.rejects = o.rejectingGens;
      z.throwing = o.throwingGens;
      z.maxCount = 3;
      z.heavy = false;
      st.spec = genSpec(s, z);
      st.named = s.chance(1, 2, "named");
    }
    if (!o.monotone && s.chance(1, 12, "swallow")) st.swallow = true;
    b->steps.push_back(st);
  }
  return b;
}

void reset(const char *property) {
  focus = property;
  faults.disarm();
  faults.fired = 0;
  ordinalTokens = false;
  flakyMod = 0;
  disableNested = false;
  zoo::hook = nullptr;
  frames.clear();
  execCounter = 0;
  bodyIds = 0;
}

void starvedCheck(Sim &s) {
  zoo::Opts z;
  z.rejects = false;
  z.depth = s.range(1, 2, "depth");
  auto first = zoo::genSpec(s, z), second = zoo::genSpec(s, z);
  auto a = zoo::build(first).as("name"), b = zoo::build(second);
  auto c = s.choose(100, "seed");
  const bool nest = s.chance(1, 3, "nested");
  rc::detail::TestParams p;
  p.seed = s.choose(1000, "seed");
  p.maxSuccess = s.range(1, 6, "success");
  p.maxSize = std::min(zoo::genSize(s, first), zoo::genSize(s, second));
  struct Mute : rc::detail::TestListener {
    void onTestCaseFinished(const rc::detail::CaseDescription &) override {}
    void onShrinkTried(const rc::detail::CaseDescription &, bool) override {}
    void onTestFinished(const rc::detail::TestMetadata &, const rc::detail::TestResult &) override {}
  } mute;
  int depth = 0, checks = 0;
  std::function<void()> body = [&] {
    current->step();
    Val x = *a;
    RC_LOG() << "a line that does not fit into a small string " << 1;
    RC_TAG(std::string("a tag that does not fit into a small string"));
    if (nest && depth == 0 && checks < 5) {
      struct Deeper { int &d; Deeper(int &x) : d(x) { d++; } ~Deeper() { d--; } } deeper(depth);
      checks++;
      rc::detail::testProperty(rc::detail::toProperty(body), rc::detail::TestMetadata(), p, mute);
    }
    Val y = *b;
    RC_CLASSIFY(mix(c, measure(x)) % 2 == 0, "a class that does not fit into a small string");
    switch (mix(c, measure(x) * 31 + measure(y)) % 6) {
    case 0: RC_FAIL("a message that does not fit into a small string");
    case 1: RC_DISCARD("a message that does not fit into a small string");
    case 2: RC_ASSERT(measure(x) == -1);
    }
  };
  auto property = rc::detail::toProperty(body);
  const auto failed = memory.failed;
  try {
    OutOfMemory oom(1 + s.choose(s.chance(1, 2, "late") ? 4000 : 150, "fault.memory"));
    rc::detail::testProperty(property, rc::detail::TestMetadata(), p, mute);
    if (oom.struck()) s.probe("no-memory-inside");
  } catch (const std::bad_alloc &) {
    s.probe("no-memory-escaped");
    s.check(memory.failed != failed, "escaped", [] { return std::string("a check ran out of memory although there was enough"); });
  }
}

void checkOutside(Sim &s) {
  bool threw = false;
  try {
    Val v = *rc::gen::just(Val());
    (void)v;
  } catch (const std::exception &) {
    threw = true;
  }
  if (!threw) viol("C06", "context-left", "a pick outside of every check did not throw");
  auto *ctx = ImplicitParam<param::CurrentPropertyContext>::value();
  if (ctx->reportResult(CaseResult(CaseType::Failure, "outside"))) viol("C06", "context-left", "a result reported outside of every check was accepted");
  if (&ctx->logStream() != &std::cerr) viol("C06", "context-left", "the log stream outside of every check is not the standard error stream");
  RC_TAG(1);
  s.step();
}

} // namespace prog
