// C06: tags, logs, results and generation context of one test case never reach
// another one, an enclosing or nested check, or the outside.
#include "prog.h"
#include <iostream>
using namespace sim;
using namespace prog;

namespace {

struct Quiet { // callbacks outside of every test case log to std::cerr
  std::ostringstream sink;
  std::streambuf *old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};

struct Intruder { // generator callbacks that use everything test bodies use
  std::uint32_t seed;
  int level = 0, checks = 0;
  std::uint64_t calls = 0;
  std::shared_ptr<Body> nested;
  void operator()(const char *where) {
    calls++;
    auto r = mix(seed, calls) % 16;
    bool exec = std::string(where) == "exec" || std::string(where) == "exec-body" || std::string(where) == "nested";
    if (r < 3) RC_LOG("<0.0.9>");
    if (r >= 3 && r < 6) RC_TAG(std::string("<0.0.9>"));
    if (r >= 6 && r < 8) rc::detail::ImplicitParam<rc::detail::param::CurrentPropertyContext>::value()->reportResult(rc::detail::CaseResult(CaseType::Failure, "<0.0.9>"));
    if (r >= 8 && r < 12 && !exec) {
      bool threw = false;
      try { *rc::gen::just(Val(7, 7)); } catch (const std::exception &) { threw = true; }
      if (!threw) viol("C06", "foreign-context", cat("a pick in the ", where, " callback of a generator took part in another test case"));
    }
    if (r == 12 && level == 0 && nested && checks < 12) {
      level++;
      checks++;
      current->probe("check-in-callback");
      rc::detail::TestParams p;
      p.seed = calls;
      p.maxSuccess = 2;
      p.maxSize = 2;
      CheckOpts o;
      if (calls % 3 == 0) o.throwAt = 1;
      struct Lower { int &l; ~Lower() { l--; } } lower{level};
      runCheck(nested, p, o);
    }
    if (r < 13) current->nontrivial();
  }
};

SCENARIO("leak", 3) {
  reset("C06");
  ordinalTokens = true;
  Quiet quiet;
  BodyOpts o;
  o.genDepth = s.range(0, 2, "gen-depth");
  o.nestDepth = s.range(0, 2, "nesting");
  o.throwingGens = s.chance(1, 3, "throwing-gens");
  o.rejectingGens = s.chance(1, 3, "rejecting-gens");
  drawSlots(s, o);
  BodyOpts no;
  no.genDepth = 1;
  no.maxSteps = 3;
  if (s.chance(1, 2, "intruder")) {
    Intruder in;
    in.seed = s.choose(1000, "intruder-seed");
    in.nested = drawBody(s, no);
    zoo::hook = in;
  }
  int n = s.range(1, 3, "checks");
  for (int i = 0; i < n; i++) {
    auto b = drawBody(s, o);
    s.log(b->str());
    s.sig(hashStr(b->str()));
    auto p = drawParams(s, paramSize(s));
    if (s.chance(1, 3, "transient")) faults.arm(s, 200);
    CheckOpts co;
    co.examples = !faults.armed;
    if (s.chance(1, 5, "torn-down")) co.throwAt = static_cast<int>(s.choose(10, "at"));
    auto r = runCheck(b, p, co);
    faults.disarm();
    s.sig(hashStr(r.trace.back()));
    checkOutside(s);
    if (s.chance(1, 4, "starved")) {
      auto hook = zoo::hook;
      zoo::hook = nullptr;
      starvedCheck(s);
      zoo::hook = hook;
      checkOutside(s);
    }
  }
  zoo::hook = nullptr;
}

// An enclosing test case receives the same values whether or not checks run inside it.
SCENARIO("enclosing-stream", 2) {
  reset("C06");
  Quiet quiet;
  BodyOpts o;
  o.genDepth = s.range(0, 1, "gen-depth");
  o.nestDepth = 2;
  drawSlots(s, o);
  auto b = drawBody(s, o);
  std::function<void(Body &)> tame = [&](Body &x) {
    for (auto &st : x.steps) if (st.kind == SNested) { st.t = st.t % 2; tame(*st.nested); }
  };
  tame(*b);
  s.log(b->str());
  s.sig(hashStr(b->str()));
  auto p = drawParams(s, paramSize(s));
  bool any = false;
  for (auto &st : b->steps) any = any || st.kind == SNested;
  if (any) s.fault("nested-checks");
  bool intrude = s.chance(1, 2, "intruder");
  disableNested = true;
  auto alone = runCheck(b, p);
  disableNested = false;
  if (intrude) {
    Intruder in;
    in.seed = s.choose(1000, "intruder-seed");
    BodyOpts no;
    no.genDepth = 1;
    no.maxSteps = 3;
    in.nested = drawBody(s, no);
    zoo::hook = in;
    s.nontrivial();
  }
  auto with = runCheck(b, p);
  zoo::hook = nullptr;
  std::size_t n = std::min(alone.execs.size(), with.execs.size());
  for (std::size_t i = 0; i < n; i++) {
    auto &x = alone.execs[i], &y = with.execs[i];
    if (x.inputs() != y.inputs() || x.type != y.type || x.tags != y.tags)
      s.fail("enclosing-case-changed", cat("execution ", i, " of ", b->str(), " was ", x.str(), " alone and ", y.str(), " with checks running inside"));
  }
  if (alone.execs.size() != with.execs.size() || alone.trace.back() != with.trace.back())
    s.fail("enclosing-case-changed", cat("verdict of ", b->str(), " alone: ", alone.trace.back(), "; with checks running inside: ", with.trace.back()));
  checkOutside(s);
}

} // namespace
