// C09: drawn state machines with drawn commands, faults in every user callback,
// and an out-of-band model that decides validity and failure of a sequence.
#include "payload.h"
#include <rapidcheck.h>
#include <rapidcheck/state.h>
#include <memory>
using namespace sim;
using rc::Gen;
using rc::Random;
using rc::Seq;
using rc::Shrinkable;
using rc::detail::CaseDescription;
using rc::detail::CaseResult;

namespace {

const int kKinds = 6;
using Step = std::pair<int, int>; // kind, argument
using Hist = std::vector<Step>;
std::string str(const Hist &h) {
  std::string r = "[";
  for (auto &x : h) r += cat(x.first, ".", x.second, " ");
  return r + "]";
}

enum End { Goes, Fails, Throws, Discards, Succeeds };

// The pure machine: everything a command does is a function of this.
struct Machine {
  std::uint64_t seed = 0;
  int states = 1;
  int preNum = 8;        // of 8: how often a precondition holds
  int ctorNum = 8;       // of 8: how often a construction does not discard
  bool resource = false; // kind 0 creates, 1 destroys, 2 uses
  int applyDiscards = 0; // of 16
  int preThrows = 0;     // of 16: precondition throws something else
  int funcThrows = 0;    // of 16: the generation function discards
  int failMode = 0;
  std::vector<int> pattern;
  int threshold = 0;
  int failHow = 0;
  int otherEnds = 0; // of 32: run ends the case by RC_SUCCEED / RC_DISCARD
  int maxArg = 6;
  int breaks = 0; // of 32: constructing (or checking) the command fails an assertion

  std::uint64_t h(int what, int st, int k, int a) const { return mix(mix(seed, what), mix(static_cast<std::uint64_t>(st) * 64 + k, a)); }
};

struct St { int st = 0; int count = 0; Hist hist; };

int nextState(const Machine &m, const St &s, const Step &c) { return static_cast<int>(m.h(1, s.st, c.first, c.second) % m.states); }
bool valid(const Machine &m, const St &s, const Step &c) {
  if (m.resource) {
    if (c.first == 1 && s.count <= 0) return false;
    if (c.first == 2 && c.second >= s.count) return false;
    if (c.first == 0 && s.count >= 4) return false;
  }
  return static_cast<int>(m.h(2, s.st, c.first, c.second) % 8) < m.preNum;
}
bool preThrows(const Machine &m, const St &s, const Step &c) { return static_cast<int>(m.h(3, s.st, c.first, c.second) % 16) < m.preThrows; }
bool breaks(const Machine &m, const St *s, const Step &c) { return static_cast<int>(m.h(11, s ? s->st : 77, c.first, c.second) % 32) < m.breaks; }
bool applyDiscards(const Machine &m, const St &s, const Step &c) { return static_cast<int>(m.h(4, s.st, c.first, c.second) % 16) < m.applyDiscards; }
void applyTo(const Machine &m, St &s, const Step &c) {
  int n = nextState(m, s, c);
  if (m.resource && c.first == 0) s.count++;
  if (m.resource && c.first == 1) s.count--;
  s.st = n;
  s.hist.push_back(c);
}
// How running `c` in `s` ends, given everything that ran before.
End endOf(const Machine &m, const St &s, const Step &c) {
  if (static_cast<int>(m.h(5, s.st, c.first, c.second) % 32) < m.otherEnds)
    return m.h(6, s.st, c.first, c.second) % 2 ? Succeeds : Discards;
  bool f = false;
  switch (m.failMode) {
  case 0: break;
  case 1: f = m.h(7, s.st, c.first, c.second) % 8 == 0; break;
  case 2: { // the pattern of kinds occurred as a subsequence
    std::size_t at = 0;
    auto feed = [&](int k) { if (at < m.pattern.size() && m.pattern[at] == k) at++; };
    for (auto &x : s.hist) feed(x.first);
    std::size_t before = at;
    feed(c.first);
    f = at == m.pattern.size() && before != at;
    break;
  }
  case 3: { // arguments add up
    int sum = c.second;
    for (auto &x : s.hist) sum += x.second;
    f = sum >= m.threshold;
    break;
  }
  default: f = static_cast<int>(s.hist.size()) + 1 >= m.threshold && m.h(8, 0, c.first, 0) % 2; break;
  }
  if (!f) return Goes;
  return m.failHow == 3 ? Throws : Fails;
}

bool validSequence(const Machine &m, const St &init, const Hist &h) {
  St s = init;
  for (auto &c : h) {
    if (!valid(m, s, c)) return false;
    applyTo(m, s, c);
  }
  return true;
}
End runSequence(const Machine &m, const St &init, const Hist &h, std::size_t *ran = nullptr) {
  St s = init;
  for (std::size_t i = 0; i < h.size(); i++) {
    if (ran) *ran = i + 1;
    End e = endOf(m, s, h[i]);
    if (e != Goes) return e;
    applyTo(m, s, h[i]);
  }
  if (ran) *ran = h.size();
  return Goes;
}

const Machine *machine = nullptr;
long broke = 0; // user code that failed for good while a sequence was put together
bool faultsOn = false;
void point(const char *w) {
  if (faultsOn) faults.point(w); else if (current) current->step();
}

struct Model { St s; };
struct Sut { Hist ran; };
struct Event { char what; const void *cmd; Step step; Hist hist; int st; };
std::vector<Event> events;
bool recording = false;
void event(char w, const void *cmd, const Step &c, const Model &m) {
  if (recording) events.push_back({w, cmd, c, m.s.hist, m.s.st});
}

using Base = rc::state::Command<Model, Sut>;
using CmdSP = std::shared_ptr<const Base>;

struct Cmd : Base {
  Step step;
  std::uint64_t alive = 0xC0FFEE;
  static long live;
  explicit Cmd(Step x) : step(x) { live++; }
  Cmd(const Cmd &o) = delete;
  ~Cmd() override { check(); alive = 0; live--; }
  void check() const { if (alive != 0xC0FFEE) current->fail("dead-object", "a command was used outside its lifetime"); }
  void checkPreconditions(const Model &m) const override {
    check();
    event('p', this, step, m);
    point("precondition");
    if (preThrows(*machine, m.s, step)) { broke++; throw std::runtime_error("precondition broke"); }
    if (machine->seed % 2) RC_PRE(valid(*machine, m.s, step));
    else if (!valid(*machine, m.s, step)) RC_DISCARD("not now");
  }
  void apply(Model &m) const override {
    check();
    event('a', this, step, m);
    point("apply");
    RC_PRE(!applyDiscards(*machine, m.s, step));
    applyTo(*machine, m.s, step);
  }
  void run(const Model &m, Sut &sut) const override {
    check();
    event('r', this, step, m);
    point("run");
    sut.ran.push_back(step);
    switch (endOf(*machine, m.s, step)) {
    case Goes: break;
    case Fails:
      switch (machine->failHow) {
      case 0: RC_FAIL("sut is broken"); break;
      case 1: RC_ASSERT(step.first < -1); break;
      default: RC_ASSERT(step.second == -100); break;
      }
      break;
    case Throws: throw std::runtime_error("sut threw");
    case Discards: RC_DISCARD("run discards");
    case Succeeds: RC_SUCCEED("run succeeds");
    }
  }
  void show(std::ostream &os) const override {
    check();
    point("show");
    os << "<cmd " << step.first << "." << step.second << ">";
  }
};
long Cmd::live = 0;

bool ctorOk(const Step &c, const St *s) { return static_cast<int>(machine->h(9, s ? s->st : 77, c.first, c.second) % 8) < machine->ctorNum; }

// Commands that draw their argument in their constructor: even kinds take the
// model, odd ones do not.
int drawArg(int kind, const St *s) {
  point("construct");
  if (machine->resource && kind == 2 && s) {
    RC_PRE(s->count > 0);
    return *rc::gen::inRange(0, s->count);
  }
  int a = *rc::gen::inRange(0, machine->maxArg);
  if (breaks(*machine, s, Step(kind, a))) { broke++; RC_FAIL("construction broke"); }
  RC_PRE(ctorOk(Step(kind, a), s));
  return a;
}
template <int K, bool WithModel = K % 2 == 0>
struct Drawn : Cmd {
  explicit Drawn(const Model &m) : Cmd(Step(K, drawArg(K, &m.s))) {}
};
template <int K>
struct Drawn<K, false> : Cmd {
  Drawn() : Cmd(Step(K, drawArg(K, nullptr))) {}
};

struct GenFunc {
  int kind;
  Gen<CmdSP> operator()(const Model &m) const {
    point("generation-function");
    if (static_cast<int>(machine->h(10, m.s.st, kind, 0) % 16) < machine->funcThrows) RC_DISCARD("no generator here");
    St s = m.s;
    switch (kind) {
    case 0: return rc::state::gen::execOneOfWithArgs<Drawn<0>, Drawn<1>, Drawn<2>, Drawn<3>, Drawn<4>, Drawn<5>>()(m);
    case 1: return rc::state::gen::execOneOf<Drawn<0>, Drawn<1>, Drawn<2>>(m);
    case 2: // explicit, with shrinks and argument dependent on the state
      return rc::gen::map(rc::gen::inRange(0, kKinds * machine->maxArg), [](int x) -> CmdSP {
        point("construct");
        return std::make_shared<Cmd>(Step(x / machine->maxArg, x % machine->maxArg));
      });
    case 3: // a filtering generator that can give up
      return rc::gen::map(rc::gen::suchThat(rc::gen::pair(rc::gen::inRange(0, kKinds), rc::gen::inRange(0, machine->maxArg)),
                                            [=](const Step &c) { point("such-that"); return ctorOk(c, &s); }),
                          [](const Step &c) -> CmdSP { point("construct"); return std::make_shared<Cmd>(c); });
    case 4: // discards inside a mapper
      return rc::gen::map(rc::gen::pair(rc::gen::inRange(0, kKinds), rc::gen::inRange(0, machine->maxArg)), [=](const Step &c) -> CmdSP {
        point("construct");
        if (breaks(*machine, &s, c)) { broke++; throw CaseResult(CaseResult::Type::Failure, "construction broke"); }
        RC_PRE(ctorOk(c, &s));
        return std::make_shared<Cmd>(c);
      });
    default: // shared command objects, no shrinks
      return rc::gen::element<CmdSP>(std::make_shared<Cmd>(Step(0, 0)), std::make_shared<Cmd>(Step(1, 1)),
                                     std::make_shared<Cmd>(Step(2, 0)), std::make_shared<Cmd>(Step(3, 2 % machine->maxArg)));
    }
  }
};

Machine drawMachine(Sim &s) {
  Machine m;
  m.seed = s.choose(100000, "machine");
  m.states = s.range(1, 8, "states");
  m.preNum = s.chance(2, 3, "partial") ? (s.chance(1, 5, "rare") ? 1 : s.range(3, 7, "pre")) : 8;
  if (s.chance(1, 25, "never")) m.preNum = 0;
  m.ctorNum = s.chance(1, 2, "ctor-partial") ? (s.chance(1, 5, "rare") ? 1 : s.range(4, 7, "ctor")) : 8;
  m.resource = s.chance(1, 2, "resource");
  m.applyDiscards = s.chance(1, 8, "apply-discards") ? s.range(1, 4, "n") : 0;
  m.preThrows = s.chance(1, 10, "pre-throws") ? s.range(1, 4, "n") : 0;
  m.funcThrows = s.chance(1, 10, "func-throws") ? s.range(1, 4, "n") : 0;
  m.failMode = s.choose(5, "fail-mode");
  bool lengthy = s.chance(1, 4, "long");
  int n = s.range(1, lengthy ? 11 : 4, "pattern");
  for (int i = 0; i < n; i++) m.pattern.push_back(s.choose(m.resource ? 3 : kKinds, "kind"));
  m.threshold = m.failMode == 3 ? s.range(1, 25, "sum") : s.range(1, lengthy ? 14 : 6, "length");
  m.failHow = s.choose(4, "how");
  m.otherEnds = s.chance(1, 8, "other-ends") ? s.range(1, 4, "n") : 0;
  m.maxArg = s.range(1, 8, "max-arg");
  m.breaks = s.chance(1, 10, "breaks") ? s.range(1, 4, "n") : 0;
  return m;
}
Model drawInit(Sim &s, const Machine &m) {
  Model r;
  r.s.st = s.choose(m.states, "initial");
  r.s.count = m.resource ? s.range(0, 2, "count") : 0;
  return r;
}

using Cmds = rc::state::Commands<Base>;
Hist stepsOf(const Cmds &c) {
  Hist r;
  for (auto &x : c) { auto d = static_cast<const Cmd *>(x.get()); d->check(); r.push_back(d->step); }
  return r;
}

void begin(Sim &s) {
  (void)s;
  faults.disarm();
  faultsOn = false;
  recording = false;
  events.clear();
  Cmd::live = 0;
}

void judge(Sim &s, const Machine &m, const St &init, const Hist &h, const char *where) {
  St st = init;
  for (std::size_t i = 0; i < h.size(); i++) {
    s.check(valid(m, st, h[i]), "invalid-sequence", [&] { return cat(where, " ", str(h), ": the precondition of command ", i, " does not hold in state ", st.st, "/", st.count); });
    s.check(!applyDiscards(m, st, h[i]), "invalid-sequence", [&] { return cat(where, " ", str(h), ": command ", i, " discards when applied"); });
    s.check(!preThrows(m, st, h[i]), "invalid-sequence", [&] { return cat(where, " ", str(h), ": the precondition of command ", i, " throws"); });
    applyTo(m, st, h[i]);
  }
}

// ------------------------------------------------ walking the shrink tree
SCENARIO("tree", 5) {
  begin(s);
  Machine m = drawMachine(s);
  machine = &m;
  {
    Model init = drawInit(s, m);
    GenFunc gf{static_cast<int>(s.choose(6, "gen"))};
    int size = s.range(0, 20, "size");
    Random r(s.choose(100000, "seed"));
    bool transient = s.chance(1, 3, "transient");
    s.sig(m.seed); s.sig(gf.kind); s.sig(size);
    long inits = 0;
    if (transient) faults.arm(s, 400);
    std::uint64_t fired = faults.fired;
    faultsOn = true;
    rc::Maybe<Gen<Cmds>> g;
    try {
      if (s.chance(1, 2, "callable")) g = rc::state::gen::commands([&inits, init] { point("make-initial-state"); inits++; return init; }, gf);
      else g = rc::state::gen::commands(init, gf);
    } catch (...) { faultsOn = false; faults.disarm(); if (faults.fired == fired) throw; return; }
    broke = 0;
    auto tree = (*g)(r, size);
    long brokeHere = broke;
    if (s.chance(1, 2, "drop-gen")) g.reset();
    auto read = [&](const Shrinkable<Cmds> &t, Hist &out) {
      try { out = stepsOf(t.value()); return true; }
      catch (const rc::GenerationFailure &) { s.probe("generation-failure"); }
      catch (const CaseResult &) {}
      catch (...) { if (!m.preThrows && faults.fired == fired) throw; }
      return false;
    };
    Hist cur;
    if (brokeHere && faults.fired == fired) {
      s.nontrivial();
      s.probe("broken-command");
      std::string got = "a sequence";
      try { tree.value(); } catch (const CaseResult &e) { got = e.type == CaseResult::Type::Failure ? "failure" : "other result"; }
      catch (const rc::GenerationFailure &) { got = "generation failure"; } catch (const std::runtime_error &e) { got = "failure"; }
      s.check(got == "failure", "swallowed", [&] { return cat("a command failed while a sequence was generated, which gave a ", got); });
    }
    if (read(tree, cur)) {
      s.check(!cur.empty() && static_cast<int>(cur.size()) <= size + 1, "length", [&] { return cat("size ", size, " generated ", cur.size(), " commands"); });
      judge(s, m, init.s, cur, "the generated sequence");
      s.log("generated " + str(cur));
      int hops = s.range(0, 12, "hops");
      for (int hop = 0; hop < hops; hop++) {
        Seq<Shrinkable<Cmds>> q = tree.shrinks(), kept = q;
        int look = s.range(1, 12, "look");
        rc::Maybe<Shrinkable<Cmds>> chosen;
        int at = s.choose(look, "take"), seen = 0;
        Hist next;
        for (int i = 0; i < look; i++) {
          auto c = q.next();
          if (!c) break;
          Hist h;
          if (!read(*c, h)) continue;
          seen++;
          judge(s, m, init.s, h, cat("a shrink of ", str(cur)).c_str());
          s.check(h.size() <= cur.size(), "longer", [&] { return cat("shrinking ", str(cur), " made it longer: ", str(h)); });
          Hist again;
          if (!transient) {
            s.check(read(*c, again) && again == h, "unstable", [&] { return cat("a shrink read twice gave ", str(h), " and ", str(again)); });
          }
          if (!chosen || i == at) { chosen = *c; next = h; }
        }
        if (!chosen) break;
        tree = std::move(*chosen);
        cur = next;
        s.sig(cur.size());
        s.log("shrunk to " + str(cur));
        if (m.preNum < 8 || m.resource) s.nontrivial();
      }
      s.sig(hashStr(str(cur)));
    }
    faultsOn = false;
    faults.disarm();
    if (faults.fired != fired) s.nontrivial();
  }
  s.check(Cmd::live == 0, "leaked", [&] { return cat(Cmd::live, " commands were never destroyed"); });
  machine = nullptr;
}

// ------------------------------------------------ whole checks
struct Case { CaseDescription d; std::vector<Event> ev; bool started = false; Hist drawn; bool haveDrawn = false; };
struct Listener : rc::detail::TestListener {
  std::vector<Case> *cases;
  Case *cur;
  std::function<void(const CaseDescription &)> done;
  void onTestCaseFinished(const CaseDescription &d) override { done(d); }
  void onShrinkTried(const CaseDescription &d, bool) override { done(d); }
  void onTestFinished(const rc::detail::TestMetadata &, const rc::detail::TestResult &) override {}
};

SCENARIO("check", 5) {
  begin(s);
  Machine m = drawMachine(s);
  machine = &m;
  {
    Model init = drawInit(s, m);
    GenFunc gf{static_cast<int>(s.choose(6, "gen"))};
    bool transient = s.chance(1, 4, "transient");
    int how = s.choose(3, "how"); // state::check with a model / a callable, or runAll
    bool extra = s.chance(1, 4, "extra-input");
    rc::detail::TestParams p;
    p.seed = s.choose(100000, "seed");
    p.maxSuccess = s.range(1, 12, "success");
    p.maxSize = s.range(1, m.threshold > 8 || m.pattern.size() > 5 ? 40 : 16, "size");
    p.maxDiscardRatio = s.range(0, 8, "ratio");
    s.sig(m.seed); s.sig(gf.kind);
    long execs = 0;
    Hist lastRan, lastDrawn;
    bool lastHaveDrawn = false;
    std::uint64_t fired = faults.fired;
    if (transient) faults.arm(s, 3000);

    long brokeInBody = 0;
    auto body = [&] {
      execs++;
      s.step(5);
      events.clear();
      lastRan.clear();
      lastHaveDrawn = false;
      broke = 0;
      brokeInBody = 0;
      Sut sut;
      struct Keep { Sut &s; Hist &h; long &b; ~Keep() { h = s.ran; recording = false; b = broke; } } keep{sut, lastRan, brokeInBody};
      if (extra) { int x = *rc::gen::inRange(0, 5); RC_PRE(x != 3); }
      recording = true;
      if (how == 0) rc::state::check(init, sut, gf);
      else if (how == 1) rc::state::check([&] { point("make-initial-state"); return init; }, sut, gf);
      else {
        recording = false;
        const auto cmds = *rc::state::gen::commands(init, gf);
        lastDrawn = stepsOf(cmds);
        lastHaveDrawn = true;
        judge(s, m, init.s, lastDrawn, "the drawn sequence");
        recording = true;
        rc::state::runAll(cmds, init, sut);
      }
    };

    long announced = 0;
    Listener l;
    CaseDescription lastDesc;
    Hist lastFailRan, lastFailDrawn;
    bool anyFail = false, sawFault = false;
    l.done = [&](const CaseDescription &d) {
      announced++;
      bool faulted = faults.fired != fired;
      if (faulted) sawFault = true;
      // Protocol of the case that just ran: [p r a]* in order, from the first 'r' on.
      std::size_t firstRun = 0;
      while (firstRun < events.size() && events[firstRun].what != 'r') firstRun++;
      St st = init.s;
      std::size_t n = 0;
      if (firstRun < events.size()) {
        s.check(firstRun > 0, "protocol", [] { return std::string("a command ran before any precondition was checked"); });
        std::size_t i = firstRun - 1;
        while (i < events.size()) {
          const Event &p = events[i];
          s.check(p.what == 'p', "protocol", [&] { return cat("command ", n, ": expected a precondition check, saw '", p.what, "'"); });
          s.check(p.hist == st.hist && p.st == st.st, "protocol", [&] { return cat("precondition of command ", n, " checked on state ", p.st, " after ", str(p.hist), " instead of ", st.st, " after ", str(st.hist)); });
          if (i + 1 >= events.size()) { break; }
          const Event &r = events[i + 1];
          s.check(r.what == 'r' && r.cmd == p.cmd, "protocol", [&] { return cat("after the precondition of command ", n, " came '", r.what, "'"); });
          s.check(r.hist == st.hist && r.st == st.st, "wrong-state", [&] { return cat("command ", n, " ran with state ", r.st, " after ", str(r.hist), " instead of ", st.st, " after ", str(st.hist)); });
          s.check(valid(m, st, r.step), "invalid-sequence", [&] { return cat("command ", n, " of ", str(lastRan), " ran although its precondition does not hold"); });
          End e = endOf(m, st, r.step);
          bool more = i + 2 < events.size();
          s.check(!(more && e != Goes), "ran-on", [&] { return cat("command ", n, " of ", str(lastRan), " ended the case but the run went on"); });
          n++;
          if (!more) {
            s.check(e != Goes || faulted, "stopped-early", [&] { return cat("after command ", n, " of ", str(lastRan), " nothing was applied"); });
            break;
          }
          const Event &a = events[i + 2];
          s.check(a.what == 'a' && a.cmd == r.cmd && a.hist == st.hist && a.st == st.st, "protocol", [&] { return cat("after command ", n - 1, " ran came '", a.what, "' on ", str(a.hist)); });
          applyTo(m, st, r.step);
          i += 3;
        }
      }
      if (lastHaveDrawn && !faulted) {
        std::size_t want = 0;
        runSequence(m, init.s, lastDrawn, &want);
        s.check(n == want && lastRan == Hist(lastDrawn.begin(), lastDrawn.begin() + want), "stopped-early", [&] { return cat("of ", str(lastDrawn), " only ", str(lastRan), " ran, expected ", want, " commands"); });
      }
      // Outcome.
      if (!faulted && firstRun < events.size()) {
        End e = runSequence(m, init.s, lastRan);
        auto t = d.result.type;
        bool ok = e == Goes || e == Succeeds ? t == CaseResult::Type::Success : e == Discards ? t == CaseResult::Type::Discard : t == CaseResult::Type::Failure;
        s.check(ok, "wrong-outcome", [&] { return cat("running ", str(lastRan), " should end as ", static_cast<int>(e), " but the case is reported as ", static_cast<int>(t), ": ", d.result.description); });
      }
      // (preconditions that throw something else make the case a failure)
      if (!faulted && brokeInBody) {
        s.nontrivial();
        s.probe("broken-command");
        s.check(d.result.type == CaseResult::Type::Failure && d.result.description.find("broke") != std::string::npos, "swallowed", [&] { return "a command failed for good while it was constructed or checked, the case ended with: " + d.result.description; });
      }
      if (!faulted && firstRun >= events.size() && !m.preThrows && !m.breaks)
        s.check(d.result.type != CaseResult::Type::Failure, "wrong-outcome", [&] { return "a case that ran no command failed: " + d.result.description; });
      if (d.result.type == CaseResult::Type::Failure) { anyFail = true; lastDesc = d; lastFailRan = lastRan; lastFailDrawn = lastDrawn; }
      if (d.result.type == CaseResult::Type::Discard) s.probe("discarded-case");
    };
    // execs counted, one announced case each
    rc::detail::TestMetadata md;
    md.id = "C09";
    faultsOn = true;
    rc::Maybe<rc::detail::TestResult> result;
    try { result = rc::detail::checkProperty(rc::detail::toProperty(body), md, p, l, {}); }
    catch (...) { if (faults.fired == fired) throw; }
    faultsOn = false;
    faults.disarm();
    if (faults.fired != fired) s.nontrivial();
    if (result && faults.fired == fired) {
      rc::detail::FailureResult f;
      if (result->match(f)) {
        s.nontrivial();
        s.probe("failed-check");
        // The reported sequence.
        std::string shown;
        for (auto &e : f.counterExample) shown += e.second;
        Hist reported;
        std::size_t pos = 0;
        while ((pos = shown.find("<cmd ", pos)) != std::string::npos) {
          int k = 0, a = 0;
          std::sscanf(shown.c_str() + pos, "<cmd %d.%d>", &k, &a);
          reported.push_back(Step(k, a));
          pos++;
        }
        if (!m.preThrows && !m.funcThrows && !m.applyDiscards && !m.breaks) {
          judge(s, m, init.s, reported, "the reported sequence");
          End e = runSequence(m, init.s, reported);
          s.check(e == Fails || e == Throws, "not-failing", [&] { return cat("the reported sequence ", str(reported), " does not fail"); });
          for (std::size_t i = 0; i < reported.size(); i++)
            for (std::size_t j = i + 1; j <= reported.size(); j++) {
              Hist h(reported.begin(), reported.begin() + i);
              h.insert(h.end(), reported.begin() + j, reported.end());
              if (!validSequence(m, init.s, h)) continue;
              End x = runSequence(m, init.s, h);
              s.check(x != Fails && x != Throws, "not-minimal", [&] { return cat("removing commands ", i, "..", j, " from the reported ", str(reported), " leaves ", str(h), " which is valid and still fails"); });
            }
          if (reported.size() > 1) s.probe("minimal-multi");
        }
        s.sig(hashStr(str(reported)));
      }
      rc::detail::GaveUpResult g;
      if (result->match(g)) s.probe("gave-up");
    }
    s.check(announced <= execs + 100000, "protocol", [] { return std::string(); });
    s.sig(announced);
  }
  s.check(Cmd::live == 0, "leaked", [&] { return cat(Cmd::live, " commands were never destroyed"); });
  machine = nullptr;
}

// ------------------------------------------------ the functions users call
SCENARIO("direct", 2) {
  begin(s);
  Machine m = drawMachine(s);
  m.preThrows = m.breaks = 0;
  machine = &m;
  {
    Model init = drawInit(s, m);
    int n = s.range(0, 10, "n");
    Cmds cmds;
    Hist h;
    St along = init.s;
    for (int i = 0; i < n; i++) {
      Step c(s.choose(kKinds, "kind"), s.choose(m.maxArg, "arg"));
      if (s.chance(3, 4, "prefer-valid"))
        for (int t = 0; t < 12 && !valid(m, along, c); t++) c = Step((c.first + 1) % kKinds, (c.second + t) % m.maxArg);
      if (valid(m, along, c)) applyTo(m, along, c);
      h.push_back(c);
      cmds.push_back(std::make_shared<Cmd>(c));
    }
    s.sig(hashStr(str(h)));
    // Where the sequence first discards.
    std::size_t bad = n;
    bool byApply = false;
    St st = init.s;
    for (int i = 0; i < n; i++) {
      if (!valid(m, st, h[i])) { bad = i; break; }
      if (applyDiscards(m, st, h[i])) { bad = i; byApply = true; break; }
      applyTo(m, st, h[i]);
    }
    int used = 0;
    auto make = [&] { used++; return init; };
    s.check(rc::state::isValidSequence(cmds, init) == (bad == static_cast<std::size_t>(n)), "validity", [&] { return cat("isValidSequence is wrong about ", str(h)); });
    s.check(rc::state::isValidSequence(cmds, make) == (bad == static_cast<std::size_t>(n)) && used == 1, "validity", [&] { return cat("isValidSequence is wrong about ", str(h)); });
    if (n) s.check(rc::state::isValidCommand(*cmds[0], init) == valid(m, init.s, h[0]), "validity", [] { return std::string("isValidCommand is wrong"); });
    if (n && bad > 0) {
      Model nx = cmds[0]->nextState(init);
      St w = init.s;
      applyTo(m, w, h[0]);
      s.check(nx.s.st == w.st && nx.s.hist == w.hist && init.s.hist.empty(), "wrong-state", [] { return std::string("nextState is wrong or changed its argument"); });
    }
    // runAll on an arbitrary sequence, with a transient fault sometimes.
    std::uint64_t fired = faults.fired;
    if (s.chance(1, 3, "transient")) faults.arm(s, 30);
    Sut sut;
    bool threw = false;
    CaseResult res(CaseResult::Type::Success, "");
    bool isCase = false;
    faultsOn = true;
    events.clear();
    recording = true;
    Model given = init;
    try {
      if (s.chance(1, 2, "callable")) { rc::state::runAll(cmds, make, sut); }
      else rc::state::runAll(cmds, given, sut);
    } catch (const CaseResult &r) { res = r; isCase = threw = true; }
    catch (...) { threw = true; }
    recording = false;
    faultsOn = false;
    faults.disarm();
    bool faulted = faults.fired != fired;
    s.check(given.s.hist.empty() && given.s.st == init.s.st, "wrong-state", [] { return std::string("runAll changed the model it was given"); });
    // What must have run.
    St w = init.s;
    std::size_t expect = 0;
    End e = Goes;
    for (; expect < static_cast<std::size_t>(n); expect++) {
      if (!valid(m, w, h[expect])) { e = Discards; break; }
      End x = endOf(m, w, h[expect]);
      if (x != Goes) { e = x; expect++; break; }
      if (applyDiscards(m, w, h[expect])) { e = Discards; expect++; break; }
      applyTo(m, w, h[expect]);
    }
    if (!faulted) {
      s.check(sut.ran == Hist(h.begin(), h.begin() + expect), "stopped-early", [&] { return cat("runAll of ", str(h), " ran ", str(sut.ran), " instead of the first ", expect); });
      bool ok = e == Goes ? !threw : e == Throws ? threw && !isCase : isCase && res.type == (e == Fails ? CaseResult::Type::Failure : e == Discards ? CaseResult::Type::Discard : CaseResult::Type::Success);
      s.check(ok, "wrong-outcome", [&] { return cat("runAll of ", str(h), " should end as ", static_cast<int>(e)); });
    } else {
      s.nontrivial();
      s.check(threw, "swallowed", [&] { return cat("a throw inside runAll of ", str(h), " disappeared"); });
      s.check(sut.ran.size() <= expect && sut.ran == Hist(h.begin(), h.begin() + sut.ran.size()), "protocol", [&] { return cat("runAll of ", str(h), " ran ", str(sut.ran)); });
    }
    std::vector<std::size_t> order;
    char prev = 'a';
    for (auto &ev : events) {
      bool ok = (ev.what == 'p' && prev == 'a') || (ev.what == 'r' && prev == 'p') || (ev.what == 'a' && prev == 'r');
      s.check(ok, "protocol", [&] { return cat("'", ev.what, "' came after '", prev, "'"); });
      prev = ev.what;
    }
    if (bad != static_cast<std::size_t>(n)) s.nontrivial();
    (void)byApply;
    std::ostringstream os;
    rc::show(cmds, os);
  }
  s.check(Cmd::live == 0, "leaked", [&] { return cat(Cmd::live, " commands were never destroyed"); });
  machine = nullptr;
}

// ------------------------------------------------ nothing valid
SCENARIO("no-command", 1) {
  begin(s);
  Machine m = drawMachine(s);
  bool byCtor = s.chance(1, 2, "by-construction");
  if (byCtor) { m.ctorNum = 0; m.resource = false; } else m.preNum = 0;
  m.preThrows = m.funcThrows = m.breaks = 0;
  machine = &m;
  {
    Model init = drawInit(s, m);
    int kinds[] = {0, 1, 3, 4};
    GenFunc gf{kinds[s.choose(4, "gen")]};
    // Valid for a while, then never again: count how much is tried.
    s.setStepBudget(s.steps() + 60000);
    auto g = rc::state::gen::commands(init, gf);
    std::uint64_t before = s.steps();
    auto tree = g(Random(s.choose(100000, "seed")), s.range(0, 20, "size"));
    bool failed = false;
    try { auto c = tree.value(); s.fail("invalid-sequence", cat("generated ", str(stepsOf(c)), " although no command is valid")); }
    catch (const rc::GenerationFailure &) { failed = true; }
    s.check(failed, "wrong-outcome", [] { return std::string("no generation failure"); });
    s.count("tries.steps", s.steps() - before);
    s.setStepBudget(s.steps() + 400000);
    rc::detail::TestParams p;
    p.seed = s.choose(100000, "seed");
    p.maxSuccess = s.range(1, 3, "success");
    p.maxSize = 5;
    p.maxDiscardRatio = s.range(1, 2, "ratio");
    Sut sut;
    struct Quiet : rc::detail::TestListener {
      long discards = 0, others = 0;
      void onTestCaseFinished(const CaseDescription &d) override { (d.result.type == CaseResult::Type::Discard ? discards : others)++; }
      void onShrinkTried(const CaseDescription &, bool) override { others++; }
      void onTestFinished(const rc::detail::TestMetadata &, const rc::detail::TestResult &) override {}
    } q;
    rc::detail::TestMetadata md;
    auto res = rc::detail::checkProperty(rc::detail::toProperty([&] { rc::state::check(init, sut, gf); }), md, p, q, {});
    rc::detail::GaveUpResult gu;
    s.check(res.match(gu) && q.others == 0, "wrong-outcome", [] { return std::string("cases without a valid command are not discarded"); });
    s.check(sut.ran.empty(), "protocol", [] { return std::string("a command ran"); });
    s.nontrivial();
    s.sig(m.seed);
  }
  s.check(Cmd::live == 0, "leaked", [&] { return cat(Cmd::live, " commands were never destroyed"); });
  machine = nullptr;
}

} // namespace
