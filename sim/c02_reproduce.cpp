// C02: what is printed at the end of one process replays the reported failures in
// another one.
#include "prog.h"
#include "rapidcheck/detail/Configuration.h"
#include "detail/DefaultTestListener.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;
using namespace prog;
using namespace rc::detail;
namespace gen = rc::gen;

namespace {

std::string drawId(Sim &s) {
  int style = static_cast<int>(s.choose(7, "id-style"));
  switch (style) {
  case 0: return cat("prop", s.choose(3, "id"));
  case 1: return "";
  case 2: return "suite/name with spaces";
  case 3: { std::string r; int n = s.range(1, 12, "len"); for (int i = 0; i < n; i++) r += static_cast<char>(s.choose(256, "byte")); return r; }
  case 4: { std::string r; int n = s.range(1, 8, "len"); for (int i = 0; i < n; i++) r += " \"'\\=\n\t,$`;"[s.choose(11, "char")]; return r; }
  case 5: return std::string(static_cast<std::size_t>(s.pick(std::vector<int>{127, 128, 129, 255, 300}, "long")), 'x');
  default: return std::string("zero\0byte", 9);
  }
}

// The setting between the quotes that a user copies.
rc::Maybe<std::string> printedParams(const std::string &text) {
  auto at = text.find("RC_PARAMS=\"");
  if (at == std::string::npos) return rc::Nothing;
  at += 11;
  auto end = text.find('"', at);
  if (end == std::string::npos) return rc::Nothing;
  return text.substr(at, end - at);
}

// Other settings around it.
std::string combined(Sim &s, const std::string &reproduce, bool noshrink) {
  std::vector<std::string> parts{reproduce};
  if (noshrink) parts.push_back("noshrink=1");
  if (s.chance(1, 3, "seed")) parts.push_back(cat("seed=", s.bits64("seed")));
  if (s.chance(1, 3, "max_success")) parts.push_back(cat("max_success=", s.choose(3, "n")));
  if (s.chance(1, 3, "max_size")) parts.push_back(cat("max_size='", s.choose(300, "n"), "'"));
  if (s.chance(1, 4, "ratio")) parts.push_back("max_discard_ratio=0");
  if (s.chance(1, 4, "verbose")) parts.push_back("verbose_progress=1");
  if (s.chance(1, 4, "verbose")) parts.push_back("verbose_shrinking=\"1\"");
  std::string r;
  for (std::size_t i = parts.size(); i > 0; i--) {
    std::swap(parts[i - 1], parts[s.choose(static_cast<std::uint32_t>(i), "order")]);
    r += std::string(static_cast<std::size_t>(s.range(i == parts.size() ? 0 : 1, 2, "blank")), s.chance(1, 4, "tab") ? '\t' : ' ') + parts[i - 1];
  }
  return r;
}

struct InFrame {
  std::size_t depth;
  explicit InFrame(Frame &f) : depth(frames.size()) { frames.push_back(&f); }
  ~InFrame() { frames.resize(depth); }
};

// What has to come out of a recorded case, by an independent walk.
struct Expected { bool error = false; std::string description; Example example; };
Expected expectedOf(std::shared_ptr<Body> b, const Reproduce &r) {
  Frame f;
  f.body = b.get();
  InFrame in(f);
  Expected e;
  auto cur = makeProperty(b)(r.random, r.size);
  for (auto step : r.shrinkPath) {
    auto list = cur.shrinks();
    rc::Maybe<rc::Shrinkable<CaseDescription>> n;
    for (std::size_t i = 0; i <= step; i++) { n = list.next(); if (!n) { e.error = true; return e; } }
    cur = *n;
  }
  auto d = cur.value();
  if (d.result.type != CaseType::Failure) { e.error = true; return e; }
  e.description = d.result.description;
  e.example = d.example();
  return e;
}

void compare(Sim &s, const std::string &id, const Report &rep, const std::string &desc, const Example &ex, const Reproduce *repro) {
  FailureResult f;
  if (!rep.result.match(f)) s.fail("not-reproduced", cat(quote(id), " ended as ", rep.trace.back(), " instead of failing with ", quote(desc)));
  if (f.description != desc) s.fail("other-case", cat(quote(id), " was described as ", quote(desc), ", reproduced as ", quote(f.description)));
  if (f.counterExample != ex) s.fail("other-case", cat(quote(id), " reproduced another counterexample: ", rep.trace.back()));
  if (f.numSuccess != 0) s.fail("other-case", cat(quote(id), " executed other test cases before the reproduced one: ", f.numSuccess));
  if (repro && (f.reproduce.random != repro->random || f.reproduce.size != repro->size || f.reproduce.shrinkPath != repro->shrinkPath))
    s.fail("other-case", cat(quote(id), " was reproduced from other data: ", rep.trace.back()));
}

struct Prop {
  std::string id;
  std::shared_ptr<Body> body;
  TestParams params;
  Report report;
};

SCENARIO("session", 5) {
  ForeignLocale locale(s);
  reset("C02");
  BodyOpts o;
  o.genDepth = s.range(0, 2, "gen-depth");
  o.monotone = s.chance(1, 2, "monotone");
  o.throwingGens = s.chance(1, 4, "throwing-gens");
  o.rejectingGens = s.chance(1, 4, "rejecting-gens");
  drawSlots(s, o);
  std::ostringstream out;
  Configuration first;
  bool noisy = s.chance(1, 6, "noisy");
  first.verboseProgress = noisy;
  first.verboseShrinking = noisy;
  auto listener = makeDefaultTestListener(first, out);
  std::vector<Prop> props;
  int n = s.range(1, 5, "properties");
  for (int i = 0; i < n; i++) {
    Prop p;
    p.id = !props.empty() && s.chance(1, 6, "same-id") ? props[s.choose(static_cast<std::uint32_t>(props.size()))].id : drawId(s);
    p.body = drawBody(s, o);
    if (p.body->arity == 0 && s.chance(2, 3, "argument")) p.body->arity = 1;
    p.params = drawParams(s, paramSize(s));
    p.params.seed = s.chance(1, 2, "big-seed") ? s.bits64("seed") : p.params.seed;
    if (s.chance(1, 6, "again")) p.body = props.empty() ? p.body : props.back().body;
    CheckOpts co;
    co.id = p.id;
    co.also = listener.get();
    co.viaCheckProperty = s.chance(1, 2, "via");
    p.report = runCheck(p.body, p.params, co);
    s.log(cat("property ", quote(p.id), " ", p.body->str()));
    s.sig(hashStr(p.report.trace.back()));
    props.push_back(p);
    // a check of that process that was torn down prints nothing of its own
    if (s.chance(1, 8, "torn-down")) {
      CheckOpts c2 = co;
      c2.id = "torn";
      c2.throwAt = 0;
      runCheck(p.body, p.params, c2);
    }
  }
  listener.reset();
  std::map<std::string, std::size_t> want;
  for (std::size_t i = 0; i < props.size(); i++) if (!props[i].id.empty() && props[i].report.isFailure()) want.emplace(props[i].id, i);
  auto text = printedParams(out.str());
  if (want.empty()) {
    if (text) s.fail("printed-without-failure", cat("printed although no named property failed: ", quote(out.str())));
    return;
  }
  s.fault("process-restart");
  if (!text) s.fail("not-printed", cat(want.size(), " named properties failed but nothing was printed to reproduce them: ", quote(out.str())));
  bool noshrink = s.chance(1, 4, "noshrink");
  auto params = combined(s, *text, noshrink);
  s.log("params " + params);
  Configuration config;
  Configuration defaults;
  defaults.testParams.seed = s.bits64("random-device");
  try {
    config = configFromString(params, defaults);
  } catch (const std::exception &e) {
    s.fail("not-loadable", cat("the printed configuration ", quote(params), " does not load: ", e.what()));
  }
  if (config.testParams.disableShrinking != noshrink) s.fail("wrong-setting", "noshrink");
  // Text written by someone else may name a property without a name.
  if (s.chance(1, 6, "nameless-entry")) {
    s.fault("nameless-entry");
    auto first = config.reproduce.begin()->second;
    config.reproduce.emplace("", first);
  }
  // -- the new process
  std::vector<std::size_t> order;
  for (std::size_t i = 0; i < props.size(); i++) order.push_back(i);
  for (std::size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[s.choose(static_cast<std::uint32_t>(i), "order")]);
  std::ostringstream out2;
  auto l2 = makeDefaultTestListener(config, out2);
  for (auto i : order) {
    auto &p = props[i];
    auto it = want.find(p.id);
    bool mine = it != want.end() && it->second == i;
    if (it != want.end() && !mine && p.body != props[it->second].body) continue; // another property of that name
    auto body = p.body;
    bool edited = mine && s.chance(1, 5, "edited");
    if (edited) {
      s.fault("property-edited");
      body = std::make_shared<Body>(*body);
      switch (s.choose(3, "edit")) {
      case 0: body->steps.clear(); body->ret = 0; body->retCond = 0; break;
      case 1: body->arity = (body->arity + 1) % 4; break;
      default: if (!body->steps.empty()) body->steps.pop_back(); body->seed++; break;
      }
    }
    auto rep = runReproduce(body, config.testParams, p.id, config.reproduce, s.chance(1, 2, "listener") ? l2.get() : nullptr);
    if (rep.escaped) s.fail("exception-escaped", cat("reproducing ", quote(p.id), " was left by ", rep.escapedWhat));
    if (it == want.end()) {
      SuccessResult su;
      if (!rep.result.match(su) || su.numSuccess != 0 || !su.distribution.empty() || !rep.execs.empty()) s.fail("not-skipped", cat(quote(p.id), " which did not fail ended as ", rep.trace.back(), " after ", rep.execs.size(), " executed cases"));
      s.probe("skipped");
      continue;
    }
    auto &orig = props[it->second].report;
    FailureResult f;
    orig.result.match(f);
    Reproduce expected = f.reproduce;
    if (noshrink) expected.shrinkPath.clear();
    if (edited) {
      auto e = expectedOf(body, expected);
      Error er;
      if (e.error) {
        s.probe("edited-error");
        if (!rep.result.match(er) || er.description.empty()) s.fail("stale-case-accepted", cat(quote(p.id), " whose recorded case does not fail any more ended as ", rep.trace.back()));
      } else compare(s, p.id, rep, e.description, e.example, nullptr);
      continue;
    }
    s.probe("reproduced");
    if (f.reproduce.shrinkPath.size()) s.probe("reproduced-shrunk");
    if (noshrink) {
      const Event *failing = nullptr;
      for (auto &e : orig.events) if (e.kind == 'c' && e.type == CaseType::Failure) failing = &e;
      auto e = expectedOf(body, expected);
      compare(s, p.id, rep, failing->desc, e.example, nullptr);
    } else {
      compare(s, p.id, rep, f.description, f.counterExample, &f.reproduce);
      if (orig.lastRan && rep.lastRan && orig.execs.back().str() != rep.execs.back().str()) s.fail("other-case", cat(quote(p.id), " reported ", orig.execs.back().str(), ", reproduced ", rep.execs.back().str()));
      if (orig.lastRan != rep.lastRan) s.fail("other-case", quote(p.id));
    }
  }
  l2.reset();
}

// A recorded path that leads nowhere.
SCENARIO("stale-path", 1) {
  reset("C02");
  BodyOpts o;
  o.genDepth = s.range(0, 1, "gen-depth");
  o.monotone = s.chance(1, 2, "monotone");
  drawSlots(s, o);
  auto b = drawBody(s, o);
  if (b->arity == 0) b->arity = 1;
  s.sig(hashStr(b->str()));
  Reproduce r;
  r.random = rc::Random(s.choose(1000, "seed"));
  r.size = static_cast<int>(s.choose(10, "size"));
  int n = s.range(0, 4, "steps");
  for (int i = 0; i < n; i++) r.shrinkPath.push_back(s.chance(1, 8, "far") ? 10000000 : s.choose(6, "step"));
  s.fault("stale-path");
  TestParams p;
  p.disableShrinking = s.chance(1, 4, "noshrink");
  auto q = r;
  if (p.disableShrinking) q.shrinkPath.clear();
  auto e = expectedOf(b, q);
  auto rep = runReproduce(b, p, "id", {{"id", r}});
  if (rep.escaped) s.fail("exception-escaped", cat("reproducing was left by ", rep.escapedWhat));
  Error er;
  if (e.error) {
    if (!rep.result.match(er)) s.fail("stale-case-accepted", cat(b->str(), " ended as ", rep.trace.back()));
    s.probe("stale-error");
  } else compare(s, "id", rep, e.description, e.example, nullptr);
}

// -- two real processes, joined only by the printed text -------------------------

struct Scripted { std::string id; int kind = 0, threshold = 0; };

// Runs the properties in a process of their own and returns all it wrote.
std::string inProcess(Sim &s, const std::string &params, const std::vector<Scripted> &props, std::string *reports) {
  int err[2], rep[2];
  if (pipe(err) || pipe(rep)) s.fail("harness", "pipe");
  std::cout.flush();
  pid_t pid = fork();
  if (pid == 0) {
    alarm(20);
    dup2(err[1], 2);
    close(err[0]); close(err[1]); close(rep[0]);
    std::FILE *o = fdopen(rep[1], "w");
    setenv("RC_PARAMS", params.c_str(), 1);
    for (auto &p : props) {
      std::string last;
      long cases = 0;
      auto body = [&](int x, const std::vector<short> &v) {
        cases++;
        int y = *gen::inRange(0, 40).as("y");
        std::ostringstream os;
        os << x << " " << v.size() << " " << y;
        for (auto e : v) os << " " << e;
        last = os.str();
        RC_LOG() << "logged " << x;
        switch (p.kind) {
        case 0: RC_ASSERT(x < p.threshold); break;
        case 1: if (static_cast<int>(v.size()) >= p.threshold % 5) throw std::runtime_error("size \"quoted\"\n"); break;
        case 2: if (x + y >= p.threshold) RC_FAIL("sum"); break;
        case 3: break;
        default: RC_PRE(x % 2 == 0); RC_ASSERT(y + static_cast<int>(v.size()) < p.threshold);
        }
      };
      bool ok = false;
      try { ok = rc::check(p.id, body); } catch (...) { _exit(70); }
      std::fprintf(o, "%d %ld %s\n", ok, cases, ok ? "" : last.c_str());
      std::fflush(o);
    }
    std::fclose(o);
    std::exit(0); // the summary is printed by the static listener
  }
  close(err[1]); close(rep[1]);
  std::string text;
  auto drain = [](int fd, std::string &to) { char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) to.append(b, static_cast<std::size_t>(n)); close(fd); };
  drain(rep[0], *reports);
  drain(err[0], text);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) s.fail("process-died", cat("the process of the properties ended with status ", st, ": ", text.substr(0, 2000)));
  return text;
}

std::vector<std::string> lines(const std::string &t) {
  std::vector<std::string> r;
  std::istringstream is(t);
  std::string l;
  while (std::getline(is, l)) r.push_back(l);
  return r;
}

SCENARIO("processes", 1) {
  reset("C02");
  int n = s.range(1, 3, "properties");
  std::vector<Scripted> props;
  for (int i = 0; i < n; i++) {
    Scripted p;
    p.id = s.chance(1, 8, "unnamed") ? "" : cat("p", i, s.pick(std::vector<std::string>{"", " a'b\"c", "=x y", "\xff\x80"}, "id"));
    p.kind = static_cast<int>(s.choose(5, "kind"));
    p.threshold = s.range(1, 40, "threshold");
    props.push_back(p);
    s.sig(mix(static_cast<std::uint64_t>(p.kind), static_cast<std::uint64_t>(p.threshold)));
  }
  std::string rep1, rep2;
  auto params = cat("seed=", s.choose(100000, "seed"), " max_size=", s.range(5, 60, "size"), s.chance(1, 5, "verbose") ? " verbose_progress=1 verbose_shrinking=1" : "");
  s.fault("real-process-pair");
  auto out1 = inProcess(s, params, props, &rep1);
  auto l1 = lines(rep1);
  if (l1.size() != props.size()) s.fail("process-died", rep1);
  bool any = false;
  for (std::size_t i = 0; i < props.size(); i++) any = any || (l1[i][0] == '0' && !props[i].id.empty());
  auto text = printedParams(out1);
  if (!any) { if (text) s.fail("printed-without-failure", quote(out1.substr(0, 500))); return; }
  if (!text) s.fail("not-printed", cat("nothing was printed to reproduce the failures: ", quote(out1.substr(0, 1000))));
  s.log(*text);
  auto two = combined(s, *text, false);
  auto out2 = inProcess(s, two, props, &rep2);
  auto l2 = lines(rep2);
  if (l2.size() != props.size()) s.fail("process-died", rep2);
  for (std::size_t i = 0; i < props.size(); i++) {
    bool mine = l1[i][0] == '0' && !props[i].id.empty();
    if (!mine) {
      if (l2[i] != "1 0 ") s.fail("not-skipped", cat("property ", quote(props[i].id), " reported ", l2[i]));
      continue;
    }
    if (l2[i][0] != '0') s.fail("not-reproduced", cat("property ", quote(props[i].id), " reported ", l2[i], " instead of ", l1[i]));
    auto case1 = l1[i].substr(l1[i].find(' ', 2)), case2 = l2[i].substr(l2[i].find(' ', 2));
    if (case1 != case2) s.fail("other-case", cat("property ", quote(props[i].id), " failed with ", case1, " and was reproduced with ", case2));
    s.probe("reproduced-across-processes");
  }
  auto again = printedParams(out2);
  (void)again;
}

} // namespace
