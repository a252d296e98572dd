// C01: the same seed and parameters give the same run, whatever the process did
// before, does around it, or still holds.
#include "prog.h"
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <iostream>
#include "rapidcheck/state.h"
using namespace sim;
using namespace prog;
using namespace rc::detail;
namespace gen = rc::gen;

namespace {

struct Quiet {
  std::ostringstream sink;
  std::streambuf *old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
struct Mute : TestListener {
  void onTestCaseFinished(const CaseDescription &) override {}
  void onShrinkTried(const CaseDescription &, bool) override {}
  void onTestFinished(const TestMetadata &, const TestResult &) override {}
};

// A test case tree of a property, kept and used half way.
struct Held {
  std::shared_ptr<Body> body;
  std::unique_ptr<Frame> frame;
  std::vector<rc::Shrinkable<CaseDescription>> nodes;
  std::vector<rc::Seq<rc::Shrinkable<CaseDescription>>> lists;
  Held(std::shared_ptr<Body> b, const Property &p, const rc::Random &r, int size) : body(b), frame(new Frame) {
    frame->body = b.get();
    In in(*this);
    nodes.push_back(p(r, size));
  }
  struct In {
    std::size_t depth;
    explicit In(Held &h) : depth(frames.size()) { frames.push_back(h.frame.get()); }
    ~In() { frames.resize(depth); }
  };
  void use(Sim &s) {
    In in(*this);
    int n = s.range(0, 4, "held-ops");
    for (int i = 0; i < n; i++) {
      s.step();
      try {
        switch (s.choose(4, "held-op")) {
        case 0: nodes[s.choose(nodes.size())].value(); break;
        case 1: lists.push_back(nodes[s.choose(nodes.size())].shrinks()); break;
        case 2: if (!lists.empty()) if (auto x = lists[s.choose(lists.size())].next()) nodes.push_back(*x); break;
        case 3: if (nodes.size() > 1) nodes.erase(nodes.begin() + s.choose(nodes.size())); break;
        }
      } catch (...) {
      }
    }
  }
};

struct World {
  Sim &s;
  BodyOpts o;
  std::vector<std::shared_ptr<Body>> bodies;
  std::vector<std::unique_ptr<Held>> held;
  std::vector<std::unique_ptr<rc::Gen<Val>>> gens;
  std::vector<rc::Shrinkable<Val>> vals;
  std::vector<rc::Seq<rc::Shrinkable<Val>>> valLists;
  std::vector<void *> blocks;
  ~World() { for (auto *p : blocks) std::free(p); }

  /// One thing the process does besides the runs that are compared.
  void disturb(std::shared_ptr<Body> b, const TestParams &p, const Property *prop) {
    s.step();
    switch (s.choose(12, "disturb")) {
    case 0: { // another check
      auto x = drawBody(s, o);
      auto q = drawParams(s, paramSize(s));
      s.probe("other-check");
      runCheck(x, q);
      break;
    }
    case 1: { // another seed
      auto q = p;
      q.seed = s.choose(1000, "seed");
      CheckOpts co;
      co.property = prop;
      runCheck(b, q, co);
      break;
    }
    case 2: { // torn down
      CheckOpts co;
      co.property = prop;
      co.throwAt = static_cast<int>(s.choose(12, "at"));
      auto r = runCheck(b, p, co);
      if (r.escaped) s.probe("torn-down");
      break;
    }
    case 3: { // transient faults
      CheckOpts co;
      co.property = prop;
      co.examples = false;
      faults.arm(s, 200);
      runCheck(b, p, co);
      faults.disarm();
      break;
    }
    case 4: { // a half used tree of the same property
      Property q = prop ? *prop : makeProperty(b);
      held.emplace_back(new Held(b, q, rc::Random(s.chance(1, 2, "same-seed") ? p.seed : s.choose(1000, "seed")), static_cast<int>(s.choose(4, "size"))));
      held.back()->use(s);
      s.fault("tree-kept");
      break;
    }
    case 5: // abandon or use one
      if (held.empty()) break;
      if (s.chance(1, 2, "abandon")) { held.erase(held.begin() + s.choose(held.size())); s.fault("tree-abandoned"); }
      else held[s.choose(held.size())]->use(s);
      break;
    case 6: { // a generator used directly
      zoo::Opts z;
      z.depth = s.range(1, 2, "depth");
      z.throwing = s.chance(1, 3, "throwing");
      auto sp = zoo::genSpec(s, z);
      gens.emplace_back(new rc::Gen<Val>(zoo::build(sp)));
      bool transient = s.chance(1, 3, "transient");
      if (transient) faults.arm(s, 20);
      try {
        vals.push_back((*gens.back())(rc::Random(s.choose(1000, "seed")), zoo::genSize(s, sp)));
        valLists.push_back(vals.back().shrinks());
        valLists.back().next();
      } catch (...) {
      }
      faults.disarm();
      s.probe("generator-used");
      break;
    }
    case 7: { // memory with other content
      for (int i = 0; i < 20; i++) {
        std::size_t n = 16 << (i % 8);
        void *m = std::malloc(n);
        std::memset(m, static_cast<int>(0x5A + i), n);
        if (i % 3) std::free(m); else blocks.push_back(m);
      }
      break;
    }
    case 10: // memory runs out during a check
      starvedCheck(s);
      break;
    case 8: // process state
      std::srand(s.choose(1000, "srand"));
      std::rand();
      errno = EINTR;
      rc::Random().next();
      break;
    case 9: { // reproducing something
      Reproduce rep;
      rep.random = rc::Random(s.choose(1000, "seed"));
      rep.size = static_cast<int>(s.choose(5, "size"));
      if (s.chance(1, 2, "path")) rep.shrinkPath.push_back(s.choose(3, "step"));
      runReproduce(b, p, "id", {{"id", rep}});
      break;
    }
    default: { // a pick outside of any check
      bool threw = false;
      try { *gen::just(1); } catch (...) { threw = true; }
      RC_TAG(1);
    }
    }
  }
};

void compare(Sim &s, const Report &a, const Report &b, const Body &body, const char *how) {
  std::size_t n = std::min(a.trace.size(), b.trace.size());
  for (std::size_t i = 0; i < n; i++)
    if (a.trace[i] != b.trace[i]) s.fail("run-differs", cat(body.str(), ", ", how, ": entry ", i, " was ", quote(a.trace[i]), " and now is ", quote(b.trace[i])));
  if (a.trace.size() != b.trace.size()) s.fail("run-differs", cat(body.str(), ", ", how, ": ", a.trace.size(), " entries, now ", b.trace.size()));
}

SCENARIO("program", 4) {
  ForeignLocale locale(s);
  reset("C01");
  Quiet quiet;
  World w{s};
  w.o.genDepth = s.range(0, 2, "gen-depth");
  w.o.nestDepth = s.chance(1, 4, "nesting") ? 1 : 0;
  w.o.throwingGens = s.chance(1, 3, "throwing-gens");
  w.o.rejectingGens = s.chance(1, 3, "rejecting-gens");
  drawSlots(s, w.o);
  auto b = drawBody(s, w.o);
  s.log(b->str());
  s.sig(hashStr(b->str()));
  auto p = drawParams(s, paramSize(s));
  int early = s.range(0, 2, "early");
  for (int i = 0; i < early; i++) w.disturb(b, p, nullptr);
  Property prop = makeProperty(b);
  CheckOpts co;
  if (s.chance(1, 2, "same-object")) co.property = &prop;
  co.id = "prop";
  auto first = runCheck(b, p, co);
  s.sig(hashStr(first.trace.back()));
  int rounds = s.range(1, 3, "rounds");
  for (int k = 0; k < rounds; k++) {
    int n = s.range(0, 4, "between");
    for (int i = 0; i < n; i++) w.disturb(b, p, s.chance(1, 2, "on-object") ? &prop : nullptr);
    CheckOpts c2 = co;
    c2.viaCheckProperty = s.chance(1, 2, "via");
    c2.property = s.chance(1, 2, "same-object") ? &prop : nullptr;
    Property moved = prop;
    if (s.chance(1, 4, "copied-object")) c2.property = &moved;
    switch (s.choose(5, "where")) {
    default: compare(s, first, runCheck(b, p, c2), *b, "again"); break;
    case 1: { // inside another test case
      s.fault("nested-run");
      int outerCases = 0;
      std::function<void()> outer = [&] {
        int before = *gen::inRange(0, 10);
        RC_TAG(before);
        RC_LOG("outer");
        auto r = runCheck(b, p, c2);
        compare(s, first, r, *b, "inside another test case");
        *gen::inRange(0, 10);
        if (outerCases++ == 1) RC_FAIL("outer");
      };
      TestParams q;
      q.seed = s.choose(1000, "seed");
      q.maxSuccess = 2;
      q.maxSize = 3;
      q.disableShrinking = true;
      Mute mute;
      testProperty(toProperty(outer), TestMetadata(), q, mute);
      break;
    }
    case 2: { // inside a generator callback
      s.fault("run-in-generator");
      auto g = gen::map(gen::inRange(0, 5), [&](int x) {
        compare(s, first, runCheck(b, p, c2), *b, "inside a generator callback");
        return x;
      });
      auto sh = g(rc::Random(1), 5);
      sh.value();
      auto shr = sh.shrinks();
      if (auto x = shr.next()) x->value();
      break;
    }
    case 3: { // inside gen::exec of a check
      s.fault("run-in-exec");
      auto g = gen::exec([&] {
        int x = *gen::inRange(0, 5);
        compare(s, first, runCheck(b, p, c2), *b, "inside gen::exec");
        return x + *gen::inRange(0, 5);
      });
      g(rc::Random(2), 3).value();
      break;
    }
    }
  }
}

// -- the entry points that take the seed from the configuration --------------------

const bool configured = [] { setenv("RC_PARAMS", "seed=8421 max_success=12 max_size=20 noprogress=1", 1); return true; }();

SCENARIO("configured", 1) {
  reset("C01");
  Quiet quiet;
  World w{s};
  w.o.genDepth = s.range(0, 1, "gen-depth");
  drawSlots(s, w.o);
  s.check(configured, "setup", [] { return std::string("no configuration"); });
  std::uint32_t salt = s.choose(1000, "salt");
  unsigned failMod = s.chance(1, 2, "fails") ? 3 + s.choose(30, "fail-mod") : 0, discardMod = s.chance(1, 2, "discards") ? 2 + s.choose(5, "discard-mod") : 0;
  std::vector<std::string> trace;
  auto body = [&](int a, const std::vector<short> &b) {
    auto c = *gen::arbitrary<std::string>();
    auto t = rc::toString(std::make_tuple(a, b, c));
    trace.push_back(t);
    RC_TAG(static_cast<int>(b.size()));
    auto h = mix(salt, hashStr(t));
    RC_PRE(!(discardMod && h % discardMod == 0));
    RC_ASSERT(!(failMod && h % failMod == 1));
  };
  TestMetadata m;
  m.id = "configured";
  m.description = "configured";
  auto entry = s.choose(5, "entry");
  auto run = [&] {
    trace.clear();
    std::string verdict;
    try {
      switch (entry) {
      case 0: verdict = rc::check(body) ? "true" : "false"; break;
      case 1: verdict = rc::check("configured", body) ? "true" : "false"; break;
      case 2: verdict = resultStr(checkProperty(toProperty(body))); break;
      case 3: verdict = resultStr(checkProperty(toProperty(body), m)); break;
      default: verdict = resultStr(checkProperty(toProperty(body), m, configuration().testParams)); break;
      }
    } catch (...) { verdict = "exception"; }
    auto r = trace;
    r.push_back(verdict);
    return r;
  };
  auto first = run();
  s.log(cat("entry ", entry, ": ", first.size() - 1, " cases, ", first.back()));
  s.sig(mix(entry, hashStr(cat(first.size(), first.back()))));
  s.nontrivial();
  int rounds = s.range(1, 3, "rounds");
  auto b = drawBody(s, w.o);
  auto p = drawParams(s, paramSize(s));
  for (int k = 0; k < rounds; k++) {
    int n = s.range(0, 3, "between");
    for (int i = 0; i < n; i++) w.disturb(b, p, nullptr);
    bool nested = s.chance(1, 4, "nested");
    auto outerEntry = entry;
    std::vector<std::string> next;
    if (nested) {
      s.fault("nested-run");
      rc::check("outer", [&](int) { entry = outerEntry; if (next.empty()) next = run(); });
    } else {
      if (s.chance(1, 2, "other-property")) { s.probe("other-check"); rc::check("another", [&](const std::string &x) { RC_ASSERT(x.size() < 3u); }); }
      next = run();
    }
    if (next.size() != first.size()) s.fail("run-differs", cat("entry ", entry, " under one configuration: ", first.size() - 1, " test cases, now ", next.size() - 1));
    for (std::size_t i = 0; i < first.size(); i++)
      if (next[i] != first[i]) s.fail("run-differs", cat("entry ", entry, " under one configuration: case ", i, " was ", quote(first[i]), " and now is ", quote(next[i])));
  }
}

// -- generators by themselves ---------------------------------------------------

std::vector<std::string> walk(const std::function<rc::Shrinkable<std::string>()> &make, std::uint64_t seed, int limit) {
  std::vector<std::string> r;
  auto out = [&](const std::function<std::string()> &f) {
    auto o = zoo::outcomeOf([&] { Val v; v.s = f(); return v; });
    r.push_back(o.str());
    return o.ok;
  };
  try {
    auto cur = make();
    for (int depth = 0; depth < 6; depth++) {
      out([&] { return cur.value(); });
      auto list = cur.shrinks();
      std::vector<rc::Shrinkable<std::string>> kids;
      for (int i = 0; i < limit; i++) {
        auto x = list.next();
        if (!x) break;
        current->step();
        out([&] { return x->value(); });
        kids.push_back(*x);
      }
      r.push_back(cat(kids.size()));
      if (kids.empty()) break;
      cur = kids[mix(seed, static_cast<std::uint64_t>(depth)) % kids.size()];
    }
  } catch (const rc::GenerationFailure &e) { r.push_back(e.what()); }
  catch (const std::exception &e) { r.push_back(e.what()); }
  catch (...) { r.push_back("other"); }
  return r;
}

template <typename T>
std::function<rc::Gen<std::string>()> stringed(std::function<rc::Gen<T>()> f) {
  return [f] { return gen::map(f(), [](const T &x) { return rc::toString(x); }); };
}
template <typename T>
std::function<rc::Gen<std::string>()> arb() { return stringed<T>([] { return gen::arbitrary<T>(); }); }

struct CModel { int n = 0; };
struct CSystem { int n = 0; };
struct CAdd : rc::state::Command<CModel, CSystem> {
  int by = *gen::inRange(1, 10);
  void checkPreconditions(const CModel &m) const override { RC_PRE(m.n < 30); }
  void apply(CModel &m) const override { m.n += by; }
  void run(const CModel &, CSystem &) const override {}
  void show(std::ostream &os) const override { os << "add" << by; }
};
struct CReset : rc::state::Command<CModel, CSystem> {
  void checkPreconditions(const CModel &m) const override { RC_PRE(m.n > 3); }
  void apply(CModel &m) const override { m.n = 0; }
  void run(const CModel &, CSystem &) const override {}
  void show(std::ostream &os) const override { os << "reset"; }
};

const std::vector<std::function<rc::Gen<std::string>()>> &catalog() {
  static const std::vector<std::function<rc::Gen<std::string>()>> c{
      arb<std::string>(), arb<std::vector<int>>(), arb<std::map<int, std::string>>(), arb<std::set<short>>(), arb<std::unordered_map<int, int>>(),
      arb<std::unordered_set<int>>(), arb<std::multimap<char, bool>>(), arb<std::list<std::pair<int, double>>>(), arb<std::deque<rc::Maybe<int>>>(), arb<std::array<unsigned char, 4>>(),
      arb<std::tuple<int, std::string, bool>>(), arb<float>(), arb<double>(), arb<std::int64_t>(), arb<std::uint64_t>(), arb<char>(), arb<bool>(),
      arb<std::vector<std::vector<std::uint8_t>>>(), arb<std::map<std::string, std::vector<int>>>(), arb<std::chrono::nanoseconds>() , arb<std::forward_list<int>>(),
      stringed<std::vector<int>>([] { return gen::unique<std::vector<int>>(gen::arbitrary<int>()); }),
      stringed<std::string>([] { return gen::string<std::string>(); }),
      [] { return gen::map(gen::makeShared<int>(gen::arbitrary<int>()), [](const std::shared_ptr<int> &p) { return cat(*p); }); },
      [] { return gen::map(gen::makeUnique<std::string>(gen::arbitrary<std::string>()), [](const std::unique_ptr<std::string> &p) { return *p; }); },
      [] { return gen::map(rc::state::gen::commands(CModel(), rc::state::gen::execOneOfWithArgs<CAdd, CReset>()), [](const rc::state::Commands<rc::state::Command<CModel, CSystem>> &x) { std::ostringstream os; for (auto &k : x) { k->show(os); os << " "; } return os.str(); }); },
  };
  return c;
}

SCENARIO("generator", 3) {
  reset("C01");
  Quiet quiet;
  World w{s};
  drawSlots(s, w.o);
  std::function<rc::Gen<std::string>()> make;
  int size;
  if (s.chance(1, 3, "catalog")) {
    auto i = s.choose(static_cast<std::uint32_t>(catalog().size()), "generator");
    make = catalog()[i];
    size = static_cast<int>(s.choose(20, "size"));
    s.sig(i);
    s.log(cat("catalog ", i, " size ", size));
  } else {
    zoo::Opts z;
    z.depth = s.range(1, 4, "depth");
    z.throwing = s.chance(1, 4, "throwing");
    auto spec = zoo::genSpec(s, z);
    size = zoo::genSize(s, spec);
    make = [spec] { return gen::map(zoo::build(spec), [](const Val &v) { return v.str(); }); };
    s.sig(hashStr(spec.str()));
    s.log(spec.str());
  }
  auto seed = s.choose(100000, "seed");
  auto b = drawBody(s, w.o);
  TestParams p;
  p.seed = 3;
  p.maxSuccess = 3;
  p.maxSize = 3;
  auto g = make();
  rc::Random random(seed);
  const int limit = 12;
  auto first = walk([&] { return g(random, size); }, seed, limit);
  for (auto &l : first) s.log(l);
  s.sig(hashStr(first[0]));
  int n = s.range(1, 4, "rounds");
  std::vector<rc::Shrinkable<std::string>> kept;
  for (int k = 0; k < n; k++) {
    int m = s.range(0, 3, "between");
    for (int i = 0; i < m; i++) w.disturb(b, p, nullptr);
    std::vector<std::string> again;
    switch (s.choose(6, "how")) {
    default: again = walk([&] { return g(random, size); }, seed, limit); break;
    case 1: { auto h = make(); again = walk([&] { return h(rc::Random(seed), size); }, seed, limit); break; }
    case 2: { auto h = g; again = walk([&] { return h(rc::Random(random), size); }, seed, limit); break; }
    case 3: {
      s.fault("use-in-check");
      Mute mute;
      TestParams q;
      q.maxSuccess = 1;
      testProperty(toProperty([&] { *gen::arbitrary<int>(); again = walk([&] { return g(random, size); }, seed, limit); }), TestMetadata(), q, mute);
      break;
    }
    case 4: { // another tree of the same generator is alive and half used
      s.fault("tree-kept");
      try {
        kept.push_back(g(rc::Random(s.chance(1, 2, "same") ? seed : seed + 1), size));
        auto list = kept.back().shrinks();
        if (auto x = list.next()) { kept.push_back(*x); x->value(); }
        again = walk([&] { return g(random, size); }, seed, limit);
        list.next();
      } catch (...) {
        again = walk([&] { return g(random, size); }, seed, limit);
      }
      break;
    }
    case 5: { // interrupted while generating
      faults.arm(s, 30);
      walk([&] { return g(random, size); }, seed, limit);
      faults.disarm();
      again = walk([&] { return g(random, size); }, seed, limit);
      break;
    }
    }
    for (std::size_t i = 0; i < std::max(first.size(), again.size()); i++)
      if (i >= first.size() || i >= again.size() || first[i] != again[i])
        s.fail("generator-differs", cat("entry ", i, " of the tree was ", i < first.size() ? quote(first[i]) : "missing", " and now is ", i < again.size() ? quote(again[i]) : "missing"));
  }
}

} // namespace
