// C08: simulated threads over copies of the same generators, shrink tree nodes
// and sequences of shrinks.
#include "zoo.h"
#include "simsched.h"
#include "rapidcheck/state.h"
#include <map>
using namespace sim;
using namespace zoo;
using rc::Gen;
using rc::Random;
using rc::Seq;
using rc::Shrinkable;

namespace {

std::uint32_t decide(std::uint32_t n, const char *label) { return current->choose(n, label); }
void report(const char *cls, const char *msg) { current->fail(cls, msg); }

std::uint64_t outcomeHash(const Outcome &o) { return o.ok ? mix(1, o.v.hash()) : mix(2, hashStr(o.what)); }

/// Where a node comes from.
struct Origin {
  int gen = 0, rnd = 0, size = 0;
  std::vector<int> path; // index among the shrinks, at each level
  bool operator<(const Origin &o) const {
    if (gen != o.gen) return gen < o.gen;
    if (rnd != o.rnd) return rnd < o.rnd;
    if (size != o.size) return size < o.size;
    return path < o.path;
  }
  std::string str() const {
    std::string r = cat("generator ", gen, " random ", rnd, " size ", size, " path");
    for (int p : path) r += cat(" ", p);
    return r;
  }
};

enum Op { CopyGen, AssignGen, MoveGen, DropGen, NameGen, Generate, GenerateTemp, ValueOf, ShrinksOf, Next, CopyNode, AssignNode, MoveNode, DropNode, CopySeq, DropSeq, Walk, Compare, Post, Take, Transform, Yield, BuildGen, CopyShared, NumOps };
const char *opName[] = {"copy-gen", "assign-gen", "move-gen", "drop-gen", "name-gen", "generate", "generate-temporary", "value", "shrinks", "next", "copy-node", "assign-node", "move-node", "drop-node", "copy-seq", "drop-seq", "walk", "compare", "post", "take", "transform", "yield", "build-gen", "copy-shared"};

struct Step { int op; std::uint32_t a, b, c; };

struct Node { Origin o; Shrinkable<Val> s; };
struct SeqHold { Origin o; int pos; Seq<Shrinkable<Val>> q; };
struct GenHold { int spec; Gen<Val> g; };

struct Seen { Origin o; int what; std::uint64_t h; }; // what: 0 value, 1 end of shrinks at path

struct Thread {
  std::vector<Step> program;
  std::vector<GenHold> gens;
  std::vector<Node> nodes;
  std::vector<SeqHold> seqs;
  std::vector<Seen> seen;
  std::uint64_t trace = 0;
};

struct World {
  std::vector<Spec> specs;
  std::vector<int> sizes;
  std::vector<Gen<Val>> shared;          // read by all threads
  std::vector<Shrinkable<Val>> roots;    // read by all threads
  std::vector<Origin> rootOrigins;
  std::vector<Random> randoms;
  sched::Mutex mutex;                    // protects the box
  std::vector<Node> box;
  std::vector<GenHold> genBox;
  std::vector<SeqHold> seqBox;
  std::vector<Thread> threads;
};

// Command sequences as values: the commands themselves are shared by all
// sequences they occur in.
struct Model { int n = 0; std::vector<int> done; };
struct Sut {};
using Cmd = rc::state::Command<Model, Sut>;
struct Push : Cmd {
  std::unique_ptr<int> x;
  explicit Push(int v) : x(new int(v)) {}
  void checkPreconditions(const Model &m) const override { RC_PRE(m.n + *x < 40); }
  void apply(Model &m) const override { m.n += *x; m.done.push_back(*x); }
  void run(const Model &, Sut &) const override {}
};
struct Pop : Cmd {
  std::string label;
  explicit Pop(int v) : label("the label of a pop command " + std::to_string(v)) {}
  void checkPreconditions(const Model &m) const override { RC_PRE(!m.done.empty()); }
  void apply(Model &m) const override { m.n -= m.done.back(); m.done.pop_back(); if (label.empty()) m.n++; }
  void run(const Model &, Sut &) const override {}
};
Gen<Val> buildCommands(const Spec &sp) {
  using P = std::shared_ptr<const Cmd>;
  auto make = [](int x) { return x < 12 ? P(std::make_shared<Push>(x)) : P(new Pop(x)); };
  Gen<P> cmd = rc::gen::map(rc::gen::inRange(0, 16), make);
  Model init;
  init.n = static_cast<int>(sp.seed % 20);
  auto cmds = rc::state::gen::commands(init, [cmd](const Model &m) { return m.done.size() > 3 ? rc::gen::scale(0.5, cmd) : cmd; });
  return rc::gen::map(cmds, [init](const rc::state::Commands<Cmd> &c) {
    Model m = init;
    Val v(1, 0);
    for (auto &x : c) { m = x->nextState(m); v.k.push_back(Val(2, m.n)); }
    return v;
  });
}
const int kCommands = 1000;
Gen<Val> buildAny(const Spec &sp) { return sp.kind == kCommands ? buildCommands(sp) : build(sp); }
std::string specStr(const Spec &sp) { return sp.kind == kCommands ? cat("commands(", sp.seed, ")") : sp.str(); }

const std::size_t kHold = 4;
template <typename V> bool room(const V &v) { return v.size() < kHold; }

void see(Thread &t, const Origin &o, int what, std::uint64_t h) {
  t.seen.push_back({o, what, h});
  t.trace = mix(t.trace, h);
}

int sizeOf(const World &w, int gen, std::uint32_t c) { return c % 3 ? w.sizes[gen] : w.sizes[gen] / 2; }

void runStep(World &w, Thread &t, const Step &st) {
  const std::size_t G = t.gens.size(), M = t.nodes.size(), Q = t.seqs.size();
  auto takeNode = [&](Node n) { if (t.nodes.size() < kHold) t.nodes.push_back(std::move(n)); else t.nodes[st.c % kHold] = std::move(n); };
  switch (st.op) {
  case CopyGen: if (G && room(t.gens)) { GenHold h = t.gens[st.a % G]; t.gens.push_back(std::move(h)); } break;
  case AssignGen: if (G) t.gens[st.b % G] = static_cast<const GenHold &>(t.gens[st.a % G]); break;
  case MoveGen: if (G > 1 && st.a % G != st.b % G) { t.gens[st.b % G] = std::move(t.gens[st.a % G]); t.gens[st.a % G] = t.gens[st.b % G]; } break;
  case DropGen: if (G) t.gens.erase(t.gens.begin() + st.a % G); break;
  case NameGen: if (G) { auto &h = t.gens[st.a % G]; h.g = h.g.as("a name that lives on the heap " + std::to_string(st.b % 3)); see(t, Origin(), 2, h.g.name().size() + h.g.as("x").name().size()); } break;
  case CopyShared: {
    if (w.shared.empty()) break;
    std::size_t i = st.a % w.shared.size();
    if (room(t.gens)) t.gens.push_back({static_cast<int>(i), w.shared[i]});
    else t.gens[st.b % G] = {static_cast<int>(i), w.shared[i]};
    break;
  }
  case BuildGen: { std::size_t i = st.a % w.specs.size(); if (room(t.gens)) t.gens.push_back({static_cast<int>(i), buildAny(w.specs[i])}); break; }
  case Generate: case GenerateTemp: {
    if (w.shared.empty() && (st.op == GenerateTemp || !G)) break;
    Origin o;
    o.rnd = static_cast<int>(st.b % w.randoms.size());
    if (st.op == Generate && G) {
      o.gen = t.gens[st.a % G].spec;
      o.size = sizeOf(w, o.gen, st.c);
      takeNode({o, t.gens[st.a % G].g(w.randoms[o.rnd], o.size)});
    } else {
      o.gen = static_cast<int>(st.a % w.shared.size());
      o.size = sizeOf(w, o.gen, st.c);
      takeNode({o, w.shared[o.gen](w.randoms[o.rnd], o.size)});
    }
    break;
  }
  case ValueOf: if (M) { auto &n = t.nodes[st.a % M]; see(t, n.o, 0, outcomeHash(outcomeOf([&] { return n.s.value(); }))); } break;
  case ShrinksOf: if (M && room(t.seqs)) { auto &n = t.nodes[st.a % M]; t.seqs.push_back({n.o, 0, n.s.shrinks()}); } break;
  case Next:
    if (Q) {
      auto &q = t.seqs[st.a % Q];
      rc::Maybe<Shrinkable<Val>> m = q.q.next();
      Origin o = q.o;
      o.path.push_back(q.pos++);
      if (m) takeNode({o, std::move(*m)}); else { see(t, o, 1, 0); t.seqs.erase(t.seqs.begin() + st.a % Q); }
    }
    break;
  case CopyNode: if (M && room(t.nodes)) { Node n = t.nodes[st.a % M]; t.nodes.push_back(std::move(n)); } break;
  case AssignNode: if (M) t.nodes[st.b % M] = static_cast<const Node &>(t.nodes[st.a % M]); break;
  case MoveNode: if (M > 1 && st.a % M != st.b % M) { t.nodes[st.b % M] = std::move(t.nodes[st.a % M]); t.nodes.erase(t.nodes.begin() + st.a % M); } break;
  case DropNode: if (M) t.nodes.erase(t.nodes.begin() + st.a % M); break;
  case CopySeq: if (Q && room(t.seqs)) { SeqHold h = t.seqs[st.a % Q]; t.seqs.push_back(std::move(h)); } break;
  case DropSeq: if (Q) t.seqs.erase(t.seqs.begin() + st.a % Q); break;
  case Walk: // a root that all threads hold, copied and walked
    if (!w.roots.empty()) {
      std::size_t i = st.a % w.roots.size();
      Shrinkable<Val> n = w.roots[i];
      Origin o = w.rootOrigins[i];
      for (std::uint32_t d = 0; d <= st.b % 4; d++) {
        see(t, o, 0, outcomeHash(outcomeOf([&] { return n.value(); })));
        auto q = n.shrinks();
        bool ended = false;
        int k = static_cast<int>(mix(st.c, d) % 3);
        for (int j = 0; j <= k; j++) {
          auto m = q.next();
          if (!m) { Origin e = o; e.path.push_back(j); see(t, e, 1, 0); ended = true; break; }
          if (j == k) n = std::move(*m);
        }
        if (ended) break;
        o.path.push_back(k);
      }
    }
    break;
  case Compare: if (M > 1) { auto &a = t.nodes[st.a % M], &b = t.nodes[st.b % M]; auto f = [](const Shrinkable<Val> &s) { return outcomeHash(outcomeOf([&] { return s.value(); })); }; see(t, a.o, 0, f(a.s)); see(t, b.o, 0, f(b.s)); } break;
  case Post: {
    w.mutex.lock();
    if (st.a % 3 == 0 && M && w.box.size() < 8) w.box.push_back(t.nodes[st.b % M]);
    else if (st.a % 3 == 1 && G && w.genBox.size() < 8) w.genBox.push_back(t.gens[st.b % G]);
    else if (Q && w.seqBox.size() < 8) { w.seqBox.push_back(std::move(t.seqs[st.b % Q])); t.seqs.erase(t.seqs.begin() + st.b % Q); }
    w.mutex.unlock();
    break;
  }
  case Take: {
    w.mutex.lock();
    if (st.a % 3 == 0 && !w.box.empty()) { Node n = w.box[st.b % w.box.size()]; if (st.c % 2) w.box.erase(w.box.begin() + st.b % w.box.size()); w.mutex.unlock(); takeNode(std::move(n)); break; }
    if (st.a % 3 == 1 && !w.genBox.empty() && room(t.gens)) { t.gens.push_back(w.genBox[st.b % w.genBox.size()]); if (st.c % 2) w.genBox.erase(w.genBox.begin() + st.b % w.genBox.size()); }
    else if (!w.seqBox.empty() && room(t.seqs)) { t.seqs.push_back(w.seqBox[st.b % w.seqBox.size()]); if (st.c % 2) w.seqBox.erase(w.seqBox.begin() + st.b % w.seqBox.size()); }
    w.mutex.unlock();
    break;
  }
  case Transform: // the library's own operations over a node other threads hold too
    if (M) {
      auto &n = t.nodes[st.a % M];
      Outcome o;
      switch (st.b % 4) {
      case 0: o = outcomeOf([&] { return rc::shrinkable::map(n.s, [](Val &&v) { return std::move(v); }).value(); }); break;
      case 1: o = outcomeOf([&] { auto p = rc::shrinkable::pair(n.s, n.s); auto v = p.value(); return v.second; }); break;
      case 2: o = outcomeOf([&] { auto f = rc::shrinkable::filter(n.s, [](const Val &) { return true; }); return f ? f->value() : n.s.value(); }); break;
      default: o = outcomeOf([&] { return rc::shrinkable::mapShrinks(n.s, [](Seq<Shrinkable<Val>> &&q) { return rc::seq::take(2, std::move(q)); }).value(); }); break;
      }
      see(t, n.o, 0, outcomeHash(o));
    }
    break;
  default: break;
  }
}

void threadBody(void *arg, int id) {
  World &w = *static_cast<World *>(arg);
  Thread &t = w.threads[id];
  for (auto &st : t.program) runStep(w, t, st);
  if (t.program.size() % 2) { t.seqs.clear(); t.nodes.clear(); t.gens.clear(); } // otherwise the main thread destroys them
}

std::uint64_t alone(std::map<Origin, Shrinkable<Val>> &known, World &w, std::vector<Gen<Val>> &fresh, const Origin &o, int what) {
  Origin r = o;
  r.path.clear();
  std::size_t upto = o.path.size() - (what == 1 ? 1 : 0);
  auto it = known.find(r);
  if (it == known.end()) it = known.insert({r, fresh[o.gen](w.randoms[o.rnd], o.size)}).first;
  Shrinkable<Val> n = it->second;
  for (std::size_t i = 0; i < o.path.size(); i++) {
    auto q = n.shrinks();
    for (int j = 0; j <= o.path[i]; j++) {
      auto m = q.next();
      if (!m) return i >= upto && j == o.path[i] ? 0 : 0xdead;
      if (j == o.path[i]) n = std::move(*m);
    }
  }
  if (what == 1) return 0xdead;
  return outcomeHash(outcomeOf([&] { return n.value(); }));
}

void drawPrograms(Sim &s, World &w, int n, bool cold) {
  for (int i = 0; i < n; i++) {
    Thread t;
    int len = s.range(1, 14, "steps");
    int first = cold ? 1 : 0;
    if (cold) t.program.push_back({BuildGen, s.choose(100), 0, 0});
    for (int k = first; k < len; k++) {
      std::uint32_t op = s.choose(NumOps, "op");
      if (cold && (op == CopyShared || op == Walk || op == GenerateTemp)) op = BuildGen;
      t.program.push_back({static_cast<int>(op), s.choose(1000), s.choose(1000), s.choose(1000)});
      s.sig(op);
    }
    w.threads.push_back(std::move(t));
  }
}

void simulate(Sim &s, bool cold) {
  s.setStepBudget(20000000);
  const long canaries = zoo::liveCanaries;
  {
    World w;
    Opts o;
    o.depth = s.range(0, 3, "depth");
    o.exec = false;
    o.throwing = s.chance(1, 3, "throwing");
    o.heavy = s.chance(1, 3, "heavy");
    o.maxCount = 3;
    int ns = s.range(1, 3, "generators");
    for (int i = 0; i < ns; i++) {
      if (s.chance(1, 8, "commands")) { Spec c; c.kind = kCommands; c.seed = s.choose(100, "seed"); w.specs.push_back(c); }
      else w.specs.push_back(genSpec(s, o));
      w.sizes.push_back(w.specs.back().kind == kCommands ? s.range(0, 12, "size") : genSize(s, w.specs.back()));
    }
    for (int i = 0; i < 3; i++) w.randoms.push_back(Random(static_cast<std::uint64_t>(s.choose(1000, "random"))));
    int n = s.range(2, 4, "threads");
    if (!cold) {
      for (auto &sp : w.specs) w.shared.push_back(buildAny(sp));
      int nr = s.range(0, 2, "roots");
      for (int i = 0; i < nr; i++) {
        Origin og;
        og.gen = static_cast<int>(s.choose(ns));
        og.rnd = static_cast<int>(s.choose(3));
        og.size = sizeOf(w, og.gen, s.choose(6));
        w.roots.push_back(w.shared[og.gen](w.randoms[og.rnd], og.size));
        w.rootOrigins.push_back(og);
      }
    } else {
      
    }
    for (auto &sp : w.specs) s.log(specStr(sp));
    drawPrograms(s, w, n, cold);
    for (auto &t : w.threads) { std::string p; for (auto &x : t.program) p += cat(opName[x.op], "(", x.a, ",", x.b, ",", x.c, ") "); s.log(p); }
    if (!cold) {
      // Every thread starts with copies of its own of everything.
      for (auto &t : w.threads) {
        if (s.chance(2, 3, "own-gens")) for (std::size_t i = 0; i < w.shared.size(); i++) t.gens.push_back({static_cast<int>(i), w.shared[i]});
        if (s.chance(2, 3, "own-nodes")) for (std::size_t i = 0; i < w.roots.size(); i++) t.nodes.push_back({w.rootOrigins[i], w.roots[i]});
        if (!w.roots.empty() && s.chance(1, 3, "own-seq")) t.seqs.push_back({w.rootOrigins[0], 0, w.roots[0].shrinks()});
      }
      if (!w.roots.empty() && s.chance(1, 3, "copied-seq")) { // copies of one sequence, already begun
        SeqHold h{w.rootOrigins[0], 0, w.roots[0].shrinks()};
        if (h.q.next()) { h.pos = 1; for (auto &t : w.threads) if (room(t.seqs)) t.seqs.push_back(h); }
      }
      if (s.chance(1, 2, "main-lets-go")) { // the threads hold the only handles
        bool needed = false;
        for (auto &t : w.threads) for (auto &x : t.program) if (x.op == Walk || x.op == CopyShared || x.op == Generate || x.op == GenerateTemp) needed = true;
        if (!needed) { w.roots.clear(); w.rootOrigins.clear(); w.shared.clear(); }
        else { w.roots.clear(); w.rootOrigins.clear(); }
      }
    } else {
      for (std::size_t i = 0; i < 1; i++) w.rootOrigins.clear();
    }
    sched::Options so;
    so.mode = static_cast<int>(s.choose(5, "preemption"));
    so.decide = decide;
    so.report = report;
    sched::run(so, n, threadBody, &w);
    auto st = sched::stats();
    s.log(cat("accesses ", st.accesses, " atomics ", st.atomics, " switches ", st.switches));
    s.sig(st.switches);
    s.sig(st.atomics);
    s.count("sched.accesses", st.accesses);
    s.count("sched.atomics", st.atomics);
    s.count("sched.switches", st.switches);
    if (st.switches > static_cast<std::uint64_t>(n)) { s.fault("preemption"); s.nontrivial(); }
    // Every thread saw what it would have seen alone.
    std::vector<Gen<Val>> fresh;
    for (auto &sp : w.specs) fresh.push_back(buildAny(sp));
    std::map<Origin, Shrinkable<Val>> known;
    int id = 0;
    for (auto &t : w.threads) {
      for (auto &x : t.seen) {
        s.step();
        if (x.what == 2) { s.check(x.h == sizeof "a name that lives on the heap 0", "wrong-value", [&] { return cat("the name of a generator in thread ", id, " is not the one given"); }); continue; }
        auto h = alone(known, w, fresh, x.o, x.what);
        s.check(h == x.h, "wrong-value", [&] { return cat("thread ", id, " saw another ", x.what ? "end of shrinks" : "value", " than it would alone: ", x.o.str(), " of ", specStr(w.specs[x.o.gen])); });
        s.probe(x.what ? "end-of-shrinks" : x.o.path.empty() ? "root-value" : "shrink-value");
      }
      s.log(cat("thread ", id++, " saw ", t.seen.size(), " ", t.trace));
    }
    while (!w.threads.empty()) w.threads.erase(w.threads.begin() + s.choose(static_cast<std::uint32_t>(w.threads.size()), "destroy"));
  }
  s.check(zoo::liveCanaries == canaries, "leak", [&] { return cat(zoo::liveCanaries - canaries, " callback states are still alive after every handle was destroyed"); });
  sched::endRun();
}

SCENARIO("shared", 6) { simulate(s, false); }
SCENARIO("cold-statics", 1) { simulate(s, true); }

} // namespace
