// C11: shrink tree nodes, partially consumed shrink lists and generators under
// arbitrary lifetimes, orders of use and callback faults.
#include "zoo.h"
using namespace sim;
using namespace zoo;
using rc::Gen;
using rc::Seq;
using rc::Random;
using rc::Shrinkable;

namespace {

using Path = std::vector<std::size_t>;
std::string pstr(const Path &p) {
  std::string r = "/";
  for (auto i : p) r += std::to_string(i) + "/";
  return r;
}

// Reference: every query regenerates from scratch and walks, nothing is kept.
struct Reference {
  Spec spec;
  Random random;
  int size;
  std::map<Path, Outcome> values;
  std::map<Path, bool> exists;
  static const std::size_t kMax = 60;
  rc::Maybe<Shrinkable<Val>> walk(const Path &p) {
    auto g = build(spec);
    Shrinkable<Val> cur = g(random, size);
    for (auto i : p) {
      auto seq = cur.shrinks();
      for (std::size_t j = 0; j < i; j++) if (!seq.next()) return rc::Nothing;
      auto n = seq.next();
      if (!n) return rc::Nothing;
      cur = *n;
    }
    return cur;
  }
  bool has(const Path &p) {
    auto it = exists.find(p);
    if (it != exists.end()) return it->second;
    bool e = static_cast<bool>(walk(p));
    exists[p] = e;
    return e;
  }
  Outcome value(const Path &p) {
    auto it = values.find(p);
    if (it != values.end()) return it->second;
    Outcome o = outcomeOf([&]() -> Val { return walk(p)->value(); });
    values[p] = o;
    return o;
  }
};

struct Node { rc::Maybe<Shrinkable<Val>> h; Path path; };
struct List { rc::Maybe<Seq<Shrinkable<Val>>> h; Path path; std::size_t pos = 0; bool ended = false; bool dead = false; };

SCENARIO("tree-lifetimes", 4) {
  faults.disarm();
  Reference ref;
  Opts o;
  o.depth = s.range(1, 4, "depth");
  o.throwing = s.chance(1, 3, "throwing");
  ref.spec = genSpec(s, o);
  ref.size = genSize(s, ref.spec);
  ref.random = Random(s.choose(100000, "seed"));
  bool transient = s.chance(1, 2, "transient");
  // A generator that is just reporting a failure cannot cope with a second one.
  const bool calm = !canReject(ref.spec) && !canThrow(ref.spec);
  s.log(cat("spec ", ref.spec.str(), " size ", ref.size));
  s.sig(hashStr(ref.spec.str()));

  std::vector<Gen<Val>> gens;
  std::vector<Node> nodes;
  std::vector<List> lists;
  {
    Gen<Val> g = build(ref.spec);
    nodes.push_back({g(ref.random, ref.size), {}});
    if (s.chance(1, 2, "keep-gen")) gens.push_back(g);
    if (s.chance(1, 4, "named")) gens.push_back(g.as("name"));
  }

  auto checkValue = [&](const Node &n, const char *when) {
    Outcome want = ref.value(n.path);
    Outcome got = outcomeOf([&]() -> Val { return n.h->value(); });
    s.log(cat(when, " ", pstr(n.path), " = ", got.str().substr(0, 60)));
    if (!(got == want)) s.fail("value-differs", cat(when, ": node ", pstr(n.path), " of ", ref.spec.str(), " size ", ref.size, " yields ", got.str(), ", regenerated from scratch ", want.str()));
    s.step();
  };
  auto pickNode = [&]() -> Node & { return nodes[s.choose(static_cast<std::uint32_t>(nodes.size()), "node")]; };

  int nOps = s.range(5, 60, "ops");
  for (int op = 0; op < nOps; op++) {
    std::uint32_t k = s.choose(15, "op");
    s.sig(k);
    if (nodes.empty()) {
      if (!gens.empty()) { nodes.push_back({gens.back()(ref.random, ref.size), {}}); s.log("regenerate"); }
      else if (lists.empty()) break;
    }
    switch (k) {
    case 0: case 1: if (!nodes.empty()) checkValue(pickNode(), "value"); break;
    case 2: case 3: // list the shrinks of a node
      if (!nodes.empty() && lists.size() < 6) {
        Node &n = pickNode();
        List l;
        l.h = n.h->shrinks();
        l.path = n.path;
        lists.push_back(std::move(l));
        s.log("shrinks " + pstr(n.path));
      }
      break;
    case 4: case 5: case 6: // advance a list
      if (!lists.empty()) {
        List &l = lists[s.choose(static_cast<std::uint32_t>(lists.size()), "list")];
        if (l.dead) break;
        int n = s.range(1, 3, "n");
        while (n-- > 0 && l.pos < Reference::kMax) {
          auto x = l.h->next();
          Path p = l.path;
          p.push_back(l.pos);
          bool want = !l.ended && ref.has(p);
          s.log(cat("next ", pstr(p), " ", x ? "yes" : "end"));
          if (static_cast<bool>(x) != want) s.fail("shrinks-differ", cat("shrink ", pstr(p), " of ", ref.spec.str(), " size ", ref.size, want ? " is missing" : " does not exist in a regenerated tree"));
          if (!x) { l.ended = true; break; }
          l.pos++;
          Node nn{*x, p};
          if (s.chance(1, 2, "check")) checkValue(nn, "fresh");
          if (nodes.size() < 8 && s.chance(1, 2, "keep")) nodes.push_back(nn);
          else if (!nodes.empty() && s.chance(1, 3, "replace")) { pickNode() = std::move(nn); s.nontrivial(); }
          s.step();
        }
      }
      break;
    case 7: // drop something
      switch (s.choose(3, "drop")) {
      case 0: if (!gens.empty()) { gens.erase(gens.begin() + s.choose(static_cast<std::uint32_t>(gens.size()))); s.nontrivial(); s.log("drop gen"); } break;
      case 1: if (nodes.size() > 1) { auto i = s.choose(static_cast<std::uint32_t>(nodes.size())); s.log("drop " + pstr(nodes[i].path)); nodes.erase(nodes.begin() + i); s.nontrivial(); } break;
      default: if (!lists.empty()) { lists.erase(lists.begin() + s.choose(static_cast<std::uint32_t>(lists.size()))); s.nontrivial(); s.log("drop list"); } break;
      }
      break;
    case 8: // copy / assign / move nodes
      if (nodes.size() >= 2) {
        auto i = s.choose(static_cast<std::uint32_t>(nodes.size()), "i"), j = s.choose(static_cast<std::uint32_t>(nodes.size()), "j");
        switch (s.choose(3, "how")) {
        case 0: *nodes[i].h = *nodes[j].h; nodes[i].path = nodes[j].path; break;
        case 1: if (i != j) { std::swap(*nodes[i].h, *nodes[j].h); std::swap(nodes[i].path, nodes[j].path); } break;
        default: if (i != j) { *nodes[i].h = std::move(*nodes[j].h); nodes[i].path = nodes[j].path; nodes.erase(nodes.begin() + j); } break;
        }
        s.log(cat("node assign ", i, " ", j));
      }
      break;
    case 9: // copy / assign / move lists
      if (!lists.empty()) {
        auto i = s.choose(static_cast<std::uint32_t>(lists.size()), "i"), j = s.choose(static_cast<std::uint32_t>(lists.size()), "j");
        switch (s.choose(3, "how")) {
        case 0: if (lists.size() < 6) { List c = lists[i]; lists.push_back(c); } break;
        case 1: lists[i] = lists[j]; break;
        default: if (i != j) { lists[i] = std::move(lists[j]); lists.erase(lists.begin() + j); } break;
        }
        s.nontrivial();
        s.log(cat("list assign ", i, " ", j));
      }
      break;
    case 10: { // regenerate beside everything else, from a live generator or a rebuilt one
      if (nodes.size() < 8) {
        Gen<Val> g = gens.empty() || s.chance(1, 3) ? build(ref.spec) : gens[s.choose(static_cast<std::uint32_t>(gens.size()))];
        nodes.push_back({g(ref.random, ref.size), {}});
        s.log("another root");
      }
      break;
    }
    case 11: { // unrelated generation in between
      Gen<Val> g = gens.empty() ? build(ref.spec) : gens.back();
      auto sh = g(Random(s.choose(1000, "other-seed")), s.choose(6, "other-size"));
      outcomeOf([&]() -> Val { return sh.value(); });
      auto l = sh.shrinks();
      int n = s.choose(3);
      while (n-- > 0 && l.next()) s.step();
      s.log("unrelated");
      break;
    }
    case 12: // a transient fault while computing a value: only that computation is affected
      if (transient && !nodes.empty()) {
        Node &n = pickNode();
        Outcome want = ref.value(n.path);
        const std::uint32_t starve = calm && s.chance(1, 2, "no-memory") ? 1 + s.choose(s.chance(1, 3, "late") ? 60 : 8, "fault.memory") : 0;
        if (!starve) faults.arm(s, 20);
        auto before = faults.fired + memory.failed;
        Outcome got = outcomeOf([&]() -> Val { OutOfMemory oom(starve); return n.h->value(); });
        faults.disarm();
        if (faults.fired + memory.failed == before && !(got == want)) s.fail("value-differs", cat("node ", pstr(n.path), " of ", ref.spec.str(), " yields ", got.str(), " then ", want.str()));
        if (faults.fired + memory.failed != before) { s.probe("fault-in-value"); checkValue(n, "after fault"); }
      }
      break;
    case 14: { // memory runs out while generating or listing shrinks: nobody else is affected
      if (!transient || !calm || nodes.empty()) break;
      const std::uint32_t starve = 1 + s.choose(s.chance(1, 3, "late") ? 100 : 8, "fault.memory");
      const auto failed = memory.failed;
      rc::Maybe<Seq<Shrinkable<Val>>> q;
      rc::Maybe<Shrinkable<Val>> root;
      Node &n = pickNode();
      Gen<Val> g = gens.empty() ? build(ref.spec) : gens.back();
      bool list = s.chance(1, 2, "list");
      try {
        OutOfMemory oom(starve);
        if (list) q = n.h->shrinks();
        else root = g(ref.random, ref.size);
      } catch (const std::bad_alloc &) {
        s.check(memory.failed != failed, "spurious-throw", [] { return std::string("memory did not run out"); });
      }
      if (memory.failed != failed) {
        s.probe("no-memory");
        if (q) q->next();
        if (root) { outcomeOf([&]() -> Val { return root->value(); }); root->shrinks().next(); }
        checkValue(n, "after no memory");
      } else if (root && nodes.size() < 8) nodes.push_back({*root, {}});
      break;
    }
    case 13: // a transient fault while listing shrinks
      if (transient && !lists.empty()) {
        List &l = lists[s.choose(static_cast<std::uint32_t>(lists.size()), "list")];
        if (l.dead || l.pos >= Reference::kMax) break;
        List copy = l;
        const std::uint32_t starve = calm && s.chance(1, 2, "no-memory") ? 1 + s.choose(s.chance(1, 3, "late") ? 60 : 8, "fault.memory") : 0;
        if (!starve) faults.arm(s, 12);
        auto before = faults.fired + memory.failed;
        auto x = [&] { OutOfMemory oom(starve); return l.h->next(); }();
        faults.disarm();
        if (faults.fired + memory.failed != before) {
          // may have ended early or skipped; no longer comparable, but must stay usable
          s.probe("fault-in-shrinks");
          l.dead = true;
          int n = s.choose(4);
          while (n-- > 0 && l.h->next()) s.step();
          l = copy; // the copy taken before continues as if nothing happened
        } else if (x) l.pos++;
        else l.ended = true;
      }
      break;
    }
  }
  // everything that is still alive still works
  gens.clear();
  while (!nodes.empty()) {
    auto i = s.choose(static_cast<std::uint32_t>(nodes.size()), "last");
    checkValue(nodes[i], "final");
    auto l = nodes[i].h->shrinks();
    Path p = nodes[i].path;
    p.push_back(0);
    auto x = l.next();
    if (static_cast<bool>(x) != ref.has(p)) s.fail("shrinks-differ", cat("final: shrink ", pstr(p), " of ", ref.spec.str()));
    nodes.erase(nodes.begin() + i);
    if (x) checkValue({*x, p}, "final shrink");
  }
}

} // namespace
