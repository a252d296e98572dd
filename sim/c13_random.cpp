// C13: random generator states under fork / save / crash-restart / restore.
#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include "rapidcheck.h"
#include "rapidcheck/detail/BitStream.h"
#include "rapidcheck/detail/Serialization.h"
#include "sim.h"
using namespace sim;
using rc::Random;

namespace {

// What a state must be: a pure function of this history.
struct Hist {
  Random::Key key{{0, 0, 0, 0}};
  std::string path; // splits: '0' = the generator split() was called on, '1' = returned
  std::uint64_t draws = 0;
  bool operator==(const Hist &o) const { return key == o.key && path == o.path && draws == o.draws; }
  std::string str() const { return cat("key", key[0] & 0xffff, ":", path.size() > 80 ? path.substr(0, 80) + "..." : path, ":", draws); }
};

Random rebuild(const Hist &h) {
  Random r(h.key);
  for (char c : h.path) {
    Random right = r.split();
    if (c == '1') r = right;
  }
  for (std::uint64_t i = 0; i < h.draws; i++) r.next();
  return r;
}

struct Slot {
  Hist h;
  Random r;
};

std::string show(const Random &r) {
  std::ostringstream os;
  os << r;
  return os.str();
}

std::vector<std::uint64_t> block(Random r, int n = 4) {
  std::vector<std::uint64_t> v;
  for (int i = 0; i < n; i++) v.push_back(r.next());
  return v;
}

bool prefixRelated(const std::string &a, const std::string &b) {
  auto n = std::min(a.size(), b.size());
  return a.compare(0, n, b, 0, n) == 0;
}

Hist newSeed(Sim &s, Random &out) {
  Hist h;
  switch (s.choose(5, "seedkind")) {
  case 0: { std::uint64_t x = s.choose(4, "seed"); h.key = {{x, x, x, x}}; out = Random(x); break; }
  case 1: { std::uint64_t x = s.bits64("seed"); h.key = {{x, x, x, x}}; out = Random(x); break; }
  case 2: out = Random(); break;
  case 3: { std::uint64_t x = ~std::uint64_t(0) << s.choose(64, "seedshift"); h.key = {{x, x, x, x}}; out = Random(x); break; }
  default:
    for (auto &k : h.key) k = s.chance(1, 2) ? s.bits64("key") : s.choose(3, "key");
    out = Random(h.key);
  }
  return h;
}

template <typename Container>
std::string roundTrip(Sim &s, const Slot &src, Random &target, bool &threw) {
  // The writer: the stored bytes survive, everything else is lost.
  Container bytes;
  rc::serialize(src.r, std::back_inserter(bytes));
  threw = false;
  std::size_t full = bytes.size();
  if (s.chance(1, 6, "torn")) {
    std::size_t keep = s.choose(static_cast<std::uint32_t>(full), "torn.at");
    Container cut(bytes.begin(), std::next(bytes.begin(), keep));
    s.fault("torn-save");
    try {
      rc::deserialize(cut.begin(), cut.end(), target);
    } catch (const rc::detail::SerializationException &) {
      threw = true;
      return "";
    } catch (...) {
      return "a truncated saved state was rejected with another exception than SerializationException";
    }
    return cat("a saved state truncated to ", keep, " of ", full, " bytes was accepted");
  }
  std::size_t tail = s.choose(4, "tail");
  for (std::size_t i = 0; i < tail; i++) bytes.push_back(static_cast<typename Container::value_type>(0xF0 + i));
  auto it = rc::deserialize(bytes.begin(), bytes.end(), target);
  auto used = static_cast<std::size_t>(std::distance(bytes.begin(), it));
  if (used != full) return cat("reading back consumed ", used, " bytes, written were ", full);
  s.fault("crash-restore");
  return "";
}

void checkState(Sim &s, const Slot &x, const char *when) {
  Random ref = rebuild(x.h);
  if (!(ref == x.r)) s.fail("state-differs", cat(when, ": state of history ", x.h.str(), " is not equal to a generator that went through that history\n  got ", show(x.r), "\n  ref ", show(ref)));
  if (ref != x.r) s.fail("eq-inconsistent", cat(when, ": == and != agree"));
  if (ref < x.r || x.r < ref) s.fail("order-inconsistent", cat(when, ": equal states are ordered"));
  if (block(ref, 9) != block(x.r, 9)) s.fail("stream-differs", cat(when, ": state of history ", x.h.str(), " draws other numbers than that history"));
  if (std::hash<Random>()(ref) != std::hash<Random>()(x.r)) s.fail("hash-differs", when);
  if (x.h.draws == 0) {
    Random a = ref, b = x.r;
    Random a2 = a.split(), b2 = b.split();
    if (!(a == b) || !(a2 == b2) || block(a) != block(b) || block(a2) != block(b2)) s.fail("split-differs", cat(when, ": state of history ", x.h.str(), " splits differently"));
    if (a == a2 || a == x.r || a2 == x.r) s.fail("split-not-distinct", cat(when, ": split results of ", x.h.str(), " are not distinct"));
    if (block(a) == block(a2)) s.fail("split-same-stream", cat(when, ": both results of splitting ", x.h.str(), " yield the same numbers"));
  }
}

SCENARIO("random-history", 4) {
  std::vector<Slot> pool;
  const int maxSlots = 7;
  { Slot x; x.h = newSeed(s, x.r); pool.push_back(x); }
  int nOps = s.range(3, 40, "ops");
  // swarm: which operations this run favours
  bool deepSplit = s.chance(1, 3, "deep");
  for (int op = 0; op < nOps; op++) {
    s.step();
    std::size_t i = s.choose(static_cast<std::uint32_t>(pool.size()), "slot");
    std::uint32_t k = s.choose(8, "op");
    s.sig(k);
    switch (k) {
    case 0: { // draw
      int n = s.range(1, 9, "n");
      for (int j = 0; j < n; j++) {
        Hist h = pool[i].h;
        auto got = pool[i].r.next();
        auto want = rebuild(h).next();
        if (got != want) s.fail("draw-differs", cat("draw ", h.draws, " of ", h.str(), " gave ", got, ", the same history gives ", want));
        pool[i].h.draws++;
        s.log(cat("draw slot", i, " = ", got));
      }
      break;
    }
    case 1: case 2: { // split (only states that have not been drawn from)
      if (pool[i].h.draws != 0) break;
      int n = deepSplit ? s.range(1, 70, "splits") : 1;
      for (int j = 0; j < n; j++) {
        Slot right;
        right.r = pool[i].r.split();
        right.h = pool[i].h;
        right.h.path += '1';
        pool[i].h.path += '0';
        bool last = j + 1 == n;
        bool takeRight = s.chance(1, 2, "side");
        if (last && static_cast<int>(pool.size()) < maxSlots) pool.push_back(right);
        else if (takeRight) pool[i] = right;
      }
      if (pool[i].h.path.size() > 64) s.probe("split-depth>64");
      if (pool[i].h.path.size() > 128) s.probe("split-depth>128");
      s.log(cat("split slot", i, " -> ", pool[i].h.str()));
      break;
    }
    case 3: { // fork
      Slot c(pool[i]);
      if (static_cast<int>(pool.size()) < maxSlots) pool.push_back(c);
      else pool[s.choose(static_cast<std::uint32_t>(pool.size()), "dst")] = c;
      s.log(cat("fork slot", i));
      s.nontrivial();
      break;
    }
    case 4: case 5: { // save, crash, restore: into a fresh object or over an existing one
      Slot c;
      bool used = s.chance(1, 2, "used-target");
      if (used) { std::size_t j = s.choose(static_cast<std::uint32_t>(pool.size()), "dst"); c.r = pool[j].r; }
      bool threw = false;
      std::string e;
      switch (s.choose(3, "medium")) {
      case 0: e = roundTrip<std::vector<std::uint8_t>>(s, pool[i], c.r, threw); break;
      case 1: e = roundTrip<std::list<char>>(s, pool[i], c.r, threw); break;
      default: e = roundTrip<std::deque<std::uint8_t>>(s, pool[i], c.r, threw); break;
      }
      if (!e.empty()) s.fail("save-restore", e + " (" + pool[i].h.str() + ")");
      if (threw) { s.probe("torn-rejected"); break; }
      c.h = pool[i].h;
      checkState(s, c, used ? "restored over another state" : "restored");
      s.log(cat("restore slot", i, used ? " used" : " fresh"));
      if (static_cast<int>(pool.size()) < maxSlots) pool.push_back(c);
      else pool[s.choose(static_cast<std::uint32_t>(pool.size()), "dst2")] = c;
      break;
    }
    case 6: { // assign / swap / drop
      std::size_t j = s.choose(static_cast<std::uint32_t>(pool.size()), "dst");
      switch (s.choose(3, "how")) {
      case 0: pool[j].r = pool[i].r; pool[j].h = pool[i].h; break;
      case 1: std::swap(pool[i].r, pool[j].r); std::swap(pool[i].h, pool[j].h); break;
      default: if (pool.size() > 1) pool.erase(pool.begin() + i); break;
      }
      break;
    }
    case 7: {
      Slot x; x.h = newSeed(s, x.r);
      if (static_cast<int>(pool.size()) < maxSlots) pool.push_back(x);
      break;
    }
    }
    // Invariant after every step: nobody else moved.
    std::size_t w = s.choose(static_cast<std::uint32_t>(pool.size()), "watch");
    checkState(s, pool[w], "watched");
  }
  for (auto &x : pool) checkState(s, x, "final");
  for (auto &a : pool)
    for (auto &b : pool) {
      bool same = a.h == b.h;
      if ((a.r == b.r) != same || (a.r != b.r) == same) s.fail("equality", cat("== of ", a.h.str(), " and ", b.h.str(), " is ", a.r == b.r));
      bool lt = a.r < b.r, gt = b.r < a.r;
      if (same ? (lt || gt) : (lt == gt)) s.fail("order", cat("< of ", a.h.str(), " and ", b.h.str(), ": ", lt, gt));
      if (!(a.h.key == b.h.key) || !prefixRelated(a.h.path, b.h.path)) {
        Hist x = a.h, y = b.h; x.draws = y.draws = 0;
        auto p = block(rebuild(x)), q = block(rebuild(y));
        int eq = 0;
        for (int j = 0; j < 4; j++) eq += p[j] == q[j];
        if (eq) s.fail("streams-collide", cat(x.str(), " and ", y.str(), " share ", eq, " of their first 4 numbers"));
      }
      for (auto &c : pool)
        if (a.r < b.r && b.r < c.r && !(a.r < c.r)) s.fail("order", "< is not transitive");
    }
}

// Every leaf of a split tree has its own stream, at any depth.
SCENARIO("split-tree", 2) {
  Random root;
  Hist h = newSeed(s, root);
  // a long common spine, then leaves at depths around the 64/128 boundaries
  int spine = s.pick(std::vector<int>{0, 1, 5, 60, 61, 62, 63, 64, 65, 66, 124, 126, 127, 128, 129}, "spine");
  std::uint64_t bits = s.bits64("spinebits");
  for (int i = 0; i < spine; i++) h.path += ((bits >> (i % 64)) & 1) ? '1' : '0';
  Random r = rebuild(h);
  std::vector<std::pair<std::string, Random>> leaves{{h.path, r}};
  int n = s.range(1, 24, "splits");
  for (int i = 0; i < n; i++) {
    std::size_t j = s.choose(static_cast<std::uint32_t>(leaves.size()), "leaf");
    Random right = leaves[j].second.split();
    leaves.push_back({leaves[j].first + '1', right});
    leaves[j].first += '0';
    s.step();
  }
  s.nontrivial();
  s.sig(spine); s.sig(n);
  if (spine + n > 64) s.probe("split-depth>64");
  std::map<std::uint64_t, std::string> seen;
  int k = s.range(4, 24, "draws");
  for (auto &l : leaves) {
    s.sig(l.first.c_str() + std::min<std::size_t>(l.first.size(), spine));
    for (int i = 0; i < k; i++) {
      auto x = l.second.next();
      auto ins = seen.emplace(x, l.first);
      if (!ins.second) s.fail("streams-collide", cat("number ", x, " drawn by ", l.first, " (draw ", i, ") was also drawn by ", ins.first->second));
      s.step();
    }
  }
  s.log(cat("leaves ", leaves.size(), " numbers ", seen.size()));
}

// Very long histories: states saved near the end of the counter's range.
SCENARIO("long-history", 1) {
  Random r;
  Hist h = newSeed(s, r);
  int splits = s.choose(3, "splits");
  for (int i = 0; i < splits; i++) { if (s.chance(1, 2)) { r = r.split(); } else r.split(); }
  // Fast-forward: a saved state whose counter field is written as if that many numbers had been drawn.
  std::vector<std::uint8_t> bytes;
  rc::serialize(r, std::back_inserter(bytes));
  // layout: key (32 bytes), bits (compact), counter (compact, 0 = one byte), bitsi (one byte)
  std::uint64_t c = 0;
  switch (s.choose(3, "ckind")) {
  case 0: c = s.choose(300, "c"); break;
  case 1: c = (std::uint64_t(1) << s.choose(63, "c.shift")) + s.choose(9, "c.off"); break;
  default: c = ~std::uint64_t(0) - s.choose(20, "c.back"); break;
  }
  auto withCounter = [&](std::uint64_t cnt) {
    std::vector<std::uint8_t> b(bytes.begin(), bytes.end() - 2);
    rc::detail::serializeCompact(cnt, std::back_inserter(b));
    b.push_back(bytes.back());
    return b;
  };
  auto load = [&](const std::vector<std::uint8_t> &b) {
    Random x(99);
    x.next();
    rc::deserialize(b.begin(), b.end(), x);
    return x;
  };
  Random a = load(withCounter(c));
  if (c < 400) {
    Random ref = r;
    for (std::uint64_t i = 0; i < c; i++) ref.next();
    if (!(ref == a) || block(ref, 6) != block(a, 6)) s.fail("counter", cat("state restored at draw ", c, " is not the state after ", c, " draws"));
  }
  s.fault("fast-forward");
  s.sig(c);
  // step forward; a state saved and restored on the way must keep up
  int n = s.range(1, 24, "draws");
  std::uint64_t cur = c;
  for (int i = 0; i < n; i++) {
    std::vector<std::uint8_t> out;
    rc::serialize(a, std::back_inserter(out));
    Random b = load(out);
    if (block(a, 7) != block(b, 7)) s.fail("stream-differs", cat("at draw ", cur, ": restored state draws other numbers"));
    if (cur != 0) {
      if (!(a == b)) s.fail("state-differs", cat("at draw ", cur, ": restored state is not equal"));
      if (cur >= c) {
        Random d = load(withCounter(cur));
        if (block(a, 1) != block(d, 1)) s.fail("stream-differs", cat("at draw ", cur, ": state loaded at that position draws another number"));
      }
    }
    auto before = a;
    auto x = a.next();
    if (a == before) s.fail("no-advance", cat("drawing at ", cur, " left the state unchanged"));
    s.log(cat("draw ", cur, " = ", x));
    s.step();
    if (cur == ~std::uint64_t(0)) { s.probe("counter-wrap"); break; }
    cur++;
  }
}

// Bit streams over a generator: copies continue independently and identically.
SCENARIO("bit-streams", 1) {
  Random r;
  newSeed(s, r);
  auto st = rc::detail::bitStreamOf(static_cast<const Random &>(r));
  auto before = r;
  std::vector<decltype(st)> pool{st};
  std::vector<std::vector<std::uint64_t>> hist{{}};
  auto draw = [&](decltype(st) &x, std::uint64_t kind) -> std::uint64_t {
    int nb = static_cast<int>(kind >> 8 & 0xff);
    switch (kind & 7) {
    case 0: return x.template next<bool>();
    case 1: return static_cast<std::uint64_t>(x.template next<int>(nb));
    case 2: return x.template next<std::uint64_t>(nb);
    case 3: return static_cast<std::uint64_t>(x.template next<signed char>(nb));
    case 4: return x.template next<std::uint64_t>();
    case 5: return static_cast<std::uint64_t>(x.template next<std::int64_t>(nb));
    default: return static_cast<std::uint64_t>(x.template nextWithSize<short>(nb));
    }
  };
  int n = s.range(2, 40, "ops");
  for (int i = 0; i < n; i++) {
    std::size_t j = s.choose(static_cast<std::uint32_t>(pool.size()), "which");
    if (s.chance(1, 4, "copy") && pool.size() < 6) {
      pool.push_back(pool[j]); hist.push_back(hist[j]);
      s.nontrivial();
      continue;
    }
    std::uint64_t kind = s.choose(7, "kind") | (s.choose(71, "nbits") << 8);
    auto v = draw(pool[j], kind);
    auto ref = rc::detail::bitStreamOf(static_cast<const Random &>(before));
    for (auto k : hist[j]) draw(ref, k);
    auto w = draw(ref, kind);
    if (v != w) s.fail("bitstream-differs", cat("draw ", hist[j].size(), " gave ", v, ", the same history gives ", w));
    int nb = static_cast<int>(kind >> 8);
    if ((kind & 7) == 2 && nb < 64 && (v >> nb) != 0) s.fail("bitstream-width", cat("asked for ", nb, " bits, got ", v));
    hist[j].push_back(kind);
    s.sig(kind);
    s.log(cat("stream", j, " ", kind & 7, "/", nb, " = ", v));
    s.step();
  }
  if (!(r == before)) s.fail("source-advanced", "drawing from a stream over a copy advanced the source");
}

} // namespace
