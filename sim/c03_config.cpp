// C03: configuration and reproduce text under storage faults.
#include <algorithm>
#include "rapidcheck.h"
#include "rapidcheck/detail/Configuration.h"
#include "rapidcheck/detail/Serialization.h"
#include "detail/Base64.h"
#include "detail/MapParser.h"
#include "detail/ParseException.h"
#include "detail/StringSerialization.h"
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>
#ifdef SIM_ASAN
#include <sanitizer/allocator_interface.h>
#endif
using namespace sim;
using namespace rc;
using namespace rc::detail;

namespace {

using RMap = std::unordered_map<std::string, Reproduce>;
using Bytes = std::vector<std::uint8_t>;

// Allocation watch: loading must not ask for memory out of proportion to the text.
std::size_t largest = 0;
void onMalloc(const volatile void *, std::size_t n) { largest = std::max(largest, n); }
void onFree(const volatile void *) {}
struct Watch {
  Watch() {
#ifdef SIM_ASAN
    static bool installed = __sanitizer_install_malloc_and_free_hooks(&onMalloc, &onFree) != 0;
    (void)installed;
#endif
    largest = 0;
  }
};
const std::size_t kAllocBound = 8u << 20;

std::string genBytes(Sim &s, int maxLen) {
  int n = s.range(0, maxLen, "len");
  int style = s.choose(4, "style");
  std::string r;
  for (int i = 0; i < n; i++) {
    switch (style) {
    case 0: r += static_cast<char>('a' + s.choose(26)); break;
    case 1: r += static_cast<char>(s.choose(256)); break;
    case 2: r += " \t\n='\"\\\0a;,$`"[s.choose(13)]; break;
    default: r += static_cast<char>(128 + s.choose(128)); break;
    }
  }
  return r;
}

int genInt(Sim &s) {
  static const std::vector<int> edge{0, 1, 2, 99, 100, 101, 1000, 2147483646, 2147483647};
  return s.chance(1, 2) ? s.pick(edge, "edge") : static_cast<int>(s.choose(0x7FFFFFFF, "int"));
}

Reproduce genReproduce(Sim &s) {
  Reproduce r;
  std::uint64_t seed = s.chance(1, 2) ? s.bits64("seed") : s.choose(3, "seed");
  r.random = Random(seed);
  int splits = s.chance(1, 6) ? s.range(60, 140, "splits") : s.range(0, 12, "splits");
  for (int i = 0; i < splits; i++) { Random right = r.random.split(); if (mix(seed, i) & 1) r.random = right; }
  int draws = s.chance(1, 4) ? s.range(0, 9, "draws") : 0;
  for (int i = 0; i < draws; i++) r.random.next();
  r.size = genInt(s);
  int n = s.chance(1, 8) ? s.range(0, 300, "path") : s.range(0, 6, "path");
  for (int i = 0; i < n; i++) r.shrinkPath.push_back(s.chance(1, 5) ? (std::size_t(1) << s.choose(64)) - s.choose(2) : s.choose(200));
  return r;
}

Configuration genConfig(Sim &s) {
  Configuration c;
  if (s.chance(3, 4)) c.testParams.seed = s.chance(1, 3) ? ~std::uint64_t(0) - s.choose(2) : s.bits64("seed");
  if (s.chance(1, 2)) c.testParams.maxSuccess = genInt(s);
  if (s.chance(1, 2)) c.testParams.maxSize = genInt(s);
  if (s.chance(1, 2)) c.testParams.maxDiscardRatio = genInt(s);
  c.testParams.disableShrinking = s.chance(1, 2);
  c.verboseProgress = s.chance(1, 2);
  c.verboseShrinking = s.chance(1, 2);
  int n = s.chance(1, 10) ? s.range(0, 40, "entries") : s.range(0, 4, "entries");
  for (int i = 0; i < n; i++) c.reproduce[genBytes(s, s.chance(1, 10) ? 300 : 20)] = genReproduce(s);
  return c;
}

template <typename C>
void damage(Sim &s, C &t, const C &other) {
  using Ch = typename C::value_type;
  auto at = [&](const char *l) { return static_cast<std::size_t>(s.choose(static_cast<std::uint32_t>(t.size()) + 1, l)); };
  switch (s.choose(9, "damage")) {
  case 0: t.resize(at("cut")); s.fault("truncate"); break;
  case 1: if (!t.empty()) { auto i = s.choose(t.size(), "at"); t[i] ^= static_cast<Ch>(1u << s.choose(8, "bit")); s.fault("bit-flip"); } break;
  case 2: if (!t.empty()) { auto i = s.choose(t.size(), "at"); t[i] = static_cast<Ch>(s.choose(256, "byte")); s.fault("byte-change"); } break;
  case 3: { auto a = at("from"), b = at("to"); if (a > b) std::swap(a, b); t.erase(t.begin() + a, t.begin() + b); s.fault("lost-range"); break; }
  case 4: { auto a = at("from"), b = at("to"); if (a > b) std::swap(a, b); C part(t.begin() + a, t.begin() + b); auto p = at("p"); t.insert(t.begin() + p, part.begin(), part.end()); s.fault("duplicated-range"); break; }
  case 5: { auto cut = at("cut"); auto o = s.choose(static_cast<std::uint32_t>(other.size()) + 1, "ocut"); t.resize(cut); t.insert(t.end(), other.begin() + o, other.end()); s.fault("spliced"); break; }
  case 6: { auto a = at("a"); std::rotate(t.begin(), t.begin() + a, t.end()); s.fault("rotated"); break; }
  case 7: { auto p = at("p"); int n = s.range(1, 12, "n"); Ch x = static_cast<Ch>(s.choose(256, "byte")); t.insert(t.begin() + p, n, x); s.fault("inserted"); break; }
  default: { // torn write: a run of bytes zeroed / set
    auto a = at("from"), b = at("to"); if (a > b) std::swap(a, b);
    Ch x = static_cast<Ch>(s.pick(std::vector<int>{0, 0xFF, 0x80, 0x7F, 'A', ' ', '='}, "fill"));
    std::fill(t.begin() + a, t.begin() + b, x); s.fault("torn-range"); break; }
  }
}

// A binary damage that targets length fields: some byte becomes a long varint.
void forgeLength(Sim &s, Bytes &b) {
  if (b.empty()) return;
  auto i = s.chance(1, 2) ? 0 : s.choose(b.size(), "at");
  Bytes v;
  int n = s.range(0, 11, "n");
  std::uint8_t fill = static_cast<std::uint8_t>(0x80 | s.choose(128, "fill"));
  for (int k = 0; k < n; k++) v.push_back(fill);
  v.push_back(static_cast<std::uint8_t>(s.choose(128, "last")));
  b.erase(b.begin() + i);
  b.insert(b.begin() + i, v.begin(), v.end());
  s.fault("forged-length");
}

std::string diff(const Configuration &a, const Configuration &b) { return cat("\n  a: ", configToString(a), "\n  b: ", configToString(b)); }

bool sameConfig(const Configuration &a, const Configuration &b) {
  return a.testParams.seed == b.testParams.seed && a.testParams.maxSuccess == b.testParams.maxSuccess &&
      a.testParams.maxSize == b.testParams.maxSize && a.testParams.maxDiscardRatio == b.testParams.maxDiscardRatio &&
      a.testParams.disableShrinking == b.testParams.disableShrinking && a.verboseProgress == b.verboseProgress &&
      a.verboseShrinking == b.verboseShrinking && a.reproduce.size() == b.reproduce.size() &&
      std::all_of(a.reproduce.begin(), a.reproduce.end(), [&](const std::pair<const std::string, Reproduce> &p) {
        auto it = b.reproduce.find(p.first);
        return it != b.reproduce.end() && it->second.random == p.second.random && it->second.size == p.second.size && it->second.shrinkPath == p.second.shrinkPath;
      });
}

void loadDamaged(Sim &s, const std::string &text, const Configuration &defaults) {
  Configuration keep(defaults);
  Configuration got;
  bool ok = false;
  Watch w;
  std::string heapText(text.begin(), text.end());
  heapText.shrink_to_fit();
  try {
    got = configFromString(heapText, defaults);
    ok = true;
  } catch (const ConfigurationException &e) {
    s.probe("rejected");
    if (std::string(e.what()).empty()) s.fail("empty-error", "rejected without a message");
  } catch (const std::exception &e) {
    s.fail("wrong-exception", cat("loading ", quote(text), " threw ", typeid(e).name(), ": ", e.what()));
  } catch (...) {
    s.fail("wrong-exception", "loading threw a non-standard object");
  }
  if (largest > kAllocBound) s.fail("absurd-allocation", cat("loading ", text.size(), " bytes allocated ", largest, " bytes at once"));
  if (!sameConfig(keep, defaults)) s.fail("defaults-changed", "loading changed the defaults passed in");
  if (!ok) { s.log("rejected"); return; }
  s.probe("accepted");
  if (got.testParams.maxSuccess < 0 || got.testParams.maxSize < 0 || got.testParams.maxDiscardRatio < 0)
    s.fail("negative-param", cat("accepted a negative parameter", configToString(got)));
  auto out = configToString(got);
  Configuration back;
  try {
    back = configFromString(out, genConfig(s));
  } catch (const std::exception &e) {
    s.fail("not-reloadable", cat("accepted configuration is not loadable when written out: ", e.what(), "\n  ", out));
  }
  if (!sameConfig(got, back)) s.fail("not-stable", "accepted configuration changes when written out and read back" + diff(got, back));
  if (!(got == back) || got != back) s.fail("eq", "== of equal configurations");
  s.log("accepted " + out);
}

SCENARIO("config-text", 4) {
  ForeignLocale locale(s);
  Configuration c = genConfig(s), d = genConfig(s);
  std::string text = s.chance(1, 3, "minimal") ? configToMinimalString(c) : configToString(c);
  // fault free: what was written is what is read
  {
    Configuration r;
    try { r = configFromString(text); } catch (const std::exception &e) { s.fail("undamaged-rejected", cat(e.what(), ": ", text)); }
    if (!sameConfig(r, c)) s.fail("undamaged-differs", diff(r, c));
  }
  std::string other = configToString(d);
  int rounds = s.range(1, 6, "rounds");
  for (int i = 0; i < rounds; i++) {
    std::string t = text;
    int n = s.range(1, 3, "faults");
    for (int k = 0; k < n; k++) damage(s, t, other);
    s.sig(hashStr(t));
    loadDamaged(s, t, s.chance(1, 2) ? Configuration() : d);
    s.step();
  }
}

// Without the seed, which may be a random one.
std::string quiet(std::string t) {
  for (std::size_t at = 0; (at = t.find("seed=", at)) != std::string::npos;) {
    at += 5;
    auto end = t.find_first_not_of("0123456789", at);
    t.erase(at, (end == std::string::npos ? t.size() : end) - at);
  }
  return t.substr(0, 1000);
}

// The text as a real process receives it: it ends with the documented error or
// runs with exactly what the text says.
SCENARIO("process-text", 1) {
  Configuration c = genConfig(s), d = genConfig(s);
  std::string t = configToString(c);
  bool absent = s.chance(1, 12, "absent");
  bool damaged = !absent && s.chance(4, 5, "damaged");
  if (damaged) {
    auto other = configToString(d);
    int n = s.range(1, 3, "faults");
    for (int k = 0; k < n; k++) damage(s, t, other);
  }
  t = t.substr(0, t.find('\0')); // an environment variable ends there
  s.sig(hashStr(t));
  s.nontrivial();
  Configuration d1, d2;
  d1.testParams.seed = 1;
  d2.testParams.seed = 2;
  Configuration want = d1;
  bool accepted = true, ownSeed = true;
  if (!absent) {
    try {
      want = configFromString(t, d1);
      ownSeed = configFromString(t, d2).testParams.seed != want.testParams.seed;
    } catch (const ConfigurationException &) { accepted = false; }
  }
  int out[2], err[2];
  if (pipe(out) || pipe(err)) s.fail("harness", "pipe");
  std::cout.flush();
  std::fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(20);
    dup2(err[1], 2);
    close(err[0]); close(err[1]); close(out[0]);
    if (absent) unsetenv("RC_PARAMS"); else setenv("RC_PARAMS", t.c_str(), 1);
    std::string text;
    try { text = configToString(configuration()); } catch (...) { _exit(70); }
    std::FILE *o = fdopen(out[1], "w");
    std::fwrite(text.data(), 1, text.size(), o);
    std::fclose(o);
    _exit(0);
  }
  close(out[1]); close(err[1]);
  std::string text, console;
  auto drain = [](int fd, std::string &to) { char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) to.append(b, static_cast<std::size_t>(n)); close(fd); };
  drain(out[0], text);
  drain(err[0], console);
  int st = 0;
  waitpid(pid, &st, 0);
  s.fault("process-started");
  if (!accepted) {
    s.probe("process.rejected");
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) s.fail("process-died", cat("a process given ", quote(t), " ended with status ", st, ": ", quiet(console)));
    if (console.find("Error parsing configuration") == std::string::npos) s.fail("empty-error", cat("a process given ", quote(t), " did not say why it ended: ", quiet(console)));
    return;
  }
  s.probe(absent ? "process.unconfigured" : "process.accepted");
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) s.fail("process-died", cat("a process given ", quote(t), " ended with status ", st, ": ", quiet(console)));
  Configuration got;
  try { got = configFromString(text); } catch (const std::exception &e) { s.fail("not-reloadable", cat(e.what(), ": ", text)); }
  if (ownSeed) want.testParams.seed = got.testParams.seed; // a random one
  if (!sameConfig(got, want)) s.fail("undamaged-differs", cat("the process given ", quote(t), " runs with", ownSeed ? std::string(" something else") : diff(got, want)));
  // What it announces leads another process to the same configuration.
  const std::string key = "Using configuration: ";
  auto at = console.find(key);
  if (at == std::string::npos) s.fail("not-announced", cat("no configuration announced: ", quiet(console)));
  auto line = console.substr(at + key.size());
  if (!line.empty() && line.back() == '\n') line.pop_back();
  Configuration again;
  try { again = configFromString(line); } catch (const std::exception &e) { s.fail("not-reloadable", cat("the announced configuration is rejected: ", e.what(), ": ", quiet(line))); }
  if (!sameConfig(got, again)) s.fail("not-stable", cat("the announced configuration differs", ownSeed ? std::string() : diff(got, again)));
}

SCENARIO("token-reorder", 1) {
  ForeignLocale locale(s);
  Configuration c = genConfig(s);
  auto m = parseMap(configToString(c));
  if (m.size() != 8) s.fail("keys", cat("written configuration has ", m.size(), " keys"));
  std::vector<std::pair<std::string, std::string>> kv(m.begin(), m.end());
  for (std::size_t i = kv.size(); i > 1; i--) std::swap(kv[i - 1], kv[s.choose(i, "perm")]);
  std::string t;
  for (auto &p : kv) {
    t += std::string(s.range(1, 3, "sp"), " \t\n"[s.choose(3)]);
    bool q = s.chance(1, 3, "quote");
    char qc = s.chance(1, 2) ? '"' : '\'';
    t += p.first + std::string(s.range(0, 2), ' ') + "=" + std::string(s.range(0, 2), ' ') + (q ? qc + p.second + qc : p.second);
  }
  s.fault("reordered");
  s.sig(hashStr(t));
  Configuration r;
  try { r = configFromString(t); } catch (const std::exception &e) { s.fail("undamaged-rejected", cat(e.what(), ": ", t)); }
  if (!sameConfig(r, c)) s.fail("undamaged-differs", "after reordering and requoting" + diff(r, c));
  s.log(t);
}

SCENARIO("map-text", 2) {
  ForeignLocale locale(s);
  std::map<std::string, std::string> m;
  int n = s.range(0, 6, "n");
  for (int i = 0; i < n; i++) { auto k = genBytes(s, 12); if (!k.empty()) m[k] = genBytes(s, 12); }
  bool dq = s.chance(1, 2);
  auto t = mapToString(m, dq);
  try {
    auto back = parseMap(t);
    if (back != m) s.fail("map-differs", cat("map does not survive writing: ", quote(t)));
  } catch (const std::exception &e) { s.fail("map-rejected", cat(e.what(), ": ", quote(t))); }
  int rounds = s.range(1, 5);
  for (int i = 0; i < rounds; i++) {
    std::string d = t;
    int k = s.range(1, 3);
    for (int j = 0; j < k; j++) damage(s, d, t);
    s.sig(hashStr(d));
    Watch w;
    try {
      auto a = parseMap(d);
      if (largest > kAllocBound) s.fail("absurd-allocation", cat(largest));
      auto b = parseMap(mapToString(a, s.chance(1, 2)));
      if (a != b) s.fail("map-not-stable", cat("accepted text ", quote(d), " is not stable"));
      s.probe("accepted");
    } catch (const ParseException &e) {
      if (e.position() > d.size()) s.fail("position", cat("error position ", e.position(), " beyond text of ", d.size()));
      s.probe("rejected");
    } catch (const std::exception &e) { s.fail("wrong-exception", cat("parseMap threw ", e.what(), " for ", quote(d))); }
    s.step();
  }
}

SCENARIO("reproduce-text", 4) {
  ForeignLocale locale(s);
  RMap m = genConfig(s).reproduce;
  if (m.empty()) m["id"] = genReproduce(s);
  RMap o = genConfig(s).reproduce;
  auto t = reproduceMapToString(m);
  { // undamaged
    RMap back;
    try { back = stringToReproduceMap(t); } catch (const std::exception &e) { s.fail("undamaged-rejected", cat(e.what(), ": ", t)); }
    Configuration a, b; a.reproduce = m; b.reproduce = back;
    if (!sameConfig(a, b)) s.fail("undamaged-differs", diff(a, b));
  }
  Bytes bin = base64Decode(t), obin = base64Decode(reproduceMapToString(o));
  if (base64Encode(bin) != t) s.fail("base64", "base64 does not round-trip");
  int rounds = s.range(1, 6);
  for (int i = 0; i < rounds; i++) {
    std::string d;
    if (s.chance(1, 4, "text-damage")) {
      d = t;
      damage(s, d, t);
    } else {
      Bytes x = bin;
      int k = s.range(1, 3);
      for (int j = 0; j < k; j++) { if (s.chance(1, 2, "forge")) forgeLength(s, x); else damage(s, x, obin); }
      d = base64Encode(x);
    }
    s.sig(hashStr(d));
    Watch w;
    RMap got;
    bool ok = false;
    try { got = stringToReproduceMap(d); ok = true; }
    catch (const ParseException &) { s.probe("rejected"); }
    catch (const std::exception &e) { s.fail("wrong-exception", cat("reproduce text ", d, " threw ", typeid(e).name(), ": ", e.what())); }
    catch (...) { s.fail("wrong-exception", "non-standard object"); }
    if (largest > kAllocBound) s.fail("absurd-allocation", cat("decoding ", d.size(), " characters allocated ", largest, " bytes at once"));
    if (ok) {
      s.probe("accepted");
      RMap back;
      try { back = stringToReproduceMap(reproduceMapToString(got)); }
      catch (const std::exception &e) { s.fail("not-reloadable", cat("accepted reproduce text is not loadable when written out: ", e.what(), " ", d)); }
      Configuration a, b; a.reproduce = got; b.reproduce = back;
      if (!sameConfig(a, b)) s.fail("not-stable", "accepted reproduce text changes when written out and read back" + diff(a, b));
      for (auto &p : got) { Random r = p.second.random; for (int q = 0; q < 5; q++) r.next(); }
    }
    // as part of a configuration
    loadDamaged(s, "seed=3 reproduce=" + d, Configuration());
    s.step();
  }
}

// The serialization building blocks, reading from exact-size storage.
SCENARIO("binary", 2) {
  ForeignLocale locale(s);
  std::uint64_t a = s.chance(1, 2) ? s.bits64("a") : (std::uint64_t(1) << s.choose(64)) - s.choose(2);
  std::uint16_t b = static_cast<std::uint16_t>(s.choose(65536));
  std::string str = genBytes(s, 40);
  std::vector<std::uint32_t> vec;
  int n = s.range(0, 8);
  for (int i = 0; i < n; i++) vec.push_back(s.choose(0xFFFFFFFFu));
  Bytes w;
  serialize(a, std::back_inserter(w));
  serializeCompact(a, std::back_inserter(w));
  serialize(b, std::back_inserter(w));
  serializeCompact(b, std::back_inserter(w));
  serialize(str, std::back_inserter(w));
  serializeCompact(vec.begin(), vec.end(), std::back_inserter(w));
  serialize(static_cast<std::int8_t>(-5), std::back_inserter(w));
  int rounds = s.range(1, 6);
  for (int i = 0; i < rounds; i++) {
    Bytes d = w;
    bool damaged = i > 0;
    if (damaged) { if (s.chance(1, 2)) forgeLength(s, d); else damage(s, d, w); }
    s.sig(hashStr(std::string(d.begin(), d.end())));
    Bytes exact(d.begin(), d.end());
    Watch watch;
    std::uint64_t a1 = 0, a2 = 0;
    std::uint16_t b1 = 0, b2 = 0;
    std::string str1;
    std::vector<std::uint32_t> vec1;
    std::int8_t z = 0;
    const std::uint8_t *it = exact.data(), *e = it + exact.size();
    try {
      it = deserialize(it, e, a1);
      it = deserializeCompact(it, e, a2);
      it = deserialize(it, e, b1);
      it = deserializeCompact(it, e, b2);
      it = deserialize(it, e, str1);
      auto p = deserializeCompact<std::uint32_t>(it, e, std::back_inserter(vec1));
      it = p.first;
      it = deserialize(it, e, z);
      if (it > e) s.fail("overrun", "reading went past the end of the data");
      if (!damaged && (a1 != a || a2 != a || b1 != b || b2 != b || str1 != str || vec1 != vec || z != -5 || it != e)) s.fail("undamaged-differs", "binary values differ after reading back");
      s.probe("accepted");
    } catch (const SerializationException &e) {
      if (!damaged) s.fail("undamaged-rejected", e.what());
      s.probe("rejected");
    } catch (const std::exception &e) { s.fail("wrong-exception", cat(typeid(e).name(), ": ", e.what())); }
    if (largest > kAllocBound) s.fail("absurd-allocation", cat("reading ", d.size(), " bytes allocated ", largest, " bytes at once"));
    s.step();
  }
}

} // namespace
