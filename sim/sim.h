// Deterministic simulator core: every choice of a run is drawn here, recorded
// on a tape, and a tape replays the run exactly.
#pragma once
#include <cstdint>
#include <functional>
#include <locale>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace sim {

/// 64 bit mixer used for all derived, non-tape values (pure functions).
inline std::uint64_t mix(std::uint64_t x) {
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
  return mix(mix(a) ^ (b + 0x632BE59BD9B4E019ULL));
}
inline std::uint64_t hashStr(const std::string &s) {
  std::uint64_t h = 0xcbf29ce484222325ULL;
  for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ULL;
  return mix(h);
}

/// Memory runs out: while armed, the n-th allocation fails. Allocations made by
/// the simulator itself, and those of user objects which must not throw, are
/// made inside a MemoryPause and do not count. (memory.cpp has operator new.)
struct Memory {
  bool armed = false;
  std::uint32_t countdown = 0;
  int pause = 0;
  std::uint64_t failed = 0;
};
extern Memory memory;
#ifdef SIM_SCHED // simulated threads share this; memory does not run out there
struct MemoryPause { MemoryPause() {} };
#else
struct MemoryPause {
  MemoryPause() { memory.pause++; }
  ~MemoryPause() { memory.pause--; }
};
#endif

/// Ends a run without a verdict (see Sim::abandon).
struct Abandon {};

class Sim {
public:
  /// Choice in [0, n). 0 is always the "simplest" alternative: an exhausted
  /// tape yields 0 and the minimiser lowers values.
  std::uint32_t choose(std::uint32_t n, const char *label = "");
  /// True with probability num/den (false is the simple alternative).
  bool chance(std::uint32_t num, std::uint32_t den, const char *label = "") {
    return choose(den, label) >= den - num;
  }
  /// Inclusive range, lo is simplest.
  int range(int lo, int hi, const char *label = "") {
    return lo + static_cast<int>(choose(static_cast<std::uint32_t>(hi - lo) + 1, label));
  }
  std::uint64_t bits64(const char *label = "") {
    std::uint64_t a = choose(0xFFFFFFFFu, label);
    return (a << 32) | choose(0xFFFFFFFFu, label);
  }
  template <typename T>
  const T &pick(const std::vector<T> &v, const char *label = "") {
    return v[choose(static_cast<std::uint32_t>(v.size()), label)];
  }

  /// Event log: hashed always, kept as text when `verbose`.
  void log(const std::string &s);
  /// Contributes to the order-sensitive shape signature of this run.
  void sig(std::uint64_t x) { m_sig = mix(m_sig, x); }
  void sig(const char *s) { sig(hashStr(s)); }

  /// A simulated step. Runs that exceed the budget are violations ("no
  /// progress within the step bound").
  void step(std::uint64_t n = 1);
  void setStepBudget(std::uint64_t n) { m_stepBudget = n; }
  std::uint64_t steps() const { return m_steps; }

  /// Counters for evidence: faults actually injected, probes reached, ...
  void count(const std::string &key, std::uint64_t n = 1) { MemoryPause pause; m_counters[key] += n; }
  void fault(const std::string &kind) {
    MemoryPause pause;
    count("fault." + kind);
    log("FAULT " + kind);
    m_nontrivial = true;
  }
  void probe(const std::string &what) { count("probe." + what); }
  void nontrivial() { m_nontrivial = true; }

  /// Reports a violation; never returns (the forked child exits).
  [[noreturn]] void fail(const std::string &cls, const std::string &msg);
  void check(bool ok, const char *cls, const std::function<std::string()> &msg) {
    if (!ok) fail(cls, msg());
  }

  /// Ends a run that is legitimate but too long to follow; not a violation.
  [[noreturn]] void abandon() { m_abandoned = true; throw Abandon{}; }
  bool abandoned() const { return m_abandoned; }

  bool verbose = false;

  // -- runner interface
  void beginRecord(std::uint64_t seed);
  void beginReplay(const std::vector<std::uint32_t> &tape);
  std::uint64_t hash() const { return m_hash; }
  std::uint64_t sigHash() const { return m_sig; }
  bool isNontrivial() const { return m_nontrivial; }
  std::map<std::string, std::uint64_t> &counters() { return m_counters; }
  const std::vector<std::string> &text() const { return m_text; }

private:
  void reset();
  bool m_replay = false;
  std::uint64_t m_state = 0;
  std::vector<std::uint32_t> m_tape;
  std::size_t m_pos = 0;
  std::uint64_t m_hash = 0, m_sig = 0;
  std::uint64_t m_steps = 0, m_stepBudget = 0;
  bool m_nontrivial = false, m_abandoned = false;
  std::map<std::string, std::uint64_t> m_counters;
  std::vector<std::string> m_text;
};

using ScenarioFn = void (*)(Sim &);

struct Scenario {
  const char *name;
  int weight;
  ScenarioFn fn;
};
std::vector<Scenario> &scenarios();
struct Register {
  Register(const char *name, int weight, ScenarioFn fn) {
    scenarios().push_back({name, weight, fn});
  }
};

/// Set by the runner while a scenario runs; for code without a Sim at hand.
extern Sim *current;

/// The `at`-th allocation in the lifetime of this object fails (0: none does).
class OutOfMemory {
public:
  explicit OutOfMemory(std::uint32_t at) : m_before(memory.failed) {
    memory.armed = at > 0;
    memory.countdown = at;
  }
  ~OutOfMemory() {
    memory.armed = false;
    if (struck() && current) current->fault("no-memory");
  }
  bool struck() const { return memory.failed != m_before; }

private:
  std::uint64_t m_before;
};

/// The process may run under a global locale that groups digits and names the
/// truth values differently.
class ForeignLocale {
public:
  explicit ForeignLocale(Sim &s);
  ~ForeignLocale();

private:
  std::locale m_old;
};

template <typename... Ts>
std::string cat(const Ts &... ts) {
  MemoryPause pause;
  std::ostringstream os;
  int dummy[] = {0, ((void)(os << ts), 0)...};
  (void)dummy;
  return os.str();
}

std::string quote(const std::string &s);

} // namespace sim

#define SIM_CONCAT_(a, b) a##b
#define SIM_CONCAT(a, b) SIM_CONCAT_(a, b)
#define SCENARIO(NAME, WEIGHT)                                                 \
  static void SIM_CONCAT(scenario_, __LINE__)(sim::Sim &);                     \
  static sim::Register SIM_CONCAT(reg_, __LINE__)(                             \
      NAME, WEIGHT, &SIM_CONCAT(scenario_, __LINE__));                         \
  static void SIM_CONCAT(scenario_, __LINE__)(sim::Sim & s)
