// Runner: forked batches of seeded runs, crash/hang capture, gating,
// minimisation, replay files, statistics.
#include "sim.h"

#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <fcntl.h>

namespace sim {

static const std::size_t kTapeMax = 1u << 19;
static const std::uint64_t kDefaultBudget = 3000000;

struct Shared {
  volatile std::uint64_t runIndex;
  volatile std::uint64_t heartbeat;
  volatile std::uint64_t hash;
  volatile std::uint32_t tapeLen;
  volatile int haveCls;
  char cls[200];
  char msg[6000];
  std::uint32_t tape[kTapeMax];
};

static Shared *shared = nullptr;
Sim *current = nullptr;
Memory memory;

std::vector<Scenario> &scenarios() {
  static std::vector<Scenario> v;
  return v;
}

std::string quote(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static void setClass(const char *cls, const char *msg) {
  if (!shared || shared->haveCls) return;
  shared->haveCls = 1;
  snprintf(shared->cls, sizeof shared->cls, "%s", cls);
  snprintf(shared->msg, sizeof shared->msg, "%s", msg);
}

namespace {
struct Punct : std::numpunct<char> {
  char do_thousands_sep() const override { return '.'; }
  char do_decimal_point() const override { return ','; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};
}
ForeignLocale::ForeignLocale(Sim &s) {
  if (!s.chance(1, 4, "foreign-locale")) return;
  s.count("fault.foreign-locale");
  std::locale::global(std::locale(std::locale::classic(), new Punct));
}
ForeignLocale::~ForeignLocale() { std::locale::global(m_old); }

void Sim::reset() {
  m_pos = 0;
  m_hash = 1;
  m_sig = 1;
  m_steps = 0;
  m_stepBudget = kDefaultBudget;
  m_nontrivial = m_abandoned = false;
  m_text.clear();
  shared->tapeLen = 0;
  shared->hash = 0;
}
void Sim::beginRecord(std::uint64_t seed) {
  m_replay = false;
  m_state = seed;
  reset();
}
void Sim::beginReplay(const std::vector<std::uint32_t> &tape) {
  m_replay = true;
  m_tape = tape;
  reset();
}
std::uint32_t Sim::choose(std::uint32_t n, const char *label) {
  MemoryPause pause;
  step();
  if (n <= 1) return 0;
  std::uint32_t v;
  if (m_replay) {
    v = m_pos < m_tape.size() ? m_tape[m_pos] % n : 0;
  } else {
    m_state += 0x9E3779B97F4A7C15ULL;
    v = static_cast<std::uint32_t>((mix(m_state) >> 32) * static_cast<std::uint64_t>(n) >> 32);
  }
  if (m_pos < kTapeMax) {
    shared->tape[m_pos] = v;
    shared->tapeLen = static_cast<std::uint32_t>(m_pos + 1);
  } else if (!m_replay) {
    fail("tape-overflow", "a run drew too many choices");
  }
  m_pos++;
  m_hash = mix(m_hash, v + 0x100000000ULL * n);
  if (verbose && label && *label) m_text.push_back(cat("  choose ", label, " = ", v, " of ", n));
  return v;
}
void Sim::log(const std::string &t) {
  MemoryPause pause;
  m_hash = mix(m_hash, hashStr(t));
  shared->hash = m_hash;
  if (verbose) m_text.push_back(t);
}
void Sim::step(std::uint64_t n) {
  m_steps += n;
  shared->heartbeat = shared->heartbeat + 1;
  if (m_steps > m_stepBudget && !(memory.armed = false))
    fail("no-progress", cat("exceeded ", m_stepBudget, " simulated steps"));
}
void Sim::fail(const std::string &cls, const std::string &msg) {
  memory.armed = false;
  if (m_abandoned) throw Abandon{};
  m_hash = mix(m_hash, hashStr(cls));
  m_hash = mix(m_hash, hashStr(msg));
  shared->hash = m_hash;
  setClass(cls.c_str(), msg.c_str());
  if (verbose)
    for (auto &t : m_text) fprintf(stdout, "%s\n", t.c_str());
  fflush(stdout);
  _exit(99);
}

} // namespace sim

using namespace sim;

#if defined(SIM_ASAN)
extern "C" {
const char *__asan_get_report_description();
size_t __sanitizer_get_current_allocated_bytes();
void __asan_on_error() {
  setClass((std::string("asan:") + __asan_get_report_description()).c_str(),
           "AddressSanitizer report (see stderr of the replay)");
}
void __ubsan_get_current_report_data(const char **OutIssueKind,
                                     const char **OutMessage,
                                     const char **OutFilename,
                                     unsigned *OutLine, unsigned *OutCol,
                                     char **OutMemoryAddr);
void __ubsan_on_report(void) {
  const char *kind, *m, *f; unsigned l, c; char *a;
  __ubsan_get_current_report_data(&kind, &m, &f, &l, &c, &a);
  setClass((std::string("ubsan:") + kind).c_str(), m ? m : "");
}
const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=97:handle_abort=1:"
         "allocator_may_return_null=0:max_allocation_size_mb=512:"
         "detect_stack_use_after_return=1:malloc_context_size=12:"
         "quarantine_size_mb=16:print_legend=0:allow_addr2line=0:"
         "detect_container_overflow=1:symbolize=0";
}
const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=97"; }
}
static size_t liveBytes() { return __sanitizer_get_current_allocated_bytes(); }
#elif defined(SIM_SCHED)
namespace sched { size_t liveBytes(); }
static size_t liveBytes() { return sched::liveBytes(); }
#else
static size_t liveBytes() { return 0; }
#endif

namespace {

void onTerminate() {
  std::string msg = "std::terminate called";
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (const std::exception &x) { msg += std::string(": ") + x.what(); }
    catch (...) { msg += ": unknown exception"; }
  }
  setClass("terminate", msg.c_str());
  _exit(98);
}

struct Episode { std::vector<std::uint32_t> tape; };

struct Outcome {
  bool violation = false;
  bool hang = false;
  std::string cls, msg;
  std::uint64_t hash = 0;
  std::uint64_t run = 0;
  std::vector<std::uint32_t> tape;
};

struct Stats {
  std::uint64_t runs = 0, steps = 0, reruns = 0, nontrivial = 0;
  std::map<std::string, std::uint64_t> counters;
  std::unordered_set<std::uint64_t> sigs, hashes;
  std::uint64_t hashFold = 0; // order-independent fold of (run, hash)
  std::string sample;
};

Shared *mapShared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return static_cast<Shared *>(p);
}

void limitMemory() {
  std::ifstream f("/proc/self/status");
  std::string line;
  unsigned long long kb = 0;
  while (std::getline(f, line))
    if (line.compare(0, 7, "VmData:") == 0) kb = strtoull(line.c_str() + 7, nullptr, 10);
  if (!kb) return;
  rlimit rl;
  rl.rlim_cur = rl.rlim_max = kb * 1024ULL + (3ULL << 30);
  setrlimit(RLIMIT_DATA, &rl);
}

void runScenario(Sim &s) {
  auto &sc = scenarios();
  int total = 0;
  for (auto &x : sc) total += x.weight;
  int w = static_cast<int>(s.choose(total, "scenario"));
  for (auto &x : sc) {
    if (w < x.weight) {
      s.log(cat("scenario ", x.name));
      s.sig(x.name);
      s.count(cat("scenario.", x.name));
      current = &s;
      try {
        x.fn(s);
      } catch (const Abandon &) {
        s.count("probe.abandoned-long-run");
      } catch (const std::exception &e) {
        s.fail("escaped-exception", cat("exception escaped the scenario: ", e.what()));
      } catch (...) {
        s.fail("escaped-exception", "unknown exception escaped the scenario");
      }
      current = nullptr;
      return;
    }
    w -= x.weight;
  }
}

// Executes one run (with optional re-executions of the same tape to detect
// leaks and dependence on process history).
void executeRun(Sim &s, Stats *st, std::uint64_t run, bool checkAgain) {
  runScenario(s); // caller has begun record/replay
  const auto h = s.hash();
  if (st) {
    st->runs++;
    st->steps += s.steps();
    if (s.isNontrivial()) { st->nontrivial++; st->sigs.insert(s.sigHash()); }
    st->hashes.insert(h);
    st->hashFold += mix(run, h);
    if (s.verbose && st->sample.empty() && s.isNontrivial()) {
      std::size_t n = 0;
      for (auto &t : s.text()) { st->sample += t; st->sample += '\n'; if (++n > 120) break; }
    }
  }
  if (!checkAgain) return;
  // Re-run the very same tape. The log must be identical; and the amount of
  // live memory must reach a fixed point (a run that grows it again and again
  // leaks).
  std::vector<std::uint32_t> tape(shared->tape, shared->tape + shared->tapeLen);
  auto saved = s.counters();
  const bool v = s.verbose;
  s.verbose = false;
  size_t before = 0, after = 0;
  int grew = 0;
  const int rounds = 5;
  for (int i = 0; i < rounds; i++) {
    before = liveBytes();
    s.beginReplay(tape);
    runScenario(s);
    if (st) st->reruns++;
    if (s.hash() != h) {
      s.verbose = v;
      s.fail("history-dependent", "re-running the identical schedule in the same process gave a different event log");
    }
    after = liveBytes();
    if (after > before) grew++; else break;
  }
  s.verbose = v;
  if (grew == rounds)
    s.fail("leak", cat("every execution of this schedule leaves more memory allocated"));
  s.counters() = saved;
}

std::uint64_t runSeed(std::uint64_t seed, const std::string &prop, std::uint64_t i) {
  return mix(mix(seed, hashStr(prop)), i);
}

void putStr(FILE *f, const std::string &s) {
  std::uint64_t n = s.size();
  fwrite(&n, 8, 1, f);
  fwrite(s.data(), 1, n, f);
}
bool getStr(FILE *f, std::string &s) {
  std::uint64_t n;
  if (fread(&n, 8, 1, f) != 1) return false;
  s.resize(n);
  return n == 0 || fread(&s[0], 1, n, f) == n;
}
void putStats(FILE *f, const Stats &s) {
  std::uint64_t h[5] = {s.runs, s.steps, s.reruns, s.nontrivial, s.hashFold};
  fwrite(h, 8, 5, f);
  std::uint64_t n = s.counters.size();
  fwrite(&n, 8, 1, f);
  for (auto &p : s.counters) { putStr(f, p.first); fwrite(&p.second, 8, 1, f); }
  for (auto *set : {&s.sigs, &s.hashes}) {
    n = set->size();
    fwrite(&n, 8, 1, f);
    for (auto x : *set) fwrite(&x, 8, 1, f);
  }
  putStr(f, s.sample);
}
bool mergeStats(FILE *f, Stats &s) {
  std::uint64_t h[5], n, x;
  if (fread(h, 8, 5, f) != 5) return false;
  s.runs += h[0]; s.steps += h[1]; s.reruns += h[2]; s.nontrivial += h[3]; s.hashFold += h[4];
  if (fread(&n, 8, 1, f) != 1) return false;
  while (n--) {
    std::string k;
    if (!getStr(f, k) || fread(&x, 8, 1, f) != 1) return false;
    s.counters[k] += x;
  }
  for (auto *set : {&s.sigs, &s.hashes}) {
    if (fread(&n, 8, 1, f) != 1) return false;
    while (n--) { if (fread(&x, 8, 1, f) != 1) return false; set->insert(x); }
  }
  std::string smp;
  if (!getStr(f, smp)) return false;
  if (s.sample.empty()) s.sample = smp;
  return true;
}

double cpuOf(pid_t pid) {
  clockid_t c;
  timespec ts;
  if (clock_getcpuclockid(pid, &c) != 0 || clock_gettime(c, &ts) != 0) return -1;
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
double wall() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

bool quietStderr = true;
double hangCpu = 20;

// Forks; the child runs `body` and its statistics file is returned through
// `onStats`. Returns the outcome as seen from outside.
Outcome inChild(const std::function<void(FILE *)> &body,
                const std::function<bool(FILE *)> &onStats) {
  Outcome o;
  shared->haveCls = 0;
  shared->cls[0] = shared->msg[0] = 0;
  shared->heartbeat = 0;
  shared->tapeLen = 0;
  FILE *tmp = tmpfile();
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    if (quietStderr) {
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 2);
    }
    limitMemory();
    std::set_terminate(onTerminate);
    body(tmp);
    fflush(tmp);
    fflush(stdout);
    _exit(0);
  }
  int status = 0;
  double lastCpu = 0, startWall = wall(), lastProgressWall = startWall;
  std::uint64_t lastBeat = 0;
  useconds_t nap = 200;
  for (;;) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    usleep(nap);
    if (nap < 20000) nap *= 2;
    const auto beat = shared->heartbeat;
    const double cpu = cpuOf(pid);
    if (beat != lastBeat) {
      lastBeat = beat;
      lastCpu = cpu;
      lastProgressWall = wall();
    } else if ((cpu >= 0 && cpu - lastCpu > hangCpu) || wall() - lastProgressWall > 240) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      o.hang = true;
      setClass("hang", "no simulated step for a long time: the code under test loops or blocks");
      break;
    }
  }
  o.run = shared->runIndex;
  o.hash = shared->hash;
  o.tape.assign(shared->tape, shared->tape + shared->tapeLen);
  if (!o.hang && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    rewind(tmp);
    if (onStats && !onStats(tmp)) { fprintf(stderr, "runner: bad child statistics\n"); exit(2); }
  } else {
    o.violation = true;
    if (shared->haveCls) {
      o.cls = shared->cls;
      o.msg = shared->msg;
    } else if (WIFSIGNALED(status)) {
      o.cls = cat("signal:", WTERMSIG(status));
      o.msg = "the process was killed by a signal";
    } else {
      o.cls = cat("exit:", WEXITSTATUS(status));
      o.msg = "the process ended unexpectedly";
    }
  }
  fclose(tmp);
  return o;
}

Outcome runEpisodes(const std::vector<Episode> &eps, bool verbose) {
  return inChild(
      [&](FILE *) {
        Sim s;
        s.verbose = verbose;
        for (std::size_t i = 0; i < eps.size(); i++) {
          const bool last = i + 1 == eps.size();
          s.verbose = verbose && last;
          shared->runIndex = i;
          s.beginReplay(eps[i].tape);
          executeRun(s, nullptr, 0, true);
        }
        if (verbose)
          for (auto &t : s.text()) fprintf(stdout, "%s\n", t.c_str());
      },
      nullptr);
}

bool sameViolation(const Outcome &a, const Outcome &b) {
  return b.violation && a.cls == b.cls;
}

// Delta debugging over the last episode's tape (and dropping of earlier
// episodes) while the violation class persists.
std::vector<Episode> minimise(std::vector<Episode> eps, const Outcome &ref,
                              double seconds, int &attempts) {
  const double end = wall() + seconds;
  attempts = 0;
  auto test = [&](const std::vector<Episode> &c) {
    attempts++;
    return sameViolation(ref, runEpisodes(c, false));
  };
  // drop earlier episodes
  for (std::size_t i = 0; i + 1 < eps.size() && wall() < end;) {
    auto c = eps;
    c.erase(c.begin() + i);
    if (test(c)) eps = c; else i++;
  }
  for (std::size_t e = eps.size(); e-- > 0;) {
    bool progress = true;
    while (progress && wall() < end) {
      progress = false;
      auto &tape = eps[e].tape;
      // truncate trailing part (exhausted tape reads 0)
      while (!tape.empty() && tape.back() == 0) tape.pop_back();
      for (std::size_t chunk = std::max<std::size_t>(tape.size() / 2, 1); chunk >= 1 && wall() < end; chunk /= 2) {
        for (std::size_t i = 0; i < eps[e].tape.size() && wall() < end;) {
          auto c = eps;
          auto &t = c[e].tape;
          const auto n = std::min(chunk, t.size() - i);
          t.erase(t.begin() + i, t.begin() + i + n);
          if (test(c)) { eps = c; progress = true; }
          else i += chunk;
        }
        if (chunk == 1) break;
      }
      // zero chunks, then lower single values
      for (std::size_t chunk = std::max<std::size_t>(eps[e].tape.size() / 2, 1); chunk >= 1 && wall() < end; chunk /= 2) {
        for (std::size_t i = 0; i < eps[e].tape.size() && wall() < end; i += chunk) {
          auto c = eps;
          auto &t = c[e].tape;
          bool any = false;
          for (std::size_t j = i; j < std::min(i + chunk, t.size()); j++) { any |= t[j] != 0; t[j] = 0; }
          if (any && test(c)) { eps = c; progress = true; }
        }
        if (chunk == 1) break;
      }
      for (std::size_t i = 0; i < eps[e].tape.size() && wall() < end; i++) {
        while (eps[e].tape[i] > 0 && wall() < end) {
          auto c = eps;
          auto v = c[e].tape[i];
          c[e].tape[i] = v / 2;
          if (test(c)) { eps = c; progress = true; continue; }
          if (v > 1) {
            c[e].tape[i] = v - 1;
            if (test(c)) { eps = c; progress = true; continue; }
          }
          break;
        }
      }
    }
  }
  return eps;
}

void writeReplay(const std::string &path, const std::string &prop, std::uint64_t seed,
                 std::uint64_t run, const std::vector<Episode> &eps, const Outcome &o) {
  std::ofstream f(path);
  f << "simreplay 1\n";
  f << "property " << prop << "\nseed " << seed << "\nrun " << run << "\nclass " << o.cls
    << "\nhash " << o.hash << "\nepisodes " << eps.size() << "\n";
  for (auto &e : eps) {
    f << e.tape.size();
    for (auto v : e.tape) f << ' ' << v;
    f << "\n";
  }
  f << "message " << quote(o.msg) << "\n";
}

bool readReplay(const std::string &path, std::vector<Episode> &eps, std::string &cls,
                std::uint64_t &hash) {
  std::ifstream f(path);
  std::string w;
  std::getline(f, w);
  if (w != "simreplay 1") return false;
  std::size_t n = 0;
  while (f >> w) {
    if (w == "class") { f.ignore(1); std::getline(f, cls); }
    else if (w == "hash") f >> hash;
    else if (w == "episodes") { f >> n; break; }
    else f >> w;
  }
  for (std::size_t i = 0; i < n; i++) {
    std::size_t k;
    if (!(f >> k)) return false;
    Episode e;
    e.tape.resize(k);
    for (auto &v : e.tape) f >> v;
    eps.push_back(e);
  }
  return true;
}

std::string arg(int argc, char **argv, const std::string &name, const std::string &def) {
  for (int i = 1; i + 1 < argc; i++)
    if (argv[i] == "--" + name) return argv[i + 1];
  return def;
}

} // namespace

int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  shared = mapShared();
  const std::string mode = argc > 1 ? argv[1] : "";

  if (mode == "replay") {
    std::vector<Episode> eps;
    std::string cls;
    std::uint64_t hash = 0;
    if (!readReplay(argv[2], eps, cls, hash)) { fprintf(stderr, "bad replay file\n"); return 2; }
    quietStderr = argc <= 3;
    auto o = runEpisodes(eps, argc > 3);
    if (!o.violation) { printf("NO-VIOLATION\n"); return 0; }
    printf("class=%s\nhash=%llu\nmessage=%s\n", o.cls.c_str(), (unsigned long long)o.hash, o.msg.c_str());
    if (o.cls == cls && o.hash == hash) { printf("REPRODUCED\n"); return 1; }
    printf("DIFFERENT (expected class=%s hash=%llu)\n", cls.c_str(), (unsigned long long)hash);
    return 3;
  }
  if (mode == "one") { // one <prop> <seed> <run> : verbose single run
    Sim s;
    quietStderr = false;
    auto o = inChild([&](FILE *) {
      s.verbose = true;
      shared->runIndex = 0;
      s.beginRecord(runSeed(strtoull(argv[3], 0, 10), argv[2], strtoull(argv[4], 0, 10)));
      executeRun(s, nullptr, 0, true);
      for (auto &t : s.text()) fprintf(stdout, "%s\n", t.c_str());
      for (auto &c : s.counters()) fprintf(stdout, "# %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
    }, nullptr);
    printf("violation=%d class=%s msg=%s hash=%llu\n", o.violation, o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash);
    return o.violation;
  }
  if (mode != "run") { fprintf(stderr, "usage: run|replay|one\n"); return 2; }

  const std::string prop = arg(argc, argv, "prop", "");
  const std::uint64_t seed = strtoull(arg(argc, argv, "seed", "1").c_str(), nullptr, 10);
  const std::uint64_t runs = strtoull(arg(argc, argv, "runs", "1000").c_str(), nullptr, 10);
  const std::uint64_t first = strtoull(arg(argc, argv, "first", "0").c_str(), nullptr, 10);
  const int jobs = atoi(arg(argc, argv, "jobs", "8").c_str());
  const std::uint64_t batch = strtoull(arg(argc, argv, "batch", "40").c_str(), nullptr, 10);
  const double cap = atof(arg(argc, argv, "cap", "600").c_str());
  const double minCap = atof(arg(argc, argv, "mincap", "60").c_str());
  const int again = atoi(arg(argc, argv, "again", "4").c_str());
  const std::string out = arg(argc, argv, "out", "");
  const std::string replayPath = arg(argc, argv, "replay", "");
  const double t0 = wall();

  struct Ctl { volatile int stop; volatile std::uint64_t next; } *ctl =
      static_cast<Ctl *>(mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  ctl->stop = 0;
  ctl->next = 0;

  // Workers
  std::vector<pid_t> pids;
  std::vector<FILE *> files;
  for (int w = 0; w < jobs; w++) {
    FILE *f = tmpfile();
    files.push_back(f);
    pid_t pid = fork();
    if (pid == 0) {
      shared = mapShared();
      Stats st;
      std::uint64_t nviol = 0;
      Outcome viol;
      std::uint64_t violBatchFirst = 0;
      for (;;) {
        const auto b = __sync_fetch_and_add(const_cast<std::uint64_t *>(&ctl->next), 1);
        const std::uint64_t lo = first + b * batch;
        if (lo >= first + runs || ctl->stop || wall() - t0 > cap) break;
        const std::uint64_t hi = std::min(lo + batch, first + runs);
        Stats bs;
        auto o = inChild(
            [&](FILE *tmp) {
              Stats cs;
              cs.hashes.reserve(batch * 2);
              cs.sigs.reserve(batch * 2);
              Sim s;
              for (auto i = lo; i < hi; i++) {
                shared->runIndex = i;
                s.verbose = i == lo && b < 3;
                s.beginRecord(runSeed(seed, prop, i));
                executeRun(s, &cs, i, again > 0 && (i % again) == 0);
              }
              cs.counters = s.counters();
              putStats(tmp, cs);
            },
            [&](FILE *tmp) { return mergeStats(tmp, st); });
        if (o.violation) {
          nviol++;
          viol = o;
          violBatchFirst = lo;
          ctl->stop = 1;
          break;
        }
      }
      putStats(f, st);
      fwrite(&nviol, 8, 1, f);
      if (nviol) {
        fwrite(&viol.run, 8, 1, f);
        fwrite(&viol.hash, 8, 1, f);
        fwrite(&violBatchFirst, 8, 1, f);
        putStr(f, viol.cls);
        putStr(f, viol.msg);
        std::uint64_t n = viol.tape.size();
        fwrite(&n, 8, 1, f);
        fwrite(viol.tape.data(), 4, n, f);
      }
      fflush(f);
      _exit(0);
    }
    pids.push_back(pid);
  }
  for (auto p : pids) {
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { fprintf(stderr, "runner: worker died\n"); return 2; }
  }
  Stats total;
  std::vector<std::pair<Outcome, std::uint64_t>> viols;
  for (auto f : files) {
    rewind(f);
    std::uint64_t n;
    if (!mergeStats(f, total) || fread(&n, 8, 1, f) != 1) { fprintf(stderr, "runner: bad worker stats\n"); return 2; }
    if (n) {
      Outcome o;
      std::uint64_t lo, k;
      if (fread(&o.run, 8, 1, f) != 1 || fread(&o.hash, 8, 1, f) != 1 || fread(&lo, 8, 1, f) != 1) return 2;
      getStr(f, o.cls);
      getStr(f, o.msg);
      if (fread(&k, 8, 1, f) != 1) return 2;
      o.tape.resize(k);
      if (k && fread(o.tape.data(), 4, k, f) != k) return 2;
      o.violation = true;
      viols.push_back({o, lo});
    }
    fclose(f);
  }
  const double searchWall = wall() - t0;
  int rc = 0;
  std::string vjson = "null";
  if (!viols.empty()) {
    std::sort(viols.begin(), viols.end(), [](const std::pair<Outcome, std::uint64_t> &a, const std::pair<Outcome, std::uint64_t> &b) { return a.first.run < b.first.run; });
    rc = 2;
    std::string why;
    for (auto &v : viols) {
      auto &o = v.first;
      printf("candidate: run=%llu class=%s msg=%s\n", (unsigned long long)o.run, o.cls.c_str(), o.msg.c_str());
      std::vector<Episode> eps{{o.tape}};
      auto a = runEpisodes(eps, false);
      if (!a.violation) {
        // Needs the earlier runs of the same process: replay them as episodes.
        eps.clear();
        const auto lo = v.second;
        for (auto i = lo; i < o.run; i++) {
          std::vector<std::uint32_t> tape;
          auto c = inChild([&](FILE *) {
            Sim s;
            shared->runIndex = i;
            s.beginRecord(runSeed(seed, prop, i));
            executeRun(s, nullptr, i, false);
          }, nullptr);
          eps.push_back({c.tape});
        }
        eps.push_back({o.tape});
        a = runEpisodes(eps, false);
      }
      if (!a.violation) { why += cat("run ", o.run, " (", o.cls, "): did not reproduce; "); continue; }
      auto b = runEpisodes(eps, false);
      if (!sameViolation(a, b) || a.hash != b.hash) { why += cat("run ", o.run, " (", a.cls, "/", b.cls, "): not deterministic; "); continue; }
      int attempts = 0;
      if (a.cls == "hang") hangCpu = 10;
      auto m = a.cls == "hang" ? eps : minimise(eps, a, minCap, attempts);
      auto c = runEpisodes(m, false), d = runEpisodes(m, false);
      if (!sameViolation(a, c) || !sameViolation(a, d) || c.hash != d.hash) { m = eps; c = a; }
      writeReplay(replayPath, prop, seed, o.run, m, c);
      std::size_t len = 0, len0 = 0;
      for (auto &e : m) len += e.tape.size();
      for (auto &e : eps) len0 += e.tape.size();
      vjson = cat("{\"run\":", o.run, ",\"class\":", quote(c.cls), ",\"message\":", quote(c.msg),
                  ",\"hash\":", c.hash, ",\"tape_before\":", len0, ",\"tape_after\":", len,
                  ",\"minimise_attempts\":", attempts, "}");
      printf("violation: class=%s\nmessage: %s\n", c.cls.c_str(), c.msg.c_str());
      rc = 1;
      break;
    }
    if (rc == 2) printf("UNREPRODUCIBLE %s\n", why.c_str());
  }
  if (!out.empty()) {
    std::ofstream f(out);
    f << "{\"runs\":" << total.runs << ",\"steps\":" << total.steps << ",\"reruns\":" << total.reruns
      << ",\"nontrivial\":" << total.nontrivial << ",\"distinct\":" << total.sigs.size()
      << ",\"distinct_logs\":" << total.hashes.size() << ",\"fold\":\"" << total.hashFold << "\""
      << ",\"search_wall\":" << searchWall << ",\"requested\":" << runs << ",\"counters\":{";
    bool firstC = true;
    for (auto &c : total.counters) {
      if (!firstC) f << ",";
      firstC = false;
      f << quote(c.first) << ":" << c.second;
    }
    f << "},\"sample\":" << quote(total.sample) << ",\"violation\":" << vjson << "}\n";
  }
  return rc;
}
