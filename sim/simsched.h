// Deterministic threads: fibers scheduled by the simulator at every memory
// access of instrumented code, a happens-before race detector and a heap that
// notices use after free. Implemented in simsched.cpp, which is also the runtime
// the instrumentation of -fsanitize=thread calls.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sched {

const int kMaxThreads = 5;

/// Called for every scheduling decision: a number in [0, n).
using Decide = std::uint32_t (*)(std::uint32_t n, const char *label);
/// Called on a race, use after free, ...; does not return.
using Report = void (*)(const char *cls, const char *msg);

struct Options {
  int mode = 0; // how often threads are preempted
  Decide decide;
  Report report;
};

using Body = void (*)(void *arg, int thread);
/// Runs `n` simulated threads to completion.
void run(const Options &o, int n, Body body, void *arg);

/// What happened in `run`.
struct Stats {
  std::uint64_t accesses, atomics, switches, steps, races;
};
Stats stats();

/// Code of the harness itself: no preemption, no race detection.
class Quiet {
public:
  Quiet();
  ~Quiet();
};

/// A mutex of the simulated program.
class Mutex {
public:
  void lock();
  void unlock();

private:
  int m_owner = -1;
};

/// Frees what the heap kept to notice use after free.
void endRun();
std::size_t liveBytes();
std::size_t liveBlocks();

} // namespace sched
