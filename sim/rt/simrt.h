// Deterministic simulator runtime: public interface used by the workloads.
//
// All simulated threads are real threads of which exactly one runs at any time.
// The runtime decides which, at every instrumented memory access, atomic
// operation, lock operation and task operation, from a seeded PRNG or from a
// recorded list of decisions (replay).
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

constexpr int MaxThreads = 16;

struct Choice {
  uint64_t event;
  uint32_t value;
};

enum Policy : int {
  RandomWalk,    // preempt at exponentially distributed gaps
  Pct,           // priorities with few random change points
  Conflict,      // preempt where another thread touched the same bytes
  SyncOnly,      // preempt only at synchronisation and task operations
  Stall,         // random walk with one thread frozen for long windows
  RunToBlock,    // switch only when forced to
  NumPolicies
};

struct Config {
  uint64_t seed = 1;
  int policy = RandomWalk;
  int workers = 4;          // task workers in addition to the submitting thread
  double gap = 200;         // mean number of points between preemptions
  int pct_depth = 3;
  uint64_t pct_len = 100000;
  uint64_t max_steps = 3000000000ull; // progress bound
  uint8_t junk = 0xCB;      // fill pattern of fresh memory
  bool replay = false;      // take decisions from `choices` instead of the PRNG
  std::vector<Choice> choices;
};

enum Fault : int {
  FaultAlloc,          // allocation failed with bad_alloc
  FaultTaskThrow,      // exception thrown inside a parallel task
  FaultStall,          // thread frozen for a window
  FaultPreempt,        // involuntary context switch
  FaultSteal,          // task run by another thread than its spawner
  FaultCancel,         // task cancelled after a failure elsewhere in its group
  FaultCopyThrow,      // element copy/construction threw
  FaultReject,         // operation rejected on validation
  NumFaults
};

/// Result of one run, in memory shared with the parent process.
struct Report {
  int status;            // 0 = not finished, 1 = ok, 2 = violation, 3 = skipped
  char cls[64];          // violation class, stable under minimisation
  char msg[4096];
  uint64_t events;       // scheduling points passed while several threads ran
  uint64_t steps;        // instrumented operations executed
  uint64_t hash;         // hash of every decision and every observed result
  uint64_t sched_hash;   // hash of the interleaving alone
  uint64_t switches;
  uint64_t tasks;
  uint64_t faults[NumFaults];
  uint64_t probes[64];
  uint64_t nchoices;
  uint64_t ndraws;
  static constexpr uint64_t MaxChoices = 400000;
  static constexpr uint64_t MaxDraws = 20000;
  Choice choices[MaxChoices];
  uint32_t draws[MaxDraws];
};
extern Report *report;

/// Run `body` as the main simulated thread and return when it is done. Called
/// once per process, in a forked child.
void run(const Config &cfg, const std::function<void()> &body);

/// Run the given functions as concurrent simulated threads and wait for them.
/// Exceptions must not escape from them.
void concurrently(const std::vector<std::function<void()>> &clients);

/// Report a violation and end the process.
[[noreturn]] void violation(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void skip(const char *why);

/// Mix an observation into the run hash.
void observe(uint64_t x);
void observe(const void *p, size_t n);

int tid();                 // current simulated thread, -1 if none
int workers();             // number of task workers
bool parallel_now();       // several simulated threads are active
uint64_t event();          // global event sequence number
uint32_t choose(uint32_t n);  // scheduling-stream choice, default 0
void point();              // explicit preemption point
void set_workers(int n);   // change the concurrency seen by new regions
void count(Fault f);
void probe(int id);

/// Allocation faults. The window covers all threads.
void fault_window(int64_t fail_at, bool sticky = false);
struct FaultResult {
  int64_t allocations;
  bool fired;
};
FaultResult end_fault_window();
/// Memory owned by instrumented code at this moment.
uint64_t live_blocks();
uint64_t live_bytes();

/// No faults, no preemption, no race recording in this scope: oracle code.
struct Quiet {
  Quiet();
  ~Quiet();
};

/// Deterministic draws that make up the workload.
void set_draws(uint64_t seed, const std::vector<uint32_t> *replay);
uint32_t draw(uint32_t n);
inline int draw_in(int lo, int hi) {
  return lo + static_cast<int>(draw(static_cast<uint32_t>(hi - lo + 1)));
}
inline bool draw_bool(uint32_t one_in = 2) { return draw(one_in) == one_in - 1; }

std::string symbolise(uintptr_t pc);
} // namespace sim
