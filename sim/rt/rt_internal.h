// Internals shared by the runtime's translation units. Not instrumented.
#pragma once
#include "simrt.h"
#include <atomic>
#include <pthread.h>

namespace sim::rt {

constexpr int NT = MaxThreads + 1; // main + workers + clients

enum class St : uint8_t { Unused, Runnable, Blocked, Idle, Waiting, Done };
enum class Kind : uint8_t { Mem, MemShared, Sync, Task };

struct Thread {
  int id = -1;
  std::atomic<int> go{0};
  St st = St::Unused;
  bool worker = false;
  bool timed = false;
  bool timed_out = false;
  bool created = false;
  bool detached = false;
  int quiet = 0;
  int inrt = 0;
  const void *wait_addr = nullptr;
  const std::atomic<uint64_t> *wait_ref = nullptr; // TBB wait
  int arena = 0;
  void *ctx = nullptr; // current task group context
  uint64_t prio = 0;
  const void *spin_addr = nullptr;
  uint32_t spin_n = 0;
  pthread_t pt{};
  std::function<void()> *fn = nullptr;
  void *(*cfn)(void *) = nullptr;
  void *carg = nullptr;
  void *cret = nullptr;
  uint32_t vc[NT] = {};
};

struct Global {
  Config cfg;
  bool running = false; // inside run()
  bool multi = false;   // more than one active simulated thread
  int nthreads = 0;
  Thread th[NT];
  uint64_t events = 0, steps = 0, hash = 0, sched_hash = 0;
  uint64_t next_preempt = 0;
  uint64_t pct_change[16] = {};
  int pct_n = 0, pct_i = 0;
  uint64_t pct_low = 0;
  int stalled = -1;
  uint64_t stall_until = 0, next_stall = 0;
  uint64_t rng = 0;
  size_t rp = 0; // replay position
  int pending = 0;
  int arena_pending[NT] = {};
  // allocation faults
  bool win = false;
  bool fail_sticky = false;
  bool fired = false;
  int64_t fail_at = -1, nalloc = 0;
  uint64_t live_n = 0, live_b = 0;
  int slots = 4; // max concurrency
};
extern Global G;
extern thread_local Thread *self __attribute__((tls_model("initial-exec")));

uint64_t rnd();
inline uint64_t rnd_n(uint64_t n) { return n <= 1 ? 0 : rnd() % n; }
void mix(uint64_t x);
void point(Kind k);
void block_and_switch(Thread *t);      // t->st set by the caller
void wake(const void *addr);
void yield_now();
void recompute_multi();
uint32_t choose(uint32_t n, uint32_t dflt);
Thread *new_thread(bool worker);
void start_thread(Thread *t);
void thread_finished(Thread *t);

// happens-before
void acquire(const void *addr);
void release(const void *addr);        // join
void release_store(const void *addr);  // replace
void vc_join(uint32_t *dst, const uint32_t *src);
void mem_access(uintptr_t a, size_t n, bool w, bool atomic, void *pc);

// heap
void *heap_alloc(size_t n, size_t al, bool counted);
void heap_free(void *p);
bool in_heap(const void *p);
size_t heap_size(const void *p);
void init_memory();
void *stack_for(int id, size_t *size);

struct Quieted {
  Thread *t;
  Quieted() : t(self) {
    if (t)
      ++t->inrt;
  }
  ~Quieted() {
    if (t)
      --t->inrt;
  }
};
} // namespace sim::rt
