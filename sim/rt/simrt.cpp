// Scheduler, happens-before detector, heap and fault injection of the
// deterministic simulator. Compiled without instrumentation.
#include "rt_internal.h"

#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" char __executable_start;
extern "C" char _end;
extern "C" char __data_start;

namespace sim {
Report *report = nullptr;
}

namespace sim::rt {

Global G;
thread_local Thread *self __attribute__((tls_model("initial-exec"))) = nullptr;

// ---------------------------------------------------------------- memory map
constexpr uintptr_t ArenaLo = 0x100000000000ull;
constexpr size_t StackSize = 8u << 20;
constexpr size_t StackArea = StackSize * (NT + 1);
constexpr size_t HeapSize = 6ull << 30;
constexpr uintptr_t HeapLo = ArenaLo + StackArea;
constexpr uintptr_t ArenaHi = HeapLo + HeapSize;
constexpr uintptr_t RaceLo = 0x110000000000ull;   // 4 x u64 per 8 bytes
constexpr uintptr_t PcLo = 0x120000000000ull;     // 4 x u32 per 8 bytes
constexpr uintptr_t HeapShLo = 0x130000000000ull; // 1 byte per 8 bytes
constexpr uintptr_t DataRaceLo = 0x140000000000ull;
constexpr uintptr_t DataPcLo = 0x150000000000ull;

static uintptr_t data_lo, data_hi;
static bool mem_ready = false;

static void *map_at(uintptr_t at, size_t n) {
  void *p = mmap(reinterpret_cast<void *>(at), n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (p != reinterpret_cast<void *>(at)) {
    fprintf(stderr, "simrt: cannot map %zx at %lx: %s\n", n, at,
            strerror(errno));
    _exit(70);
  }
  madvise(p, n, MADV_NOHUGEPAGE);
  return p;
}

void init_memory() {
  if (mem_ready)
    return;
  mem_ready = true;
  map_at(ArenaLo, ArenaHi - ArenaLo);
  map_at(RaceLo, (ArenaHi - ArenaLo) * 4);
  map_at(PcLo, (ArenaHi - ArenaLo) * 2);
  map_at(HeapShLo, HeapSize / 8);
  data_lo = reinterpret_cast<uintptr_t>(&__data_start) & ~7ull;
  data_hi = (reinterpret_cast<uintptr_t>(&_end) + 7) & ~7ull;
  map_at(DataRaceLo, ((data_hi - data_lo) * 4 + 8191) & ~4095ull);
  map_at(DataPcLo, ((data_hi - data_lo) * 2 + 8191) & ~4095ull);
}

void *stack_for(int id, size_t *size) {
  *size = StackSize;
  return reinterpret_cast<void *>(ArenaLo + StackSize * id);
}

// ------------------------------------------------------------------- PRNG
uint64_t rnd() { // splitmix64
  uint64_t z = (G.rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static double rnd_unit() { return (rnd() >> 11) * 0x1.0p-53; }
static uint64_t rnd_exp(double mean) {
  return 1 + static_cast<uint64_t>(-std::log(1.0 - rnd_unit()) * mean);
}
static uint64_t hash64(uint64_t h, uint64_t x) {
  h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
void mix(uint64_t x) { G.hash = hash64(G.hash, x); }

// ------------------------------------------------------------------ report
static void finish(int status) {
  auto *r = report;
  r->events = G.events;
  r->steps = G.steps;
  r->hash = hash64(G.hash, G.events);
  r->sched_hash = G.sched_hash;
  r->status = status;
}
static uintptr_t exe_base() {
  return reinterpret_cast<uintptr_t>(&__executable_start);
}

static void backtrace_to(char *buf, size_t n, void *pc) {
  size_t k = snprintf(buf, n, " at +0x%lx",
                      reinterpret_cast<uintptr_t>(pc) - exe_base());
  // Walk frame pointers of the current simulated thread.
  auto *fp = static_cast<uintptr_t *>(__builtin_frame_address(0));
  if (!self)
    return;
  size_t sz;
  const auto lo = reinterpret_cast<uintptr_t>(stack_for(self->id, &sz));
  for (int i = 0; i < 24 && k < n - 32; ++i) {
    const auto f = reinterpret_cast<uintptr_t>(fp);
    if (f < lo || f + 16 > lo + sz || (f & 7))
      break;
    const uintptr_t ret = fp[1];
    if (ret < exe_base() || ret > reinterpret_cast<uintptr_t>(&_end))
      break;
    if (i > 1)
      k += snprintf(buf + k, n - k, " +0x%lx", ret - exe_base());
    if (fp[0] <= f)
      break;
    fp = reinterpret_cast<uintptr_t *>(fp[0]);
  }
}
} // namespace sim::rt

namespace sim {
using namespace rt;

void violation(const char *cls, const char *fmt, ...) {
  G.multi = false;
  snprintf(report->cls, sizeof(report->cls), "%s", cls);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(report->msg, sizeof(report->msg), fmt, ap);
  va_end(ap);
  for (const char *c = cls; *c; ++c)
    mix(static_cast<unsigned char>(*c));
  finish(2);
  _exit(1);
}
void skip(const char *why) {
  G.multi = false;
  snprintf(report->cls, sizeof(report->cls), "skip");
  snprintf(report->msg, sizeof(report->msg), "%s", why);
  finish(3);
  _exit(3);
}
void observe(uint64_t x) { mix(x); }
void observe(const void *p, size_t n) {
  const auto *b = static_cast<const unsigned char *>(p);
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i)
    h = (h ^ b[i]) * 1099511628211ull;
  mix(h);
}
int tid() { return self ? self->id : -1; }
int workers() { return G.cfg.workers; }
bool parallel_now() { return G.multi; }
uint64_t event() { return G.events; }
void count(Fault f) { ++report->faults[f]; }
void probe(int id) { ++report->probes[id]; }
void set_workers(int n) { G.slots = n; }
void point() { rt::point(Kind::Sync); }
uint32_t choose(uint32_t n) { return rt::choose(n, 0); }

static uint64_t draw_rng;
static const std::vector<uint32_t> *draw_replay = nullptr;
static size_t draw_pos;
void set_draws(uint64_t seed, const std::vector<uint32_t> *replay) {
  draw_rng = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
  draw_replay = replay;
  draw_pos = 0;
}
uint32_t draw(uint32_t n) {
  uint32_t v = 0;
  if (draw_replay) {
    if (draw_pos < draw_replay->size())
      v = (*draw_replay)[draw_pos];
    ++draw_pos;
    v = n ? v % n : 0;
  } else {
    uint64_t z = (draw_rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    z ^= z >> 31;
    v = n ? static_cast<uint32_t>(z % n) : 0;
  }
  if (report->ndraws < Report::MaxDraws)
    report->draws[report->ndraws++] = v;
  mix(v);
  return v;
}

void fault_window(int64_t fail_at, bool sticky) {
  G.win = true;
  G.fail_at = fail_at;
  G.fail_sticky = sticky;
  G.fired = false;
  G.nalloc = 0;
}
FaultResult end_fault_window() {
  G.win = false;
  return {G.nalloc, G.fired};
}
uint64_t live_blocks() { return G.live_n; }
uint64_t live_bytes() { return G.live_b; }
Quiet::Quiet() {
  if (self)
    ++self->quiet;
}
Quiet::~Quiet() {
  if (self)
    --self->quiet;
}
} // namespace sim

namespace sim::rt {
// --------------------------------------------------------------- scheduler
static void futex_wait(std::atomic<int> *a, int v) {
  syscall(SYS_futex, reinterpret_cast<int *>(a), FUTEX_WAIT_PRIVATE, v, nullptr,
          nullptr, 0);
}
static void futex_wake(std::atomic<int> *a) {
  syscall(SYS_futex, reinterpret_cast<int *>(a), FUTEX_WAKE_PRIVATE, 1, nullptr,
          nullptr, 0);
}
static void park(Thread *t) {
  while (t->go.load(std::memory_order_acquire) == 0)
    futex_wait(&t->go, 0);
  t->go.store(0, std::memory_order_relaxed);
}
static void unpark(Thread *t) {
  t->go.store(1, std::memory_order_release);
  futex_wake(&t->go);
}

static bool can_run(const Thread &t) {
  switch (t.st) {
  case St::Runnable:
    return true;
  case St::Idle:
    return G.pending > 0;
  case St::Waiting: // in a TBB wait
    return t.wait_ref->load(std::memory_order_relaxed) == 0 ||
           G.arena_pending[t.arena] > 0;
  default:
    return false;
  }
}
static uint32_t candidates(const Thread *except) {
  uint32_t m = 0;
  for (int i = 0; i < G.nthreads; ++i)
    if (&G.th[i] != except && can_run(G.th[i]))
      m |= 1u << i;
  return m;
}
static int nth_bit(uint32_t m, uint32_t n) {
  for (int i = 0; i < 32; ++i)
    if (m >> i & 1 && n-- == 0)
      return i;
  return -1;
}
static int highest_prio(uint32_t m) {
  int best = -1;
  for (int i = 0; i < G.nthreads; ++i)
    if (m >> i & 1 && (best < 0 || G.th[i].prio > G.th[best].prio))
      best = i;
  return best;
}

static void record(uint64_t ev, uint32_t v) {
  auto *r = report;
  if (r->nchoices < Report::MaxChoices)
    r->choices[r->nchoices++] = {ev, v};
  mix(ev * 31 + v);
}

static void go_to(Thread *from, Thread *to) {
  ++report->switches;
  G.sched_hash = hash64(G.sched_hash, (G.events << 5) + to->id);
  mix((G.events << 5) + to->id);
  if (to->st == St::Waiting || to->st == St::Idle)
    to->st = St::Runnable;
  unpark(to);
  park(from);
}

static int pick(uint32_t m) {
  switch (G.cfg.policy) {
  case Pct:
    return highest_prio(m);
  case Stall:
    if (G.stalled >= 0 && (m >> G.stalled & 1) && (m & ~(1u << G.stalled)))
      m &= ~(1u << G.stalled);
    break;
  default:
    break;
  }
  return nth_bit(m, static_cast<uint32_t>(rnd_n(__builtin_popcount(m))));
}

static const Choice *rp_list = nullptr;
static size_t rp_n = 0;
static bool replay_here(uint32_t *v) {
  const auto *c = rp_list;
  while (G.rp < rp_n && c[G.rp].event < G.events)
    ++G.rp;
  if (G.rp < rp_n && c[G.rp].event == G.events) {
    *v = c[G.rp++].value;
    return true;
  }
  return false;
}

void point(Kind k) {
  Thread *t = self;
  if (!G.multi || !t || t->quiet || t->inrt)
    return;
  const uint64_t e = ++G.events;
  if (G.cfg.replay) {
    uint32_t v;
    if (replay_here(&v) && v < 32) {
      const uint32_t m = candidates(t);
      if (m >> v & 1) {
        record(e, v);
        ++report->faults[FaultPreempt];
        go_to(t, &G.th[v]);
      }
    }
    return;
  }
  bool sw = false;
  const bool sync = k == Kind::Sync || k == Kind::Task;
  switch (G.cfg.policy) {
  case RandomWalk:
    sw = e >= G.next_preempt || (sync && rnd_n(4) == 0);
    break;
  case Stall:
    if (e >= G.next_stall) {
      G.stalled = static_cast<int>(rnd_n(G.nthreads));
      const uint64_t len = rnd_exp(std::exp(5.0 + 6.0 * rnd_unit()));
      G.stall_until = e + len;
      G.next_stall = e + len + rnd_exp(static_cast<double>(len));
      if (G.th[G.stalled].st == St::Runnable ||
          G.th[G.stalled].st == St::Waiting)
        ++report->faults[FaultStall];
      sw = G.stalled == t->id;
    } else if (e >= G.stall_until)
      G.stalled = -1;
    sw = sw || e >= G.next_preempt || (sync && rnd_n(4) == 0);
    break;
  case Conflict:
    sw = (k == Kind::MemShared && rnd_n(2)) || (sync && rnd_n(2)) ||
         e >= G.next_preempt;
    if (report->switches > 20000)
      sw = e >= G.next_preempt;
    break;
  case SyncOnly:
    sw = sync && rnd_n(2) == 0;
    break;
  case Pct:
    if (G.pct_i < G.pct_n && e >= G.pct_change[G.pct_i]) {
      ++G.pct_i;
      t->prio = --G.pct_low;
      sw = true;
    } else
      sw = sync;
    if (sw) {
      const uint32_t m = candidates(t);
      const int h = m ? highest_prio(m) : -1;
      sw = h >= 0 && G.th[h].prio > t->prio;
    }
    break;
  case RunToBlock:
    break;
  }
  if (e >= G.next_preempt)
    G.next_preempt = e + rnd_exp(G.cfg.gap);
  if (!sw)
    return;
  const uint32_t m = candidates(t);
  if (!m)
    return;
  const int v = pick(m);
  record(e, v);
  ++report->faults[FaultPreempt];
  go_to(t, &G.th[v]);
}

// The current thread cannot continue: run somebody else.
void block_and_switch(Thread *t) {
  ++G.events;
  const uint32_t m = candidates(t);
  if (!m) {
    // Nothing can run: let a timed wait expire, if there is one.
    for (int i = 0; i < G.nthreads; ++i)
      if (G.th[i].st == St::Blocked && G.th[i].timed) {
        G.th[i].timed_out = true;
        G.th[i].st = St::Runnable;
        if (&G.th[i] == t)
          return;
        go_to(t, &G.th[i]);
        return;
      }
    if (can_run(*t)) {
      t->st = St::Runnable;
      return;
    }
    char buf[512];
    size_t k = 0;
    for (int i = 0; i < G.nthreads; ++i)
      k += snprintf(buf + k, sizeof(buf) - k, " t%d:%s", i,
                    G.th[i].st == St::Idle      ? "idle"
                    : G.th[i].st == St::Done    ? "done"
                    : G.th[i].st == St::Waiting ? "waiting-for-tasks"
                                                : "blocked");
    char bt[512];
    backtrace_to(bt, sizeof(bt), __builtin_return_address(0));
    violation("deadlock", "no simulated thread can run:%s; last%s", buf, bt);
  }
  int v = -1;
  if (G.cfg.replay) {
    uint32_t c;
    if (replay_here(&c) && c < 32 && (m >> c & 1))
      v = static_cast<int>(c);
    else
      v = __builtin_ctz(m);
  } else
    v = pick(m);
  if (v != __builtin_ctz(m))
    record(G.events, v);
  go_to(t, &G.th[v]);
}

void yield_now() {
  Thread *t = self;
  if (!G.multi || !t || t->quiet || t->inrt)
    return;
  ++G.events;
  const uint32_t m = candidates(t);
  if (!m)
    return;
  // Default: the next thread in cyclic order, so that a spinning thread always
  // lets everybody else run eventually.
  uint32_t above = m & ~((2u << t->id) - 1);
  const int dflt = __builtin_ctz(above ? above : m);
  int v = dflt;
  if (G.cfg.replay) {
    uint32_t c;
    if (replay_here(&c) && c < 32 && (m >> c & 1))
      v = static_cast<int>(c);
  } else if (G.cfg.policy != Pct && rnd_n(2))
    v = pick(m);
  if (v != dflt)
    record(G.events, v);
  go_to(t, &G.th[v]);
}

uint32_t choose(uint32_t n, uint32_t dflt) {
  ++G.events;
  if (n <= 1)
    return 0;
  uint32_t v = dflt;
  if (G.cfg.replay) {
    uint32_t c;
    if (replay_here(&c) && c < n)
      v = c;
  } else
    v = static_cast<uint32_t>(rnd_n(n));
  if (v != dflt)
    record(G.events, v);
  return v;
}

void wake(const void *addr) {
  for (int i = 0; i < G.nthreads; ++i)
    if (G.th[i].st == St::Blocked && G.th[i].wait_addr == addr)
      G.th[i].st = St::Runnable;
}

void recompute_multi() {
  int n = 0;
  for (int i = 0; i < G.nthreads; ++i)
    n += G.th[i].st != St::Unused && G.th[i].st != St::Done &&
         G.th[i].st != St::Idle;
  G.multi = n > 1 || G.pending > 0;
}

static void *thread_main(void *p) {
  auto *t = static_cast<Thread *>(p);
  self = t;
  park(t);
  for (;;) {
    if (t->fn)
      (*t->fn)();
    else
      t->cret = t->cfn(t->carg);
    thread_finished(t); // returns when the slot is used again
  }
}

Thread *new_thread(bool worker) {
  Thread *t = nullptr;
  for (int i = 0; i < G.nthreads && !t; ++i)
    if (G.th[i].st == St::Done && G.th[i].detached && !G.th[i].worker)
      t = &G.th[i];
  if (!t) {
    if (G.nthreads >= NT)
      skip("more simulated threads than supported");
    t = &G.th[G.nthreads];
    t->id = G.nthreads++;
  }
  t->worker = worker;
  t->detached = false;
  t->quiet = t->inrt = 0;
  t->arena = t->id;
  t->ctx = nullptr;
  t->prio = (1ull << 40) + (rnd() >> 30);
  return t;
}

void start_thread(Thread *t) {
  t->st = t->worker ? St::Idle : St::Runnable;
  ++t->vc[t->id];
  if (self) { // everything so far happens before the new thread
    vc_join(t->vc, self->vc);
    ++self->vc[self->id];
  }
  if (t->created)
    return;
  t->created = true;
  pthread_attr_t at;
  pthread_attr_init(&at);
  size_t sz;
  void *st = stack_for(t->id, &sz);
  pthread_attr_setstack(&at, st, sz);
  using F = int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *),
                    void *);
  static const F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_create"));
  if (real(&t->pt, &at, thread_main, t) != 0) {
    fprintf(stderr, "simrt: pthread_create failed\n");
    _exit(70);
  }
  pthread_attr_destroy(&at);
}

static std::atomic<int> all_done{0};
static void release_always(const void *a);

void thread_finished(Thread *t) {
  t->st = St::Done;
  release_always(t);
  wake(t);
  if (t->id == 0) {
    G.running = false;
    finish(1);
    all_done.store(1);
    futex_wake(&all_done);
    for (;;)
      pause();
  }
  recompute_multi();
  block_and_switch(t);
}

static void worker_loop();
} // namespace sim::rt

namespace sim::tbbsim {
void run_one(); // executes one pending task chosen by the scheduler
}

namespace sim::rt {
static void worker_loop() {
  Thread *t = self;
  for (;;) {
    while (G.pending == 0) {
      t->st = St::Idle;
      recompute_multi();
      block_and_switch(t);
      t->st = St::Runnable;
    }
    tbbsim::run_one();
  }
}

static void on_signal(int sig, siginfo_t *si, void *uc) {
  auto *r = report;
  const auto *ctx = static_cast<ucontext_t *>(uc);
  const uintptr_t pc = ctx->uc_mcontext.gregs[REG_RIP];
  char bt[700];
  backtrace_to(bt, sizeof(bt), reinterpret_cast<void *>(pc));
  G.multi = false;
  snprintf(r->cls, sizeof(r->cls), "%s",
           sig == SIGABRT ? "terminate" : "crash");
  const auto fault = reinterpret_cast<uintptr_t>(si->si_addr);
  snprintf(r->msg, sizeof(r->msg), "signal %d%s%s", sig,
           sig == SIGSEGV && fault < 4096 ? " (null dereference)" : "", bt);
  mix(sig);
  finish(2);
  _exit(1);
}
} // namespace sim::rt

namespace sim {
void run(const Config &cfg, const std::function<void()> &body) {
  init_memory();
  G.cfg = cfg;
  G.rng = cfg.seed ^ 0xd1b54a32d192ed03ull;
  G.hash = cfg.seed;
  G.sched_hash = 0;
  G.events = G.steps = 0;
  G.slots = cfg.workers + 1;
  G.rp = 0;
  rp_list = G.cfg.choices.data();
  rp_n = G.cfg.choices.size();
  G.next_preempt = rnd_exp(cfg.gap);
  G.next_stall = rnd_exp(cfg.gap);
  G.pct_low = 1ull << 39;
  G.pct_n = cfg.pct_depth > 16 ? 16 : cfg.pct_depth;
  for (int i = 0; i < G.pct_n; ++i) {
    G.pct_change[i] = 1 + rnd_n(cfg.pct_len);
    for (int j = i; j > 0 && G.pct_change[j] < G.pct_change[j - 1]; --j)
      std::swap(G.pct_change[j], G.pct_change[j - 1]);
  }
  struct sigaction sa {};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_RESETHAND;
  for (const int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
    sigaction(s, &sa, nullptr);
  G.running = true;
  std::function<void()> fn(body);
  auto *main = new_thread(false);
  main->fn = &fn;
  start_thread(main);
  static std::function<void()> loop([] { worker_loop(); });
  for (int i = 0; i < cfg.workers; ++i) {
    auto *w = new_thread(true);
    w->fn = &loop;
    start_thread(w);
  }
  unpark(main);
  while (all_done.load() == 0)
    futex_wait(&all_done, 0);
}

void concurrently(const std::vector<std::function<void()>> &clients) {
  Thread *t = self;
  Thread *ts[NT];
  int n = 0;
  ++t->inrt; // our own allocations are not subject to faults
  std::vector<std::function<void()>> fns(clients);
  --t->inrt;
  for (auto &f : fns) {
    auto *c = new_thread(false);
    c->fn = &f;
    ts[n++] = c;
    start_thread(c);
  }
  recompute_multi();
  for (int i = 0; i < n; ++i) {
    while (ts[i]->st != St::Done) {
      t->st = St::Blocked;
      t->wait_addr = ts[i];
      block_and_switch(t);
      t->st = St::Runnable;
    }
    acquire(ts[i]);
  }
  for (int i = 0; i < n; ++i)
    ts[i]->detached = true;
  recompute_multi();
}
} // namespace sim

namespace sim::rt {
// ----------------------------------------------------------- happens-before
struct SyncObj {
  uintptr_t addr;
  int16_t owner; // mutex or writer, -1 = free
  uint16_t readers;
  uint16_t depth;
  uint32_t vc[NT];
  uint32_t rvc[NT];
};
constexpr size_t SyncN = 1u << 18;
static SyncObj *sync_tab = nullptr;
static size_t sync_used = 0;

static SyncObj *sync_obj(const void *a, bool insert = true) {
  if (!sync_tab)
    sync_tab = static_cast<SyncObj *>(
        mmap(nullptr, SyncN * sizeof(SyncObj), PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  const auto u = reinterpret_cast<uintptr_t>(a);
  size_t i = (u >> 2) * 0x9e3779b97f4a7c15ull >> 46;
  for (;; i = (i + 1) & (SyncN - 1)) {
    auto *s = &sync_tab[i];
    if (s->addr == u)
      return s;
    if (s->addr == 0) {
      if (!insert)
        return nullptr;
      if (++sync_used > SyncN * 3 / 4)
        skip("too many synchronisation objects");
      s->addr = u;
      s->owner = -1;
      return s;
    }
  }
}
void vc_join(uint32_t *d, const uint32_t *s) {
  for (int i = 0; i < NT; ++i)
    if (s[i] > d[i])
      d[i] = s[i];
}
static void release_always(const void *a) {
  vc_join(sync_obj(a)->vc, self->vc);
  ++self->vc[self->id];
}
void acquire(const void *a) {
  if (self)
    if (const auto *s = sync_obj(a, false))
      vc_join(self->vc, s->vc);
}
// While only one thread is active nobody can be waiting to see its writes: new
// tasks and threads inherit its clock when they are created.
void release(const void *a) {
  if (!self || !G.multi)
    return;
  release_always(a);
}
void release_store(const void *a) {
  if (!self || !G.multi)
    return;
  memcpy(sync_obj(a)->vc, self->vc, sizeof(self->vc));
  ++self->vc[self->id];
}

// slot: epoch:32 | tid:8 | flags:8 | mask:8
static inline uint64_t pack(uint32_t ep, int tid, bool w, bool at,
                            unsigned mask) {
  return static_cast<uint64_t>(ep) << 32 | static_cast<uint64_t>(tid + 1) << 24 |
         static_cast<uint64_t>(w | at << 1) << 16 | mask;
}
static uint32_t evict;

[[noreturn]] static void race(uintptr_t a, uint64_t prev, uint32_t prevpc,
                              bool w, void *pc) {
  char bt[800];
  backtrace_to(bt, sizeof(bt), pc);
  violation("race",
            "data race on %s memory: %s by thread %d%s; unordered with %s by "
            "thread %d at +0x%x",
            a >= HeapLo && a < ArenaHi      ? "heap"
            : a >= ArenaLo && a < ArenaHi ? "stack"
                                          : "static",
            w ? "write" : "read", self->id, bt,
            (prev >> 16 & 1) ? "write" : "read",
            static_cast<int>(prev >> 24 & 0xff) - 1, prevpc);
}

// returns true if another thread has touched these bytes
static bool granule(uint64_t *s, uint32_t *pcs, uintptr_t a, unsigned mask,
                    bool w, bool at, void *pc) {
  Thread *t = self;
  const uint64_t me = pack(t->vc[t->id], t->id, w, at, mask);
  const auto mypc =
      static_cast<uint32_t>(reinterpret_cast<uintptr_t>(pc) - exe_base());
  bool stored = false;
  bool shared = false;
  int free_slot = -1;
  for (int i = 0; i < 4; ++i) {
    const uint64_t v = s[i];
    if (!v) {
      if (free_slot < 0)
        free_slot = i;
      continue;
    }
    const int vt = static_cast<int>(v >> 24 & 0xff) - 1;
    const unsigned vmask = v & 0xff;
    const bool vw = v >> 16 & 1;
    const bool vat = v >> 17 & 1;
    if (vt == t->id) {
      if (!(vmask & ~mask) && (w || !vw) && (!at || vat)) {
        // the new access subsumes the old one
        if (stored)
          s[i] = 0;
        else {
          s[i] = me;
          pcs[i] = mypc;
          stored = true;
        }
      } else if (!stored && static_cast<uint32_t>(v >> 32) == t->vc[t->id] &&
                 !(mask & ~vmask) && (vw || !w) && (!vat || at))
        stored = true; // already covered in this epoch
      continue;
    }
    if (!(vmask & mask))
      continue;
    const bool ordered = static_cast<uint32_t>(v >> 32) <= t->vc[vt];
    if (!ordered) {
      shared = true;
      if ((w || vw) && !(at && vat))
        race(a, v, pcs[i], w, pc);
    } else if (w && !(vmask & ~mask) && !at) {
      if (stored)
        s[i] = 0;
      else {
        s[i] = me;
        pcs[i] = mypc;
        stored = true;
      }
    }
  }
  if (!stored) {
    const int i = free_slot >= 0 ? free_slot : static_cast<int>(evict++ & 3);
    s[i] = me;
    pcs[i] = mypc;
  }
  return shared;
}

static inline bool shadow_of(uintptr_t a, uint64_t **s, uint32_t **p) {
  if (a >= ArenaLo && a < ArenaHi) {
    const uintptr_t g = (a - ArenaLo) >> 3;
    *s = reinterpret_cast<uint64_t *>(RaceLo) + g * 4;
    *p = reinterpret_cast<uint32_t *>(PcLo) + g * 4;
    return true;
  }
  if (a >= data_lo && a < data_hi) {
    const uintptr_t g = (a - data_lo) >> 3;
    *s = reinterpret_cast<uint64_t *>(DataRaceLo) + g * 4;
    *p = reinterpret_cast<uint32_t *>(DataPcLo) + g * 4;
    return true;
  }
  return false;
}

[[noreturn]] static void bad_memory(uintptr_t, size_t n, bool w, uint8_t sh,
                                    void *pc) {
  char bt[800];
  backtrace_to(bt, sizeof(bt), pc);
  violation(sh == 0xFD ? "use-after-free" : "out-of-bounds",
            "%s of %zu bytes in %s heap memory%s", w ? "write" : "read", n,
            sh == 0xFD ? "freed" : "unallocated", bt);
}

static inline void check_heap(uintptr_t a, size_t n, bool w, void *pc) {
  const auto *sh = reinterpret_cast<const uint8_t *>(HeapShLo);
  const uintptr_t lo = a - HeapLo;
  const uintptr_t hi = lo + n - 1;
  for (uintptr_t g = lo >> 3; g <= hi >> 3; ++g) {
    const uint8_t v = sh[g];
    if (v == 8)
      continue;
    const unsigned last = g == hi >> 3 ? (hi & 7) : 7;
    if (v > 8 || last >= v)
      bad_memory(a, n, w, v, pc);
  }
}

// Called before the access is performed.
void mem_access(uintptr_t a, size_t n, bool w, bool at, void *pc) {
  Thread *t = self;
  if (!t || !G.running || t->inrt || n == 0)
    return;
  if (++G.steps > G.cfg.max_steps)
    violation("no-progress", "exceeded %lu instrumented steps",
              static_cast<unsigned long>(G.cfg.max_steps));
  const bool heap = a >= HeapLo && a < ArenaHi;
  if (heap)
    check_heap(a, n, w, pc);
  else if (a < 4096)
    return; // faults right away
  if (!G.multi || t->quiet)
    return;
  uint64_t *s;
  uint32_t *p;
  if (!shadow_of(a, &s, &p)) {
    return;
  }
  if (!at) {
    // A preemption before the access, more likely on contended bytes.
    bool shared = false;
    for (int i = 0; i < 4 && !shared; ++i) {
      const uint64_t v = s[i];
      shared = v && static_cast<int>(v >> 24 & 0xff) - 1 != t->id &&
               static_cast<uint32_t>(v >> 32) >
                   t->vc[static_cast<int>(v >> 24 & 0xff) - 1];
    }
    const bool own_stack = a >= ArenaLo + StackSize * t->id &&
                           a < ArenaLo + StackSize * (t->id + 1);
    if (shared || !own_stack)
      point(shared ? Kind::MemShared : Kind::Mem);
    if (heap)
      check_heap(a, n, w, pc);
  }
  uintptr_t x = a;
  const uintptr_t end = a + n;
  while (x < end) {
    const uintptr_t g = x & ~7ull;
    const unsigned lo = x & 7;
    const unsigned hi = end - g >= 8 ? 8 : static_cast<unsigned>(end - g);
    const unsigned mask = (0xffu >> (8 - (hi - lo))) << lo;
    granule(s, p, x, mask, w, at, pc);
    s += 4;
    p += 4;
    x = g + 8;
  }
}

// -------------------------------------------------------------------- heap
struct Hdr {
  uint64_t size;
  uint32_t cls;
  uint32_t flags; // 1 = counted
  uint64_t back;
  uint64_t magic;
};
struct FreeNode {
  FreeNode *next;
};
constexpr int NCls = 140;
static uintptr_t brk_ = 0;
struct Fifo {
  FreeNode *head, *tail;
  uint64_t bytes;
};
static Fifo bins[NCls];
static Fifo quarantine[2]; // small, large
static uint32_t free_vc[NT];

static size_t class_size(int c) { // 4 classes per doubling, from 64
  const int d = c / 4;
  const int r = c % 4;
  return (64ull << d) + (16ull << d) * r;
}
static int class_for(size_t n) {
  int c = 0;
  while (class_size(c) < n)
    ++c;
  return c;
}
bool in_heap(const void *p) {
  const auto u = reinterpret_cast<uintptr_t>(p);
  return u >= HeapLo && u < ArenaHi;
}
static void push(Fifo &f, FreeNode *n) {
  n->next = nullptr;
  if (f.tail)
    f.tail->next = n;
  else
    f.head = n;
  f.tail = n;
}
static FreeNode *pop(Fifo &f) {
  auto *n = f.head;
  if (n) {
    f.head = n->next;
    if (!f.head)
      f.tail = nullptr;
  }
  return n;
}
static void set_shadow(uintptr_t user, size_t n) {
  auto *sh = reinterpret_cast<uint8_t *>(HeapShLo) + ((user - HeapLo) >> 3);
  memset(sh, 8, n / 8);
  if (n % 8)
    sh[n / 8] = n % 8;
}

static void *raw_alloc(size_t n, size_t al, bool counted) {
  init_memory();
  if (al < 16)
    al = 16;
  const size_t need = sizeof(Hdr) + ((n + 7) & ~7ull) + 24 + (al > 16 ? al : 0);
  const int c = class_for(need);
  auto *node = pop(bins[c]);
  uintptr_t base;
  if (node) {
    base = reinterpret_cast<uintptr_t>(node) - 0;
    if (self)
      vc_join(self->vc, free_vc);
  } else {
    if (!brk_)
      brk_ = HeapLo + 64;
    base = brk_;
    if (brk_ + class_size(c) > ArenaHi)
      skip("simulated heap exhausted");
    brk_ += class_size(c);
  }
  const uintptr_t user = (base + sizeof(Hdr) + al - 1) & ~(al - 1);
  auto *h = reinterpret_cast<Hdr *>(user - sizeof(Hdr));
  h->size = n;
  h->cls = c;
  h->flags = counted;
  h->back = user - base;
  h->magic = 0x51ab1e5eed5eed51ull;
  set_shadow(user, n);
  memset(reinterpret_cast<void *>(user), G.cfg.junk, n);
  return reinterpret_cast<void *>(user);
}

void *heap_alloc(size_t n, size_t al, bool counted) {
  if (n > (3ull << 30))
    return nullptr;
  Thread *t = self;
  if (counted && t && G.win && !t->quiet && !t->inrt) {
    const int64_t i = G.nalloc++;
    if (G.fail_at >= 0 &&
        (i == G.fail_at || (G.fail_sticky && i > G.fail_at))) {
      G.fired = true;
      ++report->faults[FaultAlloc];
      mix(0xA110C + i);
      return nullptr;
    }
  }
  auto *p = raw_alloc(n, al, counted);
  if (counted) {
    ++G.live_n;
    G.live_b += n;
  }
  return p;
}

static void recycle(FreeNode *node, int c) { push(bins[c], node); }

struct QNode { // stored in the freed block
  FreeNode link;
  uint64_t bytes;
  uint32_t cls;
};

void heap_free(void *p) {
  if (!p)
    return;
  const auto user = reinterpret_cast<uintptr_t>(p);
  auto *h = reinterpret_cast<Hdr *>(user - sizeof(Hdr));
  if (h->magic != 0x51ab1e5eed5eed51ull) {
    char bt[700];
    backtrace_to(bt, sizeof(bt), __builtin_return_address(0));
    violation(h->magic == 0xdeaddeaddeaddeadull ? "double-free" : "bad-free",
              "free of memory that is not allocated%s", bt);
  }
  Thread *t = self;
  if (t && G.multi && G.running && !t->quiet && !t->inrt) {
    // Freeing conflicts with every unordered access.
    const size_t n = h->size;
    if (n <= 4096)
      mem_access(user, n, true, false, __builtin_return_address(0));
    else {
      mem_access(user, 512, true, false, __builtin_return_address(0));
      mem_access(user + n - 512, 512, true, false, __builtin_return_address(0));
    }
  }
  if (t) {
    vc_join(free_vc, t->vc);
    ++t->vc[t->id];
  }
  h->magic = 0xdeaddeaddeaddeadull;
  if (h->flags & 1) {
    --G.live_n;
    G.live_b -= h->size;
  }
  const int c = static_cast<int>(h->cls);
  const uintptr_t base = user - h->back;
  memset(reinterpret_cast<uint8_t *>(HeapShLo) + ((user - HeapLo) >> 3), 0xFD,
         (h->size + 7) / 8);
  const size_t bytes = class_size(c);
  // Keep freed blocks unused for a while so that late accesses are seen.
  auto *q = reinterpret_cast<QNode *>(base);
  const bool clobbers = h->back < sizeof(QNode) + sizeof(Hdr);
  (void)clobbers; // the header is rebuilt on reuse
  q->bytes = bytes;
  q->cls = c;
  const int big = bytes >= 32768;
  auto &Q = quarantine[big];
  push(Q, &q->link);
  Q.bytes += bytes;
  while (Q.bytes > (big ? 48u << 20 : 8u << 20)) {
    auto *n = reinterpret_cast<QNode *>(pop(Q));
    Q.bytes -= n->bytes;
    recycle(&n->link, static_cast<int>(n->cls));
  }
}
size_t heap_size(const void *p) {
  return reinterpret_cast<const Hdr *>(reinterpret_cast<uintptr_t>(p) -
                                       sizeof(Hdr))
      ->size;
}

// ---------------------------------------------------------------- interposed
static SyncObj *so(const void *p) { return sync_obj(p); }
static void block_on(Thread *t, const void *a) {
  t->st = St::Blocked;
  t->wait_addr = a;
  block_and_switch(t);
  t->st = St::Runnable;
}
static bool sim_on() { return self && G.running; }
} // namespace sim::rt

using namespace sim;
using namespace sim::rt;

extern "C" {
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  memset(static_cast<void *>(m), 0, sizeof(*m));
  if (a)
    m->__data.__kind = *reinterpret_cast<const int *>(a) & 3;
  if (sim_on()) {
    auto *s = so(m);
    s->owner = -1;
    s->depth = 0;
  }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (sim_on() && so(m)->owner >= 0)
    violation("lock-misuse", "mutex destroyed while locked");
  return 0;
}
static int mutex_lock(pthread_mutex_t *m, bool wait) {
  if (!sim_on())
    return 0;
  Thread *t = self;
  rt::point(Kind::Sync);
  auto *s = so(m);
  const bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
  if (s->owner == t->id && recursive) {
    ++s->depth;
    return 0;
  }
  while (s->owner >= 0) {
    if (!wait)
      return EBUSY;
    block_on(t, m);
  }
  s->owner = static_cast<int16_t>(t->id);
  s->depth = 1;
  vc_join(t->vc, s->vc);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { return mutex_lock(m, true); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return mutex_lock(m, false); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) {
  return mutex_lock(m, true);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!sim_on())
    return 0;
  auto *s = so(m);
  if (s->owner != self->id)
    violation("lock-misuse", "unlock of a mutex the thread does not hold");
  if (--s->depth)
    return 0;
  vc_join(s->vc, self->vc);
  ++self->vc[self->id];
  s->owner = -1;
  wake(m);
  rt::point(Kind::Sync);
  return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) {
  memset(static_cast<void *>(l), 0, sizeof(*l));
  if (sim_on()) {
    auto *s = so(l);
    s->owner = -1;
    s->readers = 0;
  }
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l) {
  if (sim_on() && (so(l)->owner >= 0 || so(l)->readers))
    violation("lock-misuse", "rwlock destroyed while locked");
  return 0;
}
static int rd(pthread_rwlock_t *l, bool wait) {
  if (!sim_on())
    return 0;
  Thread *t = self;
  rt::point(Kind::Sync);
  auto *s = so(l);
  while (s->owner >= 0) {
    if (!wait)
      return EBUSY;
    block_on(t, l);
  }
  ++s->readers;
  vc_join(t->vc, s->vc);
  return 0;
}
static int wr(pthread_rwlock_t *l, bool wait) {
  if (!sim_on())
    return 0;
  Thread *t = self;
  rt::point(Kind::Sync);
  auto *s = so(l);
  while (s->owner >= 0 || s->readers) {
    if (!wait)
      return EBUSY;
    block_on(t, l);
  }
  s->owner = static_cast<int16_t>(t->id);
  vc_join(t->vc, s->vc);
  vc_join(t->vc, s->rvc);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rd(l, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rd(l, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return wr(l, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return wr(l, false); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const struct timespec *) {
  return rd(l, true);
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const struct timespec *) {
  return wr(l, true);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!sim_on())
    return 0;
  auto *s = so(l);
  if (s->owner == self->id) {
    vc_join(s->vc, self->vc);
    s->owner = -1;
  } else if (s->readers) {
    vc_join(s->rvc, self->vc);
    --s->readers;
  } else
    violation("lock-misuse", "unlock of a rwlock nobody holds");
  ++self->vc[self->id];
  wake(l);
  rt::point(Kind::Sync);
  return 0;
}
int pthread_spin_init(pthread_spinlock_t *, int) { return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) {
  if (!sim_on())
    return 0;
  rt::point(Kind::Sync);
  auto *s = so(const_cast<int *>(l));
  while (s->owner >= 0)
    block_on(self, const_cast<int *>(l));
  s->owner = static_cast<int16_t>(self->id);
  vc_join(self->vc, s->vc);
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t *l) {
  if (!sim_on())
    return 0;
  auto *s = so(const_cast<int *>(l));
  vc_join(s->vc, self->vc);
  ++self->vc[self->id];
  s->owner = -1;
  wake(const_cast<int *>(l));
  rt::point(Kind::Sync);
  return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) {
  memset(static_cast<void *>(c), 0, sizeof(*c));
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
  if (!sim_on())
    abort();
  Thread *t = self;
  t->st = St::Blocked; // registered before the mutex is released
  t->wait_addr = c;
  t->timed = timed;
  t->timed_out = false;
  auto *s = so(m);
  vc_join(s->vc, t->vc);
  ++t->vc[t->id];
  s->owner = -1;
  wake(m);
  block_and_switch(t);
  t->st = St::Runnable;
  t->timed = false;
  const bool out = t->timed_out;
  t->timed_out = false;
  mutex_lock(m, true);
  return out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  return cond_wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                           const struct timespec *) {
  return cond_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t,
                           const struct timespec *) {
  return cond_wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!sim_on())
    return 0;
  uint32_t m = 0;
  for (int i = 0; i < G.nthreads; ++i)
    if (G.th[i].st == St::Blocked && G.th[i].wait_addr == c)
      m |= 1u << i;
  if (m) {
    uint32_t k = rt::choose(__builtin_popcount(m), 0);
    for (int i = 0; i < 32; ++i)
      if (m >> i & 1 && k-- == 0)
        G.th[i].st = St::Runnable;
  }
  rt::point(Kind::Sync);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!sim_on())
    return 0;
  wake(c);
  rt::point(Kind::Sync);
  return 0;
}
int pthread_once(pthread_once_t *o, void (*f)()) {
  if (!sim_on()) {
    if (*o != 2) {
      f();
      *o = 2;
    }
    return 0;
  }
  rt::point(Kind::Sync);
  while (*o == 1)
    block_on(self, const_cast<const int *>(o));
  acquire(const_cast<const int *>(o));
  if (*o == 2)
    return 0;
  *o = 1;
  struct Undo {
    pthread_once_t *p;
    bool ok = false;
    ~Undo() {
      *p = ok ? 2 : 0;
      release_always(const_cast<const int *>(p));
      wake(const_cast<const int *>(p));
    }
  } u{o};
  f();
  u.ok = true;
  return 0;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*f)(void *),
                   void *arg) {
  if (!sim_on()) {
    using F = int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *),
                      void *);
    static const F real =
        reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_create"));
    return real(pt, at, f, arg);
  }
  auto *t = new_thread(false);
  t->fn = nullptr;
  t->cfn = f;
  t->carg = arg;
  start_thread(t);
  *pt = reinterpret_cast<pthread_t>(t);
  recompute_multi();
  rt::point(Kind::Sync);
  return 0;
}
int pthread_join(pthread_t pt, void **ret) {
  auto *t = reinterpret_cast<Thread *>(pt);
  while (t->st != St::Done)
    block_on(self, t);
  acquire(t);
  t->detached = true;
  recompute_multi();
  if (ret)
    *ret = t->cret;
  return 0;
}
int pthread_detach(pthread_t pt) {
  reinterpret_cast<Thread *>(pt)->detached = true;
  return 0;
}
int sched_yield() {
  if (sim_on())
    yield_now();
  return 0;
}
int nanosleep(const struct timespec *, struct timespec *) {
  if (sim_on())
    yield_now();
  return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec *,
                    struct timespec *) {
  if (sim_on())
    yield_now();
  return 0;
}
int usleep(useconds_t) {
  if (sim_on())
    yield_now();
  return 0;
}

// function-local statics
int __cxa_guard_acquire(uint64_t *g) {
  auto *b = reinterpret_cast<volatile uint8_t *>(g);
  if (!sim_on()) {
    return b[0] ? 0 : (b[1] = 1, 1);
  }
  rt::point(Kind::Sync);
  while (!b[0] && b[1])
    block_on(self, g);
  acquire(g);
  if (b[0])
    return 0;
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t *g) {
  auto *b = reinterpret_cast<volatile uint8_t *>(g);
  if (sim_on())
    release_always(g);
  b[0] = 1;
  b[1] = 0;
  if (sim_on()) {
    wake(g);
    rt::point(Kind::Sync);
  }
}
void __cxa_guard_abort(uint64_t *g) {
  auto *b = reinterpret_cast<volatile uint8_t *>(g);
  b[1] = 0;
  if (sim_on()) {
    release_always(g);
    wake(g);
  }
}

// gmtime returns a pointer to memory shared by all callers
struct tm *__real_gmtime(const time_t *);
struct tm *__wrap_gmtime(const time_t *t) {
  static struct tm shared;
  if (sim_on()) {
    rt::point(Kind::Sync);
    mem_access(reinterpret_cast<uintptr_t>(&shared), sizeof(shared), true,
               false, __builtin_return_address(0));
  }
  struct tm tmp;
  gmtime_r(t, &tmp);
  shared = tmp;
  if (sim_on())
    rt::point(Kind::Sync);
  return &shared;
}

// ------------------------------------------------------------- malloc family
void *__wrap_malloc(size_t n) { return heap_alloc(n, 16, true); }
void *__wrap_calloc(size_t a, size_t b) {
  auto *p = heap_alloc(a * b, 16, true);
  if (p)
    memset(p, 0, a * b);
  return p;
}
void *__wrap_aligned_alloc(size_t al, size_t n) {
  return heap_alloc(n, al, true);
}
int __wrap_posix_memalign(void **p, size_t al, size_t n) {
  *p = heap_alloc(n, al, true);
  return *p ? 0 : ENOMEM;
}
void __real_free(void *);
void __wrap_free(void *p) {
  if (in_heap(p))
    heap_free(p);
  else
    __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
  auto *q = heap_alloc(n, 16, true);
  if (q && p) {
    memcpy(q, p, heap_size(p) < n ? heap_size(p) : n);
    heap_free(p);
  }
  return q;
}

// ------------------------------------------------------ instrumentation hooks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define RW(n)                                                                  \
  void __tsan_read##n(void *p) {                                               \
    mem_access(reinterpret_cast<uintptr_t>(p), n, false, false, PC);           \
  }                                                                            \
  void __tsan_write##n(void *p) {                                              \
    mem_access(reinterpret_cast<uintptr_t>(p), n, true, false, PC);            \
  }                                                                            \
  void __tsan_unaligned_read##n(void *p) {                                     \
    mem_access(reinterpret_cast<uintptr_t>(p), n, false, false, PC);           \
  }                                                                            \
  void __tsan_unaligned_write##n(void *p) {                                    \
    mem_access(reinterpret_cast<uintptr_t>(p), n, true, false, PC);            \
  }                                                                            \
  void __tsan_read_write##n(void *p) {                                         \
    mem_access(reinterpret_cast<uintptr_t>(p), n, true, false, PC);            \
  }                                                                            \
  void __tsan_unaligned_read_write##n(void *p) {                               \
    mem_access(reinterpret_cast<uintptr_t>(p), n, true, false, PC);            \
  }                                                                            \
  void __tsan_volatile_read##n(void *p) {                                      \
    mem_access(reinterpret_cast<uintptr_t>(p), n, false, false, PC);           \
  }                                                                            \
  void __tsan_volatile_write##n(void *p) {                                     \
    mem_access(reinterpret_cast<uintptr_t>(p), n, true, false, PC);            \
  }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) {
  mem_access(reinterpret_cast<uintptr_t>(p), n, false, false, PC);
}
void __tsan_write_range(void *p, size_t n) {
  mem_access(reinterpret_cast<uintptr_t>(p), n, true, false, PC);
}
void __tsan_vptr_update(void **p, void *v) {
  if (*p != v)
    mem_access(reinterpret_cast<uintptr_t>(p), 8, true, false, PC);
}
void __tsan_vptr_read(void **p) {
  mem_access(reinterpret_cast<uintptr_t>(p), 8, false, false, PC);
}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  mem_access(reinterpret_cast<uintptr_t>(s), n, false, false, PC);
  mem_access(reinterpret_cast<uintptr_t>(d), n, true, false, PC);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  mem_access(reinterpret_cast<uintptr_t>(s), n, false, false, PC);
  mem_access(reinterpret_cast<uintptr_t>(d), n, true, false, PC);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  mem_access(reinterpret_cast<uintptr_t>(d), n, true, false, PC);
  return memset(d, c, n);
}
}

// ------------------------------------------------------------------ atomics
namespace {
enum { Relaxed, Consume, Acquire, Release, AcqRel, SeqCst };
bool acq(int mo) { return mo == Consume || mo == Acquire || mo >= AcqRel; }
bool rel(int mo) { return mo >= Release; }
void before(const volatile void *a, size_t n, bool w, void *pc) {
  if (!self || !G.running)
    return;
  if (!w) {
    if (self->spin_addr == const_cast<const void *>(a)) {
      if (++self->spin_n > 40) {
        self->spin_n = 0;
        yield_now();
      }
    } else {
      self->spin_addr = const_cast<const void *>(a);
      self->spin_n = 0;
    }
  } else
    self->spin_addr = nullptr;
  rt::point(Kind::Sync);
  mem_access(reinterpret_cast<uintptr_t>(a), n, w, true, pc);
}
bool hb_on() { return self && G.running && !self->inrt; }
template <class T> T a_load(const volatile T *a, int mo, void *pc) {
  before(a, sizeof(T), false, pc);
  const T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);
  if (hb_on() && acq(mo))
    acquire(const_cast<const T *>(a));
  return v;
}
template <class T> void a_store(volatile T *a, T v, int mo, void *pc) {
  before(a, sizeof(T), true, pc);
  if (hb_on() && rel(mo))
    release_store(const_cast<T *>(a));
  __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
}
template <class T, class F> T a_rmw(volatile T *a, int mo, F f, void *pc) {
  before(a, sizeof(T), true, pc);
  if (hb_on()) {
    if (acq(mo))
      acquire(const_cast<T *>(a));
    if (rel(mo))
      release(const_cast<T *>(a));
  }
  return f();
}
template <class T>
int a_cas(volatile T *a, T *c, T v, int mo, int fmo, void *pc) {
  before(a, sizeof(T), true, pc);
  const bool ok = __atomic_compare_exchange_n(
      a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  if (hb_on()) {
    if (acq(ok ? mo : fmo))
      acquire(const_cast<T *>(a));
    if (ok && rel(mo))
      release(const_cast<T *>(a));
  }
  if (!ok && self && G.running && ++self->spin_n > 20) {
    self->spin_n = 0;
    yield_now();
  }
  return ok;
}
} // namespace
extern "C" {
#define AT(bits, T)                                                            \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                  \
    return a_load<T>(a, mo, PC);                                               \
  }                                                                            \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {               \
    a_store<T>(a, v, mo, PC);                                                  \
  }                                                                            \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {               \
    return a_rmw<T>(                                                           \
        a, mo, [&] { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); },    \
        PC);                                                                   \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) {              \
    return a_rmw<T>(                                                           \
        a, mo, [&] { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); },     \
        PC);                                                                   \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) {              \
    return a_rmw<T>(                                                           \
        a, mo, [&] { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); },     \
        PC);                                                                   \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) {              \
    return a_rmw<T>(                                                           \
        a, mo, [&] { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); },     \
        PC);                                                                   \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) {               \
    return a_rmw<T>(                                                           \
        a, mo, [&] { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }, PC); \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) {              \
    return a_rmw<T>(                                                           \
        a, mo, [&] { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); },     \
        PC);                                                                   \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) {             \
    return a_rmw<T>(                                                           \
        a, mo, [&] { return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); },    \
        PC);                                                                   \
  }                                                                            \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v,  \
                                                    int mo, int fmo) {         \
    return a_cas<T>(a, c, v, mo, fmo, PC);                                     \
  }                                                                            \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v,    \
                                                  int mo, int fmo) {           \
    return a_cas<T>(a, c, v, mo, fmo, PC);                                     \
  }                                                                            \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v,        \
                                               int mo, int fmo) {              \
    a_cas<T>(a, &c, v, mo, fmo, PC);                                           \
    return c;                                                                  \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
  static char fence;
  if (hb_on()) {
    rt::point(Kind::Sync);
    acquire(&fence);
    release(&fence);
  }
}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------- new and delete
static void *must(size_t n, size_t al) {
  void *p = heap_alloc(n, al, true);
  if (!p)
    throw std::bad_alloc();
  return p;
}
static void release_mem(void *p) {
  if (!p)
    return;
  if (in_heap(p))
    heap_free(p);
  else
    __real_free(p);
}
void *operator new(size_t n) { return must(n, 16); }
void *operator new[](size_t n) { return must(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return must(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) {
  return must(n, size_t(a));
}
void *operator new(size_t n, const std::nothrow_t &) noexcept {
  return heap_alloc(n, 16, true);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
  return heap_alloc(n, 16, true);
}
void *operator new(size_t n, std::align_val_t a,
                   const std::nothrow_t &) noexcept {
  return heap_alloc(n, size_t(a), true);
}
void *operator new[](size_t n, std::align_val_t a,
                     const std::nothrow_t &) noexcept {
  return heap_alloc(n, size_t(a), true);
}
void operator delete(void *p) noexcept { release_mem(p); }
void operator delete[](void *p) noexcept { release_mem(p); }
void operator delete(void *p, size_t) noexcept { release_mem(p); }
void operator delete[](void *p, size_t) noexcept { release_mem(p); }
void operator delete(void *p, std::align_val_t) noexcept { release_mem(p); }
void operator delete[](void *p, std::align_val_t) noexcept { release_mem(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept {
  release_mem(p);
}
void operator delete[](void *p, size_t, std::align_val_t) noexcept {
  release_mem(p);
}
void operator delete(void *p, const std::nothrow_t &) noexcept {
  release_mem(p);
}
void operator delete[](void *p, const std::nothrow_t &) noexcept {
  release_mem(p);
}
