// Deterministic stand-in for the oneTBB runtime library (the r1 entry points
// behind the oneTBB headers). The headers - parallel_for, partitioners, task
// trees, parallel_sort - are the real ones; what is replaced is the scheduler:
// which thread runs which task when is decided by the simulator.
#include "rt_internal.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>

#include <tbb/task_arena.h>
#include <tbb/task_group.h>

using namespace sim;
using namespace sim::rt;
namespace d1 = tbb::detail::d1;

namespace tbb::detail::r1 {
// Befriended by wait_context.
class task_dispatcher {
public:
  static const std::atomic<uint64_t> *ref(const d1::wait_context &w) {
    return &w.m_ref_count;
  }
};
} // namespace tbb::detail::r1

namespace {
struct Ctx {
  d1::task_group_context *c;
  d1::task_group_context *parent;
  bool bound;
  bool cancelled;
  std::exception_ptr exc;
};
constexpr int MaxCtx = 512;
Ctx ctxs[MaxCtx];
Ctx *find(const d1::task_group_context *c) {
  for (auto &x : ctxs)
    if (x.c == c)
      return &x;
  return nullptr;
}
Ctx *get(d1::task_group_context *c) {
  if (auto *x = find(c))
    return x;
  for (auto &x : ctxs)
    if (!x.c) {
      x.c = c;
      x.parent = nullptr;
      x.bound = false;
      x.cancelled = false;
      return &x;
    }
  sim::skip("too many task group contexts");
}
bool cancelled(d1::task_group_context *c) {
  for (auto *x = find(c); x; x = x->parent ? find(x->parent) : nullptr)
    if (x->cancelled)
      return true;
  return false;
}

struct Rec {
  d1::task *t;
  d1::task_group_context *ctx;
  int arena;
  int spawner;
  d1::slot_id affinity;
  uint32_t vc[NT];
};
constexpr int MaxPending = 8192;
Rec pend[MaxPending];

void add(d1::task &t, d1::task_group_context &c, d1::slot_id affinity) {
  if (G.pending >= MaxPending)
    sim::skip("too many pending tasks");
  auto &r = pend[G.pending++];
  r.t = &t;
  r.ctx = &c;
  r.arena = self->arena;
  r.spawner = self->id;
  r.affinity = affinity;
  memcpy(r.vc, self->vc, sizeof(r.vc));
  ++self->vc[self->id];
  ++G.arena_pending[r.arena];
  G.multi = true;
}
Rec take(int i) {
  Rec r = pend[i];
  for (int j = i; j + 1 < G.pending; ++j)
    pend[j] = pend[j + 1];
  --G.pending;
  --G.arena_pending[r.arena];
  return r;
}

// The dispatch loop of one task and the tasks it bypasses to.
void run_task(d1::task *t, d1::task_group_context *ctx, d1::slot_id original,
             d1::slot_id affinity) {
  d1::execution_data ed;
  ed.context = ctx;
  ed.original_slot = original;
  ed.affinity_slot = affinity;
  void *const outer = self->ctx;
  self->ctx = ctx;
  while (t) {
    try {
      while (t) {
        ++report->tasks;
        rt::point(Kind::Task);
        if (cancelled(ctx)) {
          ++report->faults[FaultCancel];
          t = t->cancel(ed);
        } else
          t = t->execute(ed);
      }
    } catch (...) {
      auto *c = get(ctx);
      ++report->faults[FaultTaskThrow];
      if (!c->cancelled) {
        c->cancelled = true;
        c->exc = std::current_exception();
      }
    }
  }
  self->ctx = outer;
}

void run_rec(const Rec &r) {
  vc_join(self->vc, r.vc);
  if (r.spawner != self->id)
    ++report->faults[FaultSteal];
  const int outer = self->arena;
  self->arena = r.arena;
  run_task(r.t, r.ctx, static_cast<d1::slot_id>(r.spawner), r.affinity);
  self->arena = outer;
}

// `mine`: only tasks of this arena (an external thread never leaves its own).
int pick_task(int arena) {
  int idx[MaxPending];
  int n = 0;
  for (int i = G.pending - 1; i >= 0; --i)
    if (arena < 0 || pend[i].arena == arena)
      idx[n++] = i;
  if (n == 0)
    return -1;
  return idx[rt::choose(static_cast<uint32_t>(n), 0)];
}

void wait_for(d1::wait_context &w, d1::task_group_context &wctx) {
  Thread *t = self;
  const auto *ref = tbb::detail::r1::task_dispatcher::ref(w);
  while (ref->load(std::memory_order_acquire) != 0) {
    rt::point(Kind::Task);
    if (ref->load(std::memory_order_acquire) == 0)
      break;
    const int i = pick_task(t->arena);
    if (i >= 0) {
      run_rec(take(i));
      continue;
    }
    t->st = St::Waiting;
    t->wait_ref = ref;
    block_and_switch(t);
    t->st = St::Runnable;
  }
  acquire(ref);
  recompute_multi();
  if (auto *c = find(&wctx); c && c->exc) {
    auto e = c->exc;
    c->exc = nullptr;
    std::rethrow_exception(e);
  }
}
void bind(d1::task_group_context &c) {
  auto *x = get(&c);
  if (!x->bound) {
    x->bound = true;
    x->parent = static_cast<d1::task_group_context *>(self->ctx);
    if (x->parent == &c)
      x->parent = nullptr;
  }
}
void need_sim(const char *what) {
  if (!self) {
    fprintf(stderr, "tbb %s outside of the simulation\n", what);
    abort();
  }
}
} // namespace

namespace sim::tbbsim {
void run_one() {
  const int i = pick_task(-1);
  if (i >= 0)
    run_rec(take(i));
}
} // namespace sim::tbbsim

namespace tbb::detail::r1 {
void spawn(d1::task &t, d1::task_group_context &ctx) {
  need_sim("spawn");
  bind(ctx);
  add(t, ctx, d1::no_slot);
  rt::point(Kind::Task);
}
void spawn(d1::task &t, d1::task_group_context &ctx, d1::slot_id id) {
  need_sim("spawn");
  bind(ctx);
  add(t, ctx, id);
  rt::point(Kind::Task);
}
void execute_and_wait(d1::task &t, d1::task_group_context &tctx,
                      d1::wait_context &w, d1::task_group_context &wctx) {
  need_sim("execute_and_wait");
  bind(tctx);
  run_task(&t, &tctx, static_cast<d1::slot_id>(self->id), d1::no_slot);
  wait_for(w, wctx);
}
void wait(d1::wait_context &w, d1::task_group_context &ctx) {
  need_sim("wait");
  wait_for(w, ctx);
}
d1::slot_id execution_slot(const d1::execution_data *) {
  return self ? static_cast<d1::slot_id>(self->id) : d1::slot_id(~0);
}
d1::task_group_context *current_context() {
  return self ? static_cast<d1::task_group_context *>(self->ctx) : nullptr;
}
void notify_waiters(std::uintptr_t) {}
void suspend(suspend_callback_type, void *) { abort(); }
void resume(suspend_point_type *) { abort(); }
suspend_point_type *current_suspend_point() { abort(); }

void initialize(d1::task_group_context &c) {
  auto *x = get(&c);
  x->bound = false;
  x->cancelled = false;
  x->parent = nullptr;
  x->exc = nullptr;
}
void destroy(d1::task_group_context &c) {
  if (auto *x = find(&c)) {
    x->exc = nullptr;
    x->c = nullptr;
  }
}
void reset(d1::task_group_context &c) {
  auto *x = get(&c);
  x->cancelled = false;
  x->exc = nullptr;
}
bool cancel_group_execution(d1::task_group_context &c) {
  rt::point(Kind::Sync);
  auto *x = get(&c);
  const bool first = !x->cancelled;
  x->cancelled = true;
  return first;
}
bool is_group_execution_cancelled(d1::task_group_context &c) {
  rt::point(Kind::Sync);
  return cancelled(&c);
}
void capture_fp_settings(d1::task_group_context &) {}

void *allocate(d1::small_object_pool *&pool, std::size_t n,
               const d1::execution_data &) {
  pool = reinterpret_cast<d1::small_object_pool *>(1);
  return heap_alloc(n, 64, false);
}
void *allocate(d1::small_object_pool *&pool, std::size_t n) {
  pool = reinterpret_cast<d1::small_object_pool *>(1);
  return heap_alloc(n, 64, false);
}
void deallocate(d1::small_object_pool &, void *p, std::size_t,
                const d1::execution_data &) {
  heap_free(p);
}
void deallocate(d1::small_object_pool &, void *p, std::size_t) {
  heap_free(p);
}
void *cache_aligned_allocate(std::size_t n) {
  auto *p = heap_alloc(n, 128, true);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void cache_aligned_deallocate(void *p) { heap_free(p); }
std::size_t cache_line_size() { return 64; }
void *allocate_memory(std::size_t n) {
  auto *p = heap_alloc(n, 16, true);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void deallocate_memory(void *p) { heap_free(p); }
bool is_tbbmalloc_used() { return false; }
void throw_exception(exception_id) { throw std::bad_alloc(); }

int max_concurrency(const d1::task_arena_base *) { return G.slots; }
void isolate_within_arena(d1::delegate_base &d, std::intptr_t) { d(); }
void initialize(d1::task_arena_base &) {}
bool attach(d1::task_arena_base &) { return true; }
void terminate(d1::task_arena_base &) {}
void execute(d1::task_arena_base &, d1::delegate_base &d) { d(); }
void wait(d1::task_arena_base &) {}
void wait_on_address(void *, d1::delegate_base &pred, std::uintptr_t) {
  for (int i = 0; i < 64 && pred(); ++i)
    yield_now();
}
void notify_by_address(void *, std::uintptr_t) {}
void notify_by_address_one(void *) {}
void notify_by_address_all(void *) {}
} // namespace tbb::detail::r1
