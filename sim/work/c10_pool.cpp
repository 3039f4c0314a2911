// C10: memory pool and aligned allocator.
#include "../rt/runner.h"
#include <stdexcept>

#include "scipp/core/aligned_allocator.h"
#include "scipp/core/memory_pool.h"

#include <cstring>
#include <memory>
#include <vector>

using scipp::core::MemoryPool;

namespace {
// Which blocks are owned by clients right now. The registry is kept by the
// simulator side (one thread runs at a time), so it is not instrumented state.
struct Block {
  unsigned char *p;
  size_t size;
  int owner;
};
struct Owned {
  std::vector<Block> all;
  void add(void *p, size_t size) {
    sim::Quiet q;
    auto *c = static_cast<unsigned char *>(p);
    if (!p || reinterpret_cast<uintptr_t>(p) % 64)
      sim::violation("alignment", "block %p is not 64-byte aligned", p);
    for (const auto &b : all)
      if (c < b.p + b.size && b.p < c + size)
        sim::violation("overlap",
                       "a block of %zu bytes handed to thread %d overlaps a "
                       "block of %zu bytes owned by thread %d",
                       size, sim::tid(), b.size, b.owner);
    all.push_back({c, size, sim::tid()});
  }
  void remove(void *p) {
    sim::Quiet q;
    for (size_t i = 0; i < all.size(); ++i)
      if (all[i].p == p) {
        all.erase(all.begin() + i);
        return;
      }
  }
};

size_t draw_size() {
  static const size_t sizes[] = {1,   7,    8,    24,   64,    100,
                                 512, 1000, 2048, 4096, 10000, 65536};
  return sizes[sim::draw(12)];
}

struct Client {
  std::vector<std::pair<int, int>> ops; // what, argument
  std::vector<std::pair<unsigned char *, std::pair<size_t, int>>> mine;
};

size_t step(size_t i, size_t n) { return n > 200 && i + 62 < n ? 61 : 1; }
void fill(unsigned char *p, size_t n, int tag) {
  for (size_t i = 0; i < n; i += step(i, n))
    p[i] = static_cast<unsigned char>(tag + i * 7);
}
void verify(const unsigned char *p, size_t n, int tag) {
  for (size_t i = 0; i < n; i += step(i, n))
    if (p[i] != static_cast<unsigned char>(tag + i * 7))
      sim::violation("clobbered",
                     "byte %zu of an owned block of %zu bytes was changed", i,
                     n);
}

void pool_history(int nclient, bool faults) {
  const auto before = sim::live_blocks();
  bool fired = false;
  {
    Owned owned;
    auto pool = std::make_unique<MemoryPool>();
    std::vector<Client> clients(nclient);
    const int nsize = sim::draw_in(1, 4);
    size_t use[4];
    for (int i = 0; i < nsize; ++i) { // similar sizes are the interesting ones
      use[i] = i && sim::draw_bool() ? use[i - 1] : draw_size();
      if (sim::draw_bool())
        use[i] += sim::draw(sim::draw_bool() ? 8 : 70);
    }
    for (auto &c : clients)
      for (int i = sim::draw_in(1, 8); i > 0; --i)
        c.ops.emplace_back(sim::draw_in(0, 5), static_cast<int>(sim::draw(64)));
    int foreign = 0;
    auto body = [&](Client &c, int id) {
      for (size_t i = 0; i < c.ops.size(); ++i) {
        const auto [what, arg] = c.ops[i];
        if (what < 3 || (what < 5 && c.mine.empty())) {
          const size_t n = use[arg % nsize];
          void *p = nullptr;
          try {
            p = pool->allocate(n);
          } catch (const std::runtime_error &) {
          } catch (const std::bad_alloc &) {
          }
          if (!p) {
            if (!faults)
              sim::violation("unexpected-exception", "allocation failed");
            continue;
          }
          owned.add(p, n);
          const int tag = id * 50 + static_cast<int>(i);
          fill(static_cast<unsigned char *>(p), n, tag);
          sim::Quiet q;
          c.mine.push_back({static_cast<unsigned char *>(p), {n, tag}});
        } else if (what < 5) {
          const auto k = arg % c.mine.size();
          const auto b = c.mine[k];
          verify(b.first, b.second.first, b.second.second);
          owned.remove(b.first);
          try {
            pool->deallocate(b.first);
          } catch (const std::bad_alloc &) {
            // not released: still ours
            owned.add(b.first, b.second.first);
            continue;
          } catch (const std::runtime_error &e) {
            sim::violation("lost-block", "own block refused: %s", e.what());
          }
          sim::Quiet q;
          c.mine.erase(c.mine.begin() + k);
        } else { // memory the pool does not own is refused
          bool refused = false;
          try {
            pool->deallocate(&foreign);
          } catch (const std::runtime_error &) {
            refused = true;
            sim::count(sim::FaultReject);
          } catch (const std::bad_alloc &) {
            refused = true; // the exception itself could not be built
          }
          if (!refused)
            sim::violation("foreign", "foreign memory was accepted");
        }
      }
    };
    std::vector<std::function<void()>> fns;
    for (int i = 0; i < nclient; ++i)
      fns.push_back([&, i] { body(clients[i], i); });
    if (faults)
      sim::fault_window(sim::draw_in(0, 6 * nclient), sim::draw_bool(4));
    if (nclient == 1)
      fns[0]();
    else
      sim::concurrently(fns);
    if (faults)
      fired = sim::end_fault_window().fired;
    for (auto &c : clients)
      for (const auto &b : c.mine)
        verify(b.first, b.second.first, b.second.second);
    // Everything still owned can be given back once, and only once, and is
    // then reused for requests of its size.
    for (auto &c : clients)
      for (const auto &b : c.mine) {
        owned.remove(b.first);
        try {
          pool->deallocate(b.first);
        } catch (const std::runtime_error &) {
          sim::violation("lost-block", "an owned block was refused");
        }
        bool refused = false;
        try {
          pool->deallocate(b.first);
        } catch (const std::runtime_error &) {
          refused = true;
        }
        if (!refused)
          sim::violation("double-release", "a block was released twice");
      }
    std::vector<void *> again;
    for (auto &c : clients)
      for (const auto &b : c.mine) {
        const auto n0 = sim::live_blocks();
        auto *p = pool->allocate(b.second.first);
        const auto n1 = sim::live_blocks();
        owned.add(p, b.second.first);
        again.push_back(p);
        fill(static_cast<unsigned char *>(p), b.second.first, 3);
        if (n1 > n0)
          sim::violation("no-reuse",
                         "released blocks of %zu bytes are not reused",
                         b.second.first);
      }
    for (auto *p : again)
      pool->deallocate(p);
  }
  if (sim::live_blocks() != before)
    sim::violation("leak", "%ld blocks outlive the pool%s",
                   long(sim::live_blocks() - before),
                   fired ? " after a failed allocation" : "");
}
template <class T, scipp::core::Alignment A> void aligned_vectors() {
  using scipp::core::AlignedAllocator;
  using V = std::vector<T, AlignedAllocator<T, A>>;
  constexpr auto alignment = static_cast<size_t>(A);
  const auto before = sim::live_blocks();
  {
    const int n = sim::draw_in(1, 3);
    std::vector<V> vs(n);
    std::vector<std::vector<int>> ops(n);
    for (auto &o : ops)
      for (int i = sim::draw_in(1, 10); i > 0; --i)
        o.push_back(sim::draw_in(0, 40));
    std::vector<std::function<void()>> fns;
    for (int i = 0; i < n; ++i)
      fns.push_back([&, i] {
        std::vector<T> model;
        auto &v = vs[i];
        for (const auto o : ops[i]) {
          try {
            if (o < 25) {
              v.resize(o, T(o));
              sim::Quiet q;
              model.resize(o, T(o));
            } else if (o < 35) {
              v.push_back(T(o));
              sim::Quiet q;
              model.push_back(T(o));
            } else {
              V copy(v);
              v = copy;
            }
          } catch (const std::bad_alloc &) {
          }
          if (!v.empty() && reinterpret_cast<uintptr_t>(v.data()) % alignment)
            sim::violation("alignment", "not %zu-byte aligned",
                           alignment);
          if (v.size() != model.size() ||
              !std::equal(v.begin(), v.end(), model.begin()))
            sim::violation("content", "vector differs from the model");
        }
      });
    sim::fault_window(sim::draw_bool() ? sim::draw_in(0, 12) : -1);
    if (n == 1)
      fns[0]();
    else
      sim::concurrently(fns);
    sim::end_fault_window();
  }
  if (sim::live_blocks() != before)
    sim::violation("leak", "blocks leaked");
}
} // namespace

WORKLOAD(pool_conc, "C10.pool", 20) {
  pool_history(sim::draw_in(2, 5), false);
}
WORKLOAD(pool_fault, "C10.pool-fault", 15) {
  pool_history(sim::draw_in(1, 4), true);
}
WORKLOAD(pool_instance, "C10.instance", 5) {
  // The process-wide pool: first use from several threads at once.
  std::vector<void *> got(4);
  std::vector<MemoryPool *> pools(4);
  std::vector<std::function<void()>> fns;
  const int n = sim::draw_in(2, 4);
  for (int i = 0; i < n; ++i)
    fns.push_back([&, i] {
      auto &pool = scipp::core::instance();
      pools[i] = &pool;
      got[i] = pool.allocate(32);
      memset(got[i], i, 32);
    });
  sim::concurrently(fns);
  for (int i = 0; i < n; ++i) {
    if (pools[i] != pools[0])
      sim::violation("two-pools", "instance() returned two pools");
    for (int j = 0; j < 32; ++j)
      if (static_cast<unsigned char *>(got[i])[j] != i)
        sim::violation("clobbered", "block of thread %d changed", i);
    scipp::core::instance().deallocate(got[i]);
  }
}
WORKLOAD(aligned, "C10.aligned-allocator", 8) {
  using scipp::core::Alignment;
  switch (sim::draw(4)) {
  case 0:
    return aligned_vectors<double, Alignment::SSE>();
  case 1:
    return aligned_vectors<char, Alignment::Normal>();
  case 2:
    return aligned_vectors<char, Alignment::AVX>();
  default:
    return aligned_vectors<double, Alignment::AVX>();
  }
}
