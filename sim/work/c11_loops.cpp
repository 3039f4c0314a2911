// C11: the parallel loop and sort wrappers.
#include "../rt/runner.h"
#include "scipp/common/index.h"
#include "scipp/core/parallel.h"
#include "track.h"

#include <algorithm>
#include <cmath>
#include <list>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace parallel = scipp::core::parallel;
using idx = scipp::index;

namespace {
idx draw_size() {
  switch (sim::draw(6)) {
  case 0:
    return sim::draw(3);
  case 1:
    return sim::draw(30);
  case 2:
    return 20 + sim::draw(30); // around the default number of chunks
  case 3:
    return sim::draw(200);
  case 4:
    return sim::draw(1000);
  default:
    return sim::draw(5000);
  }
}

// Runs one parallel loop over [begin, begin + n), checks that every index is
// visited exactly once and that nothing runs after the loop has returned, also
// if a body throws.
void loop(idx begin, idx n, idx grain, bool default_grain, idx throw_at,
          int depth);

void loop_body(idx base, idx lo, idx hi, idx throw_at, int depth) {
  for (idx i = lo; i < hi; ++i) {
    sim::touch_index(i - base);
    if (i - base == throw_at)
      throw sim::Injected("body");
  }
  (void)depth;
}

void loop(idx begin, idx n, idx grain, bool default_grain, idx throw_at,
          int) {
  sim::touch_reset(n < 0 ? 0 : n);
  const auto range = default_grain
                         ? parallel::blocked_range(begin, begin + n)
                         : parallel::blocked_range(begin, begin + n, grain);
  std::vector<double> out(n, -1.0);
  bool threw = false;
  try {
    parallel::parallel_for(range, [&](const auto &r) {
      struct In {
        In() { sim::body_enter(1); }
        ~In() { sim::body_enter(-1); }
      } in;
      if (r.begin() < begin || r.end() > begin + n || r.begin() >= r.end())
        sim::violation("index-range", "chunk [%ld, %ld) of [%ld, %ld)",
                       long(r.begin()), long(r.end()), long(begin),
                       long(begin + n));
      loop_body(begin, r.begin(), r.end(), throw_at, 0);
      for (idx i = r.begin(); i < r.end(); ++i)
        out[i - begin] = 2.0 * static_cast<double>(i);
    });
  } catch (const sim::Injected &) {
    threw = true;
    sim::count(sim::FaultTaskThrow);
  }
  if (sim::body_running() != 0)
    sim::violation("late-task", "%d bodies still running after the loop",
                   sim::body_running());
  const bool expect = throw_at >= 0 && throw_at < n;
  if (threw != expect)
    sim::violation("exception", "the loop %s", expect
                                                   ? "swallowed an exception"
                                                   : "threw unexpectedly");
  for (idx i = 0; i < n; ++i) {
    const int c = sim::touch_count(i);
    if (c > 1 || (c == 0 && !threw))
      sim::violation("exactly-once", "index %ld of %ld visited %d times",
                     long(i), long(n), c);
    if (!threw && out[i] != 2.0 * static_cast<double>(i + begin))
      sim::violation("lost-write", "result %ld of %ld is missing", long(i),
                     long(n));
  }
  if (!out.empty())
    sim::observe(threw ? 1 : out.size());
}

template <class T> T value_of(int64_t i) {
  if constexpr (std::is_same_v<T, std::string>)
    return std::to_string(i) + (i % 3 ? "" : std::string(30, 'x'));
  else if constexpr (std::is_same_v<T, bool>)
    return i % 2;
  else
    return T(i);
}

template <class T, class Cmp> void sort_case(std::vector<T> v, Cmp cmp) {
  auto expected = v;
  {
    sim::Quiet q;
    std::sort(expected.begin(), expected.end(), cmp);
  }
  if (sim::draw_bool())
    parallel::parallel_sort(v.begin(), v.end(), cmp);
  else
    parallel::parallel_sort(v.data(), v.data() + v.size(), cmp);
  for (size_t i = 0; i < v.size(); ++i) {
    if (i && cmp(v[i], v[i - 1]))
      sim::violation("order", "elements %zu and %zu of %zu are out of order",
                     i - 1, i, v.size());
    // equal elements are indistinguishable in these workloads
    if (cmp(v[i], expected[i]) || cmp(expected[i], v[i]))
      sim::violation("permutation", "element %zu of %zu was lost", i,
                     v.size());
  }
}
} // namespace

WORKLOAD(loop_plain, "C11.loop", 10) {
  for (int k = sim::draw_in(1, 3); k > 0; --k) {
    const idx n = draw_size();
    loop(sim::draw_in(0, 3) * sim::draw_in(0, 100), n, 1 + sim::draw(n + 2),
         sim::draw_bool(), -1, 0);
  }
}
WORKLOAD(loop_throw, "C11.loop-throw", 8) {
  for (int k = sim::draw_in(1, 3); k > 0; --k) {
    const idx n = draw_size();
    loop(sim::draw_in(0, 50), n, 1 + sim::draw(n + 2), sim::draw_bool(),
         static_cast<idx>(sim::draw(n + 1)), 0);
  }
}
WORKLOAD(loop_nested, "C11.loop-nested", 5) {
  const idx n = sim::draw_in(0, 40);
  const idx m = sim::draw_in(0, 60);
  const idx throw_at = sim::draw_bool(3) ? static_cast<idx>(sim::draw(n * m + 1)) : -1;
  std::vector<int> out(n * m, 0);
  sim::touch_reset(n * m);
  bool threw = false;
  try {
    parallel::parallel_for(parallel::blocked_range(0, n), [&](const auto &r) {
      for (idx i = r.begin(); i < r.end(); ++i)
        parallel::parallel_for(
            parallel::blocked_range(0, m), [&](const auto &s) {
              for (idx j = s.begin(); j < s.end(); ++j) {
                sim::touch_index(i * m + j);
                if (i * m + j == throw_at)
                  throw sim::Injected("nested");
                out[i * m + j] = static_cast<int>(i + j);
              }
            });
    });
  } catch (const sim::Injected &) {
    threw = true;
  }
  if (threw != (throw_at >= 0 && throw_at < n * m))
    sim::violation("exception", "wrong exception from nested loops");
  for (idx i = 0; i < n * m; ++i) {
    const int c = sim::touch_count(i);
    if (c > 1 || (!threw && c != 1))
      sim::violation("exactly-once", "nested index %ld visited %d times",
                     long(i), c);
    if (!threw && out[i] != i / m + i % m)
      sim::violation("lost-write", "nested result %ld", long(i));
  }
}
WORKLOAD(loop_clients, "C11.loop-clients", 5) { // loops started by several threads
  const int nc = sim::draw_in(2, 3);
  std::vector<idx> n(nc);
  std::vector<std::vector<int64_t>> out(nc);
  for (int c = 0; c < nc; ++c) {
    n[c] = draw_size() / 2;
    out[c].assign(n[c], 0);
  }
  std::vector<std::function<void()>> fns;
  for (int c = 0; c < nc; ++c)
    fns.push_back([&, c] {
      auto *o = out[c].data();
      parallel::parallel_for(parallel::blocked_range(0, n[c]),
                             [o, c](const auto &r) {
                               for (idx i = r.begin(); i < r.end(); ++i)
                                 o[i] += 1000 * c + i;
                             });
      for (idx i = 0; i < n[c]; ++i)
        if (o[i] != 1000 * c + i)
          sim::violation("exactly-once", "client %d index %ld: %ld", c, long(i),
                         long(o[i]));
    });
  sim::concurrently(fns);
}
WORKLOAD(sort_any, "C11.sort", 10) {
  const idx n = sim::draw_bool(4) ? 400 + sim::draw(3000) : draw_size();
  const int range = 1 + static_cast<int>(sim::draw(sim::draw_bool() ? 5 : 5000));
  std::vector<int> v(n);
  const int shape = sim::draw_in(0, 3);
  for (idx i = 0; i < n; ++i)
    v[i] = shape == 0   ? static_cast<int>(i)
           : shape == 1 ? static_cast<int>(n - i)
                        : static_cast<int>((i * 7919 + i * i * 31) % range);
  if (shape == 3) // nearly sorted
    for (int k = 0; k < 5 && n; ++k)
      v[sim::draw(n)] = static_cast<int>(sim::draw(range));
  if (sim::draw_bool(3)) {
    std::vector<std::string> s;
    for (const auto x : v)
      s.push_back(value_of<std::string>(x));
    if (s.size() > 1500)
      s.resize(1500);
    sort_case(s, std::less<std::string>());
  } else if (sim::draw_bool())
    sort_case(v, std::greater<int>());
  else
    sort_case(v, std::less<int>());
}
