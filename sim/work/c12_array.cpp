// C12: element_array, the storage of every variable, as a value type.
#include "../rt/runner.h"
#include "scipp/common/index.h"
#include "scipp/core/element_array.h"
#include "track.h"

#include <algorithm>
#include <cmath>
#include <list>
#include <memory>
#include <optional>
#include <string>
#include <vector>

using scipp::core::element_array;
using scipp::core::init_for_overwrite;
using idx = scipp::index;

namespace {
idx draw_size() {
  switch (sim::draw(6)) {
  case 0:
    return sim::draw(3);
  case 1:
    return sim::draw(30);
  case 2:
    return 20 + sim::draw(30); // around the default number of chunks
  case 3:
    return sim::draw(200);
  case 4:
    return sim::draw(1000);
  default:
    return sim::draw(5000);
  }
}

template <class T> T value_of(int64_t i) {
  if constexpr (std::is_same_v<T, std::string>)
    return std::to_string(i) + (i % 3 ? "" : std::string(30, 'x'));
  else if constexpr (std::is_same_v<T, bool>)
    return i % 2;
  else
    return T(i);
}

/// Expected contents; nullopt elements are indeterminate.
template <class T> struct Model {
  bool null = true;
  std::vector<T> v;
  bool known = true; // contents determinate
};

template <class T>
void compare(const element_array<T> &a, const Model<T> &m, const char *what) {
  if (static_cast<bool>(a) == m.null)
    sim::violation("null-state", "after %s: array is %s", what,
                   a ? "not null" : "null");
  if (m.null) {
    if (a.size() != -1 || a.begin() != a.end() || a.empty())
      sim::violation("null-state", "after %s: null array has elements", what);
    return;
  }
  if (a.size() != static_cast<idx>(m.v.size()) ||
      a.end() - a.begin() != a.size() || a.empty() != m.v.empty())
    sim::violation("size", "after %s: size %ld, expected %zu", what,
                   long(a.size()), m.v.size());
  if (m.known)
    for (size_t i = 0; i < m.v.size(); ++i)
      if (!(a.data()[i] == m.v[i]))
        sim::violation("content", "after %s: element %zu of %zu differs", what,
                       i, m.v.size());
}

// A history of operations on a few arrays against a reference model, with
// failing allocations and failing element copies.
template <class T> void array_history(bool faults, int max_ops) {
  constexpr int N = 4;
  const auto blocks = sim::live_blocks();
  const auto tracked = sim::track_live_count();
  constexpr bool is_tracked = std::is_same_v<T, sim::Tracked>;
  {
    std::optional<element_array<T>> a[N];
    Model<T> m[N];
    for (auto &x : a)
      x.emplace();
    const int nops = sim::draw_in(1, max_ops);
    for (int step = 0; step < nops; ++step) {
      const int i = sim::draw_in(0, N - 1);
      const int j = sim::draw_in(0, N - 1);
      const int op = sim::draw_in(0, 12);
      const idx n = draw_size() / (max_ops > 4 ? 8 : 1);
      const int64_t seed = sim::draw(1000);
      std::vector<T> src;
      for (idx k = 0; k < n; ++k)
        src.push_back(value_of<T>(seed + k * 7));
      const std::list<T> slow(src.begin(), src.begin() + std::min<idx>(n, 60));
      Model<T> want = m[i];
      Model<T> want_j = m[j];
      const char *what = "";
      const bool other_size =
          m[i].null || static_cast<idx>(m[i].v.size()) != n;
      constexpr bool has_ctor = std::is_same_v<T, std::string> || is_tracked;
      switch (op) { // the model, before any fault is armed
      case 0:
        want = {false, std::vector<T>(n, value_of<T>(seed)), true};
        break;
      case 1:
      case 2:
        want = {false, src, true};
        break;
      case 3:
      case 4:
        want = m[j];
        break;
      case 5:
      case 6:
        if (i != j) {
          want = m[j];
          want_j = {};
        }
        break;
      case 7:
      case 11:
        want = {false, std::vector<T>(n, T()), true};
        break;
      case 8:
        want = {false, std::vector<T>(n), n == 0 || (has_ctor && other_size)};
        break;
      case 9:
        want = {};
        break;
      case 10:
        want = {false, std::vector<T>(n), n == 0 || has_ctor};
        break;
      default:
        if (!m[i].null && m[i].known) {
          int64_t k = seed;
          for (auto &&x : want.v)
            x = value_of<T>(k++);
        }
      }
      if (faults) {
        if (is_tracked && sim::draw_bool())
          sim::track_arm(sim::draw(static_cast<uint32_t>(n + 2)));
        else
          sim::fault_window(sim::draw_in(0, 3));
      }
      bool failed = false;
      try {
        switch (op) {
        case 0: { // size and value
          what = "construction from size and value";
          element_array<T> x(n, value_of<T>(seed));
          a[i] = std::move(x);
          break;
        }
        case 1: {
          what = "construction from iterators";
          element_array<T> x(src.begin(), src.end());
          a[i] = std::move(x);
          break;
        }
        case 2: {
          what = "construction from a container";
          element_array<T> x(src);
          a[i] = std::move(x);
          break;
        }
        case 3: {
          what = "copy construction";
          element_array<T> x(*a[j]);
          a[i] = std::move(x);
          break;
        }
        case 4: {
          what = "copy assignment";
          *a[i] = *a[j];
          break;
        }
        case 5:
          if (i == j)
            break;
          what = "move assignment";
          *a[i] = std::move(*a[j]);
          break;
        case 6: {
          if (i == j)
            break;
          what = "move construction";
          element_array<T> x(std::move(*a[j]));
          a[i].emplace(std::move(x));
          break;
        }
        case 7:
          what = "resize";
          a[i]->resize(n);
          break;
        case 8:
          what = "resize for overwrite";
          a[i]->resize(n, init_for_overwrite);
          break;
        case 9:
          what = "reset";
          a[i]->reset();
          break;
        case 10: {
          what = "default-initialised construction";
          element_array<T> x(n, init_for_overwrite);
          a[i] = std::move(x);
          break;
        }
        case 11: {
          what = "size construction";
          element_array<T> x(n);
          a[i] = std::move(x);
          break;
        }
        default: { // write through the iterators
          what = "assignment of elements";
          if (m[i].null || !m[i].known)
            break;
          int64_t k = seed;
          for (auto &x : *a[i])
            x = value_of<T>(k++);
        }
        }
      } catch (const std::bad_alloc &) {
        failed = true;
      } catch (const sim::Injected &) {
        failed = true;
      }
      bool fired = sim::track_fired();
      sim::track_arm(-1);
      if (sim::end_fault_window().fired)
        fired = true;
      if (failed && !fired)
        sim::violation("unexpected-exception", "%s threw without a fault",
                       what);
      if (failed && op == 12) { // own loop, partially written
        element_array<T> x(n);
        a[i] = std::move(x);
        m[i] = {false, std::vector<T>(n, T()), true};
      } else if (!failed) {
        if (i != j)
          m[j] = want_j;
        m[i] = want;
      }
      // After a failure both operands are what they were before.
      compare(*a[i], m[i], what);
      compare(*a[j], m[j], what);
      if (m[i].known && !m[i].null)
        sim::observe(m[i].v.size() * 16 + op);
    }
    for (int i = 0; i < N; ++i)
      compare(*a[i], m[i], "the history");
  }
  if (sim::track_live_count() != tracked)
    sim::violation("leak", "%ld elements were not destroyed exactly once",
                   long(sim::track_live_count() - tracked));
  if (sim::live_blocks() != blocks)
    sim::violation("leak", "%ld blocks leaked",
                   long(sim::live_blocks() - blocks));
}

template <class T> void concurrent_readers() {
  const idx n = draw_size();
  std::vector<T> src;
  for (idx k = 0; k < n; ++k)
    src.push_back(value_of<T>(k * 3));
  const element_array<T> shared(src);
  const int nc = sim::draw_in(2, 4);
  std::vector<element_array<T>> out(nc);
  std::vector<std::function<void()>> fns;
  for (int c = 0; c < nc; ++c)
    fns.push_back([&, c] {
      if (c % 2)
        out[c] = element_array<T>(shared);
      else
        out[c] = shared;
      for (auto &x : out[c])
        x = value_of<T>(c);
    });
  sim::concurrently(fns);
  compare(shared, Model<T>{false, src, true}, "copying by several threads");
  for (int c = 0; c < nc; ++c)
    compare(out[c], Model<T>{false, std::vector<T>(n, value_of<T>(c)), true},
            "independent copies");
}

} // namespace

WORKLOAD(array_double, "C12.double", 8) { array_history<double>(false, 6); }
WORKLOAD(array_bool, "C12.bool", 4) { array_history<bool>(sim::draw_bool(), 6); }
WORKLOAD(array_string, "C12.string", 6) { array_history<std::string>(sim::draw_bool(), 5); }
WORKLOAD(array_fault, "C12.fault", 8) { array_history<double>(true, 8); }
WORKLOAD(array_track, "C12.throw", 10) { array_history<sim::Tracked>(true, 6); }
WORKLOAD(array_big, "C12.large", 3) { array_history<int64_t>(sim::draw_bool(), 3); }
WORKLOAD(array_readers, "C12.readers", 5) { concurrent_readers<double>(); }
WORKLOAD(array_readers_s, "C12.readers-string", 3) { concurrent_readers<std::string>(); }
WORKLOAD(array_readers_b, "C12.readers-bool", 3) { concurrent_readers<bool>(); }
