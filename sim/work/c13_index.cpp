// C13: traversal of strided, broadcast and binned operands split into pieces.
#include "../rt/runner.h"
#include "scipp/core/bucket_array_view.h"
#include "scipp/core/dimensions.h"
#include "scipp/core/element_array_view.h"
#include "scipp/core/except.h"
#include "scipp/core/multi_index.h"
#include "scipp/core/parallel.h"
#include "scipp/core/strides.h"

#include <array>
#include <numeric>
#include <utility>
#include <vector>

using namespace scipp::core;
using scipp::units::Dim;
using idx = scipp::index;

namespace {
const Dim labels[] = {Dim::X, Dim::Y, Dim::Z, Dim::Time, Dim::Energy,
                      Dim::Wavelength};

Dimensions draw_dims(int max_ndim, int max_size, bool allow_zero,
                     int first_label = 0) {
  Dimensions d;
  const int n = sim::draw_in(0, max_ndim);
  for (int i = 0; i < n; ++i) {
    int s = sim::draw_in(1, max_size);
    if (sim::draw_bool(4))
      s = 1;
    if (allow_zero && sim::draw_bool(16))
      s = 0;
    d.addInner(labels[first_label + i], s);
  }
  return d;
}

/// Strides of an operand iterated with `dims`: some permutation of the
/// dimensions in memory, with padding, steps and missing dimensions.
std::vector<idx> draw_strides(const Dimensions &dims, bool no_broadcast) {
  const auto n = static_cast<int>(dims.ndim());
  std::vector<idx> s(n, 0);
  std::vector<int> order(n);
  std::iota(order.begin(), order.end(), 0);
  const int kind = sim::draw_in(0, 4);
  if (kind == 4) // another memory order
    for (int i = n - 1; i > 0; --i)
      std::swap(order[i], order[sim::draw(i + 1)]);
  idx offset = 1;
  for (int k = n - 1; k >= 0; --k) {
    const int d = order[k];
    if (!no_broadcast && (kind == 1 || kind == 2) &&
        (kind == 1 || sim::draw_bool(3)))
      continue; // broadcast in all or some dimensions
    idx size = dims.size(d);
    if (kind >= 3 && sim::draw_bool(3))
      offset *= 1 + sim::draw(2); // step
    s[d] = offset;
    if (kind >= 3 && sim::draw_bool(3))
      size += sim::draw(3); // slice of something larger
    offset *= size;
  }
  return s;
}

Strides as_strides(const std::vector<idx> &s) {
  return Strides(scipp::span<const idx>(s.data(), s.size()));
}

/// Calls f(coord) in row-major order.
template <class F> void nested(const std::vector<idx> &shape, F &&f) {
  idx volume = 1;
  for (const auto s : shape)
    volume *= s;
  std::vector<idx> c(shape.size(), 0);
  for (idx i = 0; i < volume; ++i) {
    f(c);
    for (int d = static_cast<int>(shape.size()) - 1; d >= 0; --d) {
      if (++c[d] < shape[d])
        break;
      c[d] = 0;
    }
  }
}

std::vector<idx> shape_of(const Dimensions &d) {
  return {d.shape().begin(), d.shape().end()};
}

template <size_t N> using Visits = std::vector<std::array<idx, N>>;

/// Splits the traversal into pieces with the task scheduler and checks that
/// together they visit what a sequential traversal does.
template <size_t N>
void check_pieces(const MultiIndex<N> &begin, const idx outer_volume,
                  const std::vector<idx> &first, const Visits<N> &expected) {
  const idx total = static_cast<idx>(expected.size());
  Visits<N> seen(total);
  for (auto &x : seen)
    x.fill(-1);
  const bool chunked = sim::draw_bool();
  const idx grain = sim::draw_bool() ? -1 : 1 + sim::draw(outer_volume + 1);
  const auto piece = [&](const idx b, const idx e) {
    auto i = begin;
    i.set_index(b);
    auto end = begin;
    end.set_index(e);
    idx k = first[b];
    const auto visit = [&](const auto &at) {
      if (k >= first[e])
        sim::violation("extra-element",
                       "piece [%ld, %ld) of %ld visits more than %ld elements",
                       long(b), long(e), long(outer_volume),
                       long(first[e] - first[b]));
      seen[k++] = at;
    };
    if (chunked) {
      while (i != end) {
        const auto strides = i.inner_strides();
        const auto n = i.in_same_chunk(end, 1) ? i.inner_distance_to(end)
                                               : i.inner_distance_to_end();
        if (n < 0 || n > total)
          sim::violation("chunk-size", "chunk of %ld elements in [%ld, %ld)",
                         long(n), long(b), long(e));
        auto at = i.get();
        for (idx j = 0; j < n; ++j) {
          visit(at);
          for (size_t o = 0; o < N; ++o)
            at[o] += strides[o];
        }
        i.increment_by(n != 0 ? n : 1);
      }
    } else {
      for (; i != end; i.increment())
        visit(i.get());
    }
    if (k != first[e])
      sim::violation("missing-element",
                     "piece [%ld, %ld) of %ld visits %ld of %ld elements",
                     long(b), long(e), long(outer_volume), long(k - first[b]),
                     long(first[e] - first[b]));
  };
  parallel::parallel_for(parallel::blocked_range(0, outer_volume, grain),
                         [&](const auto &r) { piece(r.begin(), r.end()); });
  for (idx k = 0; k < total; ++k)
    for (size_t o = 0; o < N; ++o)
      if (seen[k][o] != expected[k][o])
        sim::violation("wrong-element",
                       "visit %ld of %ld, operand %zu of %zu: %ld, expected "
                       "%ld",
                       long(k), long(total), o, N, long(seen[k][o]),
                       long(expected[k][o]));
  sim::observe(total);
  // The whole, in one piece.
  idx k = 0;
  for (auto i = begin.begin(), end = begin.end(); i != end; i.increment(), ++k)
    if (k >= total || i.get() != expected[k])
      sim::violation("sequential", "sequential visit %ld of %ld is wrong",
                     long(k), long(total));
  if (k != total)
    sim::violation("sequential", "%ld of %ld elements visited", long(k),
                   long(total));
}

template <size_t... I, class F>
auto with_each(std::index_sequence<I...>, F &&f) {
  return f(I...);
}

template <size_t N> void dense() {
  const auto dims = draw_dims(6, 6, true);
  std::array<std::vector<idx>, N> strides;
  for (auto &s : strides)
    s = draw_strides(dims, false);
  Visits<N> expected;
  nested(shape_of(dims), [&](const auto &c) {
    std::array<idx, N> at{};
    for (size_t o = 0; o < N; ++o)
      for (size_t d = 0; d < c.size(); ++d)
        at[o] += c[d] * strides[o][d];
    expected.push_back(at);
  });
  std::vector<idx> first(dims.volume() + 1);
  std::iota(first.begin(), first.end(), idx(0));
  const auto index = with_each(
      std::make_index_sequence<N>{}, [&](auto... o) {
        return sim::draw_bool()
                   ? MultiIndex<N>(dims, as_strides(strides[o])...)
                   : MultiIndex<N>(ElementArrayViewParams(
                         0, dims, as_strides(strides[o]), BucketParams{})...);
      });
  if (dims.volume() == 0)
    return;
  check_pieces<N>(index, dims.volume(), first, expected);
}

template <size_t N> void binned() {
  // Dimensions of the bins and of the buffer.
  const auto bin_dims = draw_dims(3, 5, true);
  auto inner = draw_dims(2, 4, true, 3);
  inner.addInner(labels[5], sim::draw_in(1, 4));
  const auto slice = static_cast<int>(sim::draw(inner.ndim()));
  const auto volume = bin_dims.volume();
  std::vector<idx> size(volume);
  const int max_size = sim::draw_bool(4) ? 1 : sim::draw_in(1, 7);
  for (auto &s : size)
    s = sim::draw_bool(3) ? 0 : sim::draw(max_size + 1);
  std::array<bool, N> is_binned{};
  is_binned[sim::draw(N)] = true;
  for (auto &b : is_binned)
    b = b || sim::draw_bool();
  std::array<std::vector<idx>, N> strides, buffer_strides;
  std::array<std::vector<std::pair<idx, idx>>, N> indices;
  for (size_t o = 0; o < N; ++o) {
    strides[o] = draw_strides(bin_dims, is_binned[o]);
    if (!is_binned[o])
      continue;
    buffer_strides[o] = draw_strides(inner, true);
    idx span = 1;
    for (idx d = 0; d < bin_dims.ndim(); ++d)
      span += std::max<idx>(0, bin_dims.size(d) - 1) * strides[o][d];
    indices[o].assign(span, {0, 0});
    idx at = 0, bin = 0;
    nested(shape_of(bin_dims), [&](const auto &c) {
      idx flat = 0;
      for (size_t d = 0; d < c.size(); ++d)
        flat += c[d] * strides[o][d];
      at += sim::draw(3); // gaps between the bins
      indices[o][flat] = {at, at + size[bin]};
      at += size[bin++];
    });
  }
  Visits<N> expected;
  std::vector<idx> first{0};
  idx bin = 0;
  nested(shape_of(bin_dims), [&](const auto &c) {
    auto shape = shape_of(inner);
    shape[slice] = size[bin++];
    std::array<idx, N> flat{};
    for (size_t o = 0; o < N; ++o)
      for (size_t d = 0; d < c.size(); ++d)
        flat[o] += c[d] * strides[o][d];
    nested(shape, [&](const auto &e) {
      std::array<idx, N> at = flat;
      for (size_t o = 0; o < N; ++o)
        if (is_binned[o]) {
          at[o] = indices[o][flat[o]].first * buffer_strides[o][slice];
          for (size_t d = 0; d < e.size(); ++d)
            at[o] += e[d] * buffer_strides[o][d];
        }
      expected.push_back(at);
    });
    first.push_back(static_cast<idx>(expected.size()));
  });
  const auto make = [&] {
    return with_each(std::make_index_sequence<N>{}, [&](auto... o) {
        return MultiIndex<N>(ElementArrayViewParams(
            0, bin_dims, as_strides(strides[o]),
            is_binned[o] ? BucketParams{inner.label(slice), inner,
                                        as_strides(buffer_strides[o]),
                                        indices[o].data()}
                         : BucketParams{})...);
    });
  };
  if (volume != 0 && sim::draw_bool(12)) {
    // A bin of another size in one of the operands.
    std::vector<size_t> which;
    for (size_t o = 0; o < N; ++o)
      if (is_binned[o])
        which.push_back(o);
    if (which.size() >= 2) {
      auto &ranges = indices[which[sim::draw(which.size())]];
      std::vector<size_t> used;
      for (size_t i = 0; i < ranges.size(); ++i)
        if (ranges[i].first != ranges[i].second || ranges.size() == 1)
          used.push_back(i);
      if (!used.empty()) {
        auto &range = ranges[used[sim::draw(used.size())]];
        const bool shrink = range.first < range.second && sim::draw_bool();
        range.second += shrink ? -1 : 1;
        sim::count(sim::FaultReject);
        try {
          make();
        } catch (const scipp::except::BinnedDataError &) {
          return;
        }
        sim::violation("accepted", "bins of different sizes, %zu operands",
                       N);
      }
    }
  }
  const auto index = make();
  if (volume == 0) {
    if (index.begin() != index.end())
      sim::violation("extra-element", "elements without bins");
    return;
  }
  check_pieces<N>(index, volume, first, expected);
}

void view() {
  const auto dims = draw_dims(5, 6, false);
  const auto s = draw_strides(dims, true);
  idx span = 1;
  for (idx d = 0; d < dims.ndim(); ++d)
    span += (dims.size(d) - 1) * s[d];
  const idx offset = sim::draw(4);
  std::vector<int64_t> buffer(span + offset, -1);
  ElementArrayView<int64_t> base(buffer.data(), offset, dims, as_strides(s));
  // Iterate in another order of dimensions, shorter ones and some missing.
  std::vector<Dim> order(dims.labels().begin(), dims.labels().end());
  const bool same = sim::draw_bool(3);
  if (!same)
    for (int i = static_cast<int>(order.size()) - 1; i > 0; --i)
      std::swap(order[i], order[sim::draw(i + 1)]);
  Dimensions iter;
  std::vector<idx> step;
  for (const auto dim : order) {
    const auto i = dims.index(dim);
    const auto n = same ? dims[dim] : sim::draw_in(1, dims[dim]);
    iter.addInner(dim, n);
    step.push_back(s[i]);
  }
  const bool broadcast = !same && sim::draw_bool(4);
  if (broadcast) {
    iter.add(labels[5], 1 + sim::draw(4)); // new outer dimension
    step.insert(step.begin(), 0);
  }
  std::vector<idx> expected;
  nested(shape_of(iter), [&](const auto &c) {
    idx at = offset;
    for (size_t d = 0; d < c.size(); ++d)
      at += c[d] * step[d];
    expected.push_back(at);
  });
  const ElementArrayView<int64_t> v(base, iter);
  const idx n = v.size();
  if (n != static_cast<idx>(expected.size()))
    sim::violation("size", "size %ld, expected %zu", long(n), expected.size());
  const int mode = sim::draw_in(0, 3);
  const idx stride = 1 + sim::draw(5);
  const idx grain = sim::draw_bool() ? -1 : 1 + sim::draw(n + 1);
  const auto body = [&](const auto &r) {
    const auto begin = v.begin();
    const auto check = [&](const auto &it, const idx k) {
      if (&*it != buffer.data() + expected[k])
        sim::violation("wrong-element", "element %ld of %ld is at %ld, "
                       "expected %ld", long(k), long(n),
                       long(&*it - buffer.data()), long(expected[k]));
      if (it - begin != k || begin + k != it)
        sim::violation("position", "element %ld of %ld is at position %ld",
                       long(k), long(n), long(it - begin));
      if (!broadcast)
        *it = k; // each element belongs to one piece
    };
    if (mode == 0) {
      auto it = begin + r.begin();
      for (idx k = r.begin(); k < r.end(); ++k, ++it)
        check(it, k);
      if (it != begin + r.end())
        sim::violation("position", "end of a piece");
    } else if (mode == 1) {
      auto it = begin + r.end();
      for (idx k = r.end(); k-- > r.begin();)
        check(--it, k);
    } else if (mode == 2) {
      for (idx k = r.begin(); k < r.end(); ++k)
        if (&v[k] != buffer.data() + expected[k])
          sim::violation("wrong-element", "operator[] %ld of %ld", long(k),
                         long(n));
        else if (!broadcast)
          v[k] = k;
    } else {
      auto it = begin + r.begin();
      for (idx k = r.begin(); k < r.end(); k += stride) {
        check(it, k);
        if (k + stride < n)
          it += stride;
      }
      for (idx k = r.begin(); k < r.end(); ++k)
        check(begin + k, k);
    }
  };
  parallel::parallel_for(parallel::blocked_range(0, n, grain), body);
  if (!broadcast)
    for (idx k = 0; k < n; ++k)
      if (buffer[expected[k]] != k)
        sim::violation("lost-write", "element %ld of %ld", long(k), long(n));
  if (!broadcast) {
    idx written = 0;
    for (const auto x : buffer)
      written += x != -1;
    if (written != n)
      sim::violation("stray-write", "%ld elements written, expected %ld",
                     long(written), long(n));
  }
  sim::observe(n);
}
} // namespace

WORKLOAD(dense1, "C13.dense-1", 3) { dense<1>(); }
WORKLOAD(dense2, "C13.dense-2", 5) { dense<2>(); }
WORKLOAD(dense3, "C13.dense-3", 5) { dense<3>(); }
WORKLOAD(dense4, "C13.dense-4", 2) { dense<4>(); }
WORKLOAD(dense5, "C13.dense-5", 2) { dense<5>(); }
WORKLOAD(binned1, "C13.binned-1", 5) { binned<1>(); }
WORKLOAD(binned2, "C13.binned-2", 6) { binned<2>(); }
WORKLOAD(binned3, "C13.binned-3", 4) { binned<3>(); }
WORKLOAD(binned4, "C13.binned-4", 2) { binned<4>(); }
WORKLOAD(view_any, "C13.view", 10) { view(); }
