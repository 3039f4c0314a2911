// C05: keys of drawn type, and groups found independently.
#pragma once
#include "data.h"
#include "reduce.h"

#include <algorithm>
#include <map>
#include <set>
#include <string>

#include "scipp/core/time_point.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/dataset.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/shape.h"

namespace gr {
using namespace dm;
using namespace scipp;
using scipp::core::dtype;
using scipp::core::time_point;
using scipp::dataset::DataArray;
using scipp::dataset::Dataset;
using scipp::variable::Variable;

/// Key along one dimension. `rank` orders the values, NaN is NaN.
struct Key {
  DType dtype = scipp::core::dtype<double>;
  Unit unit = units::none;
  std::vector<double> rank;
  Variable var;
};

template <class T> T value_of(const double rank) {
  if constexpr (std::is_same_v<T, std::string>)
    return "k" + std::to_string(1000 + static_cast<int>(rank));
  else if constexpr (std::is_same_v<T, time_point>)
    return time_point(static_cast<int64_t>(rank));
  else
    return static_cast<T>(rank);
}

template <class F> decltype(auto) by_key(const DType t, F &&f) {
  if (t == dtype<std::string>)
    return f(std::string{});
  if (t == dtype<time_point>)
    return f(time_point{});
  return by_dtype(t, f);
}

/// As a variable of one dimension, maybe not contiguous.
inline Variable make_key(const Dim d, const DType t, const Unit u,
                         const std::vector<double> &rank,
                         const bool strided) {
  const idx n = idx(rank.size());
  return by_key(t, [&](auto x) {
    using T = decltype(x);
    const idx m = strided ? 2 : 1;
    core::element_array<T> v(n * m);
    for (idx i = 0; i < n; ++i) {
      v.data()[i * m] = value_of<T>(rank[i]);
      if (strided)
        v.data()[i * m + 1] = value_of<T>(rank[n - 1 - i]);
    }
    if (!strided)
      return Variable(u, core::Dimensions({d}, {n}), std::move(v),
                      std::optional<core::element_array<T>>{});
    return Variable(u, core::Dimensions({d, Dim("stride")}, {n, m}),
                    std::move(v), std::optional<core::element_array<T>>{})
        .slice({Dim("stride"), 0});
  });
}

inline Key draw_key(const Dim d, const idx n, const bool numeric,
                    const int distinct) {
  static const DType types[] = {dtype<double>,  dtype<float>,
                                dtype<int64_t>, dtype<int32_t>,
                                dtype<bool>,    dtype<std::string>,
                                dtype<time_point>};
  Key k;
  k.dtype = types[sim::draw(numeric ? 4 : 7)];
  const bool text = k.dtype == dtype<std::string> || k.dtype == dtype<bool>;
  k.unit = k.dtype == dtype<time_point> ? units::ns
           : text                       ? units::none
                                        : units::m;
  const bool fp = is_fp(k.dtype);
  const bool nan = fp && sim::draw_bool(4);
  const bool runs = sim::draw_bool();
  auto g = draw_gen();
  double last = 0;
  for (idx i = 0; i < n; ++i) {
    if (i == 0 || !runs || g.in(0, 2) == 0) {
      last = double(g.in(0, distinct - 1));
      if (k.dtype == dtype<bool>)
        last = last > 0;
      else if (k.dtype != dtype<std::string>)
        last -= distinct / 2;
      if (nan && g.in(0, 4) == 0)
        last = NAN;
      else if (fp && last == 0 && g.in(0, 1))
        last = -0.0;
    }
    k.rank.push_back(last);
  }
  k.var = make_key(d, k.dtype, k.unit, k.rank, sim::draw_bool(4));
  return k;
}

/// Members of each group, by position.
struct Groups {
  std::vector<double> rank; // value or edges
  std::vector<std::vector<idx>> members;
};

inline Groups by_value(const Key &k) {
  Groups g;
  bool nan = false;
  std::set<double> seen;
  for (const auto r : k.rank)
    if (std::isnan(r))
      nan = true;
    else
      seen.insert(r);
  g.rank.assign(seen.begin(), seen.end());
  if (nan)
    g.rank.push_back(NAN);
  g.members.resize(g.rank.size());
  for (idx i = 0; i < idx(k.rank.size()); ++i)
    for (size_t j = 0; j < g.rank.size(); ++j)
      if (k.rank[i] == g.rank[j] ||
          (std::isnan(k.rank[i]) && std::isnan(g.rank[j])))
        g.members[j].push_back(i);
  return g;
}

inline Groups by_edges(const Key &k, const std::vector<double> &edges) {
  Groups g;
  g.rank = edges;
  g.members.resize(edges.size() - 1);
  for (idx i = 0; i < idx(k.rank.size()); ++i)
    for (size_t j = 0; j + 1 < edges.size(); ++j)
      if (k.rank[i] >= edges[j] && k.rank[i] < edges[j + 1])
        g.members[j].push_back(i);
  return g;
}

/// One mask is all of them that depend on one of the dimensions.
inline std::vector<bool> masked(const Snap &s, const std::set<std::string> &d) {
  const auto &l = s.data.l;
  std::vector<bool> out(l.volume(), false);
  for (const auto &[name, m] : s.masks) {
    bool applies = false;
    for (const auto &x : m.l.labels)
      applies |= d.count(x.name()) > 0;
    if (applies)
      each(l, [&](const auto &c, const idx k) {
        if (m.l.cells[m.l.at(l, c)][0].v != 0)
          out[k] = true;
      });
  }
  return out;
}

inline bool depends(const Logical &l, const Dim d) { return l.find(d) >= 0; }

inline Cols without(const Cols &in, const Dim d) {
  Cols out;
  for (const auto &[k, c] : in)
    if (!depends(c.l, d))
      out[k] = c;
  return out;
}

/// Events of masked bins or with masks of their own do not count.
inline bool event_masked(const Snap &s, const idx cell, const idx event) {
  for (const auto &[k, m] : s.emasks)
    if (m.l.cells[cell][event].v != 0)
      return true;
  return false;
}

inline Col key_col(const Dim d, const Key &k, const Groups &g) {
  Col c;
  c.l.labels = {d};
  c.l.shape = {idx(g.rank.size())};
  c.l.dtype = k.dtype;
  c.l.unit = k.unit;
  c.l.resize_cells();
  for (size_t i = 0; i < g.rank.size(); ++i)
    c.l.cells[i][0].v = g.rank[i];
  return c;
}

template <class F> std::string attempt(F &&f) {
  try {
    f();
  } catch (const std::exception &e) {
    const std::string s = e.what();
    return s.empty() ? "exception" : s;
  }
  return {};
}
} // namespace gr
