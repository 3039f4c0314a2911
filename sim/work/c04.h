#pragma once
// C04: binning, grouping, concatenating and histogramming move every event to
// where it belongs, exactly once and together with all that belongs to it.
#include "data.h"

#include <algorithm>
#include <map>
#include <set>

#include "scipp/core/bucket.h"
#include "scipp/core/except.h"
#include "scipp/core/slice.h"
#include "scipp/dataset/bin.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/except.h"
#include "scipp/dataset/groupby.h"
#include "scipp/dataset/histogram.h"
#include "scipp/dataset/rebin.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/except.h"
#include "scipp/variable/operations.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/variable_factory.h"

using namespace scipp;
using namespace scipp::variable;
using namespace vm;
using dm::CoordMap;
using dm::DataArray;
using dm::Dataset;
using dm::Gen;
using scipp::core::dtype;

namespace ev {
/// One coordinate of the events.
struct EvCol {
  Dim dim;
  DType dtype;
  std::vector<double> values; // of all rows of the buffer
};

/// Events, in bins or as a table, with all that is known about them.
struct Source {
  bool table = false;
  Ext outer;
  DataArray da;
  std::vector<EvCol> cols;
  std::vector<double> weights, variances;
  std::vector<std::vector<idx>> bins; // rows of each bin (one for a table)
  std::map<std::string, std::vector<double>> bin_coords; // 1-D or 0-D points
  std::map<std::string, Dim> bin_coord_dim;
  std::map<std::string, std::vector<double>> bin_edges;
  DType wtype = dtype<double>;
  bool has_var = false;
  Logical l; // outer dims
  const EvCol *col(const Dim d) const {
    for (const auto &c : cols)
      if (c.dim == d)
        return &c;
    return nullptr;
  }
};

inline double quantize(const DType t, const double v) {
  return t == dtype<int64_t> || t == dtype<int32_t> ? std::floor(v) : v;
}

inline double draw_x(Gen &g, const DType t, const double lo = -2,
                     const double hi = 22) {
  if (t == dtype<float> && hi > 1000) // any
    return double(float(lo + (hi - lo) * double(g.in(0, 1 << 22)) / (1 << 22)));
  return quantize(t, lo + double(g.in(0, idx(2 * (hi - lo)) - 1)) / 2);
}

inline DType draw_coord_type() {
  const auto i = sim::draw(6);
  return i < 3   ? dtype<double>
         : i < 4 ? dtype<float>
         : i < 5 ? dtype<int64_t>
                 : dtype<int32_t>;
}

inline const Unit coord_unit = units::m;

/// Increasing values from about 0 to 20.
inline std::vector<double> rising(Gen &g, const idx n, const bool linspace,
                           const bool duplicates = false) {
  std::vector<double> v;
  if (linspace) {
    static const double steps[] = {1, 2, 0.5, 4};
    const auto step = steps[g.in(0, 3)];
    const auto at = double(g.in(-1, 8));
    for (idx i = 0; i < n; ++i)
      v.push_back(at + step * double(i));
    return v;
  }
  double at = double(g.in(-2, 6));
  for (idx i = 0; i < n; ++i) {
    v.push_back(at);
    at += double(g.in(duplicates ? 0 : 1, 8)) / (n > 12 ? 8 : 1) + (duplicates ? 0 : 0.0);
  }
  return v;
}

inline Variable to_variable(const Ext &e, const DType t, const Unit &u,
                     const std::vector<double> &v) {
  size_t i = 0;
  Gen g{0};
  return dm::column(e, t, u, g, [&](Gen &) { return v[i++]; });
}

struct SrcOpts {
  idx rows = 60;        // of a table
  idx max_bin = 5;
  int max_ndim = 2;
  idx outer_volume = 10;
  bool may_table = true;
  bool may_nan = true;
  bool edge_coords = true;
  bool masks = true;
  bool int_weights = true;
  bool force_table = false;
  bool exact_rows = false;
  bool float_coords = false;
  bool all_columns = false;
  double span = 22;     // of event coordinates
  idx groups = 7;       // largest group
};

/// A column of events named like an outer dimension with bin edges stays
/// within them.
inline Source draw_source(const SrcOpts &o) {
  Source s;
  s.table = o.force_table || (o.may_table && sim::draw_bool(3));
  if (!s.table)
    s.outer = draw_shape(o.max_ndim, o.outer_volume, true);
  auto g = dm::draw_gen();
  s.l.labels = s.outer.labels;
  s.l.shape = s.outer.shape;
  const auto nbin = s.table ? 1 : s.l.volume();
  // Rows of the buffer
  idx rows = 0;
  s.bins.resize(nbin);
  std::vector<std::pair<idx, idx>> ranges(nbin);
  if (s.table) {
    rows = sim::draw_bool(10) ? 0 : idx(sim::draw(uint32_t(o.rows + 1)));
    if (o.exact_rows)
      rows = o.rows + idx(sim::draw(20));
    for (idx i = 0; i < rows; ++i)
      s.bins[0].push_back(i);
  } else {
    std::vector<idx> order(nbin);
    for (idx i = 0; i < nbin; ++i)
      order[i] = i;
    if (sim::draw_bool(3))
      for (idx i = nbin - 1; i > 0; --i)
        std::swap(order[i], order[g.in(0, i)]);
    const bool gaps = sim::draw_bool(3);
    for (const auto b : order) {
      if (gaps)
        rows += g.in(0, 2);
      const auto n = g.in(0, 3) == 0 ? 0 : g.in(0, o.max_bin);
      ranges[b] = {rows, rows + n};
      for (idx i = 0; i < n; ++i)
        s.bins[b].push_back(rows + i);
      rows += n;
    }
    if (gaps)
      rows += g.in(0, 2);
  }
  std::vector<idx> bin_of(rows, -1);
  for (idx b = 0; b < nbin; ++b)
    for (const auto r : s.bins[b])
      bin_of[r] = b;
  // Coordinates of the bins
  CoordMap coords;
  for (size_t i = 0; i < s.outer.labels.size(); ++i) {
    const auto d = s.outer.labels[i];
    const auto kind = sim::draw(4); // 0 none, 1 edges, 2 points, 3 other points
    if (kind == 0)
      continue;
    if (kind == 1 && o.edge_coords) {
      const auto e = rising(g, s.outer.shape[i] + 1, sim::draw_bool());
      s.bin_edges[d.name()] = e;
      coords.emplace_back(
          d, to_variable({{d}, {s.outer.shape[i] + 1}}, dtype<double>,
                         coord_unit, e));
    } else {
      std::vector<double> p;
      if (kind == 2)
        p = rising(g, s.outer.shape[i], sim::draw_bool());
      else
        for (idx k = 0; k < s.outer.shape[i]; ++k)
          p.push_back(draw_x(g, dtype<int64_t>));
      s.bin_coords[d.name()] = p;
      s.bin_coord_dim[d.name()] = d;
      coords.emplace_back(d, to_variable({{d}, {s.outer.shape[i]}},
                                         dtype<double>, coord_unit, p));
    }
  }
  // A label for bins along one dimension
  if (!s.outer.labels.empty() && sim::draw_bool()) {
    const auto i = sim::draw(uint32_t(s.outer.labels.size()));
    std::vector<double> p;
    for (idx k = 0; k < s.outer.shape[i]; ++k)
      p.push_back(double(g.in(0, 4)));
    s.bin_coords["label"] = p;
    s.bin_coord_dim["label"] = s.outer.labels[i];
    coords.emplace_back(Dim("label"),
                        to_variable({{s.outer.labels[i]}, {s.outer.shape[i]}},
                                    sim::draw_bool() ? dtype<int64_t>
                                                     : dtype<int32_t>,
                                    coord_unit, p));
  }
  // Columns
  std::vector<idx> at(s.outer.labels.size());
  for (int k = 0; k < 4; ++k) {
    const auto d = k < 3 ? dim_of(k) : Dim("g");
    if (!o.all_columns && sim::draw_bool(k == 3 ? 2 : 4))
      continue;
    if (s.bin_coords.count(d.name()))
      continue; // the coord of the bins is used
    EvCol c{d, k == 3 ? (sim::draw_bool() ? dtype<int64_t> : dtype<int32_t>)
                      : (o.float_coords ? dtype<float> : draw_coord_type()),
            {}};
    const bool nan = o.may_nan && sim::draw_bool(6) && is_float(c.dtype);
    const auto oi = s.l.find(d);
    const auto e = s.bin_edges.find(d.name());
    if (e != s.bin_edges.end() && !is_float(c.dtype))
      c.dtype = dtype<double>;
    for (idx r = 0; r < rows; ++r) {
      double v;
      if (k == 3)
        v = double(g.in(0, o.groups));
      else if (e != s.bin_edges.end() && bin_of[r] >= 0) {
        idx stride = 1;
        for (size_t j = oi + 1; j < s.l.shape.size(); ++j)
          stride *= s.l.shape[j];
        const auto p = (bin_of[r] / stride) % s.l.shape[oi];
        const auto lo = e->second[p], hi = e->second[p + 1];
        v = g.in(0, 3) == 0 ? lo : lo + (hi - lo) * double(g.in(0, 7)) / 8;
      } else
        v = draw_x(g, c.dtype, -2, o.span);
      if (nan && g.in(0, 9) == 0 && e == s.bin_edges.end())
        v = NAN;
      c.values.push_back(v);
    }
    s.cols.push_back(std::move(c));
  }
  // Weights
  s.wtype = !sim::draw_bool(3)  ? dtype<double>
            : sim::draw_bool()  ? dtype<float>
            : !o.int_weights    ? dtype<double>
            : sim::draw_bool()  ? dtype<int64_t>
                                : dtype<int32_t>;
  s.has_var = is_float(s.wtype) && sim::draw_bool();
  for (idx r = 0; r < rows; ++r) {
    s.weights.push_back(double(g.in(1, 9)));
    s.variances.push_back(s.has_var ? double(g.in(1, 9)) : 0);
  }
  const Dim row_dim = s.table && sim::draw_bool(3)
                          ? (sim::draw_bool() ? Dim(Dim::Row) : dim_of(0))
                          : Dim(Dim::Event);
  const Ext re{{row_dim}, {rows}};
  auto weights = to_variable(re, s.wtype, units::counts, s.weights);
  if (s.has_var)
    weights.setVariances(to_variable(re, s.wtype, units::counts, s.variances));
  DataArray buffer(weights);
  std::vector<double> ids;
  for (idx r = 0; r < rows; ++r)
    ids.push_back(double(bin_of[r] < 0 ? -1 - r : r));
  const auto id = to_variable(re, dtype<int64_t>, units::none, ids);
  const bool id_first = sim::draw_bool();
  if (id_first)
    buffer.coords().set(Dim("id"), id);
  for (const auto &c : s.cols)
    buffer.coords().set(c.dim, to_variable(re, c.dtype, coord_unit, c.values));
  if (!id_first)
    buffer.coords().set(Dim("id"), id);
  if (sim::draw_bool(3))
    buffer.masks().set("em", dm::column(re, dtype<bool>, units::none, g,
                                        [](Gen &r) { return double(r.in(0, 3) == 0); }));
  if (sim::draw_bool(4))
    buffer.attrs().set(Dim("ea"),
                       dm::column(re, dtype<float>, units::one, g,
                                  [](Gen &r) { return double(r.in(0, 99)); }));
  if (s.table) {
    s.da = buffer;
    return s;
  }
  core::element_array<std::pair<idx, idx>> v(nbin);
  for (idx i = 0; i < nbin; ++i)
    v.data()[i] = ranges[i];
  const Variable indices(
      units::none, s.l.dims(), std::move(v),
      std::optional<core::element_array<std::pair<idx, idx>>>{});
  s.da = dm::assemble(dataset::make_bins(indices, row_dim, buffer), coords,
                      o.masks ? dm::draw_masks(s.outer, 2) : dm::MaskMap{}, {},
                      "src");
  return s;
}

/// Position of bin b along dimension d.
inline idx position(const Source &s, const idx b, const Dim d) {
  const auto i = s.l.find(d);
  idx stride = 1;
  for (size_t j = i + 1; j < s.l.shape.size(); ++j)
    stride *= s.l.shape[j];
  return (b / stride) % s.l.shape[i];
}

/// Masked by a mask that depends on one of the dimensions.
inline std::vector<bool> hidden(const Source &s, const std::set<std::string> &dims) {
  std::vector<bool> out(s.bins.size(), false);
  if (s.table)
    return out;
  for (const auto &[name, m] : s.da.masks()) {
    bool applies = false;
    for (const auto &d : m.dims())
      applies |= dims.count(d.name()) > 0;
    if (!applies)
      continue;
    const auto l = read(m);
    each(s.l, [&](const auto &c, const idx b) {
      if (l.cells[l.at(s.l, c)][0].v != 0)
        out[b] = true;
    });
  }
  return out;
}

/// Along one dimension of the output.
struct Axis {
  Dim dim;
  bool group = false;
  bool existing = false;
  std::vector<double> values; // edges or groups
  Variable var;
  idx size() const {
    return group || existing ? idx(values.size()) : idx(values.size()) - 1;
  }
  mutable std::map<double, idx> order; // of groups
  idx find(const double x) const {
    if (group) {
      if (order.empty())
        for (size_t i = 0; i < values.size(); ++i)
          order[values[i]] = idx(i);
      const auto it = order.find(x);
      return it == order.end() ? -1 : it->second;
    }
    idx lo = 0, hi = idx(values.size()) - 1; // values[lo] <= x < values[hi]
    if (std::isnan(x) || x < values[lo] || x >= values[hi])
      return -1;
    while (hi - lo > 1) {
      const auto mid = lo + (hi - lo) / 2;
      (values[mid] <= x ? lo : hi) = mid;
    }
    return lo;
  }
};

inline std::string describe(const Source &s, const std::vector<Axis> &axes) {
  std::string out = s.table ? "table of " + std::to_string(s.bins[0].size())
                            : "bins " + s.l.str();
  for (const auto &a : axes)
    out += std::string(a.group      ? " group "
                       : a.existing ? " keep "
                                    : " edges ") +
           a.dim.name() + ":" + std::to_string(a.size());
  return out;
}

/// Columns by name, aligned with the events of each cell.
struct Flat {
  std::map<std::string, double> values;
};

/// Every row of the table behind a snap, by id.
inline void collect(const dm::Snap &s, std::map<idx, Flat> &out, const char *what) {
  const auto id = s.ecoords.find("id");
  if (id == s.ecoords.end())
    sim::violation("lost", "%s: event coord id is missing", what);
  for (size_t c = 0; c < s.data.l.cells.size(); ++c)
    for (size_t e = 0; e < s.data.l.cells[c].size(); ++e) {
      auto &f = out[idx(id->second.l.cells[c][e].v)];
      f.values["weight"] = s.data.l.cells[c][e].v;
      f.values["variance"] = s.data.l.cells[c][e].var;
      for (const auto *m : {&s.ecoords, &s.emasks, &s.eattrs})
        for (const auto &[k, v] : *m)
          f.values["." + k] = v.l.cells[c][e].v;
    }
}

inline bool same(const double a, const double b) {
  return a == b || (std::isnan(a) && std::isnan(b));
}

using Cells = std::vector<std::vector<std::vector<idx>>>; // [out][in] ids

/// Compare bin contents: `want[cell][input bin]` lists events in order.
inline void check_cells(const Source &s, const dm::Snap &got, const Logical &order,
                 const Cells &want, const std::set<std::string> &dropped,
                 const std::string &what) {
  const auto &l = got.data.l;
  if (!got.events)
    sim::violation("result", "%s: result is not binned", what.c_str());
  if (l.labels.size() != order.labels.size())
    sim::violation("result", "%s: result is %s, expected %s", what.c_str(),
                   l.str().c_str(), order.str().c_str());
  for (size_t i = 0; i < order.labels.size(); ++i)
    if (l.find(order.labels[i]) < 0 ||
        l.size(order.labels[i]) != order.shape[i])
      sim::violation("result", "%s: result is %s, expected %s", what.c_str(),
                     l.str().c_str(), order.str().c_str());
  if (l.dtype != s.wtype || l.has_var != s.has_var || l.unit != Unit(units::counts))
    sim::violation("result", "%s: dtype, variances or unit changed",
                   what.c_str());
  for (const auto &c : s.cols) {
    const auto it = got.ecoords.find(c.dim.name());
    if (!dropped.count(c.dim.name()) && it == got.ecoords.end())
      sim::violation("lost", "%s: event coord %s is missing", what.c_str(),
                     c.dim.name().c_str());
    if (it != got.ecoords.end() &&
        (it->second.l.dtype != c.dtype || it->second.l.unit != coord_unit))
      sim::violation("result", "%s: dtype or unit of event coord %s changed",
                     what.c_str(), c.dim.name().c_str());
  }
  if (const auto &id = got.ecoords.at("id").l;
      id.dtype != dtype<int64_t> || id.unit != units::none)
    sim::violation("result", "%s: dtype or unit of event coord id changed",
                   what.c_str());
  const auto &id = got.ecoords.at("id").l;
  each(l, [&](const auto &c, const idx k) {
    const auto w = order.at(l, c);
    std::map<idx, idx> count; // per input bin: next
    const auto &in = want[w];
    idx expected = 0;
    for (const auto &x : in)
      expected += idx(x.size());
    if (expected != idx(l.cells[k].size()))
      sim::violation("conserve", "%s: bin %ld has %zu events, expected %ld",
                     what.c_str(), long(k), l.cells[k].size(), long(expected));
    std::vector<size_t> next(in.size(), 0);
    for (const auto &e : id.cells[k]) {
      const auto i = idx(e.v);
      bool ok = false;
      for (size_t b = 0; b < in.size() && !ok; ++b)
        if (next[b] < in[b].size() && in[b][next[b]] == i) {
          ++next[b];
          ok = true;
        }
      if (!ok)
        sim::violation("order",
                       "%s: event %ld in bin %ld is not expected there or out "
                       "of order",
                       what.c_str(), long(i), long(k));
    }
  });
}

inline void check_columns(const std::map<idx, Flat> &before, const dm::Snap &got,
                   const std::string &what) {
  std::map<idx, Flat> after;
  collect(got, after, what.c_str());
  for (const auto &[id, f] : after) {
    const auto it = before.find(id);
    if (it == before.end())
      sim::violation("conserve", "%s: unknown event %ld", what.c_str(), long(id));
    for (const auto &[k, v] : f.values)
      if (!it->second.values.count(k) || !same(it->second.values.at(k), v))
        sim::violation("mixed", "%s: event %ld has %s=%g, expected %g",
                       what.c_str(), long(id), k.c_str(), v,
                       it->second.values.count(k) ? it->second.values.at(k)
                                                  : NAN);
  }
}

inline std::map<idx, Flat> columns_before(const Source &s) {
  std::map<idx, Flat> out;
  if (!s.table) {
    collect(dm::snap(s.da), out, "input");
    return out;
  }
  const auto snap = dm::snap(s.da);
  for (idx r = 0; r < idx(s.weights.size()); ++r) {
    auto &f = out[r];
    f.values["weight"] = snap.data.l.cells[r][0].v;
    f.values["variance"] = snap.data.l.cells[r][0].var;
    for (const auto *m : {&snap.coords, &snap.masks, &snap.attrs})
      for (const auto &[k, v] : *m)
        f.values["." + k] = v.l.cells[r][0].v;
  }
  return out;
}

template <class F> std::string attempt(F &&f) {
  try {
    f();
  } catch (const std::exception &e) {
    const std::string s = e.what();
    if (s.find("more than 6 dim") != std::string::npos)
      sim::skip("too many dimensions");
    sim::count(sim::FaultReject);
    return s.empty() ? "exception" : s;
  }
  return {};
}

/// Edges or groups. `bins` is the wanted number of bins or groups, 0 for a few.
inline Axis draw_axis(const Dim d, const DType t, const bool group,
                      const idx bins = 0) {
  auto g = dm::draw_gen();
  Axis a;
  a.dim = d;
  a.group = group;
  if (group) {
    const auto n = bins > 0 ? bins : idx(sim::draw(7));
    const auto range = std::max<idx>(9, n);
    if (sim::draw_bool()) { // consecutive
      const auto at = g.in(-1, 5);
      for (idx i = 0; i < n; ++i)
        a.values.push_back(double(at + i));
    } else {
      std::vector<double> all;
      for (idx i = 0; i < range; ++i)
        all.push_back(double(i - 1));
      for (idx i = range - 1; i > 0; --i)
        std::swap(all[i], all[g.in(0, i)]);
      a.values.assign(all.begin(), all.begin() + n);
    }
    a.var = to_variable({{d}, {n}}, t, coord_unit, a.values);
    return a;
  }
  if (bins > 0 && t == dtype<float> && sim::draw_bool()) {
    // Accumulated rounding errors
    static const float steps[] = {0.1f, 0.07f, 0.05f, 0.013f};
    const auto step = steps[sim::draw(4)];
    auto at = float(g.in(-1, 2));
    for (idx i = 0; i <= bins; ++i, at += step)
      a.values.push_back(double(at));
    a.var = to_variable({{d}, {bins + 1}}, t, coord_unit, a.values);
    return a;
  }
  const auto n = bins > 0 ? bins + 1 : 2 + idx(sim::draw(5));
  a.values = rising(g, n, sim::draw_bool(), sim::draw_bool(4));
  auto et = t;
  if (sim::draw_bool(3))
    et = dtype<double>;
  if (!is_float(et))
    for (auto &v : a.values)
      v = std::floor(v);
  a.var = to_variable({{d}, {n}}, et, coord_unit, a.values);
  return a;
}
} // namespace ev
