// C04: histograms, rebinning, and looking up values of histograms.
#include "c04.h"

#include "scipp/dataset/shape.h"

using namespace ev;

namespace {
/// Mask values at each cell, of the masks that depend on a dimension.
std::vector<bool> masked_along(const DataArray &da, const Logical &l,
                               const Dim dim) {
  std::vector<bool> out(l.volume(), false);
  for (const auto &[name, m] : da.masks()) {
    if (!m.dims().contains(dim))
      continue;
    const auto v = read(m);
    each(l, [&](const auto &c, const idx k) {
      if (v.cells[v.at(l, c)][0].v != 0)
        out[k] = true;
    });
  }
  return out;
}

/// Meta data that does not depend on `dim` is kept, the rest is gone.
void expect_meta(const DataArray &in, const DataArray &out, const Dim dim,
                 const Variable *edges, const std::string &what) {
  dm::Cmp cmp;
  cmp.flags = false;
  const auto a = dm::snap(in), b = dm::snap(out);
  const auto side = [&](const dm::Cols &x, const dm::Cols &y, const char *n) {
    for (const auto &[k, c] : x) {
      if (edges && k == edges->dims().inner().name())
        continue;
      const bool kept = c.l.find(dim) < 0;
      if (kept != (y.count(k) > 0))
        sim::violation("result", "%s: %s %s is %s", what.c_str(), n, k.c_str(),
                       kept ? "lost" : "kept");
      if (kept && !dm::differs(y.at(k), c, cmp).empty())
        sim::violation("result", "%s: %s %s changed", what.c_str(), n,
                       k.c_str());
    }
  };
  side(a.coords, b.coords, "coord");
  side(a.masks, b.masks, "mask");
  if (edges) {
    const auto it = b.coords.find(edges->dims().inner().name());
    if (it == b.coords.end() ||
        !dm::differs(it->second, dm::col(*edges), cmp).empty())
      sim::violation("result", "%s: edges of the result", what.c_str());
  }
}

/// A variable of the same values in some memory layout.
Variable relayout(const Variable &v, Gen &g) {
  if (v.ndim() < 2)
    return v;
  auto labels = std::vector<Dim>(v.dims().begin(), v.dims().end());
  auto other = labels;
  for (size_t i = other.size() - 1; i > 0; --i)
    std::swap(other[i], other[g.in(0, idx(i))]);
  const auto moved = copy(
      transpose(v, scipp::span<const Dim>(other.data(), other.size())));
  return transpose(moved,
                   scipp::span<const Dim>(labels.data(), labels.size()));
}

void check_hist(const DataArray &da, const Logical &order,
                const std::vector<double> &v, const std::vector<double> &var,
                const Variable &edges, const Dim gone, const bool repeat,
                const DType t, const bool has_var, const std::string &what) {
  const auto before = dm::snap(da);
  DataArray result, again;
  const auto error = attempt([&] {
    result = dataset::histogram(da, edges);
    if (repeat)
      again = dataset::histogram(da, edges);
  });
  sim::Quiet q;
  const auto db = dm::differs(dm::snap(da), before);
  if (!db.empty())
    sim::violation("operand", "%s: the input changed: %s", what.c_str(),
                   db.c_str());
  if (!error.empty())
    sim::violation("rejected", "%s: %s", what.c_str(),
                   error.substr(0, 160).c_str());
  const auto got = dm::snap(result);
  dm::observe(got);
  if (repeat) {
    const auto dr = dm::differs(got, dm::snap(again));
    if (!dr.empty())
      sim::violation("schedule", "%s: not the same when repeated: %s",
                     what.c_str(), dr.c_str());
  }
  const auto &l = got.data.l;
  bool ok = l.labels.size() == order.labels.size() && !l.binned;
  for (size_t i = 0; ok && i < order.labels.size(); ++i)
    ok = l.find(order.labels[i]) >= 0 &&
         l.size(order.labels[i]) == order.shape[i];
  if (!ok || l.dtype != t || l.has_var != has_var || l.unit != Unit(units::counts))
    sim::violation("result", "%s: result is %s, expected %s", what.c_str(),
                   l.str().c_str(), order.str().c_str());
  each(l, [&](const auto &c, const idx k) {
    const auto w = order.at(l, c);
    const auto &e = l.cells[k][0];
    if (e.v != v[w] || (has_var && e.var != var[w]))
      sim::violation("conserve", "%s: bin %ld is %g +- %g, expected %g +- %g",
                     what.c_str(), long(k), e.v, e.var, v[w], var[w]);
  });
  expect_meta(da, result, gone, &edges, what);
}
} // namespace

/// Histogram of the events of bins or of a table.
namespace {
void check_histogram(const int many) {
  SrcOpts so;
  if (many == 0) { // several threads
    so.force_table = true;
    so.exact_rows = true;
    so.rows = 100000;
  } else if (many == 1) {
    so.float_coords = true;
    so.span = 2000;
  }
  const auto s = draw_source(so);
  std::vector<const EvCol *> cols;
  for (const auto &c : s.cols)
    if (c.dim != Dim("g"))
      cols.push_back(&c);
  if (cols.empty())
    sim::skip("no coord");
  const auto &c = *cols[sim::draw(uint32_t(cols.size()))];
  const auto a = draw_axis(c.dim, c.dtype, false,
                           many == 1 ? idx(17000 + sim::draw(9000)) : 0);
  const auto what = std::string("histogram ") +
                    (s.table ? "table of " + std::to_string(s.weights.size())
                             : s.l.str()) +
                    " " + describe(s, {a});
  Logical order;
  for (size_t i = 0; i < s.l.labels.size(); ++i)
    if (s.l.labels[i] != c.dim && !s.table) {
      order.labels.push_back(s.l.labels[i]);
      order.shape.push_back(s.l.shape[i]);
    }
  order.labels.push_back(c.dim);
  order.shape.push_back(a.size());
  std::vector<double> v(order.volume(), 0), var(v.size(), 0);
  // Masks
  const auto hide = hidden(s, {c.dim.name()});
  std::vector<bool> row_masked(s.weights.size(), false);
  {
    const auto buffer = s.table ? s.da : s.da.data().bin_buffer<DataArray>();
    Logical rows;
    rows.labels = {buffer.dims().inner()};
    rows.shape = {buffer.dims().volume()};
    row_masked = masked_along(buffer, rows, rows.labels[0]);
  }
  const auto fill = [&](const auto &at, const idx b) {
    if (hide[b])
      return;
    for (const auto r : s.bins[b]) {
      if (row_masked[r])
        continue;
      const auto p = a.find(c.values[r]);
      if (p < 0)
        continue;
      idx k = 0;
      for (size_t i = 0; i + 1 < order.labels.size(); ++i)
        k = k * order.shape[i] + at[s.l.find(order.labels[i])];
      k = k * a.size() + p;
      v[k] += s.weights[r];
      var[k] += s.variances[r];
    }
  };
  each(s.l, fill);
  check_hist(s.da, order, v, var, a.var, s.table ? s.da.dims().inner() : c.dim,
             sim::draw_bool(), s.wtype, s.has_var, what);
}
} // namespace

WORKLOAD(c04_hist, "C04.histogram", 80) { check_histogram(2); }
/// Several threads.
WORKLOAD(c04_hist_threads, "C04.histogram.threads", 1) { check_histogram(0); }
/// Many bins.
WORKLOAD(c04_hist_many, "C04.histogram.many", 6) { check_histogram(1); }

/// Histogram of dense data of several dimensions.
WORKLOAD(c04_hist_dense, "C04.histogram.dense", 60) {
  auto shape = draw_shape(3, 60, true);
  if (shape.labels.empty())
    sim::skip("no dimension");
  auto g = dm::draw_gen();
  const auto di = sim::draw(uint32_t(shape.labels.size()));
  const auto dim = shape.labels[di]; // summed over
  const auto name = sim::draw_bool() ? dim : Dim("u"); // of the coord
  const auto t = draw_coord_type();
  const auto wt = sim::draw_bool(3) ? dtype<int64_t> : dtype<double>;
  const bool has_var = wt == dtype<double> && sim::draw_bool();
  Ext ce{{dim}, {shape.shape[di]}};
  for (size_t i = 0; i < shape.labels.size(); ++i)
    if (i != di && name != dim && false) {
      ce.labels.push_back(shape.labels[i]);
      ce.shape.push_back(shape.shape[i]);
    }
  // Also a coord of several dimensions
  if (name == dim && sim::draw_bool())
    for (size_t i = 0; i < shape.labels.size(); ++i)
      if (i != di && sim::draw_bool()) {
        ce.labels.insert(ce.labels.begin(), shape.labels[i]);
        ce.shape.insert(ce.shape.begin(), shape.shape[i]);
      }
  auto coord = relayout(dm::column(ce, t, coord_unit, g,
                                   [&](Gen &r) { return draw_x(r, t); }),
                        g);
  auto data = dm::column(shape, wt, units::counts, g,
                         [](Gen &r) { return double(r.in(1, 9)); }, has_var);
  data = relayout(data, g);
  CoordMap coords{{name, coord}};
  for (const auto &[k, c] : dm::draw_coords(shape, true))
    if (k != name && k != dim)
      coords.emplace_back(k, c);
  const auto da =
      dm::assemble(data, coords, dm::draw_masks(shape, 3), {}, "dense");
  const auto a = draw_axis(name, t, false);
  for (size_t i = 0; i < shape.labels.size(); ++i)
    if (i != di && shape.labels[i] == name)
      sim::skip("name is another dimension");
  const auto l = read(data), lc = read(coord);
  const auto hide = masked_along(da, l, dim);
  Logical order;
  for (size_t i = 0; i < shape.labels.size(); ++i)
    if (i != di) {
      order.labels.push_back(shape.labels[i]);
      order.shape.push_back(shape.shape[i]);
    }
  order.labels.push_back(name);
  order.shape.push_back(a.size());
  std::vector<double> v(order.volume(), 0), var(v.size(), 0);
  each(l, [&](const auto &c, const idx k) {
    const auto p = a.find(lc.cells[lc.at(l, c)][0].v);
    if (p < 0 || hide[k])
      return;
    idx f = 0;
    for (size_t i = 0; i + 1 < order.labels.size(); ++i)
      f = f * order.shape[i] + c[l.find(order.labels[i])];
    f = f * a.size() + p;
    v[f] += l.cells[k][0].v;
    var[f] += l.cells[k][0].var;
  });
  check_hist(da, order, v, var, a.var, dim, sim::draw_bool(), wt, has_var,
             "histogram of dense " + l.str() + " by " + name.name());
}

/// rebin() of data with bin edges.
WORKLOAD(c04_rebin, "C04.rebin", 80) {
  auto shape = draw_shape(3, 80, true);
  if (shape.labels.empty())
    sim::skip("no dimension");
  auto g = dm::draw_gen();
  const auto di = sim::draw(uint32_t(shape.labels.size()));
  const auto dim = shape.labels[di];
  const auto types = sim::draw(6);
  const auto wt = types < 3   ? dtype<double>
                  : types < 4 ? dtype<float>
                  : types < 5 ? dtype<int64_t>
                              : dtype<int32_t>;
  const bool has_var = is_float(wt) && sim::draw_bool();
  const bool odd = is_float(wt) && sim::draw_bool(4);
  auto data = dm::column(shape, wt, units::counts, g,
                         [odd](Gen &r) {
                           const auto x = odd ? r.in(0, 19) : 19;
                           return x == 0   ? double(NAN)
                                  : x == 1 ? double(INFINITY)
                                           : double(r.in(1, 9));
                         },
                         false);
  if (has_var)
    data.setVariances(dm::column(shape, wt, units::counts, g,
                                 [](Gen &r) { return double(r.in(1, 9)); }));
  data = relayout(data, g);
  const bool down = sim::draw_bool(4);
  const auto edges = [&](const idx n) {
    std::vector<double> e;
    double at = double(g.in(-4, 6));
    for (idx i = 0; i < n; ++i) {
      e.push_back(at);
      at += double(g.in(1, 6)) / 2;
    }
    if (down)
      std::reverse(e.begin(), e.end());
    return e;
  };
  const auto old_edges = edges(shape.shape[di] + 1);
  const auto new_edges = edges(2 + idx(sim::draw(6)));
  const Unit other = sim::draw_bool(8) ? units::s : coord_unit;
  const auto old_var =
      to_variable({{dim}, {idx(old_edges.size())}}, dtype<double>, coord_unit,
                  old_edges);
  const auto new_var = to_variable({{dim}, {idx(new_edges.size())}},
                                   dtype<double>, other, new_edges);
  CoordMap coords{{dim, old_var}};
  for (const auto &[k, c] : dm::draw_coords(shape, true))
    if (k != dim)
      coords.emplace_back(k, c);
  const auto da =
      dm::assemble(data, coords, dm::draw_masks(shape, 3), {}, "rebin");
  const auto l = read(data);
  const auto what = "rebin " + l.str() + " along " + dim.name() + " stride " +
                    std::to_string(data.stride(dim)) + " to " +
                    std::to_string(new_edges.size());
  const auto before = dm::snap(da);
  DataArray result;
  const auto error =
      attempt([&] { result = dataset::rebin(da, dim, new_var); });
  sim::Quiet q;
  const auto db = dm::differs(dm::snap(da), before);
  if (!db.empty())
    sim::violation("operand", "%s: the input changed: %s", what.c_str(),
                   db.c_str());
  if (other != coord_unit) {
    if (error.empty())
      sim::violation("unit", "%s: edges of another unit are accepted",
                     what.c_str());
    return;
  }
  if (!error.empty())
    sim::violation("rejected", "%s: %s", what.c_str(),
                   error.substr(0, 160).c_str());
  const auto got = dm::snap(result);
  dm::observe(got);
  Logical order = l;
  order.shape[di] = idx(new_edges.size()) - 1;
  const auto &gl = got.data.l;
  bool ok = gl.labels.size() == order.labels.size();
  for (size_t i = 0; ok && i < order.labels.size(); ++i)
    ok = gl.find(order.labels[i]) >= 0 &&
         gl.size(order.labels[i]) == order.shape[i];
  if (!ok || gl.has_var != has_var || gl.unit != Unit(units::counts) ||
      gl.dtype != (is_float(wt) ? wt : dtype<double>))
    sim::violation("result", "%s: result is %s", what.c_str(),
                   gl.str().c_str());
  std::vector<double> v(order.volume(), 0), var(v.size(), 0);
  const auto hide = masked_along(da, l, dim);
  each(l, [&](auto c, const idx k) {
    if (hide[k])
      return;
    const auto i = c[di];
    const auto lo = std::min(old_edges[i], old_edges[i + 1]);
    const auto hi = std::max(old_edges[i], old_edges[i + 1]);
    for (idx j = 0; j + 1 < idx(new_edges.size()); ++j) {
      const auto nlo = std::min(new_edges[j], new_edges[j + 1]);
      const auto nhi = std::max(new_edges[j], new_edges[j + 1]);
      const auto overlap = std::min(hi, nhi) - std::max(lo, nlo);
      if (overlap <= 0)
        continue;
      c[di] = j;
      idx f = 0;
      for (size_t d = 0; d < c.size(); ++d)
        f = f * order.shape[d] + c[d];
      v[f] += l.cells[k][0].v * (overlap / (hi - lo));
      var[f] += l.cells[k][0].var * (overlap / (hi - lo));
    }
  });
  const double tol = wt == dtype<float> ? 1e-5 : 1e-12;
  each(gl, [&](const auto &c, const idx i) {
    const auto k = order.at(gl, c);
    const auto &e = gl.cells[i][0];
    if (!close(e.v, v[k], tol) || (has_var && !close(e.var, var[k], tol)))
      sim::violation("conserve", "%s: bin %ld is %g +- %g, expected %g +- %g",
                     what.c_str(), long(k), e.v, e.var, v[k], var[k]);
  });
  expect_meta(da, result, dim, &new_var, what);
}

/// Values of a histogram or function at the coords of events.
WORKLOAD(c04_lookup, "C04.lookup", 60) {
  SrcOpts so;
  so.int_weights = false;
  so.masks = false;
  const auto s = draw_source(so);
  std::vector<const EvCol *> cols;
  for (const auto &c : s.cols)
    if (is_float(c.dtype))
      cols.push_back(&c);
  if (cols.empty())
    sim::skip("no coord");
  const auto &c = *cols[sim::draw(uint32_t(cols.size()))];
  auto g = dm::draw_gen();
  const auto kind = sim::draw(3); // map, lookup_previous, scale
  if (kind == 2 && (s.table || s.has_var))
    sim::skip("bins to scale");
  auto a = draw_axis(c.dim, c.dtype, false);
  if (kind == 2) { // same type of coord and edges
    a.var = to_variable({{c.dim}, {idx(a.values.size())}}, c.dtype, coord_unit,
                        a.values);
    if (c.dtype == dtype<float> && s.wtype == dtype<float>)
      sim::skip("dtypes not supported");
  }
  const idx n = kind == 1 ? idx(a.values.size()) : a.size();
  const auto wt = sim::draw_bool(4) && kind == 0 ? dtype<int64_t> : dtype<double>;
  if (c.dtype == dtype<float> && wt == dtype<double> &&
      a.var.dtype() == dtype<float>)
    sim::skip("dtypes not supported");
  auto f = dm::column({{c.dim}, {n}}, wt, units::K, g,
                      [](Gen &r) { return double(r.in(1, 9)); });
  if (c.dtype == dtype<float> && a.var.dtype() != c.dtype && kind != 0)
    sim::skip("dtypes not supported");
  DataArray function(f, {{c.dim, a.var}});
  std::vector<bool> hide(n, false);
  if (sim::draw_bool()) {
    auto m = dm::column({{c.dim}, {n}}, dtype<bool>, units::none, g,
                        [](Gen &r) { return double(r.in(0, 2) == 0); });
    function.masks().set("fm", m);
    const auto lm = read(m);
    for (idx i = 0; i < n; ++i)
      hide[i] = lm.cells[i][0].v != 0;
  }
  const bool has_fill = kind != 2 && sim::draw_bool();
  const double fill = has_fill ? -3 : kind == 2 ? 0 : is_float(wt) ? NAN : 0;
  std::optional<Variable> fill_var;
  if (has_fill)
    fill_var = to_variable({{}, {}}, wt, units::K, {fill});
  const auto lf = read(f);
  const auto value = [&](const double x) {
    if (kind == 1) {
      idx i = -1;
      for (idx k = 0; k < n && !(a.values[k] > x); ++k)
        i = k;
      if (std::isnan(x))
        i = n - 1;
      return i < 0 || hide[i] ? fill : lf.cells[i][0].v;
    }
    const auto i = a.find(x);
    return i < 0 || hide[i] ? fill : lf.cells[i][0].v;
  };
  Variable x;
  DataArray target;
  if (s.table)
    x = s.da.coords()[c.dim];
  else {
    const auto &[i, d, b] = s.da.data().constituents<DataArray>();
    x = make_bins_no_validate(i, d, b.coords()[c.dim]);
    target = copy(s.da);
  }
  const auto before = dm::snap(x);
  const auto da_before = dm::snap(s.da);
  const auto what = std::string(kind == 0   ? "map "
                                : kind == 1 ? "lookup_previous "
                                            : "scale ") +
                    describe(s, {a});
  Variable result;
  const auto error = attempt([&] {
    if (kind == 0)
      result = dataset::buckets::map(function, x, c.dim, fill_var);
    else if (kind == 1)
      result = dataset::lookup_previous(function, x, c.dim, fill_var);
    else
      dataset::buckets::scale(target, function, c.dim);
  });
  sim::Quiet q;
  auto d = dm::differs(dm::snap(x), before);
  if (d.empty())
    d = dm::differs(dm::snap(s.da), da_before);
  if (!d.empty())
    sim::violation("operand", "%s: the input changed: %s", what.c_str(),
                   d.c_str());
  if (!error.empty())
    sim::violation("rejected", "%s: %s", what.c_str(),
                   error.substr(0, 160).c_str());
  const auto lx = read(x);
  const auto in = kind == 2 ? dm::snap(s.da).data.l : lx;
  const auto got = kind == 2 ? dm::snap(target).data.l : read(result);
  vm::observe(got);
  if (got.labels != in.labels || got.shape != in.shape ||
      got.binned != in.binned)
    sim::violation("result", "%s: result is %s", what.c_str(),
                   got.str().c_str());
  for (size_t k = 0; k < lx.cells.size(); ++k) {
    if (got.cells[k].size() != lx.cells[k].size())
      sim::violation("conserve", "%s: bin %zu has %zu events", what.c_str(), k,
                     got.cells[k].size());
    for (size_t e = 0; e < lx.cells[k].size(); ++e) {
      auto want = value(lx.cells[k][e].v);
      if (kind == 2)
        want *= in.cells[k][e].v;
      if (!same(got.cells[k][e].v, want))
        sim::violation("value", "%s: %g at %g, expected %g", what.c_str(),
                       got.cells[k][e].v, lx.cells[k][e].v, want);
    }
  }
}
