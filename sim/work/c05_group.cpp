// C05: groups, masked reductions and sorting.
#include "c05.h"

#include "scipp/dataset/extract.h"
#include "scipp/dataset/groupby.h"
#include "scipp/dataset/mean.h"
#include "scipp/dataset/nanmean.h"
#include "scipp/dataset/generated_reduction.h"
#include "scipp/dataset/sort.h"
#include "scipp/variable/reduction.h"
#include "scipp/variable/sort.h"
#include "scipp/variable/util.h"

using namespace gr;

namespace {
template <class G> auto call(const Op op, const G &g, const Dim d) {
  switch (op) {
  case Sum:
    return g.sum(d);
  case NanSum:
    return g.nansum(d);
  case Max:
    return g.max(d);
  case Min:
    return g.min(d);
  case NanMax:
    return g.nanmax(d);
  case NanMin:
    return g.nanmin(d);
  case All:
    return g.all(d);
  case Any:
    return g.any(d);
  default:
    return g.mean(d);
  }
}

template <class... A> auto reduce(const Op op, const A &...a) {
  using namespace scipp::dataset;
  switch (op) {
  case Sum:
    return sum(a...);
  case NanSum:
    return nansum(a...);
  case Max:
    return max(a...);
  case Min:
    return min(a...);
  case NanMax:
    return nanmax(a...);
  case NanMin:
    return nanmin(a...);
  case All:
    return all(a...);
  case Any:
    return any(a...);
  case Mean:
    return mean(a...);
  default:
    return nanmean(a...);
  }
}

Opts draw_opts(const Op op) {
  static const DType types[] = {dtype<double>, dtype<float>, dtype<int64_t>,
                                dtype<int32_t>, dtype<bool>};
  Opts o;
  const bool logical = op == All || op == Any;
  const bool nan = op == NanSum || op == NanMax || op == NanMin || op == NanMean;
  o.dtype = logical            ? dtype<bool>
            : sim::draw_bool() ? dtype<double>
            : nan              ? types[sim::draw(2)]
            : op == Sum        ? types[sim::draw(5)]
                               : types[sim::draw(4)];
  o.unit = o.dtype == dtype<bool> ? units::none : units::counts;
  auto g = draw_gen();
  const idx nan_in = !is_fp(o.dtype)    ? 0
                     : nan              ? 3
                     : sim::draw_bool(4) ? 8
                                        : 0;
  const bool logical_values = o.dtype == dtype<bool>;
  o.gen = [g, nan_in, logical_values]() mutable {
    if (nan_in && g.in(1, nan_in) == 1)
      return double(NAN);
    return double(logical_values ? g.in(0, 1) : g.in(-9, 9));
  };
  if (is_fp(o.dtype) &&
      (op == Sum || op == NanSum || op == Mean || op == NanMean))
    o.variances = sim::draw_bool(4);
  return o;
}

Variable draw_bins(const Ext &s, const Opts &o, const bool mask) {
  EvOpts eo;
  eo.dtype = o.dtype;
  eo.unit = o.unit;
  eo.variances = o.variances;
  auto gen = o.gen;
  eo.value = [gen](Gen &) { return gen(); };
  eo.coords.push_back({Dim("ev"), dtype<double>, [](Gen &r) {
                         return static_cast<double>(r.in(0, 20));
                       }});
  eo.mask = mask;
  eo.attr = sim::draw_bool(3);
  return events(s, eo);
}

/// Groupby rejects masks of events.
Variable draw_values_of(const Ext &s, const Opts &o, const int kind,
                        const bool event_masks = false) {
  return kind == 0   ? dense(s, o).var
         : kind == 1 ? binned(s, o).var
                     : draw_bins(s, o, event_masks && sim::draw_bool());
}

Ext shape_with_dim() {
  Ext s = draw_shape(3, 60, true);
  if (s.labels.empty()) {
    s.labels.push_back(dim_of(0));
    s.shape.push_back(1 + idx(sim::draw(6)));
  }
  return s;
}

/// Outside of the threaded code's threshold nothing runs in parallel.
Ext large_shape() {
  Ext s;
  s.labels = {dim_of(0), dim_of(1)};
  const idx a = 1 + sim::draw(60);
  s.shape = {a, 17000 / a + 1};
  if (sim::draw_bool())
    std::swap(s.shape[0], s.shape[1]);
  return s;
}

/// A data array and a key along one of its dimensions.
struct Split {
  Ext s;
  Dim dim, label; // label is the name of the coord
  Key key;
  bool attr = false;
  bool use_edges = false;
  std::vector<double> edges;
  Variable bins;
  Groups groups;
  Dim target;
};

void draw_split(Split &x, const Ext &s) {
  x.s = s;
  const auto i = sim::draw(uint32_t(s.labels.size()));
  x.dim = s.labels[i];
  x.use_edges = sim::draw_bool(3);
  x.key = draw_key(x.dim, s.shape[i], x.use_edges, 1 + int(sim::draw(8)));
  x.label = sim::draw_bool(3) ? x.dim : Dim("label");
  x.target = x.label;
  if (!x.use_edges) {
    x.groups = by_value(x.key);
    return;
  }
  const bool whole = !is_fp(x.key.dtype);
  const auto n = 2 + sim::draw(5);
  for (uint32_t k = 0; k < n; ++k)
    x.edges.push_back(sim::draw_in(-10, 10) * (whole ? 1.0 : 0.5));
  std::sort(x.edges.begin(), x.edges.end());
  if (sim::draw_bool(3))
    x.target = Dim("target");
  x.bins = make_key(x.target, x.key.dtype, x.key.unit, x.edges,
                    sim::draw_bool(4));
  x.groups = by_edges(x.key, x.edges);
}

/// `da` gets the key as a coord or attribute.
void add_key(const Split &x, DataArray &da) {
  if (x.attr)
    da.attrs().set(x.label, x.key.var);
  else
    da.coords().set(x.label, x.key.var);
}

CoordMap other_coords(const Split &x) {
  CoordMap out;
  for (auto &[k, v] : draw_coords(x.s))
    if (k != x.label && k != x.target)
      out.emplace_back(k, v);
  return out;
}

/// Reduction of groups.
Snap expected(const Op op, const Snap &in, const Split &x, const bool add) {
  const auto &l = in.data.l;
  const auto hide = masked(in, {x.dim.name()});
  Snap out;
  out.name = in.name;
  auto &o = out.data.l;
  o.labels = l.labels;
  o.shape = l.shape;
  const auto p = l.find(x.dim);
  o.labels[p] = x.target;
  o.shape[p] = idx(x.groups.members.size());
  o.dtype = result_type(op, l.dtype);
  o.unit = l.unit;
  o.has_var = l.has_var;
  o.resize_cells();
  std::vector<std::vector<idx>> of(l.shape[p]);
  for (size_t g = 0; g < x.groups.members.size(); ++g)
    for (const auto i : x.groups.members[g])
      of[i].push_back(idx(g));
  std::vector<Reducer> acc(o.volume(), Reducer(op, o.dtype));
  each(l, [&](const auto &c, const idx k) {
    if (hide[k])
      return;
    auto t = c;
    for (const auto g : of[c[p]]) {
      t[p] = g;
      idx at = 0;
      for (size_t i = 0; i < t.size(); ++i)
        at = at * o.shape[i] + t[i];
      for (size_t e = 0; e < l.cells[k].size(); ++e)
        acc[at].add(l.cells[k][e]);
    }
  });
  for (size_t i = 0; i < acc.size(); ++i)
    o.cells[i][0] = acc[i].done();
  out.coords = without(in.coords, x.dim);
  out.masks = without(in.masks, x.dim);
  out.attrs = without(in.attrs, x.dim);
  if (add)
    out.coords[x.target.name()] = key_col(x.target, x.key, x.groups);
  return out;
}

std::string name_of(const Op op, const Split &x, const Logical &l) {
  return std::string(op_names[op]) + " of " + l.str() + " grouped by " +
         vm::name_of(x.key.dtype) + " " + x.label.name() + " along " +
         x.dim.name() + (x.use_edges ? " in bins " : " ") + x.target.name();
}

void compare(Snap got, Snap want, const Cmp &cmp, const std::string &what) {
  // The variance of NaN is not defined.
  auto &g = got.data.l, &w = want.data.l;
  for (size_t i = 0; i < std::min(g.cells.size(), w.cells.size()); ++i)
    if (w.cells[i].size() == 1 && g.cells[i].size() == 1 &&
        std::isnan(w.cells[i][0].v))
      g.cells[i][0].var = w.cells[i][0].var = 0;
  const auto d = differs(got, want, cmp);
  if (!d.empty())
    sim::violation("result", "%s: %s", what.c_str(), d.c_str());
}

Cmp tolerant(const Op op, const DType t) {
  Cmp c;
  c.flags = false;
  c.rtol = tolerance(op, t);
  c.name = op != Mean && op != NanMean;
  return c;
}

Op draw_op(const bool nanmean) {
  return static_cast<Op>(sim::draw(nanmean ? uint32_t(NOp)
                                           : uint32_t(NanMean)));
}

/// Mean counts the elements by group only.
bool wide_mask(const Snap &s, const Dim d) {
  for (const auto &[k, m] : s.masks)
    if (depends(m.l, d) && m.l.labels.size() > 1)
      return true;
  return false;
}

void group_reduce(const Ext &s, const bool large) {
  const auto op = draw_op(false);
  const auto o = draw_opts(op);
  Split x;
  draw_split(x, s);
  x.attr = sim::draw_bool(6);
  const int kind = large || op == Mean ? 0 : int(sim::draw(4)) - 1;
  auto da = assemble(draw_values_of(s, o, std::max(0, kind)), other_coords(x),
                     draw_masks(s, 2), {}, "da");
  add_key(x, da);
  const auto before = snap(da);
  const auto what = name_of(op, x, before.data.l);
  DataArray out, again;
  const bool repeat = sim::draw_bool(4);
  const auto run = [&] {
    return call(op,
                x.use_edges ? dataset::groupby(da, x.label, x.bins)
                            : dataset::groupby(da, x.label),
                x.dim);
  };
  const auto error = attempt([&] {
    out = run();
    if (repeat)
      again = run();
  });
  sim::Quiet q;
  const auto db = differs(snap(da), before);
  if (!db.empty())
    sim::violation("operand", "%s: the input changed: %s", what.c_str(),
                   db.c_str());
  if (!error.empty()) {
    if (op == Mean && wide_mask(before, x.dim))
      sim::skip("mean with masks of several dimensions");
    sim::violation("rejected", "%s: %s", what.c_str(),
                   error.substr(0, 160).c_str());
  }
  const auto got = snap(out);
  observe(got);
  compare(got, expected(op, before, x, true), tolerant(op, o.dtype), what);
  if (repeat)
    compare(snap(again), got, {}, what + ", repeated");
}
} // namespace

WORKLOAD(c05_groupby, "C05.groupby", 20) { group_reduce(shape_with_dim(), false); }

WORKLOAD(c05_groupby_large, "C05.groupby.large", 1) {
  group_reduce(large_shape(), true);
}

namespace {
/// Items of the same dimensions, with coords that fit.
Dataset draw_dataset(const Ext &s, const Op op, Split *x, const int kind) {
  CoordMap coords = x ? other_coords(*x) : draw_coords(s);
  Dataset ds;
  const auto n = 1 + sim::draw(3);
  for (uint32_t i = 0; i < n; ++i) {
    const auto o = draw_opts(op);
    auto item = assemble(draw_values_of(s, o, kind), {}, draw_masks(s, 2),
                         {}, "item" + std::to_string(i));
    if (sim::draw_bool(3))
      for (auto &[k, v] : draw_coords(s, false))
        item.attrs().set(Dim("attr_" + k.name()), v);
    if (i == 0)
      for (const auto &[k, v] : coords)
        item.coords().set(k, v);
    if (i == 0 && x)
      item.coords().set(x->label, x->key.var);
    if (i == 0)
      ds.setDataInit(item.name(), item);
    else
      ds.setData(item.name(), item);
  }
  return ds;
}
} // namespace

WORKLOAD(c05_groupby_dataset, "C05.groupby.dataset", 8) {
  const auto op = draw_op(false);
  const auto s = shape_with_dim();
  Split x;
  draw_split(x, s);
  auto ds = draw_dataset(s, op, &x, 0);
  const auto before = snap(ds);
  bool wide = false;
  for (const auto &[k, i] : before.items)
    wide |= wide_mask(i, x.dim);
  const auto what = "dataset: " + name_of(op, x, before.items.begin()->second.data.l);
  Dataset out;
  const auto error = attempt([&] {
    out = call(op,
               x.use_edges ? dataset::groupby(ds, x.label, x.bins)
                           : dataset::groupby(ds, x.label),
               x.dim);
  });
  sim::Quiet q;
  const auto db = differs(snap(ds), before);
  if (!db.empty())
    sim::violation("operand", "%s: the input changed: %s", what.c_str(),
                   db.c_str());
  if (!error.empty()) {
    if (op == Mean && wide)
      sim::skip("mean with masks of several dimensions");
    sim::violation("rejected", "%s: %s", what.c_str(),
                   error.substr(0, 160).c_str());
  }
  const auto got = snap(out);
  observe(got);
  if (got.items.size() != before.items.size())
    sim::violation("result", "%s: %zu items, expected %zu", what.c_str(),
                   got.items.size(), before.items.size());
  for (const auto &[k, i] : before.items) {
    if (!got.items.count(k))
      sim::violation("result", "%s: no item %s", what.c_str(), k.c_str());
    compare(got.items.at(k), expected(op, i, x, true),
            tolerant(op, i.data.l.dtype), what + " item " + k);
  }
}

/// Groups of binned data.
WORKLOAD(c05_concat, "C05.concat", 12) {
  const auto s = shape_with_dim();
  Split x;
  draw_split(x, s);
  if (x.target == x.dim)
    sim::skip("the key is the dimension that is removed");
  if (x.target != x.label)
    sim::skip("bins named differently than the key");
  Opts o;
  idx next = 0;
  o.gen = [&next] { return double(next++); };
  auto data = draw_bins(s, o, sim::draw_bool(4));
  auto da = assemble(data, other_coords(x), draw_masks(s, 2), {}, "da");
  add_key(x, da);
  const auto before = snap(da);
  const auto what = name_of(Sum, x, before.data.l) + " (concat)";
  DataArray out;
  const auto error = attempt([&] {
    const auto gb = x.use_edges ? dataset::groupby(da, x.label, x.bins)
                                : dataset::groupby(da, x.label);
    out = gb.concat(x.dim);
  });
  sim::Quiet q;
  const auto db = differs(snap(da), before);
  if (!db.empty())
    sim::violation("operand", "%s: the input changed: %s", what.c_str(),
                   db.c_str());
  if (!error.empty())
    sim::violation("rejected", "%s: %s", what.c_str(),
                   error.substr(0, 160).c_str());
  const auto got = snap(out);
  observe(got);
  std::set<std::string> handled{x.dim.name()};
  for (const auto &d : s.labels)
    if (before.coords.count(d.name()) || before.attrs.count(d.name()))
      handled.insert(d.name());
  const auto hide = masked(before, handled);
  const auto &l = before.data.l;
  const auto p = l.find(x.dim);
  Logical shape;
  shape.labels = l.labels;
  shape.shape = l.shape;
  shape.labels[p] = x.target;
  shape.shape[p] = idx(x.groups.members.size());
  const auto &r = got.data.l;
  bool ok = r.binned && r.labels.size() == shape.labels.size();
  for (size_t i = 0; ok && i < shape.labels.size(); ++i)
    ok = r.find(shape.labels[i]) >= 0 && r.size(shape.labels[i]) == shape.shape[i];
  if (!ok)
    sim::violation("result", "%s: result is %s", what.c_str(), r.str().c_str());
  // Every event is known by its value.
  std::map<double, std::pair<idx, idx>> origin;
  std::vector<std::multiset<double>> want(r.volume());
  each(l, [&](const auto &c, const idx k) {
    for (size_t e = 0; e < l.cells[k].size(); ++e)
      origin[l.cells[k][e].v] = {k, idx(e)};
    if (hide[k])
      return;
    for (size_t j = 0; j < x.groups.members.size(); ++j)
      for (const auto i : x.groups.members[j])
        if (i == c[p]) {
          auto t = c;
          t[p] = idx(j);
          for (const auto &e : l.cells[k])
            want[r.at(shape, t)].insert(e.v);
        }
  });
  const bool has_nan_group =
      !x.use_edges && !x.groups.rank.empty() && std::isnan(x.groups.rank.back());
  each(r, [&](const auto &rc, const idx k) {
    const auto k_of = [&](idx) { return rc[r.find(x.target)]; };
    std::multiset<double> have;
    for (const auto &e : r.cells[k])
      have.insert(e.v);
    if (have.empty() && !want[k].empty() && has_nan_group &&
        k_of(k) == idx(x.groups.members.size()) - 1)
      sim::violation("nan-group", "%s: the group NaN is empty", what.c_str());
    if (have != want[k])
      sim::violation("members", "%s: bin %ld has %zu events, expected %zu",
                     what.c_str(), long(k), have.size(), want[k].size());
  });
  const auto columns = [&](const Cols &a, const Cols &b, const char *kind) {
    if (a.size() != b.size())
      sim::violation("result", "%s: number of event %s", what.c_str(), kind);
    for (const auto &[name, col] : b) {
      if (!a.count(name))
        sim::violation("result", "%s: no event %s", what.c_str(), name.c_str());
      const auto &have = a.at(name).l;
      each(r, [&](const auto &, const idx k) {
        for (size_t e = 0; e < r.cells[k].size(); ++e) {
          const auto [cell, event] = origin.at(r.cells[k][e].v);
          if (!close(have.cells[k][e].v, col.l.cells[cell][event].v, 0))
            sim::violation("row", "%s: event %s differs", what.c_str(),
                           name.c_str());
        }
      });
    }
  };
  columns(got.ecoords, before.ecoords, "coords");
  columns(got.emasks, before.emasks, "masks");
  columns(got.eattrs, before.eattrs, "attrs");
  auto coords = without(before.coords, x.dim);
  coords[x.target.name()] = key_col(x.target, x.key, x.groups);
  Snap a = got, b = before;
  b.data = a.data;
  b.name = a.name;
  b.coords = coords;
  b.masks = without(before.masks, x.dim);
  b.attrs = without(before.attrs, x.dim);
  a.ecoords = b.ecoords;
  a.emasks = b.emasks;
  a.eattrs = b.eattrs;
  compare(a, b, tolerant(Sum, o.dtype), what);
}

namespace {
/// Reduction over one or all dimensions.
Snap reduced_array(const Op op, const Snap &in, const Dim *dim) {
  const auto &l = in.data.l;
  std::set<std::string> dims;
  for (const auto &d : l.labels)
    if (!dim || d == *dim)
      dims.insert(d.name());
  const auto hide = masked(in, dims);
  Snap out;
  out.name = in.name;
  auto &o = out.data.l;
  for (size_t i = 0; i < l.labels.size(); ++i)
    if (!dims.count(l.labels[i].name())) {
      o.labels.push_back(l.labels[i]);
      o.shape.push_back(l.shape[i]);
    }
  o.dtype = result_type(op, l.dtype);
  o.unit = l.unit;
  o.has_var = l.has_var;
  o.resize_cells();
  std::vector<Reducer> acc(o.volume(), Reducer(op, o.dtype));
  each(l, [&](const auto &c, const idx k) {
    if (!hide[k])
      for (size_t e = 0; e < l.cells[k].size(); ++e)
        if (!event_masked(in, k, idx(e)))
          acc[o.at(l, c)].add(l.cells[k][e]);
  });
  for (size_t i = 0; i < acc.size(); ++i)
    o.cells[i][0] = acc[i].done();
  const auto strip = [&](const Cols &c) {
    auto r = c;
    for (const auto &d : l.labels)
      if (dims.count(d.name()))
        r = without(r, d);
    return r;
  };
  out.coords = strip(in.coords);
  out.masks = strip(in.masks);
  out.attrs = strip(in.attrs);
  return out;
}

void array_reduce(const Ext &s, const bool large) {
  const auto op = draw_op(true);
  const auto o = draw_opts(op);
  const int kind = large ? 0 : int(sim::draw(4)) - 1;
  auto da = assemble(draw_values_of(s, o, std::max(0, kind), true),
                     draw_coords(s), draw_masks(s, 3), {}, "da");
  const auto before = snap(da);
  const bool all_dims = sim::draw_bool(3);
  const auto dim = s.labels[sim::draw(uint32_t(s.labels.size()))];
  const auto what = std::string("data array ") + op_names[op] + " of " +
                    before.data.l.str() +
                    (all_dims ? "" : " over " + dim.name());
  DataArray out;
  const auto error =
      attempt([&] { out = all_dims ? reduce(op, da) : reduce(op, da, dim); });
  sim::Quiet q;
  const auto db = differs(snap(da), before);
  if (!db.empty())
    sim::violation("operand", "%s: the input changed: %s", what.c_str(),
                   db.c_str());
  if (!error.empty()) {
    sim::violation("rejected", "%s: %s", what.c_str(),
                   error.substr(0, 160).c_str());
  }
  const auto got = snap(out);
  observe(got);
  compare(got, reduced_array(op, before, all_dims ? nullptr : &dim),
          tolerant(op, o.dtype), what);
}
} // namespace

WORKLOAD(c05_reduce, "C05.masked", 24) { array_reduce(shape_with_dim(), false); }

WORKLOAD(c05_reduce_large, "C05.masked.large", 1) {
  array_reduce(large_shape(), true);
}

WORKLOAD(c05_reduce_dataset, "C05.masked.dataset", 4) {
  const auto op = draw_op(true);
  const auto s = shape_with_dim();
  auto ds = draw_dataset(s, op, nullptr, 0);
  const auto before = snap(ds);
  const bool all_dims = sim::draw_bool(3);
  const auto dim = s.labels[sim::draw(uint32_t(s.labels.size()))];
  const auto what = std::string("dataset ") + op_names[op] +
                    (all_dims ? "" : " over " + dim.name());
  Dataset out;
  const auto error =
      attempt([&] { out = all_dims ? reduce(op, ds) : reduce(op, ds, dim); });
  sim::Quiet q;
  const auto db = differs(snap(ds), before);
  if (!db.empty())
    sim::violation("operand", "%s: the input changed: %s", what.c_str(),
                   db.c_str());
  if (!error.empty())
    sim::violation("rejected", "%s: %s", what.c_str(),
                   error.substr(0, 160).c_str());
  const auto got = snap(out);
  observe(got);
  for (const auto &[k, i] : before.items) {
    if (!got.items.count(k))
      sim::violation("result", "%s: no item %s", what.c_str(), k.c_str());
    compare(got.items.at(k),
            reduced_array(op, i, all_dims ? nullptr : &dim),
            tolerant(op, i.data.l.dtype), what + " item " + k);
  }
}

/// Events of each bin, with masks of the events.
WORKLOAD(c05_bins, "C05.bins", 8) {
  using namespace scipp::variable;
  const auto op = draw_op(true);
  const auto o = draw_opts(op);
  const auto s = draw_shape(3, 40, true);
  const auto var = draw_bins(s, o, !sim::draw_bool(3));
  const auto before = snap(var);
  Variable out;
  const auto what = std::string("bins_") + op_names[op] + " of " +
                    before.data.l.str() +
                    (before.emasks.empty() ? "" : " with mask");
  const auto error = attempt([&] {
    out = op == Sum      ? bins_sum(var)
          : op == NanSum ? bins_nansum(var)
          : op == Max    ? bins_max(var)
          : op == Min    ? bins_min(var)
          : op == NanMax ? bins_nanmax(var)
          : op == NanMin ? bins_nanmin(var)
          : op == All    ? bins_all(var)
          : op == Any    ? bins_any(var)
          : op == Mean   ? bins_mean(var)
                         : bins_nanmean(var);
  });
  sim::Quiet q;
  const auto db = differs(snap(var), before);
  if (!db.empty())
    sim::violation("operand", "%s: the input changed: %s", what.c_str(),
                   db.c_str());
  if (!error.empty())
    sim::violation("rejected", "%s: %s", what.c_str(),
                   error.substr(0, 160).c_str());
  const auto got = snap(out);
  observe(got);
  Snap want;
  const auto &l = before.data.l;
  auto &w = want.data.l;
  w.labels = l.labels;
  w.shape = l.shape;
  w.dtype = result_type(op, l.dtype);
  w.unit = l.unit;
  w.has_var = l.has_var;
  w.resize_cells();
  each(l, [&](const auto &, const idx k) {
    Reducer r(op, w.dtype);
    for (size_t e = 0; e < l.cells[k].size(); ++e)
      if (!event_masked(before, k, idx(e)))
        r.add(l.cells[k][e]);
    w.cells[k][0] = r.done();
  });
  compare(got, want, tolerant(op, o.dtype), what);
}

namespace {
/// Everything at one position along a dimension.
std::vector<std::string> slices(const Snap &s, const Dim d, const idx n) {
  std::vector<std::string> out(n);
  const auto add = [&](const std::string &name, const Logical &l,
                       const idx size) {
    const auto p = l.find(d);
    if (p < 0 || l.shape[p] != size)
      return;
    for (auto &x : out)
      x += name + ":";
    each(l, [&](const auto &c, const idx k) {
      auto &x = out[c[p]];
      for (const auto &e : l.cells[k]) {
        char b[60];
        snprintf(b, sizeof b, "%.17g/%.17g,", e.v, l.has_var ? e.var : 0.0);
        x += b;
      }
      x += ";";
    });
  };
  add("data", s.data.l, n);
  for (const auto &[k, c] : s.ecoords)
    add("ec " + k, c.l, n);
  for (const auto &[k, c] : s.emasks)
    add("em " + k, c.l, n);
  for (const auto &[k, c] : s.eattrs)
    add("ea " + k, c.l, n);
  for (const auto &[k, c] : s.coords)
    add("c " + k, c.l, n);
  for (const auto &[k, c] : s.masks)
    add("m " + k, c.l, n);
  for (const auto &[k, c] : s.attrs)
    add("a " + k, c.l, n);
  return out;
}

/// Runs of equal keys in the order of the result.
std::vector<std::vector<idx>> order_of(const Key &k, const bool ascending) {
  auto g = by_value(k);
  if (!ascending)
    std::reverse(g.members.begin(), g.members.end());
  return g.members;
}

void check_order(const Snap &got, const Snap &before, const Dim d,
                 const std::vector<std::vector<idx>> &runs,
                 const std::string &what) {
  idx n = 0;
  for (const auto &r : runs)
    n += idx(r.size());
  const auto &l = before.data.l;
  const auto &r = got.data.l;
  if (r.labels != l.labels || r.size(d) != n)
    sim::violation("result", "%s: result is %s", what.c_str(), r.str().c_str());
  const auto in = slices(before, d, l.size(d));
  const auto have = slices(got, d, n);
  idx at = 0;
  for (const auto &run : runs) {
    std::multiset<std::string> a, b;
    for (const auto i : run) {
      a.insert(in[i]);
      b.insert(have[at++]);
    }
    if (a != b)
      sim::violation("members",
                     "%s: the %zu slices before %ld of the result are not "
                     "those with the same key",
                     what.c_str(), run.size(), long(at));
  }
  // What does not depend on the dimension stays, bin edges along it cannot.
  const auto rest = [&](const Cols &g, const Cols &b, const char *kind) {
    for (const auto &[k, c] : b) {
      const auto p = c.l.find(d);
      const bool edges = p >= 0 && c.l.shape[p] != l.size(d);
      if (edges == (g.count(k) > 0))
        sim::violation("result", "%s: %s %s is %s", what.c_str(), kind,
                       k.c_str(), edges ? "kept" : "missing");
      Cmp cmp;
      cmp.flags = false;
      if (p < 0 && !differs(g.at(k), c, cmp).empty())
        sim::violation("result", "%s: %s %s changed", what.c_str(), kind,
                       k.c_str());
    }
    for (const auto &[k, c] : g)
      if (!b.count(k))
        sim::violation("result", "%s: unexpected %s %s", what.c_str(), kind,
                       k.c_str());
  };
  rest(got.coords, before.coords, "coord");
  rest(got.masks, before.masks, "mask");
  rest(got.attrs, before.attrs, "attr");
}

void check_sort(const bool large) {
  const auto s = large ? large_shape() : shape_with_dim();
  const auto i = sim::draw(uint32_t(s.labels.size()));
  const auto d = s.labels[i];
  const auto n = s.shape[i];
  const auto key = draw_key(d, n, false, large ? 400 : 1 + int(sim::draw(9)));
  const bool extract = sim::draw_bool(4);
  const bool ascending = sim::draw_bool();
  const auto how = sim::draw(3); // variable, data array by key, by coord
  Opts o;
  auto g = draw_gen();
  o.variances = sim::draw_bool(4);
  o.gen = [g]() mutable { return double(g.in(-99, 99)); };
  const int kind = large ? 0 : int(sim::draw(3));
  const auto data = draw_values_of(s, o, kind, true);
  auto da = how == 0 ? DataArray(data)
                     : assemble(data, draw_coords(s), draw_masks(s, 2), {}, "da");
  if (how == 2)
    da.coords().set(d, key.var);
  const auto before = snap(da);
  const auto order =
      ascending ? SortOrder::Ascending : SortOrder::Descending;
  std::vector<std::vector<idx>> runs;
  Variable condition;
  if (extract) {
    std::vector<double> c;
    auto gc = draw_gen();
    const auto most = gc.in(0, 3);
    for (idx k = 0; k < n; ++k) {
      c.push_back(gc.in(0, 3) <= most);
      if (c.back())
        runs.push_back({k});
    }
    condition = make_key(d, dtype<bool>, units::none, c, sim::draw_bool(4));
  } else
    runs = order_of(key, ascending);
  const auto what = std::string(extract ? "extract" : "sort") + " " +
                    before.data.l.str() + " along " + d.name() + " by " +
                    vm::name_of(key.dtype) +
                    (ascending ? "" : ", descending") + " way " +
                    std::to_string(how);
  DataArray out;
  Dataset ds, ds_out;
  const bool as_dataset = how != 0 && sim::draw_bool(4);
  if (as_dataset)
    ds.setDataInit("da", da);
  const auto error = attempt([&] {
    using dataset::sort;
    if (as_dataset) {
      ds_out = extract    ? scipp::extract(ds, condition)
               : how == 2 ? sort(ds, d, order)
                          : sort(ds, key.var, order);
      out = DataArray(ds_out["da"]);
    } else if (how == 0)
      out = DataArray(extract ? scipp::extract(data, condition)
                              : sort(data, key.var, order));
    else
      out = extract    ? scipp::extract(da, condition)
            : how == 2 ? sort(da, d, order)
                       : sort(da, key.var, order);
  });
  sim::Quiet q;
  const auto db = differs(snap(da), before);
  if (!db.empty())
    sim::violation("operand", "%s: the input changed: %s", what.c_str(),
                   db.c_str());
  if (!error.empty())
    sim::violation("rejected", "%s: %s", what.c_str(),
                   error.substr(0, 160).c_str());
  const auto got = snap(out);
  observe(got);
  check_order(got, before, d, runs, what);
}
} // namespace

WORKLOAD(c05_sort, "C05.sort", 12) { check_sort(false); }
WORKLOAD(c05_sort_large, "C05.sort.large", 1) { check_sort(true); }

namespace {
using Line = std::vector<std::pair<double, double>>;

/// The elements along a dimension, by the position in the other ones.
std::map<std::vector<idx>, Line> lines(const Logical &l, const Dim d) {
  std::map<std::vector<idx>, Line> out;
  const auto p = l.find(d);
  each(l, [&](auto c, const idx k) {
    c[p] = 0;
    const auto &x = l.cells[k][0];
    out[c].emplace_back(x.v, l.has_var ? x.var : 0.0);
  });
  return out;
}
} // namespace

/// Values sorted along a dimension, together with their variances.
WORKLOAD(c05_sort_values, "C05.sort.values", 6) {
  const bool many = sim::draw_bool(3);
  Ext s = many ? Ext{} : shape_with_dim();
  if (many) {
    s.labels = {dim_of(0)};
    s.shape = {idx(17 + sim::draw(60))};
  }
  static const DType types[] = {dtype<double>, dtype<float>, dtype<int64_t>,
                                dtype<int32_t>};
  Opts o;
  o.dtype = types[sim::draw(4)];
  auto g = draw_gen();
  const auto span = 1 + idx(sim::draw(30));
  const idx nan_in = is_fp(o.dtype) && sim::draw_bool(3) ? 4 : 0;
  o.gen = [g, nan_in, span]() mutable {
    return nan_in && g.in(1, nan_in) == 1 ? double(NAN)
                                          : double(g.in(-span, span));
  };
  o.variances = is_fp(o.dtype) && sim::draw_bool(3);
  const auto var = dense(s, o).var;
  const auto d = var.dims().inner();
  const bool ascending = sim::draw_bool();
  const auto order = ascending ? SortOrder::Ascending : SortOrder::Descending;
  const auto before = snap(var);
  const auto what = "sort " + before.data.l.str() + " along " + d.name() +
                    (ascending ? "" : ", descending") +
                    (nan_in ? " with NaN" : "");
  Variable out, was_sorted, now_sorted;
  bool all_were = false;
  const auto error = attempt([&] {
    out = variable::sort(var, d, order);
    // Variances have no order.
    const auto v = var.has_variances() ? values(var) : var;
    was_sorted = variable::issorted(v, d, order);
    all_were = variable::allsorted(v, d, order);
    now_sorted =
        variable::issorted(out.has_variances() ? values(out) : out, d, order);
  });
  sim::Quiet q;
  const auto db = differs(snap(var), before);
  if (!db.empty())
    sim::violation("operand", "%s: the input changed: %s", what.c_str(),
                   db.c_str());
  if (!error.empty())
    sim::violation("rejected", "%s: %s", what.c_str(),
                   error.substr(0, 160).c_str());
  const auto got = snap(out);
  observe(got);
  const auto &l = before.data.l;
  const auto &r = got.data.l;
  if (r.labels != l.labels || r.shape != l.shape || r.dtype != l.dtype ||
      r.unit != l.unit || r.has_var != l.has_var)
    sim::violation("result", "%s: result is %s", what.c_str(), r.str().c_str());
  // NaN is above everything else.
  const auto above = [](const double a, const double b) {
    return std::isnan(b) ? false : std::isnan(a) || a > b;
  };
  const auto text = [](const Line &x) {
    std::multiset<std::string> t;
    for (const auto &[v, e] : x) {
      char b[60];
      snprintf(b, sizeof b, "%.17g/%.17g", v, e);
      t.insert(std::isnan(v) ? "nan" : b);
    }
    return t;
  };
  const auto sorted = [&](const Line &x) {
    for (size_t i = 1; i < x.size(); ++i)
      if (ascending ? above(x[i - 1].first, x[i].first)
                    : above(x[i].first, x[i - 1].first))
        return false;
    return true;
  };
  const auto in = lines(l, d);
  const auto have = lines(r, d);
  bool all = true;
  const auto flags = snap(was_sorted).data.l;
  const auto flags_after = snap(now_sorted).data.l;
  size_t at = 0;
  for (const auto &[c, x] : in) {
    const auto &y = have.at(c);
    if (text(x) != text(y))
      sim::violation("members", "%s: elements are lost or duplicated",
                     what.c_str());
    if (!sorted(y))
      sim::violation("order", "%s: not sorted", what.c_str());
    all &= sorted(x);
    if (!nan_in && x.size()) {
      // Lines come in row-major order, as do the flags.
      if ((flags.cells[at][0].v != 0) != sorted(x))
        sim::violation("sorted", "%s: issorted of line %zu is %g", what.c_str(),
                       at, flags.cells[at][0].v);
      if (flags_after.cells[at][0].v == 0)
        sim::violation("sorted", "%s: result is not sorted", what.c_str());
    }
    ++at;
  }
  if (!nan_in && all_were != all)
    sim::violation("sorted", "%s: allsorted is %d", what.c_str(), all_were);
}
