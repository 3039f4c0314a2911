// C15: functions of a data array act on its data and keep the rest, functions
// of a dataset act on each item as if it were alone.
#include "c15.h"

#include <algorithm>

#include "scipp/core/slice.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/counts.h"
#include "scipp/dataset/extract.h"
#include "scipp/dataset/generated_arithmetic.h"
#include "scipp/dataset/generated_hyperbolic.h"
#include "scipp/dataset/generated_logical.h"
#include "scipp/dataset/generated_math.h"
#include "scipp/dataset/generated_reduction.h"
#include "scipp/dataset/generated_special_values.h"
#include "scipp/dataset/generated_trigonometry.h"
#include "scipp/dataset/generated_util.h"
#include "scipp/dataset/groupby.h"
#include "scipp/dataset/histogram.h"
#include "scipp/dataset/mean.h"
#include "scipp/dataset/nanmean.h"
#include "scipp/dataset/rebin.h"
#include "scipp/dataset/shape.h"
#include "scipp/dataset/slice.h"
#include "scipp/dataset/sort.h"
#include "scipp/dataset/util.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/hyperbolic.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/math.h"
#include "scipp/variable/operations.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/trigonometry.h"
#include "scipp/variable/util.h"
#include "scipp/variable/variable_factory.h"

using namespace scipp;
using namespace st;
using scipp::dataset::Dataset;

namespace {
struct Unary {
  const char *name;
  Variable (*var)(const Variable &);
  DataArray (*da)(const DataArray &);
  Dataset (*ds)(const Dataset &);
};
#define UNARY(f)                                                               \
  {                                                                            \
    #f, [](const Variable &x) -> Variable { return f(x); },                    \
        [](const DataArray &x) -> DataArray { return f(x); },                  \
        [](const Dataset &x) -> Dataset { return f(x); }                       \
  }
const std::vector<Unary> &unary() {
  static const std::vector<Unary> t = {
      UNARY(abs),      UNARY(sqrt),     UNARY(exp),      UNARY(log),
      UNARY(log10),    UNARY(reciprocal), UNARY(floor),  UNARY(ceil),
      UNARY(rint),     UNARY(erf),      UNARY(erfc),     UNARY(sin),
      UNARY(cos),      UNARY(tan),      UNARY(asin),     UNARY(acos),
      UNARY(atan),     UNARY(sinh),     UNARY(cosh),     UNARY(tanh),
      UNARY(asinh),    UNARY(acosh),    UNARY(atanh),    UNARY(isnan),
      UNARY(isinf),    UNARY(isfinite), UNARY(isposinf), UNARY(isneginf),
      UNARY(values),   UNARY(variances), UNARY(stddevs), UNARY(-),
      UNARY(~),        UNARY(norm)};
  return t;
}

ArrayOpts draw_opts() {
  ArrayOpts o;
  o.max_volume = 30;
  o.kind = sim::draw_bool(4) ? 1 + int(sim::draw(2)) : 0;
  switch (sim::draw(6)) {
  case 0:
    o.dtype = dtype<bool>;
    break;
  case 1:
    o.dtype = dtype<int64_t>;
    break;
  default:
    break;
  }
  return o;
}

void draw_unit(Variable v) {
  const core::DType t = variable::variableFactory().elem_dtype(v);
  if (t == dtype<bool>)
    return;
  const units::Unit us[] = {units::one, units::m, units::rad, units::counts};
  try {
    variable::variableFactory().set_elem_unit(v, us[sim::draw(4)]);
  } catch (const except::UnitError &) {
    // of a view
  }
}

std::string str(const core::Dimensions &d) { return core::to_string(d); }

/// Mostly one that works for the given data.
const Unary &draw_unary(const Variable &data) {
  const auto at = sim::draw(uint32_t(unary().size()));
  if (sim::draw_bool(8))
    return unary()[at];
  sim::Quiet q;
  for (size_t i = 0; i < unary().size(); ++i) {
    const auto &f = unary()[(at + i) % unary().size()];
    try {
      static_cast<void>(f.var(data));
      return f;
    } catch (const std::exception &) {
    }
  }
  return unary()[at];
}

/// Another order of the dimensions of an item, sometimes.
Variable maybe_transpose(const Variable &v) {
  if (v.dims().ndim() < 2 || !sim::draw_bool(4))
    return v;
  std::vector<Dim> order(v.dims().labels().begin(), v.dims().labels().end());
  std::reverse(order.begin(), order.end());
  return transpose(v, order);
}

Dataset draw_items(const Ext &s, const ArrayOpts &base) {
  const int n = 1 + int(sim::draw(3));
  const bool keep_unit = sim::draw_bool();
  Dataset out;
  for (int i = 0; i < n; ++i) {
    auto o = base;
    if (sim::draw_bool(8))
      o = draw_opts();
    auto item = draw_array(o, &s);
    if (!keep_unit)
      draw_unit(item.data());
    if (i != 0)
      item = DataArray(maybe_transpose(item.data()), {}, item.masks().items(),
                       item.attrs().items());
    out.setDataInit("item " + std::to_string(i), item);
  }
  return out;
}
} // namespace

WORKLOAD(c15_functions, "C15.functions", 2) {
  auto a = draw_array(draw_opts());
  draw_unit(a.data());
  const auto &f = draw_unary(a.data());
  const auto log = std::string(f.name) + " of " + str(a.dims());
  Snap want;
  std::string reject;
  {
    sim::Quiet q;
    want = snap(a);
    try {
      const auto r = snap(f.var(a.data()));
      want.data = r.data;
    } catch (const std::exception &e) {
      reject = e.what();
    }
  }
  DataArray out;
  const auto error = perform(log, {&a}, [&] { return f.da(a); }, out);
  if (error.empty() != reject.empty())
    sim::violation(error.empty() ? "accepted" : "rejected", "%s: %s%s",
                   log.c_str(), error.c_str(), reject.c_str());
  if (!error.empty()) {
    sim::count(sim::FaultReject);
    return;
  }
  st::expect(out, want, log, true, true);
  // Masks of the result belong to it alone.
  sim::Quiet q;
  const auto before = snap(a);
  for (const auto &[key, m] : out.masks()) {
    auto v = m;
    for (auto &e : v.values<bool>())
      e = !e;
  }
  if (const auto d = differs(snap(a), before); !d.empty())
    sim::violation("shared", "%s: changing masks of the result: %s",
                   log.c_str(), d.c_str());
}

namespace {
struct Fn {
  std::string name;
  std::function<Dataset(const Dataset &)> ds;
  std::function<DataArray(const DataArray &)> da;
};
#define BOTH(text, expr)                                                       \
  return {text, [=](const Dataset &x) -> Dataset { return expr; },             \
          [=](const DataArray &x) -> DataArray { return expr; }}

Variable sorted_edges(const Dim d, const units::Unit u) {
  const int n = 2 + int(sim::draw(4));
  auto v = makeVariable<double>(Dims{d}, Shape{n}, u);
  double at = -4 + double(sim::draw(6));
  for (auto &e : v.values<double>())
    e = at += 1 + double(sim::draw(4));
  return v;
}

Fn draw_fn(const Ext &s, const Dataset &in) {
  const auto &u = draw_unary(in.begin()->data());
  const Dim dim = s.labels.empty() || sim::draw_bool(16)
                      ? dim_of(int(sim::draw(4)))
                      : s.labels[sim::draw(uint32_t(s.labels.size()))];
  const idx size = in.sizes().contains(dim) ? in.sizes()[dim] : 0;
  const Dim key = [&] {
    if (in.coords().empty() || sim::draw_bool(8))
      return dim;
    auto it = in.coords().begin();
    for (auto i = sim::draw(uint32_t(in.coords().size())); i > 0; --i)
      ++it;
    return it->first;
  }();
  const units::Unit cu =
      in.coords().contains(key) &&
              in.coords()[key].dtype() != dtype<std::string>
          ? in.coords()[key].unit()
          : units::Unit(units::m);
  const auto at = "(" + dim.name() + ")";
  switch (sim::draw(24)) {
  case 0:
  case 1:
    return {u.name, u.ds, u.da};
  case 2:
    BOTH("sum", dataset::sum(x));
  case 3:
    BOTH("sum" + at, dataset::sum(x, dim));
  case 4:
    BOTH("nansum", dataset::nansum(x));
  case 5:
    BOTH("max" + at, dataset::max(x, dim));
  case 6:
    BOTH("min", dataset::min(x));
  case 7:
    BOTH("nanmin" + at, dataset::nanmin(x, dim));
  case 8:
    BOTH("nanmax", dataset::nanmax(x));
  case 9:
    BOTH("max", dataset::max(x));
  case 10:
    BOTH("mean", dataset::mean(x));
  case 11:
    BOTH("mean" + at, dataset::mean(x, dim));
  case 12:
    BOTH("nanmean" + at, dataset::nanmean(x, dim));
  case 13:
    BOTH("any", dataset::any(x));
  case 14:
    BOTH("all" + at, dataset::all(x, dim));
  case 15: {
    const auto n = idx(sim::draw(5));
    BOTH("resize" + at, dataset::resize(x, dim, n));
  }
  case 16: {
    // The shape of a slice of the same data.
    const auto k = idx(sim::draw(uint32_t(size + 1)));
    const auto shape = size == 0 ? in : in.slice({dim, 0, k});
    for (const auto &item : in)
      if (is_bins(item))
        BOTH("resize" + at, dataset::resize(x, dim, k));
    return {"resize like another" + at,
            [=](const Dataset &x) { return dataset::resize(x, dim, shape); },
            [=](const DataArray &x) {
              return dataset::resize(x, dim, shape[x.name()]);
            }};
  }
  case 17: {
    std::vector<Dim> order(s.labels);
    for (size_t i = order.size(); i > 1; --i)
      std::swap(order[i - 1], order[sim::draw(uint32_t(i))]);
    if (sim::draw_bool(3))
      order.clear();
    BOTH("transpose", dataset::transpose(x, order));
  }
  case 18: {
    std::vector<Dim> dims;
    for (const auto d : s.labels)
      if (sim::draw_bool())
        dims.push_back(d);
    if (sim::draw_bool())
      BOTH("squeeze", dataset::squeeze(x, std::nullopt));
    BOTH("squeeze dims",
         dataset::squeeze(x, scipp::span<const Dim>(dims.data(), dims.size())));
  }
  case 19: {
    const auto order =
        sim::draw_bool() ? SortOrder::Ascending : SortOrder::Descending;
    return {"sort by " + key.name(),
            [=](const Dataset &x) { return dataset::sort(x, key, order); },
            [=](const DataArray &x) {
              // by a coord of the dataset, which any item has
              return dataset::sort(x, in.coords()[key], order);
            }};
  }
  case 20: {
    auto cond = makeVariable<bool>(Dims{dim}, Shape{size});
    for (auto &e : cond.values<bool>())
      e = sim::draw_bool();
    BOTH("extract" + at, extract(x, cond));
  }
  case 21: {
    const auto edges = sorted_edges(dim, cu);
    if (sim::draw_bool())
      BOTH("rebin" + at, dataset::rebin(x, dim, edges));
    BOTH("histogram" + at, dataset::histogram(x, edges));
  }
  case 22: {
    if (sim::draw_bool())
      BOTH("to density" + at, dataset::counts::toDensity(x, dim));
    BOTH("from density" + at, dataset::counts::fromDensity(x, dim));
  }
  default: {
    const auto lo = makeVariable<double>(Values{double(sim::draw(9))},
                                         units::Unit(cu));
    const auto hi = lo + makeVariable<double>(Values{double(sim::draw(9))},
                                              units::Unit(cu));
    const Dim by = sim::draw_bool(3) ? key : dim;
    if (sim::draw_bool())
      BOTH("slice by value " + by.name(), dataset::slice(x, by, lo));
    BOTH("slice by range " + by.name(), dataset::slice(x, by, lo, hi));
  }
  }
}
} // namespace

WORKLOAD(c15_items, "C15.items", 3) {
  const auto s = draw_shape(3, 24, true);
  auto in = draw_items(s, draw_opts());
  if (sim::draw_bool(3))
    in = Dataset(copy(in));
  const auto f = draw_fn(s, in);
  std::string log = f.name + " of dataset " + core::to_string(in.sizes());
  std::map<std::string, Snap> want;
  std::string reject;
  DsSnap before;
  {
    sim::Quiet q;
    before = snap(in);
    for (const auto &item : in) {
      try {
        want[item.name()] = snap(f.da(copy(item)));
      } catch (const std::exception &e) {
        reject = e.what();
        if (reject.empty())
          reject = "rejected";
      }
    }
  }
  const auto unchanged = [&](const char *how) {
    sim::Quiet q;
    if (const auto d = differs(snap(in), before); !d.empty())
      sim::violation("operand", "%s%s: input changed: %s", log.c_str(), how,
                     d.c_str());
  };
  if (sim::draw_bool(4)) {
    sim::fault_window(sim::draw(sim::draw_bool() ? 8 : 64), sim::draw_bool(3));
    try {
      static_cast<void>(f.ds(in));
    } catch (const std::exception &) {
    }
    sim::end_fault_window();
    unchanged(" without memory");
  }
  Dataset out;
  std::string error;
  const auto once = [&](Dataset &to) {
    try {
      to = f.ds(in);
    } catch (const std::exception &e) {
      sim::Quiet q;
      return std::string("error: ") + e.what();
    }
    return std::string();
  };
  if (sim::draw_bool(5)) {
    Dataset other;
    std::string error2;
    sim::concurrently({[&] { error = once(out); },
                       [&] { error2 = once(other); }});
    sim::Quiet q;
    if (error.empty() != error2.empty())
      sim::violation("threads", "%s: one of two threads failed: %s%s",
                     log.c_str(), error.c_str(), error2.c_str());
    if (error.empty())
      if (const auto d = differs(snap(other), snap(out)); !d.empty())
        sim::violation("threads", "%s: results of two threads differ: %s",
                       log.c_str(), d.c_str());
  } else {
    error = once(out);
  }
  unchanged("");
  if (error.find("more than 6 dimensions are not supported") !=
      std::string::npos)
    sim::skip("too many dimensions");
  if (error.empty() != reject.empty())
    sim::violation(error.empty() ? "accepted" : "rejected", "%s: %s%s",
                   log.c_str(), error.c_str(), reject.c_str());
  if (!error.empty()) {
    sim::count(sim::FaultReject);
    return;
  }
  sim::Quiet q;
  if (out.size() != idx(want.size()))
    sim::violation("items", "%s: %d items, expected %d", log.c_str(),
                   int(out.size()), int(want.size()));
  for (const auto &[name, w] : want) {
    if (!out.contains(name))
      sim::violation("items", "%s: lacks %s", log.c_str(), name.c_str());
    // Edges along a dimension the items do not have stay with the dataset.
    auto item = w;
    for (const auto &[key, c] : w.coords)
      if (std::any_of(c.l.labels.begin(), c.l.labels.end(),
                      [&](const Dim d) { return w.data.l.find(d) < 0; })) {
        if (!out.coords().contains(Dim(key)))
          sim::violation("result", "%s: coord %s is missing", log.c_str(),
                         key.c_str());
        auto got = col(out.coords()[Dim(key)]);
        Cmp cmp;
        cmp.readonly = false;
        if (const auto d = differs(got, c, cmp); !d.empty())
          sim::violation("result", "%s: coord %s: %s", log.c_str(), key.c_str(),
                         d.c_str());
        item.coords.erase(key);
      }
    st::expect(out[name], item, log + ": " + name, false, true);
  }
}
