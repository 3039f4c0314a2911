#include "ops.h"

#include <algorithm>

#include "scipp/core/eigen.h"
#include "scipp/core/time_point.h"
#include "scipp/dataset/astype.h"
#include "scipp/dataset/bin.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/bins_view.h"
#include "scipp/dataset/counts.h"
#include "scipp/dataset/extract.h"
#include "scipp/dataset/generated_arithmetic.h"
#include "scipp/dataset/generated_bins.h"
#include "scipp/dataset/generated_comparison.h"
#include "scipp/dataset/generated_logical.h"
#include "scipp/dataset/generated_math.h"
#include "scipp/dataset/generated_reduction.h"
#include "scipp/dataset/generated_special_values.h"
#include "scipp/dataset/generated_util.h"
#include "scipp/dataset/groupby.h"
#include "scipp/dataset/histogram.h"
#include "scipp/dataset/mean.h"
#include "scipp/dataset/nanmean.h"
#include "scipp/dataset/rebin.h"
#include "scipp/dataset/shape.h"
#include "scipp/dataset/slice.h"
#include "scipp/dataset/sort.h"
#include "scipp/dataset/string.h"
#include "scipp/dataset/to_unit.h"
#include "scipp/dataset/util.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/astype.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/cumulative.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/math.h"
#include "scipp/variable/misc_operations.h"
#include "scipp/variable/operations.h"
#include "scipp/variable/pow.h"
#include "scipp/variable/rebin.h"
#include "scipp/variable/reduction.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/slice.h"
#include "scipp/variable/string.h"
#include "scipp/variable/sort.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/structures.h"
#include "scipp/variable/to_unit.h"
#include "scipp/variable/trigonometry.h"
#include "scipp/variable/util.h"

namespace ops {
using namespace scipp;
using namespace scipp::variable;
using scipp::core::dtype;
using scipp::core::time_point;

namespace {
template <class T, class F>
Variable make(const Dim d, const idx n, const Unit u, F &&f) {
  core::element_array<T> v(n);
  for (idx i = 0; i < n; ++i)
    v.data()[i] = f(i);
  return Variable(u, core::Dimensions({d}, {n}), std::move(v),
                  std::optional<core::element_array<T>>{});
}

Variable scalar(const double x, const Unit u) {
  return makeVariable<double>(Values{x}, u);
}
} // namespace

World draw_world(const bool large) {
  World w;
  if (large) {
    w.s.labels = {dim_of(0), dim_of(1)};
    const idx n = 1 + idx(sim::draw(6));
    w.s.shape = {n, 17000 / n + 1};
    if (sim::draw_bool())
      std::swap(w.s.shape[0], w.s.shape[1]);
  } else {
    w.s = draw_shape(3, 48, false);
    if (w.s.labels.empty()) {
      w.s.labels = {dim_of(0)};
      w.s.shape = {1 + idx(sim::draw(5))};
    }
  }
  const auto at = sim::draw(uint32_t(w.s.labels.size()));
  w.dim = w.s.labels[at];
  const auto n = w.s.shape[at];
  auto g = draw_gen();
  const auto opts = [&](const DType t, const Unit u, const bool var,
                        const idx lo, const idx hi) {
    Opts o;
    o.dtype = t;
    o.unit = u;
    o.variances = var;
    auto r = g;
    g.next();
    o.gen = [r, lo, hi]() mutable { return double(r.in(lo, hi)); };
    return o;
  };
  const bool var = sim::draw_bool(3);
  w.a = dense(w.s, opts(dtype<double>, units::m, var, -9, 9)).var;
  w.b = dense(var ? w.s : draw_subset(w.s),
              opts(dtype<double>, units::m, var, 1, 9))
            .var;
  w.ints = dense(w.s, opts(dtype<int64_t>, units::none, false, -9, 9)).var;
  w.flags =
      dense(draw_subset(w.s), opts(dtype<bool>, units::none, false, 0, 1)).var;
  w.key = make<int64_t>(w.dim, n, units::none,
                        [&](idx) { return int64_t(g.in(-3, 3)); });
  w.text = make<std::string>(w.dim, n, units::none, [&](idx) {
    return std::string(size_t(g.in(0, 30)), char('a' + g.in(0, 20)));
  });
  w.time = make<time_point>(w.dim, n, units::s, [&](idx) {
    return time_point(int64_t(g.in(-4000000000, 4000000000)));
  });
  w.one = scalar(2.0, units::m);
  w.fine = make<double>(w.dim, n + 1, units::m,
                        [](idx i) { return double(i); });
  {
    core::element_array<double> v(3 * n);
    for (auto &x : v)
      x = double(g.in(-5, 5));
    w.vectors = make_vectors(core::Dimensions({w.dim}, {n}), units::m,
                             std::move(v));
  }
  Ext bs = w.s;
  if (large) {
    bs.shape[0] = 2 + idx(sim::draw(3));
    bs.shape[1] = 1 + idx(sim::draw(4));
  }
  const auto bn = bs.shape[at];
  {
    const auto o = opts(dtype<double>, units::counts, var, 1, 9);
    auto bv = binned(bs, o);
    w.bv = bv.var;
    w.bw = binned(bs, o, {}, &bv).var;
  }
  EvOpts eo;
  eo.unit = units::counts;
  eo.variances = var;
  eo.max_bin = 5;
  eo.value = [](Gen &r) { return double(r.in(1, 9)); };
  for (const auto &c : {Dim("ev"), Dim("ew")})
    eo.coords.push_back(
        {c, dtype<double>, [](Gen &r) { return double(r.in(0, 20)); }});
  eo.coords.push_back({Dim("grp"), dtype<int64_t>,
                       [](Gen &r) { return double(r.in(0, 4)); }});
  w.be = events(bs, eo);
  w.tab = table(large ? 700 : idx(sim::draw(40)), eo);
  w.edges = make<double>(Dim("ev"), 2 + idx(sim::draw(large ? 60 : 6)),
                         units::one, [&](idx i) {
                           static const double step[] = {2, 3.5, 1, 4};
                           return double(i) * step[n % 4];
                         });
  w.groups = make<int64_t>(Dim("grp"), 4, units::one,
                           [](idx i) { return int64_t(i); });
  const auto coords = draw_coords(w.s);
  w.da = assemble(w.a, coords, draw_masks(w.s, 2), {}, "da");
  w.da.coords().set(w.dim, w.fine.slice({w.dim, 0, n}));
  w.da.coords().set(Dim("key"), w.key);
  w.da.coords().set(Dim("text"), w.text);
  w.da.attrs().set(Dim("time"), w.time);
  w.db = assemble(dense(w.s, opts(dtype<double>, units::m, var, 1, 9)).var, {},
                  draw_masks(w.s, 2), {}, "db");
  for (const auto &[k, v] : w.da.coords())
    w.db.coords().set(k, v);
  w.de = assemble(w.be, {}, draw_masks(bs, 2), {}, "de");
  w.de.coords().set(w.dim, make<double>(w.dim, bn, units::m,
                                        [](idx i) { return double(i / 2); }));
  const auto nh = w.edges.dims()[Dim("ev")] - 1;
  w.hist = DataArray(make<double>(Dim("ev"), nh, units::counts, [&](idx) {
    return double(g.in(1, 5));
  }));
  w.hist.coords().set(Dim("ev"), w.edges);
  w.counts = assemble(
      dense(w.s, opts(dtype<double>, units::counts, var, 0, 9)).var, {},
      draw_masks(w.s, 1), {}, "counts");
  w.counts.coords().set(w.dim, w.fine);
  w.ds.setDataInit("a", w.da);
  w.ds.setData("b", w.db);
  if (!large)
    w.ds.setData("e", w.be);
  return w;
}

WorldSnap snap(const World &w) {
  WorldSnap s;
  for (const auto *v : {&w.a, &w.b, &w.ints, &w.flags, &w.key, &w.text, &w.time,
                        &w.bv, &w.bw, &w.be, &w.edges, &w.groups, &w.one,
                        &w.fine})
    s.v.push_back(dm::snap(*v));
  for (const auto *d : {&w.da, &w.db, &w.de, &w.tab, &w.hist, &w.counts})
    s.v.push_back(dm::snap(*d));
  // Not read directly.
  s.v.push_back(dm::snap(copy(w.vectors.elements<Eigen::Vector3d>("y"))));
  s.ds = dm::snap(w.ds);
  return s;
}

std::string differs(const WorldSnap &got, const WorldSnap &want) {
  for (size_t i = 0; i < want.v.size(); ++i) {
    const auto d = dm::differs(got.v[i], want.v[i]);
    if (!d.empty())
      return "operand " + std::to_string(i) + ": " + d;
  }
  return dm::differs(got.ds, want.ds);
}

namespace {
Dataset without_events(const World &w) {
  Dataset d(w.ds);
  if (d.contains("e"))
    d.erase("e");
  return d;
}
} // namespace

const std::vector<Op> &catalogue() {
  static const std::vector<Op> all{
#define OP(name, expr)                                                         \
  Op{name, [](const World &w) -> Out { return expr; }}
  // Variables.
  OP("copy", copy(w.a)),
  OP("copy bins", copy(w.bv)),
  OP("copy bins of events", copy(w.be)),
  OP("copy text", copy(w.text)),
  OP("plus", w.a + w.b),
  OP("minus", w.a - w.b),
  OP("times scalar", w.a * w.one),
  OP("divide", w.a / w.b),
  OP("negate", -w.a),
  OP("sqrt", sqrt(w.b * w.b)),
  OP("pow", pow(w.b, makeVariable<double>(Values{2.0}))),
  OP("abs", abs(w.a)),
  OP("exp", exp(w.a / w.one)),
  OP("less", less(astype(w.ints, dtype<double>), scalar(1, units::none))),
  OP("bins plus bins", w.bv + w.bw),
  OP("bins times dense", w.bv * scalar(3, units::one)),
  OP("events times bins", w.be * scalar(2, units::one)),
  OP("is equal", std::string(w.a == copy(w.a) ? "yes" : "no")),
  OP("bins equal", std::string(w.be == copy(w.be) ? "yes" : "no")),
  OP("text equal", std::string(w.text == copy(w.text) ? "yes" : "no")),
  OP("equals_nan", std::string(equals_nan(w.a, w.a) ? "yes" : "no")),
  OP("sum", sum(w.a)),
  OP("sum over dim", sum(w.a, w.dim)),
  OP("mean over dim", mean(w.a, w.dim)),
  OP("max", max(w.a)),
  OP("min of ints over dim", min(w.ints, w.dim)),
  OP("nansum over dim", nansum(w.a, w.dim)),
  OP("any", any(w.flags)),
  OP("cumsum", cumsum(w.a, w.dim)),
  OP("cumsum bins", cumsum_bins(w.bv)),
  OP("slice", copy(w.a.slice({w.dim, 0}))),
  OP("slice range", w.a.slice({w.dim, 0, 1})),
  OP("slice bins", copy(w.be.slice({w.dim, 0}))),
  OP("transpose", copy(transpose(w.a))),
  OP("concat", concat(std::vector{w.a, w.a}, w.dim)),
  OP("concat new dim", concat(std::vector{w.a, w.a}, Dim("new"))),
  OP("concat bins", concat(std::vector{w.be, w.be}, w.dim)),
  OP("concat text", concat(std::vector{w.text, w.text}, w.dim)),
  OP("flatten", flatten(w.a, w.a.dims().labels(), Dim("flat"))),
  OP("fold", fold(w.a, w.dim,
                  core::Dimensions({Dim("f0"), Dim("f1")},
                                   {1, w.a.dims()[w.dim]}))),
  OP("squeeze",
     squeeze(fold(w.a, w.dim,
                  core::Dimensions({Dim("f0"), Dim("f1")},
                                   {1, w.a.dims()[w.dim]})),
             std::nullopt)),
  OP("broadcast", copy(broadcast(w.one, w.a.dims()))),
  OP("where", where(w.flags, w.a, w.one)),
  OP("astype", astype(w.a, dtype<float>)),
  OP("astype bins", astype(w.be, dtype<float>)),
  OP("to_unit", to_unit(w.a, units::m)),
  OP("to_unit mm", to_unit(w.a, units::mm)),
  OP("sort variable", dataset::sort(w.a, w.key)),
  OP("sort bins", dataset::sort(w.be.dims()[w.dim] == w.key.dims()[w.dim]
                                    ? w.be
                                    : broadcast(w.be.slice({w.dim, 0}),
                                                w.a.dims()),
                                w.key)),
  OP("extract",
     extract(w.a, greater(astype(w.key, dtype<double>), scalar(0, units::none)))),
  OP("issorted", issorted(w.key, w.dim)),
  OP("allsorted", std::string(allsorted(w.fine, w.dim) ? "yes" : "no")),
  OP("islinspace", islinspace(w.fine, w.dim)),
  OP("linspace", linspace(w.one, w.one + w.one, Dim("l"), 7)),
  OP("resize", resize(w.a, w.dim, 3)),
  OP("midpoints", midpoints(w.fine)),
  OP("unzip", unzip(zip(w.key, w.key)).second),
  OP("bin_sizes", bin_sizes(w.be)),
  OP("bins_sum", bins_sum(w.be)),
  OP("bins_mean", bins_mean(w.be)),
  OP("bins_max", bins_max(w.bv)),
  OP("sum of bins over dim", sum(w.be, w.dim)),
  OP("rename dims", w.a.rename_dims({{w.dim, Dim("renamed")}})),
  OP("to_string", to_string(w.a)),
  OP("to_string bins", to_string(w.be)),
  OP("to_string text", to_string(w.text)),
  OP("to_string time", to_string(w.time)),
  OP("to_string vectors", to_string(w.vectors)),
  OP("format", format_variable(w.time) + format_variable_compact(w.one)),
  OP("size_of", std::to_string(size_of(w.be, SizeofTag::Underlying))),
  OP("vector elements", copy(w.vectors.elements<Eigen::Vector3d>("x"))),
  OP("norm of vectors", norm(w.vectors)),
  OP("cross", copy(cross(w.vectors, w.vectors).elements<Eigen::Vector3d>("x"))),
  OP("position", norm(geometry::position(w.fine, w.fine, w.fine))),
  OP("values and variances", values(w.a)),
  OP("get bin indices", unzip(w.be.bin_indices()).first),
  OP("slice by value",
     w.fine.slice(std::make_from_tuple<Slice>(
         get_slice_params(w.fine.dims(), w.fine, w.one, w.one + w.one)))),
  // Data arrays.
  OP("array copy", copy(w.da)),
  OP("array shallow copy", DataArray(w.da)),
  OP("array plus array", w.da + w.db),
  OP("array times scalar", w.da * w.one),
  OP("array divided", w.da / w.one),
  OP("events array times", w.de * scalar(2, units::one)),
  OP("array equal", std::string(w.da == copy(w.da) ? "yes" : "no")),
  OP("array sum", dataset::sum(w.da)),
  OP("array sum over dim", dataset::sum(w.da, w.dim)),
  OP("array mean over dim", dataset::mean(w.da, w.dim)),
  OP("array nanmean", dataset::nanmean(w.da, w.dim)),
  OP("array max over dim", dataset::max(w.da, w.dim)),
  OP("events array sum", dataset::sum(w.de)),
  OP("array groupby sum", dataset::groupby(w.da, Dim("key")).sum(w.dim)),
  OP("array groupby text", dataset::groupby(w.da, Dim("text")).max(w.dim)),
  OP("array groupby mean",
     dataset::groupby(DataArray(w.db.data(), w.db.coords().items()),
                      Dim("key"))
         .mean(w.dim)),
  OP("events groupby concat",
     dataset::groupby(w.de, w.dim,
                      makeVariable<double>(Dims{w.dim}, Shape{3}, units::m,
                                           Values{0.0, 1.0, 9.0}))
         .sum(w.dim)),
  OP("array sort", dataset::sort(w.da, Dim("key"))),
  OP("array extract",
     extract(w.da,
             greater(astype(w.key, dtype<double>), scalar(0, units::none)))),
  OP("array concat",
     dataset::concat(std::vector{w.da, w.da}, w.dim)),
  OP("array concat new dim",
     dataset::concat(std::vector{w.da, w.da}, Dim("new"))),
  OP("histogram concat", dataset::concat(std::vector{w.counts, w.counts},
                                         Dim("new"))),
  OP("array slice", copy(w.da.slice({w.dim, 0}))),
  OP("array slice range", w.da.slice({w.dim, 0, 1})),
  OP("array slice by value", dataset::slice(w.da, w.dim, scalar(0, units::m))),
  OP("array slice by range",
     dataset::slice(w.da, w.dim, scalar(0, units::m), scalar(2, units::m))),
  OP("array transpose", dataset::transpose(w.da)),
  OP("array flatten", dataset::flatten(w.counts, std::nullopt, Dim("flat"))),
  OP("array fold", dataset::fold(w.da, w.dim,
                                 core::Dimensions({Dim("f0"), Dim("f1")},
                                                  {1, w.da.dims()[w.dim]}))),
  OP("array squeeze", dataset::squeeze(w.da.slice({w.dim, 0, 1}), std::nullopt)),
  OP("array rename", w.da.rename_dims({{w.dim, Dim("renamed")}})),
  OP("array drop coords", w.da.drop_coords(std::vector{Dim("key")})),
  OP("array astype", dataset::astype(w.da, dtype<float>)),
  OP("array to_unit", dataset::to_unit(w.da, units::mm)),
  OP("array resize", dataset::resize(w.da, w.dim, 2)),
  OP("array meta", DataArray(w.a, w.da.meta().items())),
  OP("array coord", w.da.coords()[Dim("key")]),
  OP("array to_string", dataset::to_string(w.da)),
  OP("array size_of", std::to_string(size_of(w.da, SizeofTag::ViewOnly))),
  OP("events array to_string", dataset::to_string(w.de)),
  OP("array strip edges", dataset::strip_edges_along(w.counts, w.dim)),
  OP("array is histogram",
     std::string(dataset::is_histogram(w.counts, w.dim) ? "yes" : "no")),
  OP("to density", dataset::counts::toDensity(w.counts, w.dim)),
  OP("array rebin",
     dataset::rebin(w.counts, w.dim,
                    makeVariable<double>(Dims{w.dim}, Shape{3}, units::m,
                                         Values{0.0, 0.7, 9.0}))),
  // Events.
  OP("histogram", dataset::histogram(w.de, w.edges)),
  OP("histogram table", dataset::histogram(w.tab, w.edges)),
  OP("bin table", dataset::bin(w.tab, {w.edges})),
  OP("bin and group table", dataset::bin(w.tab, {w.edges}, {w.groups})),
  OP("bin binned", dataset::bin(w.de, {w.edges})),
  OP("group binned", dataset::bin(w.de, {}, {w.groups}, {w.dim})),
  OP("concatenate bins", dataset::buckets::concatenate(w.be, w.be)),
  OP("concatenate bins over dim", dataset::buckets::concatenate(w.de, w.dim)),
  OP("map events", dataset::buckets::map(w.hist, w.be, Dim("ev"))),
  OP("event coord", [](const World &x) {
    return copy(dataset::bins_view<DataArray>(x.be).coords()[Dim("ev")]);
  }(w)),
  OP("lookup previous",
     dataset::lookup_previous(
         DataArray(w.hist.data(),
                   {{Dim("ev"), w.edges.slice({Dim("ev"), 0,
                                               w.hist.dims()[Dim("ev")]})}}),
         w.edges + scalar(0.5, units::one), Dim("ev"))),
  OP("histogram bins", dataset::buckets::histogram(w.be, w.edges)),
  // Datasets.
  OP("dataset copy", copy(w.ds)),
  OP("dataset shallow copy", Dataset(w.ds)),
  OP("dataset equal", std::string(w.ds == copy(w.ds) ? "yes" : "no")),
  OP("dataset plus", without_events(w) + without_events(w)),
  OP("dataset item", w.ds["a"]),
  OP("dataset slice", copy(w.ds.slice({w.dim, 0}))),
  OP("dataset slice range", w.ds.slice({w.dim, 0, 1})),
  OP("dataset sum", dataset::sum(w.ds, w.dim)),
  OP("dataset sort", dataset::sort(w.ds, Dim("key"))),
  OP("dataset concat", dataset::concat(std::vector{w.ds, w.ds}, Dim("new"))),
  OP("dataset groupby",
     dataset::groupby(without_events(w), Dim("key")).sum(w.dim)),
  OP("dataset rename", w.ds.rename_dims({{w.dim, Dim("renamed")}})),
  OP("dataset to_string", dataset::to_string(w.ds)),
  OP("dataset merge", dataset::merge(w.ds, w.ds)),
  OP("dataset transpose", dataset::transpose(w.ds)),
  OP("sqrt of array", dataset::sqrt(w.db * w.db)),
  OP("array negate", -w.da),
  OP("array isnan", dataset::isnan(w.da)),
  OP("array less", dataset::less(w.da, w.db)),
  OP("array and", dataset::less(w.da, w.db) & dataset::less(w.db, w.da)),
  OP("array variable minus", w.one - w.da),
  OP("array values", dataset::values(w.da)),
  OP("array nanmin", dataset::nanmin(w.da)),
  OP("array any", dataset::any(dataset::isnan(w.da))),
  OP("array all over dim", dataset::all(dataset::isfinite(w.da), w.dim)),
  OP("array as const", w.da.as_const()),
  OP("array view", w.da.view()),
  OP("array equals_nan", std::string(dataset::equals_nan(w.da, w.da) ? "yes" : "no")),
  OP("array is edges", std::string(w.counts.coords().is_edges(w.dim) ? "yes" : "no")),
  OP("array from density", dataset::counts::fromDensity(dataset::counts::toDensity(w.counts, w.dim), w.dim)),
  OP("array groupby bins", dataset::groupby(w.da, w.dim, w.fine).sum(w.dim)),
  OP("array groupby min", dataset::groupby(w.da, Dim("key")).min(w.dim)),
  OP("array groupby any", dataset::groupby(dataset::isnan(w.da), Dim("key")).any(w.dim)),
  OP("events groupby sum", dataset::groupby(w.de, w.dim).sum(w.dim)),
  OP("bins min", bins_min(w.bv)),
  OP("bins nansum", bins_nansum(w.be)),
  OP("bins nanmean", bins_nanmean(w.be)),
  OP("events array bins sum", dataset::bins_sum(w.de)),
  OP("lower than all", nanmin(w.a, w.dim)),
  OP("mean", mean(w.a)),
  OP("nanmean over dim", nanmean(w.a, w.dim)),
  OP("all", variable::all(w.flags)),
  OP("max of text", max(w.time)),
  OP("cumsum exclusive", cumsum(w.a, w.dim, CumSumMode::Exclusive)),
  OP("cumsum all", cumsum(w.ints)),
  OP("sort along dim", sort(w.key, w.key.dim(), SortOrder::Descending)),
  OP("round", rint(w.a / w.one)),
  OP("atan2", atan2(w.a, w.b)),
  OP("floor divide", floor_divide(w.a, w.b)),
  OP("modulo", w.ints % makeVariable<int64_t>(Values{3}, units::none)),
  OP("isclose", isclose(w.a, w.b, scalar(0.1, units::none), w.one)),
  OP("reciprocal", reciprocal(w.b)),
  OP("sin", sin(astype(w.ints, dtype<double>) * scalar(1, units::rad))),
  OP("zero like", zero_like(w.be)),
  OP("empty like", empty_like(w.be).dims().ndim() == 0 ? w.one : bin_sizes(empty_like(w.be))),
  OP("fill", [](const World &x) { auto v = copy(x.a); fill_zeros(v); return v; }(w)),
  OP("as contiguous", as_contiguous(w.a, w.dim)),
  OP("islinspace steps", isarange(w.key, w.dim)),
  OP("fold then flatten", flatten(fold(w.a, w.dim, core::Dimensions({Dim("o"), Dim("i")}, {w.a.dims()[w.dim], 1})), std::vector{Dim("o"), Dim("i")}, w.dim)),
  OP("vectors dot", dot(w.vectors, w.vectors)),
  OP("vectors plus", norm(w.vectors + w.vectors)),
  OP("vectors equal", std::string(w.vectors == copy(w.vectors) ? "yes" : "no")),
  OP("vectors equals_nan", std::string(equals_nan(w.vectors, w.vectors) ? "yes" : "no")),
  OP("vectors concat", norm(concat(std::vector{w.vectors, w.vectors}, w.dim))),
  OP("vector keys", [](const World &x) { std::string k; for (const auto &e : element_keys(x.vectors)) k += e; return k; }(w)),
  OP("vectors sort", norm(dataset::sort(w.vectors, w.key))),
  OP("time difference", astype(w.time - w.time, dtype<double>)),
  OP("time to_unit", to_unit(w.time, units::Unit("ms"))),
  OP("text sort", dataset::sort(w.text, w.key)),
  OP("dims to string", to_string(w.a.dims()) + to_string(w.a.dtype())),
  OP("bins of dataset", [](const World &x) {
       Dataset buf;
       buf.setDataInit("a", x.tab);
       buf.setData("b", x.tab.data());
       const auto n = x.tab.dims()[x.tab.dims().inner()];
       auto i = makeVariable<index_pair>(
           Dims{Dim("bin")}, Shape{2},
           Values{index_pair{0, n / 2}, index_pair{n / 2, n}});
       return copy(dataset::make_bins(i, x.tab.dims().inner(), buf)).bin_buffer<Dataset>();
     }(w)),
  OP("bins of dataset equal", [](const World &x) {
       Dataset buf;
       buf.setDataInit("a", x.tab);
       const auto n = x.tab.dims()[x.tab.dims().inner()];
       auto i = makeVariable<index_pair>(
           Dims{Dim("bin")}, Shape{2},
           Values{index_pair{0, n / 2}, index_pair{n / 2, n}});
       auto v = dataset::make_bins(i, x.tab.dims().inner(), buf);
       return std::string(v == copy(v) ? "yes" : "no") + to_string(v) +
              std::to_string(size_of(v, SizeofTag::ViewOnly));
     }(w)),
  OP("nested variable", [](const World &x) {
       auto v = makeVariable<Variable>(Values{x.a});
       auto c = copy(v);
       return std::string(c == v ? "yes" : "no") + to_string(c);
     }(w)),
  OP("nested array", [](const World &x) {
       auto v = makeVariable<DataArray>(Values{x.da});
       auto c = copy(v);
       return std::string(c == v ? "yes" : "no") + to_string(c) +
              std::to_string(size_of(c, SizeofTag::Underlying));
     }(w)),
  OP("dataset negate", -without_events(w)),
  OP("dataset sqrt", dataset::sqrt(without_events(w) * without_events(w))),
  OP("dataset times array", without_events(w) * w.da),
  OP("dataset variable over", w.one / without_events(w)),
  OP("dataset sum all", dataset::sum(without_events(w))),
  OP("dataset mean", dataset::mean(without_events(w), w.dim)),
  OP("dataset max", dataset::max(without_events(w))),
  OP("dataset slice by value", dataset::slice(w.ds, w.dim, scalar(0, units::m))),
  OP("dataset slice by range", dataset::slice(w.ds, w.dim, scalar(0, units::m), scalar(2, units::m))),
  OP("dataset extract", extract(w.ds, less(astype(w.key, dtype<double>), scalar(0, units::none)))),
  OP("dataset concat dim", dataset::concat(std::vector{w.ds, w.ds}, w.dim)),
  OP("dataset resize", dataset::resize(w.ds, w.dim, 2)),
  OP("dataset squeeze", dataset::squeeze(w.ds.slice({w.dim, 0, 1}), std::nullopt)),
  OP("dataset drop coords", w.ds.drop_coords(std::vector{Dim("key")})),
  OP("dataset equals_nan", std::string(dataset::equals_nan(w.ds, w.ds) ? "yes" : "no")),
  OP("dataset histogram", dataset::histogram(Dataset({{"t", w.tab}}), w.edges)),
  OP("dataset rebin", dataset::rebin(Dataset({{"c", w.counts}}), w.dim, w.fine)),
  OP("dataset density", dataset::counts::toDensity(Dataset({{"c", w.counts}}), w.dim)),
  OP("dataset strip edges", dataset::strip_edges_along(Dataset({{"c", w.counts}}), w.dim)),
  OP("dataset groupby mean", dataset::groupby(without_events(w), Dim("key")).mean(w.dim)),
  OP("dataset size_of", std::to_string(size_of(w.ds, SizeofTag::Underlying)))
  };
#undef OP
  return all;
}

Case draw_case(std::shared_ptr<const World> w) {
  const auto &all = catalogue();
  const auto &op = all[sim::draw(uint32_t(all.size()))];
  return {op.name, [w = std::move(w), f = op.run] { return f(*w); }};
}

Picture picture(const Out &o) {
  Picture p;
  p.kind = o.index();
  if (const auto *t = std::get_if<std::string>(&o))
    p.text = *t;
  else if (const auto *v = std::get_if<Variable>(&o))
    p.array = dm::snap(*v);
  else if (const auto *a = std::get_if<DataArray>(&o))
    p.array = dm::snap(*a);
  else if (const auto *d = std::get_if<Dataset>(&o))
    p.dataset = dm::snap(*d);
  return p;
}

std::string differs(const Picture &got, const Picture &want) {
  if (got.kind != want.kind)
    return "another kind of result: " + got.text.substr(0, 200) +
           want.text.substr(0, 200);
  if (got.text != want.text)
    return "text '" + got.text.substr(0, 300) + "' instead of '" +
           want.text.substr(0, 300) + "'";
  if (got.kind < 2)
    return {};
  Cmp c;
  c.rtol = 1e-12;
  if (got.kind == 4)
    return dm::differs(got.dataset, want.dataset, c);
  return dm::differs(got.array, want.array, c);
}

void observe(const Picture &p) {
  sim::observe(p.text.data(), p.text.size());
  if (p.kind == 4)
    dm::observe(p.dataset);
  else if (p.kind >= 2)
    dm::observe(p.array);
}

Out outcome(const Case &c) {
  try {
    return c.run();
  } catch (const std::bad_alloc &) {
    throw;
  } catch (const std::exception &e) {
    return std::string("exception: ") + e.what();
  }
}
} // namespace ops
