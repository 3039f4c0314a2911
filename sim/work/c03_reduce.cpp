// C03: reductions and cumulative sums, whatever the layout and the threads.
#include "reduce.h"

#include <algorithm>

#include "scipp/variable/bins.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/cumulative.h"
#include "scipp/variable/reduction.h"

using namespace scipp;
using namespace scipp::variable;
using namespace vm;
using scipp::core::dtype;

namespace {
Variable call(const Op op, const Variable &v, const Dim d) {
  switch (op) {
  case Sum:
    return sum(v, d);
  case NanSum:
    return nansum(v, d);
  case Max:
    return max(v, d);
  case Min:
    return min(v, d);
  case NanMax:
    return nanmax(v, d);
  case NanMin:
    return nanmin(v, d);
  case All:
    return all(v, d);
  case Any:
    return any(v, d);
  case Mean:
    return mean(v, d);
  default:
    return nanmean(v, d);
  }
}
Variable call(const Op op, const Variable &v) {
  switch (op) {
  case Sum:
    return sum(v);
  case NanSum:
    return nansum(v);
  case Max:
    return max(v);
  case Min:
    return min(v);
  case NanMax:
    return nanmax(v);
  case NanMin:
    return nanmin(v);
  case All:
    return all(v);
  case Any:
    return any(v);
  case Mean:
    return mean(v);
  default:
    return nanmean(v);
  }
}
Variable call_bins(const Op op, const Variable &v) {
  switch (op) {
  case Sum:
    return bins_sum(v);
  case NanSum:
    return bins_nansum(v);
  case Max:
    return bins_max(v);
  case Min:
    return bins_min(v);
  case NanMax:
    return bins_nanmax(v);
  case NanMin:
    return bins_nanmin(v);
  case All:
    return bins_all(v);
  case Any:
    return bins_any(v);
  case Mean:
    return bins_mean(v);
  default:
    return bins_nanmean(v);
  }
}
void call_into(const Op op, Variable &out, const Variable &v) {
  switch (op) {
  case Sum:
    return sum_into(out, v);
  case NanSum:
    return nansum_into(out, v);
  case Max:
    return max_into(out, v);
  case Min:
    return min_into(out, v);
  case NanMax:
    return nanmax_into(out, v);
  case NanMin:
    return nanmin_into(out, v);
  case All:
    return all_into(out, v);
  default:
    return any_into(out, v);
  }
}

/// Reduce `in` to the dimensions of `shape_of`. Cells of binned data are
/// reduced to one element.
Logical reduced(const Op op, const Logical &in, const Logical &shape_of,
                const Logical *init = nullptr) {
  Logical out;
  out.labels = shape_of.labels;
  out.shape = shape_of.shape;
  out.resize_cells();
  const auto dt = result_type(op, in.dtype);
  std::vector<Reducer> acc(out.volume(), Reducer(op, dt));
  if (init)
    for (size_t i = 0; i < acc.size(); ++i)
      acc[i].start(init->cells[i][0]);
  // Dimensions of the output that the input lacks broadcast the input.
  Logical all = in;
  for (size_t i = 0; i < out.labels.size(); ++i)
    if (in.find(out.labels[i]) < 0) {
      all.labels.push_back(out.labels[i]);
      all.shape.push_back(out.shape[i]);
    }
  each(all, [&](const auto &c, idx) {
    auto &a = acc[out.at(all, c)];
    for (const auto &e : in.cells[in.at(all, c)])
      a.add(e);
  });
  for (size_t i = 0; i < acc.size(); ++i)
    out.cells[i][0] = acc[i].done();
  out.dtype = dt;
  out.unit = in.unit;
  out.has_var = in.has_var;
  return out;
}

Opts draw_opts(const Op op, const bool into = false) {
  static const DType types[] = {dtype<double>, dtype<float>, dtype<int64_t>,
                                dtype<int32_t>, dtype<bool>};
  Opts o;
  const bool logical = op == All || op == Any;
  const bool nan = op == NanSum || op == NanMax || op == NanMin || op == NanMean;
  o.dtype = logical         ? dtype<bool>
            : sim::draw_bool() ? dtype<double>
            : nan           ? types[sim::draw(2)]
            : op == Mean    ? types[sim::draw(4)]
                            : types[sim::draw(into ? 4 : 5)];
  o.unit = o.dtype == dtype<bool> ? units::none : units::m;
  if (is_fp(o.dtype)) {
    o.nan_one_in = nan ? 3 : sim::draw_bool(4) ? 8 : 0;
    if (op == Sum || op == NanSum || op == Mean || op == NanMean)
      o.variances = sim::draw_bool(4);
  }
  return o;
}

/// Single-precision values whose sum is exact up to the final rounding only if
/// it is computed with higher precision.
void draw_rounding(const Op op, Opts &o) {
  if (o.dtype == dtype<float> && (op == Sum || op == NanSum) && sim::draw_bool())
    o.value = [nan = o.nan_one_in] {
      if (nan && sim::draw_bool(nan))
        return double(NAN);
      const double small = double(sim::draw(64)) - 20;
      return sim::draw_bool() ? small : sim::draw_bool() ? 16777216.0
                                                         : -16777214.0;
    };
}

Ext without(const Ext &s, const Dim d) {
  Ext out;
  for (size_t i = 0; i < s.labels.size(); ++i)
    if (s.labels[i] != d) {
      out.labels.push_back(s.labels[i]);
      out.shape.push_back(s.shape[i]);
    }
  return out;
}

Logical shaped(const Ext &s) {
  Logical l;
  l.labels = s.labels;
  l.shape = s.shape;
  return l;
}

/// Shape with enough elements for the threaded code.
Ext large_shape() {
  Ext s;
  const auto add = [&](const idx n) {
    s.labels.push_back(dim_of(static_cast<int>(s.labels.size())));
    s.shape.push_back(n);
  };
  const idx total = 16384 + sim::draw(2500);
  switch (sim::draw(6)) {
  case 0: // few long rows
    add(1 + sim::draw(30));
    add(total / s.shape[0] + 1);
    break;
  case 1: // many short rows
    add(0);
    add(1 + sim::draw(30));
    s.shape[0] = total / s.shape[1] + 1;
    break;
  case 2:
    add(20 + sim::draw(120));
    add(total / s.shape[0] + 1);
    break;
  case 3:
    add(total);
    break;
  default:
    add(1 + sim::draw(40));
    add(1 + sim::draw(20));
    add(total / (s.shape[0] * s.shape[1]) + 1);
    std::swap(s.shape[sim::draw(3)], s.shape[sim::draw(3)]);
  }
  return s;
}

void check(const Op op, const Operand &in, const Variable &out,
           const Ext &out_shape, const std::string &what) {
  sim::Quiet quiet;
  const auto got = read(out);
  const auto want = reduced(op, in.l, shaped(out_shape));
  expect_same(got, want, what.c_str(), tolerance(op, in.l.dtype));
  expect_untouched(in, false, what.c_str());
  observe(got);
}

void reduce(const Op op, const Operand &in, const bool all) {
  const Ext s{in.l.labels, in.l.shape};
  if (all) {
    if (s.labels.empty() && !in.l.binned &&
        (in.l.dtype == dtype<bool> || op == NanMax || op == NanMin))
      sim::skip("scalar is returned as it is");
    const auto what = std::string(op_names[op]) + " of " + in.l.str();
    check(op, in, call(op, in.var), {}, what);
  } else {
    const auto d = s.labels[sim::draw(static_cast<uint32_t>(s.labels.size()))];
    const auto what = std::string(op_names[op]) + " of " + in.l.str() +
                      " over " + d.name();
    check(op, in, call(op, in.var, d), without(s, d), what);
  }
}
} // namespace

WORKLOAD(c03_dense, "C03.dense", 12) {
  const auto op = static_cast<Op>(sim::draw(NOp));
  const auto s = draw_shape(4, 60, true);
  auto o = draw_opts(op);
  const bool all = s.labels.empty() || sim::draw_bool(3);
  if (!all || s.labels.size() < 2) // otherwise rounded after each dimension
    draw_rounding(op, o);
  const auto in = dense(s, o);
  reduce(op, in, all);
}

WORKLOAD(c03_binned, "C03.binned", 24) {
  const auto op = static_cast<Op>(sim::draw(NOp));
  const auto s = draw_shape(3, 60, true);
  BinOpts b;
  const auto in = binned(s, draw_opts(op), b);
  reduce(op, in, s.labels.empty() || sim::draw_bool(3));
}

WORKLOAD(c03_bins, "C03.bins", 12) {
  const auto op = static_cast<Op>(sim::draw(NOp));
  const auto s = draw_shape(3, 40, true);
  BinOpts b;
  b.max_size = 8;
  const auto in = binned(s, draw_opts(op), b);
  const auto what = std::string("bins_") + op_names[op] + " of " + in.l.str();
  check(op, in, call_bins(op, in.var), s, what);
}

// Enough elements for threads to share the work.
WORKLOAD(c03_large, "C03.large", 1) {
  static const Op ops[] = {Sum, Sum, NanSum, Max, Min, NanMax, All, Any, Mean};
  const auto op = ops[sim::draw(9)];
  auto s = sim::draw_bool(200) ? Ext{{dim_of(0), dim_of(1)},
                                    {2, 65536 + idx(sim::draw(3000))}}
                              : large_shape();
  auto o = draw_opts(op);
  o.unit = o.dtype == dtype<bool> ? units::none : units::m;
  uint64_t x = 1 + sim::draw(1u << 30);
  const bool rare = sim::draw_bool();
  o.gen = [x, rare, o]() mutable {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    const auto r = (x >> 20) % 1000;
    if (o.nan_one_in && r < 3)
      return double(NAN);
    if (o.dtype == dtype<bool>)
      return rare ? double(r == 7) : double(r != 7);
    return double((x >> 33) % 64) - 20;
  };
  const auto in = dense(s, o);
  reduce(op, in, sim::draw_bool(3));
}

// Accumulation into existing contents, of any layout.
WORKLOAD(c03_into, "C03.into", 12) {
  const auto op = static_cast<Op>(sim::draw(Mean));
  const bool bin = sim::draw_bool();
  const auto s = draw_shape(3, 48, true);
  const auto o = draw_opts(op, true);
  BinOpts b;
  auto io = o;
  if (!bin)
    draw_rounding(op, io);
  const auto in = bin ? binned(s, o, b) : dense(s, io);
  Ext os = draw_subset(s);
  if (sim::draw_bool(4)) {
    os.labels.insert(os.labels.begin(), dim_of(4));
    os.shape.insert(os.shape.begin(), 1 + sim::draw(3));
  }
  Opts oo = o;
  if (sim::draw_bool(3))
    oo.value = [] { return 0.0; };
  // Where the result depends on the order of operations there is none defined.
  oo.nan_one_in = 0;
  auto out = dense(os, oo);
  if (o.variances && os.labels.size() > s.labels.size())
    sim::skip("variances would be broadcast");
  const auto what =
      std::string(op_names[op]) + " of " + in.l.str() + " into " + out.l.str();
  call_into(op, out.var, in.var);
  sim::Quiet quiet;
  const auto got = read(out.var);
  auto want = reduced(op, in.l, out.l, &out.l);
  want.dtype = o.dtype;
  expect_same(got, want, what.c_str());
  expect_untouched(in, false, what.c_str());
  expect_untouched(out, true, what.c_str());
  observe(got);
}

WORKLOAD(c03_cumsum, "C03.cumsum", 12) {
  static const DType types[] = {dtype<double>, dtype<float>, dtype<int64_t>,
                                dtype<int32_t>};
  const int kind = static_cast<int>(sim::draw(3));
  const bool inclusive = sim::draw_bool();
  const auto mode = inclusive ? CumSumMode::Inclusive : CumSumMode::Exclusive;
  auto s = draw_shape(4, 60, true);
  if (kind == 0 && s.labels.empty())
    s = {{dim_of(0)}, {1 + idx(sim::draw(8))}};
  Opts o;
  o.dtype = types[sim::draw(4)];
  o.unit = units::m;
  BinOpts b;
  b.extra_dims = 0;
  const auto in = kind == 2 ? binned(s, o, b) : dense(s, o);
  auto want = in.l;
  Variable out;
  std::string what = "cumsum of " + in.l.str();
  const auto scan = [&](double &total, Elem &e) {
    total += e.v;
    e.v = inclusive ? total : total - e.v;
  };
  if (kind == 0) {
    const auto d = s.labels[sim::draw(static_cast<uint32_t>(s.labels.size()))];
    what += " over " + d.name();
    out = cumsum(in.var, d, mode);
    const auto rest = shaped(without(s, d));
    std::vector<double> total(rest.volume(), 0);
    each(want, [&](const auto &c, const idx k) {
      scan(total[rest.at(want, c)], want.cells[k][0]);
    });
  } else if (kind == 1) {
    out = cumsum(in.var, mode);
    double total = 0;
    for (auto &c : want.cells)
      scan(total, c[0]);
  } else {
    out = cumsum_bins(in.var, mode);
    for (auto &c : want.cells) {
      double total = 0;
      for (auto &e : c)
        scan(total, e);
    }
  }
  sim::Quiet quiet;
  const auto got = read(out);
  expect_same(got, want, what.c_str());
  expect_untouched(in, false, what.c_str());
  observe(got);
}
