// C02: element-wise operations on operands of any layout.
#include "var.h"

#include <algorithm>
#include <array>

#include "scipp/core/except.h"
#include "scipp/core/transform_common.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/astype.h"
#include "scipp/variable/generated_arithmetic.h"
#include "scipp/variable/generated_comparison.h"
#include "scipp/variable/generated_logical.h"
#include "scipp/variable/generated_math.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/math.h"
#include "scipp/variable/operations.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/to_unit.h"
#include "scipp/variable/transform.h"
#include "scipp/variable/util.h"
#include "scipp/variable/variable_factory.h"

using namespace scipp;
using namespace scipp::variable;
using namespace vm;
using scipp::core::dtype;

namespace {
constexpr double TolD = 1e-12, TolF = 2e-5;

double tolerance(const DType a, const DType b) {
  return a == dtype<float> || b == dtype<float> ? TolF : TolD;
}

const DType number_types[] = {dtype<double>, dtype<float>, dtype<int64_t>,
                              dtype<int32_t>};
DType draw_number_type() {
  return sim::draw_bool() ? dtype<double> : number_types[sim::draw(4)];
}
bool is_fp(const DType t) { return t == dtype<double> || t == dtype<float>; }

enum BinOp {
  Add, Sub, Mul, Div, FloorDiv, Mod, Less, GreaterEq, Equal, Greater, LessEq,
  NotEqual, NBinOp
};
const char *const op_names[] = {"add",          "subtract",  "multiply",
                                "divide",       "floor_divide", "mod",
                                "less",         "greater_equal", "equal",
                                "greater",      "less_equal", "not_equal"};

/// `ints`: both operands are integers.
Elem apply(const BinOp op, const Elem &a, const Elem &b,
           const bool ints = false) {
  switch (op) {
  case Add:
    return {a.v + b.v, a.var + b.var};
  case Sub:
    return {a.v - b.v, a.var + b.var};
  case Mul:
    return {a.v * b.v, a.var * b.v * b.v + b.var * a.v * a.v};
  case Div:
    return {a.v / b.v,
            (a.var + b.var * (a.v * a.v) / (b.v * b.v)) / (b.v * b.v)};
  case FloorDiv:
    return {ints && b.v == 0 ? 0 : std::floor(a.v / b.v), 0};
  case Mod:
    return {b.v == 0 ? (ints ? 0 : NAN) : a.v - std::floor(a.v / b.v) * b.v, 0};
  case Less:
    return {double(a.v < b.v), 0};
  case GreaterEq:
    return {double(a.v >= b.v), 0};
  case Equal:
    return {double(a.v == b.v), 0};
  case Greater:
    return {double(a.v > b.v), 0};
  case LessEq:
    return {double(a.v <= b.v), 0};
  case NotEqual:
    return {double(a.v != b.v), 0};
  default:
    return {};
  }
}

DType result_type(const BinOp op, const DType a, const DType b) {
  if (op >= Less)
    return dtype<bool>;
  return by_dtype(a, [&](auto x) {
    return by_dtype(b, [&](auto y) {
      using A = decltype(x);
      using B = decltype(y);
      if constexpr (std::is_integral_v<A> && std::is_integral_v<B>)
        if (op == Div)
          return DType(dtype<double>);
      return DType(dtype<std::decay_t<decltype(x + y)>>);
    });
  });
}

Unit result_unit(const BinOp op, const Unit &a, const Unit &b) {
  return op == Mul                     ? a * b
         : op == Div || op == FloorDiv ? a / b
         : op >= Less                  ? units::none
                                       : a;
}

Variable call(const BinOp op, const Variable &a, const Variable &b) {
  switch (op) {
  case Add:
    return a + b;
  case Sub:
    return a - b;
  case Mul:
    return a * b;
  case Div:
    return a / b;
  case FloorDiv:
    return floor_divide(a, b);
  case Mod:
    return a % b;
  case Less:
    return less(a, b);
  case GreaterEq:
    return greater_equal(a, b);
  case Greater:
    return greater(a, b);
  case LessEq:
    return less_equal(a, b);
  case NotEqual:
    return not_equal(a, b);
  default:
    return equal(a, b);
  }
}

/// Expected contents of an operation on `args` broadcast to the dimensions of
/// `shape_of`.
template <class F>
Logical expected(const Logical &shape_of,
                 const std::vector<const Logical *> &args, F &&f) {
  Logical out;
  out.labels = shape_of.labels;
  out.shape = shape_of.shape;
  for (const auto *a : args) {
    out.binned |= a->binned;
    out.has_var |= a->has_var;
  }
  out.resize_cells();
  std::vector<Elem> e(args.size());
  each(out, [&](const auto &c, const idx k) {
    std::vector<const std::vector<Elem> *> cell;
    size_t n = 1;
    for (const auto *a : args) {
      cell.push_back(&a->cells[a->at(out, c)]);
      if (a->binned)
        n = cell.back()->size();
    }
    out.cells[k].resize(n);
    for (size_t i = 0; i < n; ++i) {
      for (size_t j = 0; j < args.size(); ++j)
        e[j] = (*cell[j])[args[j]->binned ? i : 0];
      out.cells[k][i] = f(e);
    }
  });
  return out;
}

/// The result must have all dimensions of the operands, in whatever order.
void expect_dims(const Logical &got, const std::vector<const Logical *> &args,
                 const char *what) {
  size_t n = 0;
  std::vector<Dim> seen;
  for (const auto *a : args)
    for (size_t i = 0; i < a->labels.size(); ++i)
      if (std::find(seen.begin(), seen.end(), a->labels[i]) == seen.end()) {
        seen.push_back(a->labels[i]);
        const auto at = got.find(a->labels[i]);
        if (at < 0 || got.shape[at] != a->shape[i])
          sim::violation("shape", "%s: result is %s, operand %s", what,
                         got.str().c_str(), a->str().c_str());
        ++n;
      }
  if (got.labels.size() != n)
    sim::violation("shape", "%s: result %s has too many dimensions", what,
                   got.str().c_str());
}

bool same_dims(const Ext &a, const Ext &b) {
  if (a.labels.size() != b.labels.size())
    return false;
  for (size_t i = 0; i < a.labels.size(); ++i)
    if (std::find(b.labels.begin(), b.labels.end(), a.labels[i]) ==
        b.labels.end())
      return false;
  return true;
}

/// Two operands that can be combined. `into`: b must fit into a.
/// Two operands that can be combined. `into`: b must fit into a.
struct Pair {
  Operand a, b;
};

Pair draw_pair(const BinOp op, const bool into, const int big) {
  Pair p;
  const Ext full = draw_shape(4, big, true);
  const int kind = static_cast<int>(sim::draw(4)); // bit 0: a, bit 1: b binned
  const bool bin = sim::draw_bool(3);
  bool abin = bin && (kind & 1 || (into && kind));
  bool bbin = bin && (kind & 2);
  if (into && bbin)
    abin = true;
  Ext sa = into ? full : draw_subset(full, sim::draw_bool());
  Ext sb = draw_subset(full, sim::draw_bool(3));
  if (into && sim::draw_bool(3)) {
    sb = sa;
    if (sim::draw_bool())
      shuffle(sb);
  }
  Opts oa, ob;
  oa.dtype = draw_number_type();
  ob.dtype = sim::draw_bool(3) ? draw_number_type() : oa.dtype;
  if (into) {
    // Supported combinations of types.
    if (op == Div && !is_fp(oa.dtype))
      oa.dtype = dtype<double>;
    if (op == FloorDiv && !is_fp(oa.dtype))
      ob.dtype = oa.dtype;
    if (!is_fp(oa.dtype) && is_fp(ob.dtype))
      ob.dtype = oa.dtype;
  }
  const bool may_var = op <= Div || op >= Less;
  if (may_var && is_fp(oa.dtype) && (into || same_dims(sa, full)))
    oa.variances = sim::draw_bool(3);
  if (may_var && is_fp(ob.dtype) && same_dims(sb, sa) &&
      (into ? oa.variances : same_dims(sb, full)))
    ob.variances = sim::draw_bool(3);
  if (abin != bbin) { // dense operand must not have variances
    if (abin)
      ob.variances = false;
    else
      oa.variances = false;
  }
  // An operand that is broadcast must not have variances.
  if (!into && !same_dims(sa, sb)) {
    if (!same_dims(sa, full))
      oa.variances = false;
    ob.variances = false;
    if (!same_dims(sb, sa))
      for (const auto &d : sb.labels)
        if (std::find(sa.labels.begin(), sa.labels.end(), d) ==
            sa.labels.end())
          oa.variances = false;
  }
  if (op == Mul || op == Div || op == FloorDiv) {
    oa.unit = sim::draw_bool() ? units::m : units::one;
    ob.unit = into || sim::draw_bool() ? units::one : units::s;
  } else {
    oa.unit = ob.unit = sim::draw_bool() ? units::m : units::one;
  }
  oa.no_view = ob.no_view = false;
  if (op == Div || op == FloorDiv || op == Mod)
    ob.lo = oa.variances || ob.variances || sim::draw_bool(3) ? 1 : -9;
  if (op <= Sub && sim::draw_bool(4))
    oa.nan_one_in = is_fp(oa.dtype) ? 6 : 0;
  BinOpts bo;
  if (abin && bbin) {
    // The sizes of bins must agree, so the smaller one comes first.
    const bool a_first = std::all_of(
        sa.labels.begin(), sa.labels.end(), [&](const Dim d) {
          return std::find(sb.labels.begin(), sb.labels.end(), d) !=
                 sb.labels.end();
        });
    if (!a_first && !std::all_of(sb.labels.begin(), sb.labels.end(),
                                 [&](const Dim d) {
                                   return std::find(sa.labels.begin(),
                                                    sa.labels.end(),
                                                    d) != sa.labels.end();
                                 }))
      sb = sa;
    bo.permute = sim::draw_bool(3);
    if (a_first) {
      p.a = binned(sa, oa, bo);
      p.b = binned(sb, ob, bo, &p.a);
    } else {
      p.b = binned(sb, ob, bo);
      p.a = binned(sa, oa, bo, &p.b);
    }
  } else {
    p.a = abin ? binned(sa, oa, bo) : dense(sa, oa);
    p.b = bbin ? binned(sb, ob, bo) : dense(sb, ob);
  }
  if (abin && bbin && !same_dims(sa, sb)) {
    // Broadcast of binned data with variances is rejected.
    if (p.a.l.has_var || p.b.l.has_var)
      sim::skip("variances would be broadcast");
  }
  return p;
}

std::string describe(const char *op, const Operand &a, const Operand &b) {
  return std::string(op) + "(" + a.l.str() + ", " + b.l.str() + ")";
}

void fix_types(Logical &l) {
  if (!is_fp(l.dtype))
    l.has_var = false;
}
} // namespace

WORKLOAD(c02_binary, "C02.binary", 6) {
  const auto op = static_cast<BinOp>(sim::draw(NBinOp));
  auto p = draw_pair(op, false, 48);
  const bool alias = sim::draw_bool(8) && op != Div && op != FloorDiv &&
                     op != Mod;
  const auto &b = alias ? p.a : p.b;
  const auto what = describe(op_names[op], p.a, b) + (alias ? " of itself" : "");
  Variable result = call(op, p.a.var, b.var);
  sim::Quiet quiet;
  const auto got = read(result);
  expect_dims(got, {&p.a.l, &b.l}, what.c_str());
  const bool correlated = alias && p.a.l.has_var && op <= Mul;
  const bool ints = !is_fp(p.a.l.dtype) && !is_fp(b.l.dtype);
  auto want = expected(got, {&p.a.l, &b.l}, [&](const auto &e) {
    auto r = apply(op, e[0], e[1], ints);
    if (correlated)
      r.var = op == Add   ? 4 * e[0].var
              : op == Sub ? 0
                          : 4 * e[0].v * e[0].v * e[0].var;
    return r;
  });
  want.dtype = result_type(op, p.a.l.dtype, b.l.dtype);
  want.unit = result_unit(op, p.a.l.unit, b.l.unit);
  if (op >= FloorDiv)
    want.has_var = false;
  fix_types(want);
  expect_same(got, want, what.c_str(), tolerance(p.a.l.dtype, b.l.dtype));
  expect_untouched(p.a, false, what.c_str());
  expect_untouched(p.b, false, what.c_str());
  observe(got);
}

WORKLOAD(c02_inplace, "C02.inplace", 6) {
  const auto op = static_cast<BinOp>(sim::draw(Less));
  auto p = draw_pair(op, true, 48);
  const int how = static_cast<int>(sim::draw(10));
  Operand b = p.b;
  std::string what = describe(op_names[op], p.a, p.b) + " in place";
  if (how == 0 && op < Div) {
    b = p.a;
    what += " of itself";
  } else if (how <= 2 && !p.a.l.binned && op < Div) {
    // Operands overlap in memory: a reversed set of square dimensions, or two
    // ranges of one dimension.
    const int n = 2 + static_cast<int>(sim::draw(6));
    Opts o;
    o.unit = units::one;
    o.dtype = draw_number_type();
    if (how == 1) {
      Ext sq{{dim_of(0), dim_of(1)}, {n, n}};
      p.a = dense(sq, o);
      b = p.a;
      b.var = p.a.var.rename_dims({{dim_of(0), dim_of(2)}})
                  .rename_dims({{dim_of(1), dim_of(0)}})
                  .rename_dims({{dim_of(2), dim_of(1)}});
      if (sim::draw_bool()) {
        std::swap(b.l.labels[0], b.l.labels[1]);
      } else { // same order of dimensions, other strides
        const Dim order[] = {p.a.l.labels[0], p.a.l.labels[1]};
        b.var = b.var.transpose(order);
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < n; ++j)
            b.l.cells[i * n + j] = p.a.l.cells[j * n + i];
      }
      what = std::string(op_names[op]) + " of a variable and its transpose";
    } else {
      Ext line{{dim_of(0)}, {n + 1}};
      if (sim::draw_bool()) {
        line.labels.push_back(dim_of(1));
        line.shape.push_back(1 + sim::draw(4));
      }
      shuffle(line);
      auto all = dense(line, o);
      const idx shift = sim::draw(2);
      const auto cut = [&](const idx begin) {
        Operand x;
        x.var = all.var.slice({dim_of(0), begin, begin + n});
        x.l = all.l;
        x.l.shape[x.l.find(dim_of(0))] = n;
        x.l.resize_cells();
        each(x.l, [&](auto c, const idx k) {
          c[x.l.find(dim_of(0))] += begin;
          idx at = 0;
          for (size_t i = 0; i < c.size(); ++i)
            at = at * all.l.shape[i] + c[i];
          x.l.cells[k] = all.l.cells[at];
        });
        return x;
      };
      p.a = cut(shift);
      b = cut(1 - shift);
      what = std::string(op_names[op]) + " of overlapping ranges";
    }
  }
  const bool slice =
      p.a.var.is_slice() ||
      (p.a.l.binned && p.a.var.bin_buffer<Variable>().is_slice());
  const auto new_unit = result_unit(op, p.a.l.unit, b.l.unit);
  const bool ints = !is_fp(p.a.l.dtype) && !is_fp(b.l.dtype);
  const bool changes_unit = new_unit != p.a.l.unit;
  const bool alias = b.var.is_same(p.a.var);
  bool threw = false;
  try {
    switch (op) {
    case Add:
      p.a.var += b.var;
      break;
    case Sub:
      p.a.var -= b.var;
      break;
    case Mul:
      p.a.var *= b.var;
      break;
    case Div:
      p.a.var /= b.var;
      break;
    case FloorDiv:
      floor_divide_equals(p.a.var, b.var);
      break;
    default:
      p.a.var %= b.var;
    }
  } catch (const except::UnitError &) {
    threw = true;
    if (!(changes_unit && slice))
      throw;
  }
  sim::Quiet quiet;
  if (threw) {
    expect_untouched(p.a, false, what.c_str());
    return;
  }
  if (changes_unit && slice)
    sim::violation("unit", "%s: unit of a slice changed", what.c_str());
  const auto got = read(p.a.var);
  const bool correlated = alias && p.a.l.has_var;
  auto want = expected(p.a.l, {&p.a.l, &b.l}, [&](const auto &e) {
    auto r = apply(op, e[0], e[1], ints);
    if (correlated)
      r.var = op == Add   ? 4 * e[0].var
              : op == Sub ? 0
                          : 4 * e[0].v * e[0].v * e[0].var;
    return r;
  });
  want.dtype = p.a.l.dtype;
  want.has_var = p.a.l.has_var;
  want.unit = new_unit;
  expect_same(got, want, what.c_str(), tolerance(p.a.l.dtype, b.l.dtype));
  expect_untouched(p.a, true, what.c_str(), true);
  if (!alias)
    expect_untouched(p.b, false, what.c_str());
  observe(got);
}

// Operations of three and four operands.
WORKLOAD(c02_many, "C02.many", 3) {
  const auto full = draw_shape(3, 40, true);
  const int n = sim::draw_in(3, 4);
  const bool in_place = sim::draw_bool();
  std::vector<Operand> ops;
  const bool bin = sim::draw_bool(3);
  const Operand *like = nullptr;
  ops.reserve(n);
  for (int i = 0; i < n; ++i) {
    Opts o;
    o.lo = -3;
    o.hi = 3;
    const bool b = bin && ((i == 0 && in_place) || sim::draw_bool());
    Ext s = b || (in_place && i == 0) ? full : draw_subset(full);
    if (b && sim::draw_bool())
      shuffle(s);
    if (b) {
      ops.push_back(binned(s, o, {}, like));
      if (!like) {
        like = &ops.back();
      }
    } else {
      ops.push_back(dense(s, o));
    }
  }
  std::vector<const Logical *> args;
  for (auto &o : ops)
    args.push_back(&o.l);
  const auto f = [](const auto &e) {
    Elem r;
    for (size_t i = 0; i < e.size(); ++i)
      r.v += double(i + 1) * e[i].v;
    return r;
  };
  std::string what = "custom operation on";
  for (const auto *a : args)
    what += " " + a->str();
  if (in_place) {
      if (n == 3)
      transform_in_place<std::tuple<double, double, double>>(
          ops[0].var, ops[1].var, ops[2].var,
          overloaded{[](units::Unit &, const units::Unit &,
                        const units::Unit &) {},
                     [](auto &a, const auto &b, const auto &c) {
                       a += 2 * b + 3 * c;
                     }},
          "custom");
    else
      transform_in_place<std::tuple<double, double, double, double>>(
          ops[0].var, ops[1].var, ops[2].var, ops[3].var,
          overloaded{[](units::Unit &, const units::Unit &, const units::Unit &,
                        const units::Unit &) {},
                     [](auto &a, const auto &b, const auto &c,
                        const auto &d) { a += 2 * b + 3 * c + 4 * d; }},
          "custom");
    sim::Quiet quiet;
    const auto got = read(ops[0].var);
    auto want = expected(ops[0].l, args, f);
    expect_same(got, want, what.c_str());
    for (int i = 0; i < n; ++i)
      expect_untouched(ops[i], i == 0, what.c_str());
    observe(got);
    return;
  }
  const auto result =
      n == 3 ? transform<std::tuple<double, double, double>>(
                   ops[0].var, ops[1].var, ops[2].var,
                   overloaded{[](const units::Unit &u, const units::Unit &,
                                 const units::Unit &) { return u; },
                              [](const auto &a, const auto &b,
                                 const auto &c) { return a + 2 * b + 3 * c; }},
                   "custom")
             : transform<std::tuple<double, double, double, double>>(
                   ops[0].var, ops[1].var, ops[2].var, ops[3].var,
                   overloaded{[](const units::Unit &u, const units::Unit &,
                                 const units::Unit &,
                                 const units::Unit &) { return u; },
                              [](const auto &a, const auto &b, const auto &c,
                                 const auto &d) {
                                return a + 2 * b + 3 * c + 4 * d;
                              }},
                   "custom");
  sim::Quiet quiet;
  const auto got = read(result);
  expect_dims(got, args, what.c_str());
  const auto want = expected(got, args, f);
  expect_same(got, want, what.c_str());
  for (const auto &o : ops)
    expect_untouched(o, false, what.c_str());
  observe(got);
}

// Operations of one operand, and copies between layouts.
WORKLOAD(c02_unary, "C02.unary", 4) {
  const int kind = static_cast<int>(sim::draw(9));
  Ext s = draw_shape(4, 48, true);
  Opts o;
  o.dtype = kind == 7 ? dtype<bool> : draw_number_type();
  o.unit = kind == 7 ? units::none : units::m;
  o.variances = is_fp(o.dtype) && sim::draw_bool(3);
  const bool bin = sim::draw_bool(3);
  if ((kind == 2 || kind == 5) && !is_fp(o.dtype))
    o.dtype = dtype<double>;
  if (kind == 5) {
    o.nan_one_in = 4;
    o.variances = false;
  }
  if (kind == 2) // squares
    o.value = [] {
      const double x = 1 + sim::draw(8);
      return x * x;
    };
  auto a = bin ? binned(s, o) : dense(s, o);
  const auto in = [&](const char *n) { return std::string(n) + " of " + a.l.str(); };
  std::string what;
  Variable out;
  Logical want = a.l;
  const auto each_elem = [&](auto &&f) {
    for (auto &c : want.cells)
      for (auto &e : c)
        f(e);
  };
  double tol = 0;
  switch (kind) {
  case 0:
    what = in("copy");
    out = copy(a.var);
    break;
  case 1:
    what = in("negative");
    out = -a.var;
    each_elem([](Elem &e) { e.v = -e.v; });
    break;
  case 2:
    what = in("sqrt");
    tol = tolerance(o.dtype, o.dtype);
    a.l.unit = want.unit;
    out = sqrt(a.var * (1.0 * units::m));
    want.unit = units::m;
    want.dtype = o.dtype;
    if (want.dtype == dtype<float>)
      want.dtype = dtype<double>;
    each_elem([](Elem &e) {
      e.var = 0.25 * e.var / e.v;
      e.v = std::sqrt(e.v);
    });
    break;
  case 3: {
    what = in("astype");
    DType t = sim::draw_bool(4) ? dtype<bool> : number_types[sim::draw(4)];
    if (a.l.has_var && !is_fp(t))
      t = dtype<float>;
    out = astype(a.var, t);
    want.dtype = t;
    if (t == dtype<bool>)
      each_elem([](Elem &e) { e.v = e.v != 0; });
    break;
  }
  case 4:
    what = in("to_unit");
    out = to_unit(a.var, units::mm);
    want.unit = units::mm;
    each_elem([](Elem &e) {
      e.v *= 1000;
      e.var *= 1e6;
    });
    break;
  case 5: {
    what = in("nan_to_num");
    Variable r = 7.0 * units::m;
    if (o.dtype == dtype<float>)
      r = 7.0f * units::m;
    out = nan_to_num(a.var, r);
    each_elem([](Elem &e) {
      if (std::isnan(e.v))
        e.v = 7;
    });
    break;
  }
  case 6: { // copy into another layout
    what = in("copy into another layout");
    Ext d{a.l.labels, a.l.shape};
    shuffle(d);
    Opts od = o;
    od.value = nullptr;
    auto dst = bin ? binned(d, od, BinOpts{}, &a) : dense(d, od);
    copy(a.var, dst.var);
    sim::Quiet quiet;
    const auto got = read(dst.var);
    auto w = expected(dst.l, {&a.l}, [](const auto &e) { return e[0]; });
    w.dtype = a.l.dtype;
    w.unit = a.l.unit;
    expect_same(got, w, what.c_str());
    expect_untouched(a, false, what.c_str());
    expect_untouched(dst, true, what.c_str());
    observe(got);
    return;
  }
  case 7: {
    what = in("logical not");
    out = ~a.var;
    each_elem([](Elem &e) { e.v = !e.v; });
    break;
  }
  default: {
    what = in("where");
    Opts oc;
    oc.dtype = dtype<bool>;
    oc.unit = units::none;
    Ext cs = a.l.has_var ? Ext{a.l.labels, a.l.shape} : draw_subset(s);
    auto cond = dense(cs, oc);
    Opts oy = o;
    Ext ys{a.l.labels, a.l.shape};
    shuffle(ys);
    if (bin)
      oy.variances = false;
    auto y = bin || a.l.has_var
                 ? (bin ? binned(ys, o, BinOpts{}, &a) : dense(ys, o))
                 : dense(ys, oy);
    if (!is_fp(o.dtype) && o.dtype != dtype<int64_t>)
      sim::skip("dtype not supported by where");
    if (bin)
      sim::skip("where of binned data");
    const auto r = where(cond.var, a.var, y.var);
    sim::Quiet quiet;
    const auto got = read(r);
    expect_dims(got, {&cond.l, &a.l, &y.l}, what.c_str());
    auto w = expected(got, {&cond.l, &a.l, &y.l}, [](const auto &e) {
      return e[0].v ? e[1] : e[2];
    });
    w.dtype = o.dtype;
    w.unit = o.unit;
    expect_same(got, w, what.c_str());
    expect_untouched(cond, false, what.c_str());
    expect_untouched(y, false, what.c_str());
    observe(got);
    return;
  }
  }
  sim::Quiet quiet;
  const auto got = read(out);
  expect_same(got, want, what.c_str(), tol);
  expect_untouched(a, false, what.c_str());
  observe(got);
}
