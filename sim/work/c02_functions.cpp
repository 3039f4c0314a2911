// C02: the functions of one, two and three operands, for numbers.
#include "var.h"

#include <algorithm>
#include <array>
#include <limits>

#include "scipp/core/except.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/astype.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/hyperbolic.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/math.h"
#include "scipp/variable/operations.h"
#include "scipp/variable/pow.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/to_unit.h"
#include "scipp/variable/trigonometry.h"
#include "scipp/variable/util.h"

using namespace scipp;
using namespace scipp::variable;
using namespace vm;
using scipp::core::dtype;

namespace {
constexpr double Inf = std::numeric_limits<double>::infinity();

DType draw_fp() { return sim::draw_bool(3) ? dtype<float> : dtype<double>; }
bool is_fp(const DType t) { return t == dtype<double> || t == dtype<float>; }
double tol(const DType t) { return t == dtype<float> ? 4e-5 : 1e-12; }

enum Types { FP, Num, SignedNum };
enum Range { Any, Positive, NonZero, Unit01, AboveOne, Small, Halves, Special };
enum Out { Same, Bool, Root };
enum Units { Keep, One, RadOut, RadIn, None, Inverse, Square, Root2 };

struct Fn1 {
  const char *name;
  Variable (*call)(const Variable &);
  Variable &(*into)(const Variable &, Variable &); // with an output argument
  Elem (*f)(const Elem &);
  Types types;
  Range range;
  Units unit;
  bool var;      // accepts variances
  bool keep_var; // result has variances if the input has
  Out out;
};

#define NV(expr)                                                               \
  [](const Elem &e) -> Elem {                                                  \
    const double x = e.v;                                                      \
    (void)x;                                                                   \
    return {double(expr), 0};                                                  \
  }
#define WV(expr, variance)                                                     \
  [](const Elem &e) -> Elem {                                                  \
    const double x = e.v, s = e.var;                                           \
    (void)x;                                                                   \
    (void)s;                                                                   \
    return {double(expr), double(variance)};                                   \
  }
#define F1(name)                                                               \
  #name, [](const Variable &a) { return name(a); },                            \
      [](const Variable &a, Variable &o) -> Variable & { return name(a, o); }
#define F0(name)                                                               \
  #name, [](const Variable &a) { return name(a); }, nullptr

const Fn1 functions[] = {
    {F1(abs), WV(std::abs(x), s), SignedNum, Any, Keep, true, true, Same},
    {F1(exp), WV(std::exp(x), std::exp(x) * std::exp(x) * s), FP, Any, One,
     true, true, Same},
    {F1(log), WV(std::log(x), s / (x * x)), FP, Positive, One, true, true,
     Same},
    {F1(log10),
     WV(std::log10(x), s / (x * x * std::log(10.0) * std::log(10.0))), FP,
     Positive, One, true, true, Same},
    {F1(sqrt), WV(std::sqrt(x), 0.25 * s / x), FP, Positive, Root2, true, true,
     Same},
    {F1(reciprocal), WV(1 / x, s / (x * x * x * x)), FP, NonZero, Inverse, true,
     true, Same},
    {F1(floor), NV(std::floor(x)), FP, Halves, Keep, false, false, Same},
    {F1(ceil), NV(std::ceil(x)), FP, Halves, Keep, false, false, Same},
    {F1(rint), NV(std::rint(x)), FP, Halves, Keep, false, false, Same},
    {F0(erf), NV(std::erf(x)), FP, Small, One, false, false, Same},
    {F0(erfc), NV(std::erfc(x)), FP, Small, One, false, false, Same},
    {F1(sin), NV(std::sin(x)), FP, Small, RadIn, false, false, Same},
    {F1(cos), NV(std::cos(x)), FP, Small, RadIn, false, false, Same},
    {F1(tan), NV(std::tan(x)), FP, Small, RadIn, false, false, Same},
    {F1(asin), NV(std::asin(x)), FP, Unit01, RadOut, false, false, Same},
    {F1(acos), NV(std::acos(x)), FP, Unit01, RadOut, false, false, Same},
    {F1(atan), NV(std::atan(x)), FP, Any, RadOut, false, false, Same},
    {F1(sinh), NV(std::sinh(x)), FP, Small, One, false, false, Same},
    {F1(cosh), NV(std::cosh(x)), FP, Small, One, false, false, Same},
    {F1(tanh), NV(std::tanh(x)), FP, Small, One, false, false, Same},
    {F1(asinh), NV(std::asinh(x)), FP, Small, One, false, false, Same},
    {F1(acosh), NV(std::acosh(x)), FP, AboveOne, One, false, false, Same},
    {F1(atanh), NV(std::atanh(x)), FP, Unit01, One, false, false, Same},
    {F0(isnan), NV(std::isnan(x)), Num, Special, None, true, false, Bool},
    {F0(isinf), NV(std::isinf(x)), Num, Special, None, true, false, Bool},
    {F0(isfinite), NV(std::isfinite(x)), Num, Special, None, true, false, Bool},
    {F0(isposinf), NV(x == Inf), Num, Special, None, true, false, Bool},
    {F0(isneginf), NV(x == -Inf), Num, Special, None, true, false, Bool},
    {F0(values), NV(x), FP, Any, Keep, true, false, Same},
    {F0(variances), WV(s, 0), FP, Any, Square, true, false, Root},
    {F0(stddevs), WV(std::sqrt(s), 0), FP, Any, Keep, true, false, Root},
};

double draw_in_range(const Range r) {
  switch (r) {
  case Positive:
    return 1 + double(sim::draw(40)) * 0.25;
  case NonZero:
    return (sim::draw_bool() ? 1 : -1) * (1 + double(sim::draw(8)));
  case Unit01:
    return (double(sim::draw(15)) - 7) / 8;
  case AboveOne:
    return 1 + double(sim::draw(9)) / 4;
  case Small:
    return (double(sim::draw(25)) - 12) / 8;
  case Halves:
    return (double(sim::draw(33)) - 16) / 4;
  case Special:
    switch (sim::draw(6)) {
    case 0:
      return NAN;
    case 1:
      return Inf;
    case 2:
      return -Inf;
    default:
      return double(sim::draw(9)) - 4;
    }
  default:
    return double(sim::draw(19)) - 9;
  }
}

Unit input_unit(const Units u) {
  switch (u) {
  case One:
  case RadOut:
    return units::one;
  case RadIn:
    return units::rad;
  case Root2:
    return units::m * units::m;
  default:
    return units::m;
  }
}

Unit output_unit(const Units u, const Unit &in) {
  switch (u) {
  case One:
  case RadIn:
    return units::one;
  case RadOut:
    return units::rad;
  case None:
    return units::none;
  case Inverse:
    return units::one / in;
  case Square:
    return in * in;
  case Root2:
    return units::m;
  default:
    return in;
  }
}

std::string str(const char *name, std::initializer_list<const Operand *> ops) {
  std::string s = name;
  s += '(';
  for (const auto *o : ops)
    s += (o == *ops.begin() ? "" : ", ") + o->l.str();
  return s + ")";
}

/// Expected contents for operands broadcast to `shape_of`. All binned operands
/// have the same bin sizes.
template <class F>
Logical expected(const Logical &shape_of,
                 const std::vector<const Logical *> &args, F &&f) {
  Logical out;
  out.labels = shape_of.labels;
  out.shape = shape_of.shape;
  for (const auto *a : args)
    out.binned |= a->binned;
  out.resize_cells();
  std::vector<Elem> e(args.size());
  each(out, [&](const auto &c, const idx k) {
    std::vector<const std::vector<Elem> *> cell;
    size_t n = 1;
    for (const auto *a : args) {
      cell.push_back(&a->cells[a->at(out, c)]);
      if (a->binned)
        n = cell.back()->size();
    }
    out.cells[k].resize(n);
    for (size_t i = 0; i < n; ++i) {
      for (size_t j = 0; j < args.size(); ++j)
        e[j] = (*cell[j])[args[j]->binned ? i : 0];
      out.cells[k][i] = f(e);
    }
  });
  return out;
}

void expect_dims(const Logical &got, const std::vector<const Logical *> &args,
                 const char *what) {
  std::vector<Dim> seen;
  for (const auto *a : args)
    for (size_t i = 0; i < a->labels.size(); ++i)
      if (std::find(seen.begin(), seen.end(), a->labels[i]) == seen.end()) {
        seen.push_back(a->labels[i]);
        const auto at = got.find(a->labels[i]);
        if (at < 0 || got.shape[at] != a->shape[i])
          sim::violation("shape", "%s: result is %s, operand %s", what,
                         got.str().c_str(), a->str().c_str());
      }
  if (got.labels.size() != seen.size())
    sim::violation("shape", "%s: result %s has too many dimensions", what,
                   got.str().c_str());
}

/// An operand of `like`'s shape (dimensions in another order) for output.
Operand draw_output(const Operand &like, Opts o) {
  Ext s{like.l.labels, like.l.shape};
  shuffle(s);
  o.value = nullptr;
  // A view could refuse the new unit.
  o.no_view = true;
  if (!like.l.binned)
    return dense(s, o);
  BinOpts b;
  b.buffer_view = false;
  return binned(s, o, b, &like);
}
} // namespace

WORKLOAD(c02_functions, "C02.functions", 4) {
  const auto &fn = functions[sim::draw(std::size(functions))];
  Opts o;
  o.dtype = fn.types == FP ? draw_fp()
            : sim::draw_bool()
                ? draw_fp()
                : (sim::draw_bool() ? dtype<int64_t> : dtype<int32_t>);
  o.unit = input_unit(fn.unit);
  const bool only_var = fn.out == Root;
  o.variances = fn.var && is_fp(o.dtype) && (only_var || sim::draw_bool(3));
  if (o.variances && fn.range == Special && !fn.keep_var)
    o.variances = sim::draw_bool();
  const auto range =
      fn.range == Special && !is_fp(o.dtype) ? Any : fn.range;
  o.value = [range] { return draw_in_range(range); };
  const bool degrees = fn.unit == RadIn && sim::draw_bool(3);
  if (degrees)
    o.unit = units::deg;
  const Ext s = draw_shape(4, 48, true);
  auto a = sim::draw_bool(3) ? binned(s, o) : dense(s, o);
  auto what = str(fn.name, {&a});
  const Unit in_unit = a.l.unit;
  Variable out;
  const DType out_type = fn.out == Bool ? dtype<bool> : o.dtype;
  const bool with_out = fn.into && sim::draw_bool(3);
  Operand target;
  if (with_out) {
    what += " into an output argument";
    Opts oo = o;
    oo.variances = a.l.has_var && fn.keep_var;
    oo.dtype = out_type;
    target = draw_output(a, oo);
    fn.into(a.var, target.var);
    out = target.var;
  } else {
    out = fn.call(a.var);
  }
  sim::Quiet quiet;
  const auto got = read(out);
  expect_dims(got, {&a.l}, what.c_str());
  auto want = expected(got, {&a.l}, [&](const auto &e) {
    auto x = e[0];
    if (degrees)
      x.v *= 3.14159265358979323846 / 180.0;
    return fn.f(x);
  });
  want.has_var = fn.keep_var && a.l.has_var;
  want.dtype = out_type;
  want.unit = output_unit(fn.unit, in_unit);
  expect_same(got, want, what.c_str(), tol(o.dtype));
  expect_untouched(a, false, what.c_str());
  if (with_out)
    expect_untouched(target, true, what.c_str(), true);
  observe(got);
}

// Logic, out of place and in place.
WORKLOAD(c02_logic, "C02.logic", 2) {
  const auto full = draw_shape(4, 48, true);
  const bool in_place = sim::draw_bool();
  const auto op = sim::draw(3);
  const bool bin = sim::draw_bool(4);
  Opts o;
  o.dtype = dtype<bool>;
  o.unit = units::none;
  const bool abin = bin && (in_place || sim::draw_bool());
  const bool bbin = bin && (!abin || sim::draw_bool());
  const Ext sa = in_place || (abin && bbin) ? full : draw_subset(full);
  const Ext sb = abin && bbin ? full : draw_subset(full);
  auto a = abin ? binned(sa, o) : dense(sa, o);
  auto b = bbin ? (abin ? binned(sb, o, {}, &a) : binned(sb, o)) : dense(sb, o);
  const bool alias = sim::draw_bool(8);
  const auto &rhs = alias ? a : b;
  static const char *const names[] = {"and", "or", "xor"};
  const auto what = str(names[op], {&a, &rhs}) + (in_place ? " in place" : "");
  const auto f = [op](const std::vector<Elem> &e) {
    const bool x = e[0].v != 0, y = e[1].v != 0;
    return Elem{double(op == 0 ? x && y : op == 1 ? x || y : x != y), 0};
  };
  Variable out;
  if (!in_place) {
    out = op == 0   ? a.var & rhs.var
          : op == 1 ? a.var | rhs.var
                    : a.var ^ rhs.var;
  } else {
    if (op == 0)
      a.var &= rhs.var;
    else if (op == 1)
      a.var |= rhs.var;
    else
      a.var ^= rhs.var;
    out = a.var;
  }
  sim::Quiet quiet;
  const auto got = read(out);
  if (!in_place)
    expect_dims(got, {&a.l, &rhs.l}, what.c_str());
  auto want = expected(in_place ? a.l : got, {&a.l, &rhs.l}, f);
  want.dtype = dtype<bool>;
  want.unit = units::none;
  expect_same(got, want, what.c_str());
  expect_untouched(a, in_place, what.c_str());
  expect_untouched(b, false, what.c_str());
  observe(got);
}

// Powers.
WORKLOAD(c02_pow, "C02.pow", 2) {
  const auto full = draw_shape(3, 40, true);
  Opts o, oe;
  const int kind = static_cast<int>(sim::draw(4));
  const DType types[] = {dtype<double>, dtype<float>, dtype<int64_t>};
  o.dtype = types[sim::draw(3)];
  const DType exps[] = {dtype<double>, dtype<int64_t>, dtype<int32_t>,
                        dtype<float>};
  oe.dtype = exps[sim::draw(4)];
  if (o.dtype == dtype<float> && oe.dtype == dtype<double>)
    oe.dtype = dtype<float>; // the type of the result depends on the unit
  if (o.dtype == dtype<double> && oe.dtype == dtype<float>)
    oe.dtype = dtype<double>;
  const bool scalar_exp = kind < 2;
  o.unit = scalar_exp && sim::draw_bool() ? units::m : units::one;
  oe.unit = units::one;
  const bool bin = sim::draw_bool(3);
  const Ext se = scalar_exp ? Ext{} : draw_subset(full);
  o.variances = is_fp(o.dtype) && sim::draw_bool(3);
  const Ext sb =
      o.variances || bin || sim::draw_bool() ? full : draw_subset(full);
  const bool int_base = !is_fp(o.dtype);
  const bool fractional =
      is_fp(oe.dtype) && o.unit == units::one && sim::draw_bool();
  const bool rejected = int_base && !is_fp(oe.dtype) && sim::draw_bool(6);
  const bool negative = !int_base || is_fp(oe.dtype) || rejected;
  o.value = [&] {
    const double x = fractional || sim::draw_bool() ? 1 + double(sim::draw(4))
                                                    : -1 - double(sim::draw(4));
    return int_base && (!negative || rejected) && sim::draw_bool(6) ? 0.0 : x;
  };
  oe.value = [&] {
    double x = negative ? double(sim::draw(9)) - 4 : double(sim::draw(7));
    return fractional ? x + 0.5 : x;
  };
  auto a = bin ? binned(sb, o) : dense(sb, o);
  auto e = dense(se, oe);
  const bool with_out =
      kind == 3 && !(int_base && is_fp(oe.dtype)) && !rejected;
  auto what = str("pow", {&a, &e});
  const auto result_type = int_base && is_fp(oe.dtype) ? oe.dtype : o.dtype;
  Variable out;
  Operand target;
  if (with_out) {
    what += " into an output argument";
    if (bin && a.l.labels.size() != full.labels.size())
      sim::skip("output of another shape");
    Ext so = full;
    shuffle(so);
    Opts oo = o;
    oo.value = nullptr;
    oo.dtype = result_type;
    oo.no_view = true;
    BinOpts bo;
    bo.buffer_view = false;
    // The output must have exactly the dimensions of the operands.
    const auto dims = [&](const Dim d) {
      return a.l.find(d) >= 0 || e.l.find(d) >= 0;
    };
    Ext used;
    for (size_t i = 0; i < so.labels.size(); ++i)
      if (dims(so.labels[i])) {
        used.labels.push_back(so.labels[i]);
        used.shape.push_back(so.shape[i]);
      }
    target = bin ? binned(used, oo, bo, &a) : dense(used, oo);
    try {
      pow(a.var, e.var, target.var);
    } catch (const except::DimensionError &) {
      // The order of dimensions must be that of the result.
      sim::skip("output with other order of dimensions");
    }
    out = target.var;
  } else if (rejected) {
    // Negative powers of integers are refused, whatever the other elements.
    bool has_negative = false;
    for (const auto &c : e.l.cells)
      has_negative |= c[0].v < 0;
    bool threw = false;
    try {
      out = pow(a.var, e.var);
    } catch (const std::invalid_argument &) {
      threw = true;
    }
    if (threw != has_negative)
      sim::violation("accept", "%s: negative power of integers was %s",
                     what.c_str(), threw ? "seen" : "accepted");
    if (threw) {
      sim::Quiet quiet;
      expect_untouched(a, false, what.c_str());
      return;
    }
  } else {
    out = pow(a.var, e.var);
  }
  sim::Quiet quiet;
  const auto got = read(out);
  expect_dims(got, {&a.l, &e.l}, what.c_str());
  auto want = expected(got, {&a.l, &e.l}, [](const auto &x) {
    const double b = x[0].v, p = x[1].v;
    const double d = p * std::pow(b, p - 1);
    return Elem{std::pow(b, p), d * d * x[0].var};
  });
  want.has_var = a.l.has_var;
  want.dtype = result_type;
  if (a.l.unit == units::one)
    want.unit = units::one;
  else {
    want.unit = units::one;
    const auto p = static_cast<int>(e.l.cells[0][0].v);
    for (int i = 0; i < std::abs(p); ++i)
      want.unit = p > 0 ? want.unit * a.l.unit : want.unit / a.l.unit;
  }
  expect_same(got, want, what.c_str(), tol(result_type));
  expect_untouched(a, false, what.c_str());
  expect_untouched(e, false, what.c_str());
  if (with_out)
    expect_untouched(target, true, what.c_str(), true);
  observe(got);
}

// Closeness, replacing special values, atan2, midpoints, unit conversions and
// selection, of operands in any layout.
WORKLOAD(c02_several, "C02.several", 3) {
  const auto full = draw_shape(3, 40, true);
  const int kind = static_cast<int>(sim::draw(6));
  switch (kind) {
  case 0: { // isclose
    Opts o;
    const DType types[] = {dtype<double>, dtype<float>, dtype<int64_t>};
    o.dtype = types[sim::draw(3)];
    o.unit = units::m;
    if (is_fp(o.dtype))
      o.value = [] {
        switch (sim::draw(12)) {
        case 0:
          return double(NAN);
        case 1:
          return Inf;
        case 2:
          return -Inf;
        default:
          return double(sim::draw(9)) - 4;
        }
      };
    o.lo = -4;
    o.hi = 4;
    const bool bin = sim::draw_bool(4);
    o.variances = !bin && is_fp(o.dtype) && sim::draw_bool(4);
    const auto sa = bin || o.variances ? full : draw_subset(full);
    auto sb = bin || o.variances ? full : draw_subset(full);
    shuffle(sb);
    auto a = bin ? binned(sa, o) : dense(sa, o);
    auto b = bin ? binned(sb, o, {}, &a) : dense(sb, o);
    const bool nans = sim::draw_bool();
    const double r = sim::draw_bool() ? 0.25 : 0;
    const double t = double(sim::draw(3)) / 2;
    const auto as = [&](const double x, const Unit u) {
      if (o.dtype == dtype<int64_t>)
        return Variable(makeVariable<int64_t>(Values{int64_t(x)}, u));
      if (o.dtype == dtype<float>)
        return Variable(makeVariable<float>(Values{float(x)}, u));
      return Variable(makeVariable<double>(Values{x}, u));
    };
    const bool ints = o.dtype == dtype<int64_t>;
    const double rtol = ints ? 0 : r, atol = ints ? std::floor(t * 2) : t;
    const auto what = str("isclose", {&a, &b});
    const auto out =
        isclose(a.var, b.var, as(rtol, units::one), as(atol, units::m),
                nans ? NanComparisons::Equal : NanComparisons::NotEqual);
    sim::Quiet quiet;
    const auto got = read(out);
    expect_dims(got, {&a.l, &b.l}, what.c_str());
    const auto close = [&](const double x, const double y) {
      if (nans && std::isnan(x) && std::isnan(y))
        return true;
      if (nans && std::isinf(x) && std::isinf(y) && (x > 0) == (y > 0))
        return true;
      return std::abs(x - y) <= atol + rtol * std::abs(y);
    };
    bool unsure = false;
    auto want = expected(got, {&a.l, &b.l}, [&](const auto &e) {
      const double sx = std::sqrt(e[0].var), sy = std::sqrt(e[1].var);
      if (a.l.has_var &&
          std::abs(std::abs(sx - sy) - (atol + rtol * sy)) < 1e-4)
        unsure = true;
      return Elem{double(close(e[0].v, e[1].v) &&
                         (!a.l.has_var || close(sx, sy))),
                  0};
    });
    if (unsure)
      sim::skip("too close to the tolerance");
    want.dtype = dtype<bool>;
    want.unit = units::none;
    expect_same(got, want, what.c_str());
    expect_untouched(a, false, what.c_str());
    expect_untouched(b, false, what.c_str());
    observe(got);
    return;
  }
  case 1: { // special values
    Opts o;
    o.dtype = draw_fp();
    o.unit = units::m;
    o.variances = sim::draw_bool(3);
    o.value = [] { return draw_in_range(Special); };
    const bool bin = sim::draw_bool(3);
    auto a = bin ? binned(full, o) : dense(full, o);
    Opts or_ = o;
    or_.value = [] { return 17.0; };
    auto rep = dense(Ext{}, or_);
    const auto which = sim::draw(3);
    const bool with_out = sim::draw_bool();
    static const char *const names[] = {"nan_to_num", "pos_inf_to_num",
                                        "neg_inf_to_num"};
    auto what = str(names[which], {&a});
    Operand target;
    Variable out;
    if (with_out) {
      what += " into an output argument";
      target = draw_output(a, o);
      if (which == 0)
        nan_to_num(a.var, rep.var, target.var);
      else if (which == 1)
        positive_inf_to_num(a.var, rep.var, target.var);
      else
        negative_inf_to_num(a.var, rep.var, target.var);
      out = target.var;
    } else {
      out = which == 0   ? nan_to_num(a.var, rep.var)
            : which == 1 ? pos_inf_to_num(a.var, rep.var)
                         : neg_inf_to_num(a.var, rep.var);
    }
    sim::Quiet quiet;
    const auto got = read(out);
    expect_dims(got, {&a.l}, what.c_str());
    auto want = expected(got, {&a.l}, [&](const auto &e) {
      const double x = e[0].v;
      const bool hit = which == 0   ? std::isnan(x)
                       : which == 1 ? x == Inf
                                    : x == -Inf;
      return hit ? rep.l.cells[0][0] : e[0];
    });
    want.has_var = o.variances;
    want.dtype = o.dtype;
    want.unit = units::m;
    expect_same(got, want, what.c_str());
    expect_untouched(a, false, what.c_str());
    if (with_out)
      expect_untouched(target, true, what.c_str(), true);
    observe(got);
    return;
  }
  case 2: { // atan2
    Opts o;
    o.dtype = draw_fp();
    o.unit = units::m;
    auto a = dense(draw_subset(full), o), b = dense(draw_subset(full), o);
    const auto what = str("atan2", {&a, &b});
    const auto out = atan2(a.var, b.var);
    sim::Quiet quiet;
    const auto got = read(out);
    expect_dims(got, {&a.l, &b.l}, what.c_str());
    auto want = expected(got, {&a.l, &b.l}, [&](const auto &e) {
      return Elem{std::atan2(e[0].v, e[1].v), 0};
    });
    want.dtype = o.dtype;
    want.unit = units::rad;
    expect_same(got, want, what.c_str(), tol(o.dtype));
    expect_untouched(a, false, what.c_str());
    expect_untouched(b, false, what.c_str());
    observe(got);
    return;
  }
  case 3: { // midpoints
    auto s = full;
    if (s.labels.empty())
      s = Ext{{dim_of(0)}, {1}};
    const auto at = sim::draw(uint32_t(s.labels.size()));
    s.shape[at] += 2;
    Opts o;
    const DType types[] = {dtype<double>, dtype<float>, dtype<int64_t>,
                           dtype<int32_t>};
    o.dtype = types[sim::draw(4)];
    o.unit = units::m;
    auto a = dense(s, o);
    const auto what = str("midpoints", {&a});
    const auto d = s.labels[at];
    const auto out = s.labels.size() == 1 && sim::draw_bool()
                         ? midpoints(a.var)
                         : midpoints(a.var, d);
    sim::Quiet quiet;
    const auto got = read(out);
    Logical want;
    want.labels = got.labels;
    want.shape = got.shape;
    if (got.labels.size() != s.labels.size() || got.find(d) < 0)
      sim::violation("shape", "%s: result is %s", what.c_str(),
                     got.str().c_str());
    for (size_t i = 0; i < s.labels.size(); ++i)
      if (got.find(s.labels[i]) < 0 ||
          got.size(s.labels[i]) != s.shape[i] - (s.labels[i] == d))
        sim::violation("shape", "%s: result is %s", what.c_str(),
                       got.str().c_str());
    want.resize_cells();
    const auto k = got.find(d);
    each(want, [&](auto c, const idx n) {
      const double x = a.l.cells[a.l.at(want, c)][0].v;
      ++c[k];
      const double y = a.l.cells[a.l.at(want, c)][0].v;
      // Rounding goes to the left operand.
      want.cells[n][0].v = is_fp(o.dtype) ? (x + y) / 2
                           : y >= x       ? x + std::floor((y - x) / 2)
                                          : x - std::floor((x - y) / 2);
    });
    want.dtype = o.dtype;
    want.unit = units::m;
    expect_same(got, want, what.c_str());
    expect_untouched(a, false, what.c_str());
    observe(got);
    return;
  }
  case 4: { // unit conversion
    Opts o;
    const DType types[] = {dtype<double>, dtype<float>, dtype<int64_t>,
                           dtype<int32_t>};
    o.dtype = types[sim::draw(4)];
    o.variances = is_fp(o.dtype) && sim::draw_bool(3);
    o.lo = -4000;
    o.hi = 4000;
    const bool down = sim::draw_bool();
    o.unit = down ? units::mm : units::m;
    auto a = sim::draw_bool(3) ? binned(full, o) : dense(full, o);
    const auto what = str(down ? "to_unit mm->m" : "to_unit m->mm", {&a});
    const auto out = to_unit(a.var, down ? units::m : units::mm);
    sim::Quiet quiet;
    const auto got = read(out);
    expect_dims(got, {&a.l}, what.c_str());
    bool unsure = false;
    auto want = expected(got, {&a.l}, [&](const auto &e) {
      const double f = down ? 1e-3 : 1e3;
      Elem r{e[0].v * f, e[0].var * f * f};
      if (!is_fp(o.dtype)) {
        unsure |= std::abs(std::abs(r.v - std::trunc(r.v)) - 0.5) < 1e-9;
        r.v = std::round(r.v);
      }
      return r;
    });
    if (unsure)
      sim::skip("rounding of half");
    want.has_var = o.variances;
    want.dtype = o.dtype;
    want.unit = down ? units::m : units::mm;
    expect_same(got, want, what.c_str(), tol(o.dtype));
    expect_untouched(a, false, what.c_str());
    observe(got);
    return;
  }
  default: { // where
    Opts oc, o;
    oc.dtype = dtype<bool>;
    oc.unit = units::none;
    const DType types[] = {dtype<double>, dtype<float>, dtype<int64_t>,
                           dtype<int32_t>, dtype<bool>};
    o.dtype = types[sim::draw(5)];
    o.unit = o.dtype == dtype<bool> ? units::none : units::m;
    o.variances = is_fp(o.dtype) && sim::draw_bool(3);
    auto c = dense(o.variances ? full : draw_subset(full), oc);
    auto x = dense(o.variances ? full : draw_subset(full), o);
    Ext sy = full;
    shuffle(sy);
    auto y = dense(o.variances ? sy : draw_subset(full), o);
    const auto what = str("where", {&c, &x, &y});
    const auto out = where(c.var, x.var, y.var);
    sim::Quiet quiet;
    const auto got = read(out);
    expect_dims(got, {&c.l, &x.l, &y.l}, what.c_str());
    auto want = expected(got, {&c.l, &x.l, &y.l}, [](const auto &e) {
      return e[0].v ? e[1] : e[2];
    });
    want.has_var = o.variances;
    want.dtype = o.dtype;
    want.unit = o.unit;
    expect_same(got, want, what.c_str());
    expect_untouched(c, false, what.c_str());
    expect_untouched(x, false, what.c_str());
    expect_untouched(y, false, what.c_str());
    observe(got);
  }
  }
}
