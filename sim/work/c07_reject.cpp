// C07: an operation that modifies its target either completes or, if it raises,
// leaves everything as it was.
#include "data.h"

#include <algorithm>

#include "scipp/core/except.h"
#include "scipp/core/slice.h"
#include "scipp/dataset/arithmetic.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/except.h"
#include "scipp/dataset/generated_arithmetic.h"
#include "scipp/dataset/generated_logical.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/except.h"
#include "scipp/variable/generated_arithmetic.h"
#include "scipp/variable/generated_logical.h"
#include "scipp/variable/generated_math.h"
#include "scipp/variable/generated_trigonometry.h"
#include "scipp/variable/operations.h"
#include "scipp/variable/pow.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/variable_factory.h"

using namespace scipp;
using namespace scipp::variable;
using namespace vm;
using dm::DataArray;
using dm::Dataset;
using scipp::core::dtype;

namespace {
enum Op {
  Add, Sub, Mul, Div, FloorDiv, Mod, Or, And, Xor, // binary, in place
  Copy, Sqrt, Sin, Floor, Reciprocal, NanToNum, Pow,
  SetSlice, SetUnit, SetVariances, NumOps
};
const char *const names[] = {"+=", "-=", "*=", "/=", "floor_divide_equals",
                             "%=", "|=", "&=", "^=", "copy into", "sqrt into",
                             "sin into", "floor into", "reciprocal into",
                             "nan_to_num into", "pow into", "setSlice",
                             "setUnit", "setVariances"};
struct Args {
  Slice slice;
  Variable extra;
  Unit unit = units::one;
};

void apply(const Op op, Variable &a, const Variable &b, const Args &x) {
  switch (op) {
  case Add: a += b; return;
  case Sub: a -= b; return;
  case Mul: a *= b; return;
  case Div: a /= b; return;
  case FloorDiv: floor_divide_equals(a, b); return;
  case Mod: a %= b; return;
  case Or: a |= b; return;
  case And: a &= b; return;
  case Xor: a ^= b; return;
  case Copy: copy(b, a); return;
  case Sqrt: sqrt(b, a); return;
  case Sin: sin(b, a); return;
  case Floor: floor(b, a); return;
  case Reciprocal: reciprocal(b, a); return;
  case NanToNum: nan_to_num(b, x.extra, a); return;
  case Pow: pow(b, x.extra, a); return;
  case SetSlice: a.setSlice(x.slice, b); return;
  case SetUnit: a.setUnit(x.unit); return;
  case SetVariances: a.setVariances(b); return;
  default: return;
  }
}

template <class F> std::string attempt(F &&f) {
  try {
    f();
  } catch (const std::exception &e) {
    const std::string s = e.what();
    if (s.find("more than 6 dim") != std::string::npos)
      sim::skip("too many dimensions");
    sim::count(sim::FaultReject);
    return s.empty() ? "exception" : s;
  }
  return {};
}

std::string head(const std::string &s) {
  return s.substr(0, std::min<size_t>(s.size(), 160));
}

Unit draw_unit() {
  const auto i = sim::draw(8);
  return i < 4 ? units::one : i < 6 ? units::m : i < 7 ? units::s : units::none;
}

DType draw_dtype() {
  const auto i = sim::draw(8);
  return i < 4   ? dtype<double>
         : i < 5 ? dtype<float>
         : i < 6 ? dtype<int64_t>
         : i < 7 ? dtype<int32_t>
                 : dtype<bool>;
}

} // namespace

/// A single variable.
WORKLOAD(c07_variable, "C07.variable", 4) {
  const auto shape = draw_shape(3, 40, true);
  Opts oa;
  oa.dtype = draw_dtype();
  oa.unit = draw_unit();
  oa.variances = is_float(oa.dtype) && sim::draw_bool();
  const bool binned_a = sim::draw_bool(3);
  BinOpts bo;
  auto a = binned_a ? binned(shape, oa, bo) : dense(shape, oa);
  Opts ob = oa;
  if (sim::draw_bool(3))
    ob.unit = draw_unit();
  if (sim::draw_bool(4))
    ob.dtype = draw_dtype();
  if (!is_float(ob.dtype))
    ob.variances = false;
  else if (sim::draw_bool(4))
    ob.variances = !ob.variances;
  ob.lo = 1;
  auto sub = draw_subset(shape, sim::draw_bool());
  if (sim::draw_bool(6) && !sub.shape.empty())
    sub.shape[sim::draw(uint32_t(sub.shape.size()))] += 1;
  if (sim::draw_bool(10)) {
    sub.labels.push_back(Dim(Dim::Row));
    sub.shape.push_back(2);
  }
  const bool binned_b = sim::draw_bool(6) ? !binned_a : binned_a && sim::draw_bool();
  Operand b;
  if (!binned_b)
    b = dense(sub, ob);
  else if (binned_a && sub.labels.size() == shape.labels.size() &&
           std::is_permutation(sub.labels.begin(), sub.labels.end(),
                               shape.labels.begin()) &&
           !sim::draw_bool(4)) {
    bool same = true;
    for (size_t i = 0; i < sub.labels.size(); ++i)
      same &= a.l.size(sub.labels[i]) == sub.shape[i];
    b = same ? binned(sub, ob, bo, &a) : binned(sub, ob, bo);
  } else
    b = binned(sub, ob, bo);

  Args x;
  const auto op = static_cast<Op>(sim::draw(NumOps));
  Variable target = a.var;
  // Aliases: the operand is the target or a part of it.
  int alias = 0;
  if (sim::draw_bool(8)) {
    alias = 1;
    b.var = a.var;
    b.l = a.l;
    if (!shape.labels.empty() && sim::draw_bool()) {
      const auto i = sim::draw(uint32_t(shape.labels.size()));
      if (shape.shape[i] > 0)
        b.var = a.var.slice({shape.labels[i], 0});
    }
  }
  if (op == SetSlice) {
    if (a.l.labels.empty())
      sim::skip("no dimension to slice");
    const auto i = sim::draw(uint32_t(a.l.labels.size()));
    const auto n = a.l.shape[i];
    const idx lo = sim::draw(uint32_t(n + 1));
    x.slice = sim::draw_bool() ? Slice(a.l.labels[i], lo)
                               : Slice(a.l.labels[i], lo,
                                       lo + sim::draw(uint32_t(n - lo + 1)) +
                                           (sim::draw_bool(8) ? 1 : 0));
    if (alias == 0 && sim::draw_bool() && b.l.find(a.l.labels[i]) >= 0) {
      // Mostly matching
      try {
        b.var = b.var.slice(x.slice);
        b.l = read(b.var);
      } catch (const std::exception &) {
      }
    }
  }
  if (op == NanToNum || op == Pow) {
    Opts oe;
    oe.dtype = sim::draw_bool(3) ? draw_dtype() : ob.dtype;
    oe.unit = op == Pow ? (sim::draw_bool(6) ? Unit(units::m) : Unit(units::one))
                        : sim::draw_bool(4) ? draw_unit() : ob.unit;
    if (op == NanToNum && !is_float(oe.dtype))
      oe.dtype = dtype<double>;
    oe.lo = 1;
    oe.hi = 3;
    Ext e;
    if (op == Pow && sim::draw_bool(3))
      e = draw_subset(shape);
    x.extra = dense(e, oe).var;
  }
  x.unit = draw_unit();
  const bool readonly = sim::draw_bool(10);
  if (readonly)
    target = target.as_const();

  const auto before_a = dm::snap(target);
  const auto before_b = dm::snap(b.var);
  const auto ca = copy(target);
  auto cb = copy(b.var);
  const auto error = attempt([&] { apply(op, target, b.var, x); });
  sim::observe(error.size());
  const auto what = std::string(names[op]) + " on " + a.l.str() +
                    (a.l.has_var ? " with variances" : "") + " from " +
                    b.l.str() + (b.l.has_var ? " with variances" : "") +
                    (alias ? " (aliased)" : "");
  sim::Quiet q;
  if (!error.empty()) {
    const auto da = dm::differs(dm::snap(target), before_a);
    if (!da.empty())
      sim::violation("partial", "%s raised '%s' but the target changed: %s",
                     what.c_str(), head(error).c_str(), da.c_str());
    const auto db = dm::differs(dm::snap(b.var), before_b);
    if (!db.empty())
      sim::violation("partial", "%s raised '%s' but the operand changed: %s",
                     what.c_str(), head(error).c_str(), db.c_str());
    expect_untouched(a, false, what.c_str());
    if (!alias)
      expect_untouched(b, false, what.c_str());
    return;
  }
  if (readonly)
    sim::violation("accepted", "%s: the target is read-only", what.c_str());
  dm::observe(dm::snap(target));
  if (!alias) {
    const auto db = dm::differs(dm::snap(b.var), before_b);
    if (!db.empty())
      sim::violation("operand", "%s changed the operand: %s", what.c_str(),
                     db.c_str());
  }
  if (op <= FloorDiv || op == Mod || op == Copy) {
    const auto &l = before_b.data.l;
    for (size_t i = 0; i < l.labels.size(); ++i)
      if (a.l.find(l.labels[i]) < 0 || a.l.size(l.labels[i]) != l.shape[i])
        sim::violation("accepted", "%s: dimensions do not match", what.c_str());
    if (op != Copy && l.has_var && !a.l.has_var)
      sim::violation("accepted", "%s: operand has variances", what.c_str());
    if ((op == Add || op == Sub) && l.unit != before_a.data.l.unit)
      sim::violation("accepted", "%s: units do not match", what.c_str());
    if (l.binned && !a.l.binned)
      sim::violation("accepted", "%s: operand is binned", what.c_str());
  }
  // The same on independent contiguous copies.
  if (alias && a.l.has_var)
    return;
  Variable ta = ca;
  const auto again = attempt([&] { apply(op, ta, cb, x); });
  if (!again.empty())
    sim::violation("inconsistent", "%s succeeded but fails on copies: %s",
                   what.c_str(), head(again).c_str());
  const auto d = dm::differs(dm::snap(target), dm::snap(ta));
  if (!d.empty())
    sim::violation("result", "%s: %s", what.c_str(), d.c_str());
}

namespace {
using dm::CoordMap;
using dm::MaskMap;

CoordMap some(const CoordMap &in, const bool spoil) {
  CoordMap out;
  for (const auto &[k, v] : in) {
    if (sim::draw_bool(4))
      continue;
    auto c = copy(v);
    c.set_aligned(v.is_aligned());
    if (spoil && sim::draw_bool(12) && c.dtype() == dtype<double>)
      c += 1.0 * c.unit();
    out.emplace_back(k, std::move(c));
  }
  return out;
}

CoordMap for_dims(const CoordMap &in, const Ext &s) {
  CoordMap out;
  for (const auto &[k, v] : in) {
    bool ok = true;
    for (const auto &d : v.dims())
      ok &= std::find(s.labels.begin(), s.labels.end(), d) != s.labels.end();
    if (ok)
      out.emplace_back(k, v);
  }
  return out;
}

dm::DaOpts vary(const dm::DaOpts &base) {
  auto o = base;
  if (sim::draw_bool(6))
    o.unit = draw_unit();
  if (sim::draw_bool(8))
    o.dtype = draw_dtype();
  if (!is_float(o.dtype))
    o.variances = false;
  else if (sim::draw_bool(8))
    o.variances = !o.variances;
  if (sim::draw_bool(8))
    o.kind = static_cast<int>(sim::draw(3));
  return o;
}

Ext spoil(Ext s) {
  if (sim::draw_bool(10) && !s.shape.empty())
    s.shape[sim::draw(uint32_t(s.shape.size()))] += 1;
  return s;
}

template <class T, class B> void arith(const int op, T &a, const B &b) {
  switch (op) {
  case 0: a += b; return;
  case 1: a -= b; return;
  case 2: a *= b; return;
  default: a /= b; return;
  }
}
const char *const arith_names[] = {"+=", "-=", "*=", "/="};

template <class B>
void da_arith(const int op, DataArray &a, const B &b) {
  switch (op) {
  case 4: a |= b; return;
  case 5: a &= b; return;
  case 6: a ^= b; return;
  default: arith(op, a, b); return;
  }
}
const char *const da_names[] = {"+=", "-=", "*=", "/=", "|=", "&=", "^="};

/// Bins with the sizes of another variable.
Variable bins_like(const Variable &like, const Variable &fresh) {
  if (!is_bins(like) || !is_bins(fresh) || sim::draw_bool(10) ||
      like.dims() != fresh.dims())
    return fresh;
  return copy(like);
}

struct Draft {
  Ext shape;
  CoordMap coords;
  dm::DaOpts base;
};
Draft draft() {
  Draft d;
  d.shape = draw_shape(2, 16, true);
  d.base.dtype = sim::draw_bool(3) ? draw_dtype() : dtype<double>;
  d.base.unit = draw_unit();
  d.base.variances = is_float(d.base.dtype) && sim::draw_bool();
  d.base.kind = sim::draw_bool() ? 0 : static_cast<int>(sim::draw(3));
  d.coords = dm::draw_coords(d.shape);
  return d;
}

Slice draw_slice(const Ext &s) {
  const auto i = sim::draw(uint32_t(s.labels.size()));
  const auto n = s.shape[i];
  const idx lo = sim::draw(uint32_t(n + 1));
  if (sim::draw_bool())
    return {s.labels[i], lo};
  return {s.labels[i], lo, lo + sim::draw(uint32_t(n - lo + 1))};
}

const std::vector<std::string> &item_names() {
  static const std::vector<std::string> n{"a", "b", "c", "d"};
  return n;
}

struct Target {
  Dataset ds;
  std::vector<Variable> roots; // all memory behind the data
  bool shared = false;         // items share memory with each other
};

Target draw_target(const Draft &d, const bool odd) {
  Target t;
  t.ds = Dataset(dm::Dataset({}, core::Dict<Dim, Variable>{}));
  const int n = 1 + static_cast<int>(sim::draw(3));
  std::vector<std::string> names = item_names();
  for (size_t i = names.size() - 1; i > 0; --i)
    std::swap(names[i], names[sim::draw(uint32_t(i + 1))]);
  core::Dict<std::string, DataArray> items;
  Variable common;
  if (sim::draw_bool(6) && d.base.kind == 0) {
    // All items are parts of the same memory.
    auto s = d.shape;
    s.labels.insert(s.labels.begin(), Dim(Dim::Row));
    s.shape.insert(s.shape.begin(), n);
    common = dm::draw_data(s, d.base);
    t.roots.push_back(common);
  }
  for (int i = 0; i < n; ++i) {
    Variable data;
    if (common.is_valid()) {
      data = common.slice({Dim(Dim::Row), sim::draw_bool(8) ? 0 : i});
      t.shared = true;
    } else if (i > 0 && sim::draw_bool(12)) {
      data = t.roots.back();
      t.shared = true;
    } else {
      data = dm::draw_data(d.shape, i == 0 ? d.base : vary(d.base));
      t.roots.push_back(data);
    }
    if (sim::draw_bool(20))
      data = data.as_const();
    auto masks = dm::draw_masks(d.shape, 2, odd);
    for (auto &[k, m] : masks)
      if (sim::draw_bool(16))
        m = m.as_const();
    items.insert_or_assign(names[i],
                           dm::assemble(data, d.coords, masks, {}, names[i]));
  }
  t.ds = Dataset(items);
  return t;
}
} // namespace

namespace {
void expect_unchanged(const std::string &what, const std::string &error,
                      const std::vector<std::pair<const char *, std::string>> &d) {
  for (const auto &[name, diff] : d)
    if (!diff.empty())
      sim::violation("partial", "%s raised '%s' but %s changed: %s",
                     what.c_str(), head(error).c_str(), name, diff.c_str());
}

std::string roots_differ(const std::vector<Variable> &roots,
                         const std::vector<dm::Snap> &before) {
  for (size_t i = 0; i < roots.size(); ++i) {
    auto s = dm::differs(dm::snap(roots[i]), before[i]);
    if (!s.empty())
      return s;
  }
  return {};
}
} // namespace

/// A dataset of several items.
WORKLOAD(c07_dataset, "C07.dataset", 3) {
  const auto d = draft();
  auto t = draw_target(d, sim::draw_bool(3));
  Dataset target = t.ds;
  // Also through a slice.
  Ext shape = d.shape;
  bool sliced = false;
  if (!shape.labels.empty() && shape.shape[0] > 0 && sim::draw_bool(4)) {
    sliced = true;
    target = t.ds.slice({shape.labels[0], 0, (shape.shape[0] + 1) / 2});
    shape.shape[0] = (shape.shape[0] + 1) / 2;
  }
  const bool set = sim::draw_bool(3) && !shape.labels.empty();
  const auto op = static_cast<int>(sim::draw(4));
  const auto slice = set ? draw_slice(shape) : Slice{};
  // The operand.
  Ext es = shape;
  if (set) {
    const auto i = std::find(es.labels.begin(), es.labels.end(), slice.dim()) -
                   es.labels.begin();
    if (slice.end() == -1) {
      es.labels.erase(es.labels.begin() + i);
      es.shape.erase(es.shape.begin() + i);
    } else
      es.shape[i] = slice.end() - slice.begin();
  }
  const auto sub = spoil(sim::draw_bool() ? es : draw_subset(es));
  const auto kind = sim::draw(6);
  Dataset other;
  DataArray other_da;
  Variable other_v;
  bool alias = false;
  std::string first_name;
  for (const auto &n : item_names())
    if (target.contains(n) && (first_name.empty() || sim::draw_bool()))
      first_name = n;
  const auto target_of = [&](const std::string &n) {
    auto v = target[n].data();
    try {
      return set ? v.slice(slice) : v;
    } catch (const std::exception &) {
      return v;
    }
  };
  const auto sub_coords = [&] {
    auto c = for_dims(d.coords, sub);
    CoordMap ok;
    for (auto &[k, v] : c) {
      bool fits = true;
      for (const auto &l : v.dims()) {
        const auto i = std::find(sub.labels.begin(), sub.labels.end(), l) -
                       sub.labels.begin();
        fits &= v.dims()[l] == sub.shape[i] ||
                (v.dims().ndim() == 1 && v.dims()[l] == sub.shape[i] + 1);
      }
      if (fits)
        ok.emplace_back(k, v);
    }
    return some(ok, true);
  };
  const auto unlike = [&](const std::string &n, Variable fresh) {
    return bins_like(target_of(n), fresh);
  };
  const auto odd = sim::draw_bool(4);
  if (kind == 0) {
    core::Dict<std::string, DataArray> items;
    const auto c = sub_coords();
    bool any = false;
    for (const auto &n : item_names()) {
      if (target.contains(n) ? sim::draw_bool(set ? 12 : 4) : !sim::draw_bool(24))
        continue;
      const auto base = target.contains(n) ? target[n].data() : Variable{};
      auto o = d.base;
      if (base.is_valid()) {
        o.dtype = variableFactory().elem_dtype(base);
        o.unit = variableFactory().elem_unit(base);
        o.variances = variableFactory().has_variances(base);
        o.kind = is_bins(base) && sim::draw_bool() ? 1 : 0;
      }
      auto v = dm::draw_data(sub, vary(o));
      if (base.is_valid())
        v = unlike(n, v);
      items.insert_or_assign(
          n, dm::assemble(v, sub_coords(), dm::draw_masks(sub, 3, odd), {}, n));
      any = true;
    }
    if (!any)
      sim::skip("empty operand");
    try {
      other = Dataset(items);
    } catch (const std::exception &) {
      sim::skip("operand is not a valid dataset");
    }
  } else if (kind <= 2) {
    auto v = unlike(first_name, dm::draw_data(sub, vary(d.base)));
    if (kind == 1) {
      try {
        other_da = dm::assemble(v, sub_coords(), dm::draw_masks(sub, 3, odd), {},
                                "x");
      } catch (const std::exception &) {
        sim::skip("operand is not valid");
      }
    } else
      other_v = v;
  } else {
    alias = true;
    if (kind == 3)
      other_da = target[first_name];
    else if (kind == 4)
      other_v = target[first_name].data();
    else {
      other_da = target[first_name];
      if (!shape.labels.empty() && shape.shape[0] > 0)
        other_da = other_da.slice({shape.labels[0], 0});
      if (other_da.is_readonly())
        ;
    }
    if (set && kind != 5) {
      try {
        if (kind == 3)
          other_da = other_da.slice(slice);
        else
          other_v = other_v.slice(slice);
      } catch (const std::exception &) {
      }
    }
  }
  const auto run = [&](auto &a, const std::string &item, const Dataset &o_ds,
                       const DataArray &o_da, const Variable &o_v) {
    (void)item;
    if (set) {
      if (kind == 0)
        a.setSlice(slice, o_ds);
      else if (o_da.is_valid())
        a.setSlice(slice, o_da);
      else
        a.setSlice(slice, o_v);
    } else {
      if (kind == 0)
        arith(op, a, o_ds);
      else if (o_da.is_valid())
        arith(op, a, o_da);
      else
        arith(op, a, o_v);
    }
  };
  // Independent copies for the reference.
  std::map<std::string, DataArray> ref;
  std::map<std::string, DataArray> ref_b;
  DataArray b_da;
  Variable b_v;
  dm::DsSnap before, before_target, before_other_ds;
  dm::Snap before_other;
  std::vector<dm::Snap> before_roots;
  {
    sim::Quiet q;
    for (const auto &item : target)
      ref.emplace(item.name(), copy(item));
    if (kind == 0)
      for (const auto &item : other)
        ref_b.emplace(item.name(), copy(item));
    else if (other_da.is_valid())
      b_da = copy(other_da);
    else
      b_v = copy(other_v);
    before = dm::snap(t.ds);
    before_target = dm::snap(target);
    for (const auto &r : t.roots)
      before_roots.push_back(dm::snap(r));
    if (kind == 0)
      before_other_ds = dm::snap(other);
    else
      before_other = other_da.is_valid() ? dm::snap(other_da) : dm::snap(other_v);
  }
  const auto error =
      attempt([&] { run(target, "", other, other_da, other_v); });
  sim::observe(error.size());
  const auto what = std::string(set ? "setSlice" : arith_names[op]) +
                    " of a dataset of " + std::to_string(ref.size()) + " and " +
                    (kind == 0               ? "a dataset"
                     : other_da.is_valid() ? "a data array"
                                             : "a variable") +
                    (alias ? " (aliased)" : "") + (sliced ? " (slice)" : "");
  sim::Quiet q;
  if (!error.empty()) {
    expect_unchanged(
        what, error,
        {{"the target", dm::differs(dm::snap(target), before_target)},
         {"the dataset", dm::differs(dm::snap(t.ds), before)},
         {"memory behind it", roots_differ(t.roots, before_roots)},
         {"the operand",
          kind == 0 ? dm::differs(dm::snap(other), before_other_ds)
                    : dm::differs(other_da.is_valid() ? dm::snap(other_da)
                                                      : dm::snap(other_v),
                                  before_other)}});
    return;
  }
  dm::observe(dm::snap(target));
  if (!alias) {
    const auto diff = kind == 0
                          ? dm::differs(dm::snap(other), before_other_ds)
                          : dm::differs(other_da.is_valid() ? dm::snap(other_da)
                                                            : dm::snap(other_v),
                                        before_other);
    if (!diff.empty())
      sim::violation("operand", "%s changed the operand: %s", what.c_str(),
                     diff.c_str());
  }
  if (t.shared && !(alias && !set))
    return; // repeated application to the same memory
  if (alias && before_target.items.begin()->second.data.l.has_var)
    return; // correlated operands
  for (auto &[name, item] : ref) {
    if (t.shared) {
      // Memory of this item must be disjoint from the others.
      bool overlaps = false;
      for (const auto &[n2, i2] : ref)
        overlaps |= n2 != name && target[n2].data().is_same(target[name].data());
      if (overlaps || kind != 4)
        continue;
    }
    const auto why = attempt([&] {
      if (kind == 0) {
        if (!ref_b.count(name))
          return;
        if (set)
          item.setSlice(slice, ref_b.at(name));
        else
          arith(op, item, ref_b.at(name));
      } else if (set) {
        if (b_da.is_valid())
          item.setSlice(slice, b_da);
        else
          item.setSlice(slice, b_v);
      } else if (b_da.is_valid())
        arith(op, item, b_da);
      else
        arith(op, item, b_v);
    });
    if (!why.empty())
      sim::violation("inconsistent",
                     "%s succeeded but fails on a copy of item %s: %s",
                     what.c_str(), name.c_str(), head(why).c_str());
    dm::Cmp c;
    c.flags = false;
    const auto diff = dm::differs(dm::snap(target[name]), dm::snap(item), c);
    if (!diff.empty())
      sim::violation("result", "%s, item %s: %s", what.c_str(), name.c_str(),
                     diff.c_str());
  }
}

namespace {
enum DaOp {
  DaArith, // one of seven operators
  DaSetSlice, DaSetData, DaSetMask, DaSetCoord, DaEraseMask, DaEraseCoord,
  DaAppend, DaScale, NumDaOps
};

/// Union of masks, as a model.
void merge_masks(dm::Cols &into, const dm::Cols &from) {
  for (const auto &[k, m] : from) {
    const auto it = into.find(k);
    if (it == into.end()) {
      into[k] = m;
      into[k].aligned = true;
      continue;
    }
    auto &l = it->second.l;
    each(l, [&](const auto &c, const idx i) {
      if (m.l.cells[m.l.at(l, c)][0].v != 0)
        l.cells[i][0].v = 1;
    });
  }
}
} // namespace

/// A single data array.
WORKLOAD(c07_array, "C07.array", 3) {
  auto d = draft();
  const auto op = static_cast<DaOp>(
      sim::draw_bool() ? 1 + sim::draw(NumDaOps - 1) : 0);
  const auto which = static_cast<int>(sim::draw(7));
  if (op == DaAppend || op == DaScale)
    d.base.kind = sim::draw_bool(8) ? static_cast<int>(sim::draw(3)) : 2;
  if (op == DaArith && which >= 4 && !sim::draw_bool(6)) {
    d.base.dtype = dtype<bool>;
    d.base.kind = 0;
    d.base.variances = false;
    d.base.unit = units::none;
  }
  const bool odd = sim::draw_bool(4);
  auto data = dm::draw_data(d.shape, d.base);
  auto root = data;
  if (sim::draw_bool(16))
    data = data.as_const();
  auto masks = dm::draw_masks(d.shape, 3, odd);
  for (auto &[k, m] : masks)
    if (sim::draw_bool(12))
      m = m.as_const();
  DataArray whole = dm::assemble(data, d.coords, masks, {}, "w");
  DataArray target = whole;
  auto shape = d.shape;
  bool sliced = false;
  if (!shape.labels.empty() && shape.shape[0] > 0 && sim::draw_bool(4)) {
    sliced = true;
    const auto n = (shape.shape[0] + 1) / 2;
    if (sim::draw_bool()) {
      target = whole.slice({shape.labels[0], 0, n});
      shape.shape[0] = n;
    } else {
      target = whole.slice({shape.labels[0], n - 1});
      shape.labels.erase(shape.labels.begin());
      shape.shape.erase(shape.shape.begin());
    }
  }
  if (op == DaSetSlice && shape.labels.empty())
    sim::skip("no dimension to slice");
  const auto slice = op == DaSetSlice ? draw_slice(shape) : Slice{};
  Ext es = shape;
  if (op == DaSetSlice) {
    const auto i = std::find(es.labels.begin(), es.labels.end(), slice.dim()) -
                   es.labels.begin();
    if (slice.end() == -1) {
      es.labels.erase(es.labels.begin() + i);
      es.shape.erase(es.shape.begin() + i);
    } else
      es.shape[i] = slice.end() - slice.begin();
  }
  const auto sub = spoil(sim::draw_bool() ? es : draw_subset(es));
  bool with_masks = sim::draw_bool();
  DataArray other;
  Variable var;
  const std::string mask_name = "m" + std::to_string(sim::draw(4));
  Dim coord_name = dim_of(static_cast<int>(sim::draw(5)));
  Dim scale_dim = Dim::Event;
  const auto fresh = [&](const dm::DaOpts &o) {
    auto v = dm::draw_data(sub, o);
    auto like = target.data();
    if (op == DaSetSlice) {
      try {
        like = like.slice(slice);
      } catch (const std::exception &) {
      }
    }
    return op == DaAppend ? v : bins_like(like, v);
  };
  const auto make_other = [&](const dm::DaOpts &o) {
    CoordMap coords;
    for (auto &[k, v] : for_dims(d.coords, sub)) {
      bool fits = true;
      for (const auto &l : v.dims()) {
        const auto i = std::find(sub.labels.begin(), sub.labels.end(), l) -
                       sub.labels.begin();
        fits &= v.dims()[l] == sub.shape[i] ||
                (v.dims().ndim() == 1 && v.dims()[l] == sub.shape[i] + 1);
      }
      if (fits)
        coords.emplace_back(k, v);
    }
    auto omasks = dm::draw_masks(sub, 3, odd);
    if (op == DaSetSlice && sim::draw_bool()) {
      // Masks that fit, such that only the data may not.
      omasks.clear();
      dm::Gen g = dm::draw_gen();
      for (const auto &[k, m] : masks)
        if (m.dims().contains(slice.dim()) && !m.is_readonly()) {
          Ext e;
          for (const auto &l : m.dims())
            if (const auto i = std::find(es.labels.begin(), es.labels.end(), l);
                i != es.labels.end()) {
              e.labels.push_back(l);
              e.shape.push_back(es.shape[i - es.labels.begin()]);
            }
          omasks.emplace_back(
              k, dm::column(e, m.dtype(), units::none, g,
                            [](dm::Gen &r) { return double(r.in(0, 1)); }));
        }
    }
    try {
      return dm::assemble(fresh(o), some(coords, true), omasks, {}, "o");
    } catch (const std::exception &) {
      sim::skip("operand is not valid");
    }
  };
  bool alias = false;
  switch (op) {
  case DaArith:
  case DaSetSlice:
    if (sim::draw_bool(10) && op == DaArith) {
      alias = true;
      other = target;
      if (!shape.labels.empty() && shape.shape[0] > 0 && sim::draw_bool())
        other = target.slice({shape.labels[0], 0});
    } else if (with_masks)
      other = make_other(vary(d.base));
    else
      var = fresh(vary(d.base));
    break;
  case DaAppend:
    other = make_other(vary(d.base));
    break;
  case DaScale: {
    // Histogram along an event coordinate.
    dm::Gen g = dm::draw_gen();
    Ext hs = sim::draw_bool(3) ? draw_subset(shape) : Ext{};
    hs.labels.push_back(scale_dim);
    hs.shape.push_back(3);
    Ext edge;
    edge.labels = {scale_dim};
    edge.shape = {4};
    Unit cu = units::one;
    DType ct = dtype<double>;
    if (is_bins(target) && target.data().dtype() == dtype<core::bin<DataArray>>) {
      const auto &c =
          std::as_const(target).data().bin_buffer<DataArray>().coords();
      if (!c.empty()) {
        const auto it = c.begin();
        scale_dim = it->first;
        hs.labels.back() = edge.labels.back() = scale_dim;
        cu = it->second.unit();
        ct = it->second.dtype();
      }
    }
    if (sim::draw_bool(8))
      cu = draw_unit();
    const bool sorted = !sim::draw_bool(6);
    double at = -5;
    auto ev = dm::column(edge, is_float(ct) ? ct : dtype<double>, cu, g,
                         [&](dm::Gen &r) {
                           at += double(r.in(sorted ? 0 : -4, 6));
                           return at;
                         });
    auto hv = dm::column(hs, dtype<double>, units::one, g,
                         [](dm::Gen &r) { return double(r.in(0, 4)); },
                         sim::draw_bool(6));
    CoordMap coords{{scale_dim, ev}};
    try {
      other = dm::assemble(hv, coords, dm::draw_masks(hs, 2, odd), {}, "h");
    } catch (const std::exception &) {
      sim::skip("operand is not valid");
    }
    break;
  }
  case DaSetData:
    var = dm::draw_data(sub, vary(d.base));
    break;
  case DaSetMask:
  case DaSetCoord: {
    dm::Gen g = dm::draw_gen();
    auto s = sim::draw_bool() ? sub : draw_subset(sub);
    if (op == DaSetCoord && !s.shape.empty() && sim::draw_bool(3))
      s.shape[0] += 1;
    if (sim::draw_bool(10)) {
      s.labels.push_back(Dim(Dim::Row));
      s.shape.push_back(sim::draw_in(1, 3));
    }
    if (sim::draw_bool(10))
      var = dm::draw_data(s, d.base);
    else
      var = dm::column(s, op == DaSetMask ? dtype<bool> : dtype<double>,
                       units::none, g, [](dm::Gen &r) { return r.in(0, 1); });
    break;
  }
  default:
    break;
  }
  dm::Snap before, before_whole, before_root, before_other;
  DataArray ref;
  DataArray other_copy;
  Variable var_copy;
  {
    sim::Quiet q;
    before = dm::snap(target);
    before_whole = dm::snap(whole);
    before_root = dm::snap(root);
    if (other.is_valid()) {
      before_other = dm::snap(other);
      other_copy = copy(other);
    } else if (var.is_valid()) {
      before_other = dm::snap(var);
      var_copy = copy(var);
    }
    ref = copy(target);
  }
  const auto apply_to = [&](DataArray &t, const DataArray &o,
                            const Variable &v) {
    switch (op) {
    case DaArith:
      if (o.is_valid())
        da_arith(which, t, o);
      else
        da_arith(which, t, v);
      return;
    case DaSetSlice:
      if (o.is_valid())
        t.setSlice(slice, o);
      else
        t.setSlice(slice, v);
      return;
    case DaSetData: t.setData(v); return;
    case DaSetMask: t.masks().set(mask_name, v); return;
    case DaSetCoord: t.coords().set(coord_name, v); return;
    case DaEraseMask: t.masks().erase(mask_name); return;
    case DaEraseCoord: t.coords().erase(coord_name); return;
    case DaAppend: dataset::buckets::append(t, o); return;
    case DaScale: dataset::buckets::scale(t, o, scale_dim); return;
    default: return;
    }
  };
  const auto error = attempt([&] { apply_to(target, other, var); });
  sim::observe(error.size());
  static const char *const op_names_[] = {
      "", "setSlice", "setData", "masks.set", "coords.set", "masks.erase",
      "coords.erase", "bins.append", "bins.scale"};
  const auto what =
      std::string(op == DaArith ? da_names[which] : op_names_[op]) + " of " +
      (sliced ? "a slice of " : "") + "a data array of " +
      before.data.l.str() +
      (other.is_valid() ? " and a data array"
       : var.is_valid() ? " and a variable"
                        : "") +
      (alias ? " (aliased)" : "");
  sim::Quiet q;
  if (!error.empty()) {
    std::string od;
    if (other.is_valid())
      od = dm::differs(dm::snap(other), before_other);
    else if (var.is_valid())
      od = dm::differs(dm::snap(var), before_other);
    expect_unchanged(what, error,
                     {{"the target", dm::differs(dm::snap(target), before)},
                      {"the array", dm::differs(dm::snap(whole), before_whole)},
                      {"memory behind it",
                       dm::differs(dm::snap(root), before_root)},
                      {"the operand", od}});
    return;
  }
  const auto after = dm::snap(target);
  dm::observe(after);
  if (!alias && (other.is_valid() || var.is_valid())) {
    const auto od = other.is_valid() ? dm::differs(dm::snap(other), before_other)
                                     : dm::differs(dm::snap(var), before_other);
    if (!od.empty())
      sim::violation("operand", "%s changed the operand: %s", what.c_str(),
                     od.c_str());
  }
  // Meta data of the target, as they have to be now.
  auto want = before;
  dm::Cmp c;
  c.flags = false;
  switch (op) {
  case DaArith: {
    if (alias && before.data.l.has_var)
      return;
    Variable v = ref.data();
    const auto &b = other_copy.is_valid() ? other_copy.data() : var_copy;
    const auto why = attempt([&] {
      switch (which) {
      case 4: v |= b; return;
      case 5: v &= b; return;
      case 6: v ^= b; return;
      default: arith(which, v, b);
      }
    });
    if (!why.empty())
      sim::violation("inconsistent", "%s succeeded but fails on copies: %s",
                     what.c_str(), head(why).c_str());
    want.data = dm::snap(v).data;
    if (other_copy.is_valid()) {
      merge_masks(want.masks, before_other.masks);
      for (const auto &[k, m] : before_other.coords)
        if (m.aligned && (!before.coords.count(k) ||
                          (before.coords.at(k).aligned &&
                           !dm::differs(before.coords.at(k), m, c).empty())))
          sim::violation("accepted", "%s: coord %s does not match",
                         what.c_str(), k.c_str());
    }
    break;
  }
  case DaSetData:
    want.data = before_other.data;
    want.events = after.events;
    want.ecoords = after.ecoords;
    want.emasks = after.emasks;
    want.eattrs = after.eattrs;
    c.order = false;
    if (before.readonly)
      sim::violation("accepted", "%s: the array is read-only", what.c_str());
    break;
  case DaSetMask:
    want.masks[mask_name] = before_other.data;
    break;
  case DaSetCoord:
    want.coords[coord_name.name()] = before_other.data;
    break;
  case DaEraseMask:
    if (!want.masks.erase(mask_name))
      sim::violation("accepted", "%s: there is no such mask", what.c_str());
    break;
  case DaEraseCoord:
    if (!want.coords.erase(coord_name.name()))
      sim::violation("accepted", "%s: there is no such coord", what.c_str());
    break;
  case DaAppend:
    merge_masks(want.masks, before_other.masks);
    want.data = after.data;
    want.ecoords = after.ecoords;
    want.emasks = after.emasks;
    want.eattrs = after.eattrs;
    break;
  case DaScale: {
    auto m = other_copy.slice({scale_dim, 0});
    merge_masks(want.masks, dm::snap(m).masks);
    want.data = after.data;
    break;
  }
  default:
    // The same on an independent copy.
    const auto why = attempt([&] { apply_to(ref, other_copy, var_copy); });
    if (!why.empty())
      sim::violation("inconsistent", "%s succeeded but fails on copies: %s",
                     what.c_str(), head(why).c_str());
    want = dm::snap(ref);
    want.readonly = before.readonly;
  }
  const auto diff = dm::differs(after, want, c);
  if (!diff.empty())
    sim::violation("result", "%s: %s", what.c_str(), diff.c_str());
}
