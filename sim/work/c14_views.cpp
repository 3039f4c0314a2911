// C14: histories of variables that share and copy their elements.
#include "var.h"

#include <algorithm>
#include <memory>
#include <optional>
#include <set>

#include "scipp/core/except.h"
#include "scipp/core/slice.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/except.h"
#include "scipp/variable/operations.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/variable_factory.h"

using namespace scipp;
using namespace scipp::variable;
using namespace vm;
using scipp::core::dtype;

namespace {
/// Elements that any number of variables refer to.
struct Store {
  std::vector<Elem> e;
  bool has_var = false;
  bool binned = false;
  DType dt = dtype<double>;
  Unit unit = units::one;
  idx cells = 0; // elements of the variable that created it
};

struct V {
  Variable var;
  std::shared_ptr<Store> st;
  std::vector<Dim> labels;
  std::vector<idx> shape;
  std::vector<std::vector<idx>> at; // per cell, positions in the store
  bool readonly = false;

  Logical dims_only() const {
    Logical l;
    l.labels = labels;
    l.shape = shape;
    return l;
  }
  Logical logical() const {
    auto l = dims_only();
    l.binned = st->binned;
    l.has_var = st->has_var;
    l.dtype = st->dt;
    l.unit = st->unit;
    l.resize_cells();
    for (size_t k = 0; k < at.size(); ++k) {
      l.cells[k].clear();
      for (const auto p : at[k])
        l.cells[k].push_back(st->e[p]);
    }
    return l;
  }
  bool has_duplicates() const {
    std::set<const void *> seen;
    std::set<idx> s;
    for (const auto &c : at)
      for (const auto p : c)
        if (!s.insert(p).second)
          return true;
    return false;
  }
  /// Refers to all elements, each once.
  bool whole() const {
    return static_cast<idx>(at.size()) == st->cells && !has_duplicates();
  }
};

Unit u_of(const int i) { return i ? units::m : units::one; }

struct World {
  std::vector<V> v;
  bool binned;
  std::vector<std::string> log;

  std::string history() const {
    std::string s;
    for (size_t i = log.size() > 12 ? log.size() - 12 : 0; i < log.size(); ++i)
      s += (s.empty() ? "" : "; ") + log[i];
    return s;
  }

  V &pick() { return v[sim::draw(static_cast<uint32_t>(v.size()))]; }
  int pick_i() { return static_cast<int>(sim::draw(uint32_t(v.size()))); }
  Dim fresh_dim(const V &a) {
    for (auto i = sim::draw(5);; i = (i + 1) % 8) {
      // At most six dims are in use, so one of eight is free.
      const auto d = dim_of(static_cast<int>(i));
      if (std::find(a.labels.begin(), a.labels.end(), d) == a.labels.end())
        return d;
    }
  }

  void check_all(const char *what) {
    sim::Quiet q;
    for (size_t i = 0; i < v.size(); ++i) {
      const auto name = std::string(what) + " -- variable " +
                        std::to_string(i) + " after: " + history();
      expect_same(read(v[i].var), v[i].logical(), name.c_str());
      if (v[i].var.is_readonly() != v[i].readonly)
        sim::violation("readonly", "%s: flag is %d", name.c_str(),
                       v[i].var.is_readonly());
      for (size_t j = 0; j < i; ++j) {
        if (v[i].at.empty() || v[j].at.empty())
          continue;
        if (!binned && (v[i].var.data_handle() == v[j].var.data_handle()) !=
                           (v[i].st == v[j].st))
          sim::violation("sharing", "%s: shares elements with %zu: %d",
                         name.c_str(), j, v[i].st != v[j].st);
      }
    }
  }

  void put(V x) {
    if (v.size() < 5)
      v.push_back(std::move(x));
    else
      v[sim::draw(static_cast<uint32_t>(v.size()))] = std::move(x);
  }

  /// Fresh elements of their own with the contents of `l`.
  static V own(Variable var, const Logical &l) {
    V x;
    x.var = std::move(var);
    x.labels = l.labels;
    x.shape = l.shape;
    x.st = std::make_shared<Store>();
    x.st->has_var = l.has_var;
    x.st->binned = l.binned;
    x.st->dt = l.dtype;
    x.st->unit = l.unit;
    x.st->cells = l.volume();
    for (const auto &c : l.cells) {
      x.at.emplace_back();
      for (const auto &e : c) {
        x.at.back().push_back(static_cast<idx>(x.st->e.size()));
        x.st->e.push_back(e);
      }
    }
    return x;
  }

  V fresh() {
    const auto s = draw_shape(3, 24, true);
    Opts o;
    static const DType types[] = {dtype<double>, dtype<double>, dtype<float>,
                                  dtype<int64_t>};
    o.dtype = types[sim::draw(4)];
    o.unit = u_of(static_cast<int>(sim::draw(2)));
    o.variances = o.dtype != dtype<int64_t> && sim::draw_bool(3);
    o.plain = true;
    BinOpts b;
    b.extra_dims = 0;
    b.max_size = 3;
    const auto x = binned ? vm::binned(s, o, b) : dense(s, o);
    return own(x.var, x.l);
  }

  /// View of `a` with cells and dimensions rearranged.
  template <class F>
  static V view(const V &a, Variable var, const std::vector<Dim> &labels,
                const std::vector<idx> &shape, F &&from) {
    V x;
    x.var = std::move(var);
    x.st = a.st;
    x.labels = labels;
    x.shape = shape;
    x.readonly = a.readonly;
    const auto al = a.dims_only();
    each(x.dims_only(), [&](const auto &c, idx) {
      x.at.push_back(a.at[from(al, c)]);
    });
    return x;
  }
  static V same(const V &a) {
    V x = a;
    return x;
  }
};

struct Cut {
  Dim dim;
  idx begin, end, step;
  Slice slice() const {
    return end < 0 ? Slice{dim, begin} : Slice{dim, begin, end, step};
  }
};

std::optional<Cut> draw_cut(const V &a) {
  std::vector<int> ok;
  for (size_t i = 0; i < a.shape.size(); ++i)
    ok.push_back(static_cast<int>(i));
  if (ok.empty())
    return {};
  const auto i = ok[sim::draw(static_cast<uint32_t>(ok.size()))];
  const auto n = a.shape[i];
  Cut c{a.labels[i], 0, 0, 1};
  if (n > 0 && sim::draw_bool(3)) {
    c.begin = sim::draw(static_cast<uint32_t>(n));
    c.end = -1;
  } else {
    c.begin = sim::draw(static_cast<uint32_t>(n + 1));
    c.end = c.begin + sim::draw(static_cast<uint32_t>(n - c.begin + 1));
    if (sim::draw_bool(4))
      c.step = 1 + sim::draw(3);
  }
  return c;
}

V cut(const V &a, const Cut &c) {
  const auto i = std::find(a.labels.begin(), a.labels.end(), c.dim) -
                 a.labels.begin();
  auto labels = a.labels;
  auto shape = a.shape;
  if (c.end < 0) {
    labels.erase(labels.begin() + i);
    shape.erase(shape.begin() + i);
  } else {
    shape[i] = (c.end - c.begin + c.step - 1) / c.step;
  }
  return World::view(
      a, a.var.slice(c.slice()), labels, shape,
      [&](const Logical &al, const std::vector<idx> &coord) {
        auto full = coord;
        if (c.end < 0)
          full.insert(full.begin() + i, c.begin);
        else
          full[i] = c.begin + coord[i] * c.step;
        idx k = 0;
        for (size_t d = 0; d < full.size(); ++d)
          k = k * al.shape[d] + full[d];
        return k;
      });
}

/// `src` fits into `dst` by broadcast.
bool includes(const V &dst, const V &src) {
  for (size_t i = 0; i < src.labels.size(); ++i) {
    const auto it =
        std::find(dst.labels.begin(), dst.labels.end(), src.labels[i]);
    if (it == dst.labels.end() ||
        dst.shape[it - dst.labels.begin()] != src.shape[i])
      return false;
  }
  return true;
}

/// Assign the elements of `src` to those of `dst`. False if sizes of bins
/// do not match.
bool assign(const V &dst, const V &src) {
  const auto dl = dst.dims_only(), sl = src.dims_only();
  std::vector<std::pair<idx, Elem>> todo;
  bool ok = true;
  each(dl, [&](const auto &c, const idx k) {
    const auto &from = src.at[sl.at(dl, c)];
    if (from.size() != dst.at[k].size()) {
      ok = false;
      return;
    }
    for (size_t i = 0; i < from.size(); ++i)
      todo.emplace_back(dst.at[k][i], src.st->e[from[i]]);
  });
  if (ok)
    for (const auto &[p, e] : todo)
      dst.st->e[p] = e;
  return ok;
}

/// Expect `f` to throw if and only if `expected`.
template <class F>
bool attempt(World &w, const bool expected, const char *what, F &&f) {
  try {
    f();
  } catch (const std::exception &e) {
    if (!expected)
      sim::violation("exception", "%s threw %s, after: %s", what, e.what(),
                     w.history().c_str());
    sim::count(sim::FaultReject);
    return false;
  }
  if (expected)
    sim::violation("accepted", "%s did not fail, after: %s", what,
                   w.history().c_str());
  return true;
}

void step(World &w) {
  const auto say = [&](const std::string &s) { w.log.push_back(s); };
  const int op = static_cast<int>(sim::draw(24));
  const int ai = w.pick_i();
  auto &a = w.v[ai];
  const auto A = std::to_string(ai) + " ";
  switch (op) {
  case 0:
    say("create");
    w.put(w.fresh());
    return;
  case 1:
  case 2: {
    const auto c = draw_cut(a);
    if (!c)
      return;
    say("slice " + A + c->dim.name() + " " + std::to_string(c->begin) + ":" +
        std::to_string(c->end) + ":" + std::to_string(c->step));
    w.put(cut(a, *c));
    return;
  }
  case 3: {
    say("transpose " + A);
    Ext e{a.labels, a.shape};
    shuffle(e);
    const auto out = a.var.transpose(
        scipp::span<const Dim>(e.labels.data(), e.labels.size()));
    Logical to;
    to.labels = e.labels;
    to.shape = e.shape;
    if (e.labels.empty()) {
      w.put(World::same(a));
      return;
    }
    w.put(World::view(a, out, e.labels, e.shape,
                      [&](const Logical &al, const auto &c) {
                        return al.at(to, c);
                      }));
    return;
  }
  case 4: {
    if (a.labels.empty())
      return;
    const auto i = sim::draw(static_cast<uint32_t>(a.labels.size()));
    const auto d = w.fresh_dim(a);
    say("rename " + A + a.labels[i].name() + " to " + d.name());
    auto x = World::same(a);
    x.var = a.var.rename_dims({{a.labels[i], d}});
    x.labels[i] = d;
    w.put(std::move(x));
    return;
  }
  case 5: {
    if (a.labels.size() > 3 || a.at.size() > 40)
      return;
    Ext e{a.labels, a.shape};
    const auto d = w.fresh_dim(a);
    const idx n = 1 + sim::draw(3);
    e.labels.insert(e.labels.begin(), d);
    e.shape.insert(e.shape.begin(), n);
    shuffle(e);
    say("broadcast " + A + d.name() + ":" + std::to_string(n));
    Logical to;
    to.labels = e.labels;
    to.shape = e.shape;
    auto x = World::view(a, a.var.broadcast(to.dims()), e.labels, e.shape,
                         [&](const Logical &al, const auto &c) {
                           return al.at(to, c);
                         });
    if (!x.at.empty() && n > 1)
      x.readonly = true;
    w.put(std::move(x));
    return;
  }
  case 6: {
    if (a.labels.empty() || a.labels.size() > 3)
      return;
    const auto i = sim::draw(static_cast<uint32_t>(a.labels.size()));
    const idx n = a.shape[i];
    std::vector<idx> divs;
    for (idx f = 1; f <= std::max<idx>(n, 1); ++f)
      if (n % f == 0)
        divs.push_back(f);
    const idx f = divs[sim::draw(static_cast<uint32_t>(divs.size()))];
    const auto d = w.fresh_dim(a);
    auto labels = a.labels;
    auto shape = a.shape;
    labels.insert(labels.begin() + i, d);
    shape.insert(shape.begin() + i, f);
    shape[i + 1] = n / f;
    say("fold " + A + a.labels[i].name() + " into " + d.name() + ":" +
        std::to_string(f));
    const auto target = core::Dimensions({d, a.labels[i]}, {f, n / f});
    auto x = World::view(a, variable::fold(a.var, a.labels[i], target), labels,
                         shape, [&](const Logical &al, const auto &c) {
                           idx k = 0;
                           for (size_t j = 0; j < al.shape.size(); ++j) {
                             const idx cc = j < i   ? c[j]
                                            : j > i ? c[j + 1]
                                                    : c[i] * (n / f) + c[i + 1];
                             k = k * al.shape[j] + cc;
                           }
                           return k;
                         });
    w.put(std::move(x));
    return;
  }
  case 7: {
    if (a.labels.empty())
      return;
    const auto n = static_cast<int>(a.labels.size());
    const int first = static_cast<int>(sim::draw(n));
    const int last = first + static_cast<int>(sim::draw(n - first));
    const std::vector<Dim> from(a.labels.begin() + first,
                                a.labels.begin() + last + 1);
    const auto d = w.fresh_dim(a);
    say("flatten " + A + std::to_string(first) + ".." + std::to_string(last));
    auto labels = a.labels;
    auto shape = a.shape;
    idx size = 1;
    for (int i = first; i <= last; ++i)
      size *= shape[i];
    labels.erase(labels.begin() + first, labels.begin() + last);
    shape.erase(shape.begin() + first, shape.begin() + last);
    labels[first] = d;
    shape[first] = size;
    auto out = flatten(a.var, scipp::span<const Dim>(from.data(), from.size()),
                       d);
    V x = a;
    x.labels = labels;
    x.shape = shape;
    x.var = out;
    if (!(out.data_handle() == a.var.data_handle()))
      x = World::own(out, x.logical()); // it is up to flatten to copy
    w.put(std::move(x));
    return;
  }
  case 8: {
    say("squeeze " + A);
    V x = a;
    x.var = squeeze(a.var, std::nullopt);
    x.labels.clear();
    x.shape.clear();
    for (size_t i = 0; i < a.labels.size(); ++i)
      if (a.shape[i] != 1) {
        x.labels.push_back(a.labels[i]);
        x.shape.push_back(a.shape[i]);
      }
    w.put(std::move(x));
    return;
  }
  case 9:
    say("copy " + A);
    w.put(World::own(copy(a.var), a.logical()));
    return;
  case 10: {
    const int bi = w.pick_i();
    say("assign " + std::to_string(bi) + " = " + A);
    if (sim::draw_bool()) {
      w.v[bi].var = a.var;
    } else {
      Variable tmp = a.var;
      w.v[bi].var = std::move(tmp);
      if (tmp.is_valid())
        sim::violation("moved", "moved-from variable is valid");
    }
    V x = a;
    x.var = w.v[bi].var;
    w.v[bi] = x;
    return;
  }
  case 11: {
    if (!sim::draw_bool(3))
      return;
    say("as_const " + A);
    V x = a;
    x.var = a.var.as_const();
    x.readonly = true;
    w.put(std::move(x));
    return;
  }
  case 12:
  case 13: {
    // Concatenate pieces of one variable, or this and others of same shape.
    std::vector<V> parts;
    Dim d = w.fresh_dim(a);
    if (!a.labels.empty() && sim::draw_bool()) {
      const auto i = sim::draw(static_cast<uint32_t>(a.labels.size()));
      d = a.labels[i];
      const idx n = a.shape[i];
      idx at = 0;
      const int pieces = sim::draw_in(1, 3);
      for (int p = 0; p < pieces; ++p) {
        const idx len = p + 1 == pieces
                            ? n - at
                            : idx(sim::draw(static_cast<uint32_t>(n - at + 1)));
        parts.push_back(cut(a, {d, at, at + len, 1}));
        at += len;
      }
      for (int p = pieces - 1; p > 0; --p)
        std::swap(parts[p], parts[sim::draw(p + 1)]);
      if (n > 0 && sim::draw_bool(3))
        parts.insert(parts.begin() + sim::draw(pieces + 1),
                     cut(a, {d, idx(sim::draw(uint32_t(n))), -1, 1}));
    } else {
      parts.push_back(a);
      const int more = sim::draw_in(0, 2);
      for (int p = 0; p < more; ++p) {
        auto &b = w.pick();
        parts.push_back(b.labels == a.labels && b.shape == a.shape ? b : a);
      }
    }
    std::vector<Variable> vars;
    idx volume = 0;
    bool bad = false;
    for (const auto &p : parts) {
      vars.push_back(p.var);
      volume += static_cast<idx>(p.at.size());
      bad |= p.st->unit != parts[0].st->unit ||
             p.st->has_var != parts[0].st->has_var ||
             p.st->dt != parts[0].st->dt;
    }
    if (bad || volume > 60)
      return;
    say("concat of " + std::to_string(parts.size()) + " from " + A + "along " +
        d.name());
    const auto out =
        concat(scipp::span<const Variable>(vars.data(), vars.size()), d);
    // Dimensions are those of the first part with `d`, else `d` is added.
    const V *lead = nullptr;
    for (const auto &p : parts)
      if (!lead && std::find(p.labels.begin(), p.labels.end(), d) !=
                       p.labels.end())
        lead = &p;
    Logical want;
    if (lead) {
      want.labels = lead->labels;
      want.shape = lead->shape;
    } else {
      const auto got = out.dims();
      want.labels.assign(got.labels().begin(), got.labels().end());
      if (want.labels.size() != a.labels.size() + 1 || want.find(d) < 0)
        sim::violation("shape", "concat: dimensions");
      for (const auto &l : want.labels)
        want.shape.push_back(
            l == d ? 1
                   : a.shape[std::find(a.labels.begin(), a.labels.end(), l) -
                             a.labels.begin()]);
    }
    idx total = 0;
    std::vector<std::pair<const V *, idx>> where; // by coord along d
    for (const auto &p : parts) {
      const auto it = std::find(p.labels.begin(), p.labels.end(), d);
      const idx n = it == p.labels.end() ? 1 : p.shape[it - p.labels.begin()];
      for (idx i = 0; i < n; ++i)
        where.emplace_back(&p, i);
      total += n;
    }
    const int di = want.find(d);
    want.shape[di] = total;
    const auto &st = *parts[0].st;
    want.binned = st.binned;
    want.dtype = st.dt;
    want.unit = st.unit;
    want.has_var = st.has_var;
    want.resize_cells();
    each(want, [&](auto c, const idx k) {
      const auto &[p, i] = where[c[di]];
      c[di] = i;
      const auto pl = p->dims_only();
      want.cells[k].clear();
      for (const auto pos : p->at[pl.at(want, c)])
        want.cells[k].push_back(p->st->e[pos]);
    });
    w.put(World::own(out, want));
    return;
  }
  case 14:
  case 15:
  case 16: {
    // Write one variable, or part of it, into a slice of another.
    const auto c = draw_cut(a);
    if (!c)
      return;
    const auto dst = cut(a, *c);
    V src = w.pick();
    const int kind = static_cast<int>(sim::draw(4));
    if (kind == 1) { // something that fits
      if (const auto c2 = draw_cut(a)) {
        const auto other = cut(a, *c2);
        if (includes(dst, other))
          src = other;
      }
    } else if (kind == 2) {
      src = World::own(copy(dst.var), dst.logical());
      for (auto &e : src.st->e)
        e.v += 1;
      if (sim::draw_bool() || src.st->unit != units::one || w.binned)
        for (auto &e : src.st->e)
          e.v -= 1;
      else
        src.var += (src.st->dt == dtype<float>     ? 1.0f * units::one
                    : src.st->dt == dtype<int64_t> ? int64_t(1) * units::one
                                                   : 1.0 * units::one);
    }
    const bool fits = includes(dst, src);
    bool sizes = true;
    if (fits && w.binned) {
      const auto dl = dst.dims_only(), sl = src.dims_only();
      each(dl, [&](const auto &cc, const idx k) {
        sizes &= dst.at[k].size() == src.at[sl.at(dl, cc)].size();
      });
    }
    bool same_type = src.st->dt == a.st->dt && src.st->unit == a.st->unit &&
                     src.st->has_var == a.st->has_var;
    // Variances may be broadcast when copying, but not for binned data.
    if (w.binned && fits && dst.labels.size() != src.labels.size())
      sizes = false;
    const bool ok = fits && sizes && same_type && !a.readonly;
    if (!ok && fits && same_type && (dst.at.empty() || (w.binned && !sizes)))
      return; // nothing to write, or rejection depends on what is checked
    say("set " + A + c->dim.name() + " " + std::to_string(c->begin) + ":" +
        std::to_string(c->end) + ":" + std::to_string(c->step) + " kind " +
        std::to_string(kind));
    // The source may overlap the target.
    auto target = a.var;
    if (attempt(w, !ok, "setSlice",
                [&] { target.setSlice(c->slice(), src.var); }))
      assign(dst, src);
    return;
  }
  case 17:
  case 18: {
    const bool add = sim::draw_bool();
    if (add && a.st->unit != units::one)
      return;
    say(std::string(add ? "add to " : "scale ") + A);
    const auto scalar = [&](const int x) -> Variable {
      return a.st->dt == dtype<float>     ? float(x) * units::one
             : a.st->dt == dtype<int64_t> ? int64_t(x) * units::one
                                          : double(x) * units::one;
    };
    for (const auto &e : a.st->e)
      if (std::abs(e.v) > 1e6 || e.var > 1e6)
        return;
    auto target = a.var;
    if (attempt(w, a.readonly, "in-place operation", [&] {
          if (add)
            target += scalar(3);
          else
            target *= scalar(-2);
        })) {
      for (const auto &c : a.at)
        for (const auto p : c) {
          a.st->e[p].v = add ? a.st->e[p].v + 3 : -2 * a.st->e[p].v;
          if (!add)
            a.st->e[p].var *= 4;
        }
    }
    return;
  }
  case 19: {
    if (w.binned || a.at.empty())
      return;
    const auto unit = u_of(static_cast<int>(sim::draw(2)));
    say("set unit of " + A);
    const bool bad = a.readonly || (unit != a.st->unit && !a.whole());
    if (!a.readonly && unit == a.st->unit && !a.whole())
      return;
    auto target = a.var;
    if (attempt(w, bad, "setUnit", [&] { target.setUnit(unit); }))
      a.st->unit = unit;
    return;
  }
  case 20: {
    if (w.binned || a.at.empty())
      return;
    auto target = a.var;
    if (sim::draw_bool(3)) {
      say("remove variances of " + A);
      if (attempt(w, a.readonly || !a.whole(), "setVariances",
                  [&] { target.setVariances(Variable{}); })) {
        a.st->has_var = false;
        for (auto &e : a.st->e)
          e.var = 0;
      }
      return;
    }
    // From a copy, a view or a variable of another shape.
    V src = w.pick();
    if (!sim::draw_bool(3)) {
      Ext e{a.labels, a.shape};
      Opts o;
      o.dtype = a.st->dt;
      o.unit = a.st->unit;
      o.lo = 0;
      const auto d = dense(e, o); // in any layout
      src = World::own(d.var, d.l);
    }
    say("set variances of " + A);
    const bool ok = !a.readonly && a.whole() && src.labels == a.labels &&
                    src.shape == a.shape && src.st->unit == a.st->unit &&
                    src.st->dt == a.st->dt && a.st->dt != dtype<int64_t> &&
                    !src.st->has_var;
    if (attempt(w, !ok, "setVariances", [&] { target.setVariances(src.var); })) {
      std::vector<std::pair<idx, double>> todo;
      for (size_t k = 0; k < a.at.size(); ++k)
        todo.emplace_back(a.at[k][0], src.st->e[src.at[k][0]].v);
      a.st->has_var = true;
      for (const auto &[p, x] : todo)
        a.st->e[p].var = x;
    }
    return;
  }
  case 21: {
    // Write single elements.
    if (w.binned || a.at.empty())
      return;
    const auto k = sim::draw(static_cast<uint32_t>(a.at.size()));
    const double x = sim::draw_in(-9, 9);
    say("write element of " + A);
    auto target = a.var;
    if (attempt(w, a.readonly, "element write", [&] {
          by_dtype(a.st->dt, [&](auto t) {
            using T = decltype(t);
            target.values<T>()[k] = static_cast<T>(x);
          });
        }))
      a.st->e[a.at[k][0]].v = x;
    return;
  }
  case 22: {
    // Comparison.
    const auto &b = w.pick();
    say("compare " + A);
    const auto la = a.logical(), lb = b.logical();
    bool same = la.unit == lb.unit && la.labels == lb.labels &&
                la.shape == lb.shape && la.dtype == lb.dtype &&
                la.has_var == lb.has_var;
    for (size_t k = 0; same && k < la.cells.size(); ++k) {
      same &= la.cells[k].size() == lb.cells[k].size();
      for (size_t i = 0; same && i < la.cells[k].size(); ++i)
        same &= la.cells[k][i].v == lb.cells[k][i].v &&
                la.cells[k][i].var == lb.cells[k][i].var;
    }
    if (w.binned && la.cells.empty())
      return;
    if (w.binned && !same) {
      // Only the contents of bins are compared, so empty bins hide the rest.
      bool events = false;
      for (const auto &c : la.cells)
        events |= !c.empty();
      if (!events)
        return;
    }
    const bool eq = a.var == b.var;
    if (eq != same || eq == (a.var != b.var) ||
        (same && !equals_nan(a.var, b.var)))
      sim::violation("compare", "comparison gives %d, after: %s", eq,
                     w.history().c_str());
    return;
  }
  default: {
    const int bi = w.pick_i();
    auto &b = w.v[bi];
    const bool fits = includes(b, a);
    bool ok = fits && !b.readonly && a.st->dt == b.st->dt &&
              a.st->has_var == b.st->has_var;
    if (w.binned) {
      if (!fits || a.labels.size() != b.labels.size() || !ok)
        return;
      const auto dl = b.dims_only(), sl = a.dims_only();
      each(dl, [&](const auto &cc, const idx k) {
        ok &= b.at[k].size() == a.at[sl.at(dl, cc)].size();
      });
      if (a.st->unit != b.st->unit)
        return;
    }
    if (b.at.empty() || (ok && a.st->unit != b.st->unit && !b.whole()))
      return;
    if (!ok && fits && !b.readonly)
      return;
    say("copy " + A + "into " + std::to_string(bi));
    auto target = b.var;
    if (attempt(w, !ok, "copy into", [&] { copy(a.var, target); })) {
      const auto unit = a.st->unit;
      assign(b, a);
      b.st->unit = unit;
    }
    return;
  }
  }
}

void history(const bool binned) {
  World w;
  w.binned = binned;
  w.v.push_back(w.fresh());
  w.v.push_back(w.fresh());
  const int n = sim::draw_in(4, 24);
  for (int i = 0; i < n; ++i) {
    step(w);
    w.check_all("history");
  }
  sim::Quiet q;
  for (const auto &x : w.v)
    observe(x.logical());
}
} // namespace

WORKLOAD(c14_dense, "C14.dense", 3) { history(false); }
WORKLOAD(c14_binned, "C14.binned", 2) { history(true); }
