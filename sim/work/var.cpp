#include "var.h"

#include "scipp/core/time_point.h"

#include <algorithm>
#include <numeric>

#include "scipp/core/dimensions.h"
#include "scipp/core/slice.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/variable_factory.h"

using namespace scipp;
using namespace scipp::variable;
using scipp::core::Dimensions;

namespace vm {
const Dim dim_of(const int i) {
  static constexpr Dim::Id ids[] = {Dim::X,      Dim::Y,          Dim::Z,
                                    Dim::Time,   Dim::Energy,     Dim::Event,
                                    Dim::Row,    Dim::Wavelength, Dim::Position,
                                    Dim::Group};
  return Dim(ids[i]);
}

std::string name_of(const DType t) {
  if (t == dtype<std::string>)
    return "string";
  if (t == dtype<core::time_point>)
    return "datetime64";
  return by_dtype(t, [](auto x) -> std::string {
    using T = decltype(x);
    return std::is_same_v<T, double>    ? "float64"
           : std::is_same_v<T, float>   ? "float32"
           : std::is_same_v<T, int64_t> ? "int64"
           : std::is_same_v<T, int32_t> ? "int32"
                                        : "bool";
  });
}

std::string Logical::str() const {
  std::string s = name_of(dtype) + (binned ? " bins" : "") + " {";
  for (size_t i = 0; i < labels.size(); ++i)
    s += (i ? ", " : "") + labels[i].name() + ":" + std::to_string(shape[i]);
  return s + "}";
}

Ext draw_shape(const int max_ndim, const idx max_volume, const bool zero,
                 const int first) {
  Ext s;
  const int n = sim::draw_in(0, max_ndim);
  idx left = max_volume;
  for (int i = 0; i < n; ++i) {
    idx size = 1 + sim::draw(static_cast<uint32_t>(
                         std::min<idx>(left, i == 0 ? 9 : 6)));
    if (sim::draw_bool(5))
      size = 1;
    left = std::max<idx>(1, left / size);
    s.labels.push_back(dim_of(first + i));
    s.shape.push_back(size);
  }
  if (n && zero && sim::draw_bool(24))
    s.shape[sim::draw(n)] = 0;
  shuffle(s);
  return s;
}

void shuffle(Ext &s) {
  for (int i = static_cast<int>(s.labels.size()) - 1; i > 0; --i) {
    const auto j = sim::draw(i + 1);
    std::swap(s.labels[i], s.labels[j]);
    std::swap(s.shape[i], s.shape[j]);
  }
}

Ext draw_subset(const Ext &s, const bool all) {
  Ext out;
  for (size_t i = 0; i < s.labels.size(); ++i)
    if (all || !sim::draw_bool(3)) {
      out.labels.push_back(s.labels[i]);
      out.shape.push_back(s.shape[i]);
    }
  if (sim::draw_bool())
    shuffle(out);
  return out;
}

namespace {
double draw_value(const Opts &o) {
  if (o.value)
    return o.value();
  if (o.nan_one_in && sim::draw_bool(o.nan_one_in))
    return NAN;
  if (o.dtype == core::dtype<bool>)
    return sim::draw(2);
  return sim::draw_in(o.lo, o.hi);
}

Elem draw_elem(const Opts &o) {
  Elem e;
  if (o.gen) {
    e.v = o.gen();
    e.var = o.variances && !std::isnan(e.v) ? std::abs(e.v) : 0;
    return e;
  }
  e.v = draw_value(o);
  e.var = o.variances ? sim::draw_in(0, 6) : 0;
  return e;
}

template <class T> void put(Variable &root, const std::vector<Elem> &e) {
  auto *p = root.values<T>().data();
  for (size_t i = 0; i < e.size(); ++i)
    p[i] = static_cast<T>(e[i].v);
  if constexpr (std::is_floating_point_v<T>)
    if (root.has_variances()) {
      auto *q = root.variances<T>().data();
      for (size_t i = 0; i < e.size(); ++i)
        q[i] = static_cast<T>(e[i].var);
    }
}

std::vector<Elem> raw(const Variable &root) {
  const auto n = root.dims().volume();
  std::vector<Elem> e(n);
  if (root.dtype() == core::dtype<index_pair>) {
    const auto *p = root.values<index_pair>().data();
    for (idx i = 0; i < n; ++i)
      e[i] = {double(p[i].first), double(p[i].second)};
    return e;
  }
  by_dtype(root.dtype(), [&](auto x) {
    using T = decltype(x);
    const auto *p = root.values<T>().data();
    for (idx i = 0; i < n; ++i)
      e[i].v = static_cast<double>(p[i]);
    if constexpr (std::is_floating_point_v<T>)
      if (root.has_variances()) {
        const auto *q = root.variances<T>().data();
        for (idx i = 0; i < n; ++i)
          e[i].var = static_cast<double>(q[i]);
      }
  });
  return e;
}

/// Layout of `s` inside a larger contiguous array.
struct Layout {
  Ext root;
  std::vector<idx> lead, step; // per dimension of `s`
  int extra = -1;                // position of an additional dimension in root
  idx extra_at = 0;
  std::vector<idx> stride; // per dimension of `s`, in elements of root
  idx offset = 0;
};

Layout draw_layout(const Ext &s, const bool plain, const bool no_view) {
  const auto n = s.labels.size();
  Layout l;
  l.lead.assign(n, 0);
  l.step.assign(n, 1);
  l.stride.assign(n, 0);
  l.root = s;
  if (plain) {
    idx f = 1;
    for (int i = static_cast<int>(n) - 1; i >= 0; --i) {
      l.stride[i] = f;
      f *= s.shape[i];
    }
    return l;
  }
  if (!sim::draw_bool(3))
    shuffle(l.root); // memory order
  const bool view = !no_view && sim::draw_bool();
  if (view) {
    for (size_t k = 0; k < n; ++k) {
      const auto i = std::find(s.labels.begin(), s.labels.end(),
                               l.root.labels[k]) -
                     s.labels.begin();
      if (sim::draw_bool())
        l.lead[i] = sim::draw(3);
      if (sim::draw_bool(3))
        l.step[i] = 1 + sim::draw(3);
      const idx trail = sim::draw_bool() ? sim::draw(3) : 0;
      const idx size = s.shape[i];
      l.root.shape[k] =
          l.lead[i] + (size == 0 ? 0 : (size - 1) * l.step[i] + 1) + trail;
    }
    if (sim::draw_bool(3)) {
      l.extra = static_cast<int>(sim::draw(static_cast<uint32_t>(n + 1)));
      const idx size = 1 + sim::draw(3);
      l.extra_at = sim::draw(static_cast<uint32_t>(size));
      l.root.labels.insert(l.root.labels.begin() + l.extra,
                           Dim(Dim::InternalSubbin));
      l.root.shape.insert(l.root.shape.begin() + l.extra, size);
    }
  }
  idx f = 1;
  for (int k = static_cast<int>(l.root.labels.size()) - 1; k >= 0; --k) {
    if (k == l.extra) {
      l.offset += l.extra_at * f;
    } else {
      const auto i = std::find(s.labels.begin(), s.labels.end(),
                               l.root.labels[k]) -
                     s.labels.begin();
      l.stride[i] = f * l.step[i];
      l.offset += f * l.lead[i];
    }
    f *= l.root.shape[k];
  }
  return l;
}

Dimensions dims_of(const Ext &s) {
  return {scipp::span<const Dim>(s.labels.data(), s.labels.size()),
          scipp::span<const idx>(s.shape.data(), s.shape.size())};
}

Variable view_of(const Variable &root, const Ext &s, const Layout &l) {
  Variable v = root;
  if (l.extra >= 0)
    v = v.slice({Dim(Dim::InternalSubbin), l.extra_at});
  for (size_t i = 0; i < s.labels.size(); ++i) {
    const auto size = s.shape[i];
    const auto end = l.lead[i] + (size == 0 ? 0 : (size - 1) * l.step[i] + 1);
    if (l.lead[i] || end != v.dims()[s.labels[i]] || l.step[i] != 1)
      v = v.slice({s.labels[i], l.lead[i], end, l.step[i]});
  }
  if (!s.labels.empty())
    v = v.transpose(scipp::span<const Dim>(s.labels.data(), s.labels.size()));
  return v;
}

/// Flat position in root of every element of `s` in row-major order.
std::vector<idx> positions(const Ext &s, const Layout &l) {
  Logical tmp;
  tmp.labels = s.labels;
  tmp.shape = s.shape;
  std::vector<idx> pos(tmp.volume());
  each(tmp, [&](const auto &c, const idx k) {
    idx p = l.offset;
    for (size_t i = 0; i < c.size(); ++i)
      p += c[i] * l.stride[i];
    pos[k] = p;
  });
  return pos;
}
} // namespace

namespace {
/// Flat positions in the buffer of the elements of every event, in an order
/// that does not depend on the order of the buffer's dimensions.
std::vector<std::vector<idx>> events(const Logical &buf, const Dim dim) {
  const auto epos = buf.find(dim);
  Logical sorted;
  for (int i = 0; i < 10; ++i)
    if (const auto d = dim_of(i); d != dim && buf.find(d) >= 0) {
      sorted.labels.push_back(d);
      sorted.shape.push_back(buf.size(d));
    }
  sorted.labels.insert(sorted.labels.begin(), dim);
  sorted.shape.insert(sorted.shape.begin(), buf.shape[epos]);
  std::vector<std::vector<idx>> out(buf.shape[epos]);
  each(sorted, [&](const auto &c, idx) {
    out[c[0]].push_back(buf.at(sorted, c));
  });
  return out;
}
} // namespace

void draw_values(Logical &l, const Opts &o) {
  for (auto &c : l.cells)
    for (auto &e : c)
      e = draw_elem(o);
}

Operand dense(const Logical &l, const Opts &o) {
  Operand out;
  out.l = l;
  const Ext s{l.labels, l.shape};
  const auto layout = draw_layout(s, o.plain, o.no_view);
  const auto rdims = dims_of(layout.root);
  Memory m;
  m.root = empty(rdims, l.unit, l.dtype, l.has_var);
  m.unit = l.unit;
  m.before.resize(rdims.volume());
  m.owned.assign(rdims.volume(), 0);
  Opts junk = o;
  junk.value = nullptr;
  junk.dtype = l.dtype;
  junk.variances = l.has_var;
  junk.nan_one_in = 0;
  junk.lo = 50;
  junk.hi = 99;
  const auto pos = positions(s, layout);
  for (size_t k = 0; k < pos.size(); ++k) {
    m.before[pos[k]] = l.cells[k][0];
    m.owned[pos[k]] = 1;
  }
  for (size_t i = 0; i < m.before.size(); ++i)
    if (!m.owned[i])
      m.before[i] = draw_elem(junk);
  by_dtype(l.dtype, [&](auto x) { put<decltype(x)>(m.root, m.before); });
  m.before = raw(m.root);
  out.var = view_of(m.root, s, layout);
  out.mem.push_back(std::move(m));
  return out;
}

Operand dense(const Ext &s, const Opts &o) {
  Logical l;
  l.labels = s.labels;
  l.shape = s.shape;
  l.dtype = o.dtype;
  l.unit = o.unit;
  l.has_var = o.variances;
  l.resize_cells();
  draw_values(l, o);
  return dense(l, o);
}

Operand binned(const Ext &s, const Opts &o, const BinOpts &b,
               const Operand *like) {
  Operand out;
  auto &l = out.l;
  l.labels = s.labels;
  l.shape = s.shape;
  l.dtype = o.dtype;
  l.unit = o.unit;
  l.has_var = o.variances;
  l.binned = true;
  l.resize_cells();
  // Dimensions of the buffer.
  auto &inner = out.inner;
  const Dim edim = dim_of(5);
  if (like) {
    inner = like->inner;
    if (b.permute)
      shuffle(inner);
  } else {
    inner.labels = {edim};
    inner.shape = {0};
    if (b.extra_dims && sim::draw_bool(b.extra_dims)) {
      const int extra = sim::draw_in(1, 2);
      for (int i = 0; i < extra; ++i) {
        const auto at =
            sim::draw(static_cast<uint32_t>(inner.labels.size() + 1));
        const idx size = sim::draw_bool(12) ? 0 : 1 + idx(sim::draw(3));
        inner.labels.insert(inner.labels.begin() + at, dim_of(8 + i));
        inner.shape.insert(inner.shape.begin() + at, size);
      }
    }
  }
  // Bins in random order in the buffer with gaps between them.
  const auto nbin = l.volume();
  auto &size = out.bin_sizes;
  size.resize(nbin);
  std::vector<idx> order(nbin), begin(nbin);
  each(l, [&](const auto &coord, const idx k) {
    size[k] = like               ? like->bin_sizes[like->l.at(l, coord)]
              : sim::draw_bool(4) ? 0
                                  : idx(sim::draw(b.max_size + 1));
  });
  std::iota(order.begin(), order.end(), 0);
  if (sim::draw_bool())
    for (int i = static_cast<int>(nbin) - 1; i > 0; --i)
      std::swap(order[i], order[sim::draw(i + 1)]);
  const bool gaps = sim::draw_bool();
  idx at = gaps ? sim::draw(3) : 0;
  for (const auto k : order) {
    begin[k] = at;
    at += size[k] + (gaps && sim::draw_bool(3) ? sim::draw(3) : 0);
  }
  if (gaps)
    at += sim::draw(2);
  const auto epos = std::find(inner.labels.begin(), inner.labels.end(), edim) -
                    inner.labels.begin();
  auto bshape = inner;
  bshape.shape[epos] = at;
  // Indices, possibly a view of a larger array with other, empty, bins.
  const auto il = draw_layout(s, o.plain, o.no_view);
  const auto irdims = dims_of(il.root);
  Memory im;
  im.root = makeVariable<index_pair>(irdims);
  im.unit = im.root.unit();
  im.owned.assign(irdims.volume(), 0);
  {
    auto *p = im.root.values<index_pair>().data();
    const auto pos = positions(s, il);
    for (size_t k = 0; k < pos.size(); ++k) {
      p[pos[k]] = {begin[k], begin[k] + size[k]};
      im.owned[pos[k]] = 1;
    }
  }
  // Buffer.
  const auto bl =
      draw_layout(bshape, o.plain || !b.buffer_view, o.no_view || sim::draw(2));
  const auto brdims = dims_of(bl.root);
  Memory bm;
  bm.unit = o.unit;
  bm.root = empty(brdims, o.unit, o.dtype, o.variances);
  bm.before.resize(brdims.volume());
  bm.owned.assign(brdims.volume(), 0);
  Opts junk = o;
  junk.value = nullptr;
  junk.nan_one_in = 0;
  junk.lo = 50;
  junk.hi = 99;
  for (auto &e : bm.before)
    e = draw_elem(junk);
  const auto bpos = positions(bshape, bl);
  // Elements are listed event by event, with the other dimensions in the order
  // of their labels within an event.
  Logical bufl;
  bufl.labels = bshape.labels;
  bufl.shape = bshape.shape;
  auto of_event = events(bufl, edim);
  for (auto &e : of_event)
    for (auto &p : e)
      p = bpos[p];
  for (idx k = 0; k < nbin; ++k)
    for (idx i = begin[k]; i < begin[k] + size[k]; ++i)
      for (const auto p : of_event[i]) {
        const auto e = draw_elem(o);
        l.cells[k].push_back(e);
        bm.before[p] = e;
        bm.owned[p] = 1;
      }
  by_dtype(o.dtype, [&](auto x) { put<decltype(x)>(bm.root, bm.before); });
  bm.before = raw(bm.root);
  const auto buffer = view_of(bm.root, bshape, bl);
  // make_bins on the whole indices, then slice.
  auto bins = make_bins(im.root, edim, buffer);
  im.before = raw(im.root);
  std::fill(im.owned.begin(), im.owned.end(), 0);
  out.var = view_of(bins, s, il);
  out.mem.push_back(std::move(im));
  out.mem.push_back(std::move(bm));
  return out;
}

namespace {
void fill_shape(Logical &l, const Variable &var) {
  for (const auto &d : var.dims().labels())
    l.labels.push_back(d);
  for (const auto s : var.dims().shape())
    l.shape.push_back(s);
}

template <class T, class F>
void each_value(const T *p, const Logical &l, scipp::span<const idx> strides,
                F &&f) {
  each(l, [&](const auto &c, const idx k) {
    idx at = 0;
    for (size_t i = 0; i < c.size(); ++i)
      at += c[i] * strides[i];
    f(k, at, p[at]);
  });
}
} // namespace

Logical read(const Variable &var) {
  Logical l;
  fill_shape(l, var);
  std::vector<idx> strides;
  for (size_t i = 0; i < l.labels.size(); ++i)
    strides.push_back(var.stride(l.labels[i]));
  const scipp::span<const idx> st(strides.data(), strides.size());
  if (!is_bins(var)) {
    l.dtype = var.dtype();
    l.unit = var.unit();
    l.has_var = var.has_variances();
    l.resize_cells();
    if (l.dtype == dtype<std::string>) {
      // Strings made of a letter and a number
      each_value(var.values<std::string>().data(), l, st,
                 [&](const idx k, idx, const std::string &v) {
                   l.cells[k][0].v =
                       v.empty() ? NAN : std::strtod(v.c_str() + 1, nullptr) - 1000;
                 });
      return l;
    }
    if (l.dtype == dtype<core::time_point>) {
      each_value(var.values<core::time_point>().data(), l, st,
                 [&](const idx k, idx, const core::time_point &v) {
                   l.cells[k][0].v = static_cast<double>(v.time_since_epoch());
                 });
      return l;
    }
    by_dtype(l.dtype, [&](auto x) {
      using T = decltype(x);
      each_value(var.values<T>().data(), l, st,
                 [&](const idx k, idx, const T &v) {
                   l.cells[k][0].v = static_cast<double>(v);
                 });
      if constexpr (std::is_floating_point_v<T>)
        if (l.has_var)
          each_value(var.variances<T>().data(), l, st,
                     [&](const idx k, idx, const T &v) {
                       l.cells[k][0].var = static_cast<double>(v);
                     });
    });
    return l;
  }
  l.binned = true;
  l.resize_cells();
  const auto [indices, dim, buffer] = var.constituents<Variable>();
  const auto buf = read(buffer);
  l.dtype = buf.dtype;
  l.unit = buf.unit;
  l.has_var = buf.has_var;
  const auto epos = buf.find(dim);
  if (epos < 0)
    sim::violation("bin-structure", "buffer lacks the bin dimension");
  const auto of_event = events(buf, dim);
  each_value(indices.values<index_pair>().data(), l, st,
             [&](const idx k, idx, const index_pair &r) {
               if (r.first < 0 || r.second < r.first ||
                   r.second > idx(of_event.size()))
                 sim::violation("bin-structure",
                                "bin %ld is [%ld, %ld) of a buffer of %zu",
                                long(k), long(r.first), long(r.second),
                                of_event.size());
               for (auto i = r.first; i < r.second; ++i)
                 for (const auto p : of_event[i])
                   l.cells[k].push_back(buf.cells[p][0]);
             });
  return l;
}

bool close(const double a, const double b, const double rtol) {
  if (a == b || (std::isnan(a) && std::isnan(b)))
    return true;
  if (rtol == 0 || std::isinf(a) || std::isinf(b))
    return false;
  return std::abs(a - b) <= rtol * std::max({1.0, std::abs(a), std::abs(b)});
}

void expect_same(const Logical &got, const Logical &want, const char *what,
                 const double rtol, const bool check_unit) {
  if (got.labels != want.labels || got.shape != want.shape)
    sim::violation("shape", "%s: result is %s, expected %s", what,
                   got.str().c_str(), want.str().c_str());
  if (got.binned != want.binned || got.has_var != want.has_var ||
      got.dtype != want.dtype)
    sim::violation("type", "%s: result is %s%s, expected %s%s", what,
                   got.str().c_str(), got.has_var ? " with variances" : "",
                   want.str().c_str(), want.has_var ? " with variances" : "");
  if (check_unit && got.unit != want.unit)
    sim::violation("unit", "%s: unit is %s, expected %s", what,
                   got.unit.name().c_str(), want.unit.name().c_str());
  for (size_t k = 0; k < want.cells.size(); ++k) {
    if (got.cells[k].size() != want.cells[k].size())
      sim::violation("bin-size", "%s: bin %zu of %s has %zu elements, expected "
                                 "%zu",
                     what, k, want.str().c_str(), got.cells[k].size(),
                     want.cells[k].size());
    for (size_t i = 0; i < want.cells[k].size(); ++i) {
      const auto &g = got.cells[k][i];
      const auto &w = want.cells[k][i];
      if (!close(g.v, w.v, rtol))
        sim::violation("value",
                       "%s: element %zu of cell %zu of %s is %.17g, expected "
                       "%.17g",
                       what, i, k, want.str().c_str(), g.v, w.v);
      if (want.has_var && !close(g.var, w.var, rtol))
        sim::violation("variance",
                       "%s: variance of element %zu of cell %zu of %s is "
                       "%.17g, expected %.17g",
                       what, i, k, want.str().c_str(), g.var, w.var);
    }
  }
}

void expect_untouched(const Operand &o, const bool owned_may_change,
                      const char *what, const bool unit_may_change) {
  for (size_t m = 0; m < o.mem.size(); ++m) {
    const auto &mem = o.mem[m];
    const auto now = raw(mem.root);
    for (size_t i = 0; i < now.size(); ++i) {
      if (owned_may_change && mem.owned[i])
        continue;
      if (!close(now[i].v, mem.before[i].v, 0) ||
          !close(now[i].var, mem.before[i].var, 0))
        sim::violation(
            mem.owned[i] ? "input-changed" : "outside-written",
            "%s: element %zu of the memory of %s was %g +- %g, now %g +- %g",
            what, i, o.l.str().c_str(), mem.before[i].v, mem.before[i].var,
            now[i].v, now[i].var);
    }
    if (!unit_may_change && mem.root.unit() != mem.unit)
      sim::violation("unit-changed", "%s: unit of an operand changed", what);
  }
}

void observe(const Logical &l) {
  for (const auto s : l.shape)
    sim::observe(static_cast<uint64_t>(s));
  for (const auto &c : l.cells)
    for (const auto &e : c)
      sim::observe(&e, sizeof e);
}
} // namespace vm
