#include "data.h"

#include <algorithm>

#include "scipp/core/eigen.h"
#include "scipp/dataset/bins.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/shape.h"

using namespace scipp;
using scipp::core::dtype;

namespace dm {
Gen draw_gen() { return {sim::draw(1u << 30) * 0x632be59bd9b4e019ull + 1}; }

Col col(const Variable &v) { return {read(v), v.is_aligned(), v.is_readonly()}; }

namespace {
template <class D> Cols cols(const D &dict) {
  Cols out;
  for (const auto &[key, v] : dict) {
    using core::to_string;
    using units::to_string;
    out[to_string(key)] = col(v);
  }
  return out;
}

Variable same_bins(const Variable &like, Variable indices, const Dim dim,
                   const Variable &buffer) {
  auto v = variable::make_bins_no_validate(std::move(indices), dim, buffer);
  v.set_aligned(like.is_aligned());
  return v;
}

void read_data(Snap &s, const Variable &v) {
  if (v.dtype() != dtype<core::bin<DataArray>>) {
    s.data = col(v);
    return;
  }
  s.events = true;
  const auto [indices, dim, buffer] = v.constituents<DataArray>();
  const auto idc = indices;
  const auto d = dim;
  const auto as_bins = [&](const Variable &x) {
    Col c;
    if (x.dims().contains(d))
      c.l = read(same_bins(v, idc, d, x));
    else
      c.l = read(x);
    c.aligned = x.is_aligned();
    c.readonly = x.is_readonly();
    return c;
  };
  s.data = as_bins(buffer.data());
  s.data.readonly = v.is_readonly();
  s.data.aligned = v.is_aligned();
  for (const auto &[key, x] : buffer.coords())
    s.ecoords[key.name()] = as_bins(x);
  for (const auto &[key, x] : buffer.masks())
    s.emasks[key] = as_bins(x);
  for (const auto &[key, x] : buffer.attrs())
    s.eattrs[key.name()] = as_bins(x);
}
} // namespace

Snap snap(const Variable &v) {
  sim::Quiet q;
  Snap s;
  read_data(s, v);
  return s;
}

Snap snap(const DataArray &a) {
  sim::Quiet q;
  Snap s;
  s.name = a.name();
  s.readonly = a.is_readonly();
  read_data(s, a.data());
  s.coords = cols(a.coords());
  s.masks = cols(a.masks());
  s.attrs = cols(a.attrs());
  s.meta_readonly[0] = a.coords().is_readonly();
  s.meta_readonly[1] = a.masks().is_readonly();
  s.meta_readonly[2] = a.attrs().is_readonly();
  return s;
}

DsSnap snap(const Dataset &d) {
  sim::Quiet q;
  DsSnap s;
  for (const auto &dim : d.sizes())
    s.sizes.emplace_back(dim.name(), d.sizes()[dim]);
  std::sort(s.sizes.begin(), s.sizes.end());
  s.readonly = d.is_readonly();
  s.coords_readonly = d.coords().is_readonly();
  s.coords = cols(d.coords());
  for (const auto &item : d)
    s.items[item.name()] = snap(item);
  return s;
}

std::string differs(const Col &got, const Col &want, const Cmp &c) {
  const auto &g = got.l;
  const auto &w = want.l;
  if (c.order ? g.labels != w.labels || g.shape != w.shape
              : g.labels.size() != w.labels.size())
    return "dims are " + g.str() + ", expected " + w.str();
  if (g.binned != w.binned || g.dtype != w.dtype || g.has_var != w.has_var)
    return "type is " + g.str() + (g.has_var ? " with variances" : "") +
           ", expected " + w.str() + (w.has_var ? " with variances" : "");
  if (g.unit != w.unit)
    return "unit is " + g.unit.name() + ", expected " + w.unit.name();
  if (c.flags && got.aligned != want.aligned)
    return "alignment flag is wrong";
  if (c.flags && c.readonly && got.readonly != want.readonly)
    return got.readonly ? "is read-only" : "is not read-only";
  for (const auto d : w.labels)
    if (g.find(d) < 0 || g.size(d) != w.size(d))
      return "dims are " + g.str() + ", expected " + w.str();
  std::string out;
  each(w, [&](const auto &coord, const idx k) {
    if (!out.empty())
      return;
    const auto &a = g.cells[g.at(w, coord)];
    const auto &b = w.cells[k];
    if (a.size() != b.size()) {
      out = "bin " + std::to_string(k) + " has " + std::to_string(a.size()) +
            " events, expected " + std::to_string(b.size());
      return;
    }
    for (size_t i = 0; i < a.size(); ++i)
      if (!close(a[i].v, b[i].v, c.rtol) ||
          (w.has_var && !close(a[i].var, b[i].var, c.rtol))) {
        char buf[200];
        snprintf(buf, sizeof buf,
                 "cell %ld element %zu of %s is %.17g (%.17g), expected %.17g "
                 "(%.17g)",
                 long(k), i, w.str().c_str(), a[i].v, a[i].var, b[i].v,
                 b[i].var);
        out = buf;
        return;
      }
  });
  return out;
}

namespace {
std::string differs(const Cols &got, const Cols &want, const Cmp &c,
                    const char *what) {
  for (const auto &[k, w] : want) {
    const auto it = got.find(k);
    if (it == got.end())
      return std::string(what) + " " + k + " is missing";
    const auto s = dm::differs(it->second, w, c);
    if (!s.empty())
      return std::string(what) + " " + k + ": " + s;
  }
  for (const auto &[k, g] : got)
    if (!want.count(k))
      return std::string("unexpected ") + what + " " + k;
  return {};
}
} // namespace

std::string differs(const Snap &got, const Snap &want, const Cmp &c) {
  if (c.name && got.name != want.name)
    return "name is '" + got.name + "', expected '" + want.name + "'";
  if (got.events != want.events)
    return "kind of bins differs";
  if (c.flags && c.readonly && got.readonly != want.readonly)
    return got.readonly ? "is read-only" : "is not read-only";
  static const char *const meta[] = {"coords", "masks", "attrs"};
  for (int i = 0; i < 3; ++i)
    if (c.flags && c.readonly && got.meta_readonly[i] != want.meta_readonly[i])
      return std::string(meta[i]) + (got.meta_readonly[i]
                                         ? " are read-only"
                                         : " are not read-only");
  auto s = differs(got.data, want.data, c);
  if (!s.empty())
    return "data: " + s;
  const std::pair<const Cols *, const Cols *> all[] = {
      {&got.coords, &want.coords},   {&got.masks, &want.masks},
      {&got.attrs, &want.attrs},     {&got.ecoords, &want.ecoords},
      {&got.emasks, &want.emasks},   {&got.eattrs, &want.eattrs}};
  static const char *const names[] = {"coord",       "mask",       "attr",
                                      "event coord", "event mask", "event attr"};
  for (int i = 0; i < 6 && s.empty(); ++i)
    s = differs(*all[i].first, *all[i].second, c, names[i]);
  return s;
}

std::string differs(const DsSnap &got, const DsSnap &want, const Cmp &c) {
  if (got.sizes != want.sizes)
    return "sizes of the dataset differ";
  if (c.flags && c.readonly && got.readonly != want.readonly)
    return got.readonly ? "is read-only" : "is not read-only";
  if (c.flags && c.readonly && got.coords_readonly != want.coords_readonly)
    return "read-only flag of coords differs";
  auto s = differs(got.coords, want.coords, c, "coord");
  if (!s.empty())
    return s;
  for (const auto &[k, w] : want.items) {
    const auto it = got.items.find(k);
    if (it == got.items.end())
      return "item " + k + " is missing";
    s = differs(it->second, w, c);
    if (!s.empty())
      return "item " + k + ": " + s;
  }
  for (const auto &[k, g] : got.items)
    if (!want.items.count(k))
      return "unexpected item " + k;
  return {};
}

void observe(const Snap &s) {
  vm::observe(s.data.l);
  for (const auto *m : {&s.coords, &s.masks, &s.attrs, &s.ecoords, &s.emasks,
                        &s.eattrs})
    for (const auto &[k, c] : *m)
      vm::observe(c.l);
}

void observe(const DsSnap &s) {
  for (const auto &[k, c] : s.coords)
    vm::observe(c.l);
  for (const auto &[k, i] : s.items)
    observe(i);
}

Variable column(const Ext &s, const DType t, const Unit u, Gen &g,
                const std::function<double(Gen &)> &value,
                const bool variances) {
  Logical l;
  l.labels = s.labels;
  l.shape = s.shape;
  const auto dims = l.dims();
  return by_dtype(t, [&](auto x) {
    using T = decltype(x);
    const auto n = dims.volume();
    core::element_array<T> v(n);
    for (idx i = 0; i < n; ++i)
      v.data()[i] = static_cast<T>(value(g));
    std::optional<core::element_array<T>> var;
    if constexpr (std::is_floating_point_v<T>)
      if (variances) {
        var.emplace(n);
        for (idx i = 0; i < n; ++i)
          var->data()[i] = static_cast<T>(g.in(1, 9));
      }
    return Variable(u, dims, std::move(v), std::move(var));
  });
}

DataArray table(const idx n, const EvOpts &o) {
  auto g = draw_gen();
  const Ext e{{Dim(Dim::Event)}, {n}};
  const auto weight = o.value ? o.value : [](Gen &r) {
    return static_cast<double>(r.in(-9, 9));
  };
  DataArray da(column(e, o.dtype, o.unit, g, weight, o.variances));
  for (const auto &c : o.coords)
    da.coords().set(c.dim, column(e, c.dtype, units::one, g, c.value));
  if (o.mask)
    da.masks().set("em", column(e, dtype<bool>, units::none, g, [](Gen &r) {
                     return r.in(0, 3) == 0 ? 1.0 : 0.0;
                   }));
  if (o.attr)
    da.attrs().set(Dim("eattr"),
                   column(e, dtype<int64_t>, units::one, g, [](Gen &r) {
                     return static_cast<double>(r.in(0, 99));
                   }));
  return da;
}

Variable events(const Ext &s, const EvOpts &o) {
  Logical l;
  l.labels = s.labels;
  l.shape = s.shape;
  const auto dims = l.dims();
  const auto n = dims.volume();
  auto g = draw_gen();
  std::vector<std::pair<idx, idx>> ranges(n);
  std::vector<idx> order(n);
  for (idx i = 0; i < n; ++i)
    order[i] = i;
  const bool permute = o.gaps && sim::draw_bool(3);
  if (permute)
    for (idx i = n - 1; i > 0; --i)
      std::swap(order[i], order[g.in(0, i)]);
  const bool gaps = o.gaps && sim::draw_bool(3);
  idx pos = gaps ? g.in(0, 2) : 0;
  for (const auto i : order) {
    const auto size = g.in(0, o.max_bin);
    ranges[i] = {pos, pos + size};
    pos += size + (gaps ? g.in(0, 2) : 0);
  }
  core::element_array<std::pair<idx, idx>> v(n);
  for (idx i = 0; i < n; ++i)
    v.data()[i] = ranges[i];
  const Variable indices(units::none, dims, std::move(v),
                         std::optional<core::element_array<std::pair<idx, idx>>>{});
  return dataset::make_bins(indices, Dim(Dim::Event), table(pos, o));
}

CoordMap draw_coords(const Ext &s, const bool edges) {
  auto g = draw_gen();
  CoordMap out;
  for (size_t i = 0; i < s.labels.size(); ++i) {
    if (sim::draw_bool(4))
      continue;
    const bool edge = edges && sim::draw_bool(3);
    const Ext e{{s.labels[i]}, {s.shape[i] + (edge ? 1 : 0)}};
    idx at = 0;
    auto v = column(e, sim::draw_bool(4) ? dtype<int64_t> : dtype<double>,
                    units::m, g, [&at](Gen &r) {
                      at += r.in(1, 3);
                      return static_cast<double>(at);
                    });
    if (sim::draw_bool(6))
      v.set_aligned(false);
    out.emplace_back(s.labels[i], std::move(v));
  }
  static const Dim aux[] = {Dim("aux0"), Dim("aux1")};
  for (const auto &d : aux)
    if (sim::draw_bool(3)) {
      const auto e = draw_subset(s);
      auto v = column(e, dtype<double>, units::one, g, [](Gen &r) {
        return static_cast<double>(r.in(-5, 5));
      });
      if (sim::draw_bool(4))
        v.set_aligned(false);
      out.emplace_back(d, std::move(v));
    }
  return out;
}

MaskMap draw_masks(const Ext &s, const int max, const bool odd) {
  auto g = draw_gen();
  MaskMap out;
  for (int i = 0; i < max; ++i) {
    if (sim::draw_bool())
      continue;
    const auto e = draw_subset(s);
    const bool num = odd && sim::draw_bool(12);
    out.emplace_back("m" + std::to_string(i),
                     column(e, num ? dtype<double> : dtype<bool>, units::none,
                            g, [](Gen &r) {
                              return static_cast<double>(r.in(0, 2) == 0);
                            }));
  }
  return out;
}

Variable draw_data(const Ext &s, const DaOpts &o) {
  const int kind = o.kind >= 0 ? o.kind : static_cast<int>(sim::draw(3));
  Opts vo;
  vo.dtype = o.dtype;
  vo.unit = o.unit;
  vo.variances = o.variances;
  vo.lo = 1;
  if (kind == 0) {
    return dense(s, vo).var;
  }
  if (kind == 1)
    return binned(s, vo).var;
  EvOpts eo;
  eo.dtype = o.dtype;
  eo.unit = o.unit;
  eo.variances = o.variances;
  eo.value = [](Gen &r) { return static_cast<double>(r.in(1, 9)); };
  eo.coords.push_back({Dim("ev"), dtype<double>, [](Gen &r) {
                         return static_cast<double>(r.in(0, 20));
                       }});
  eo.mask = sim::draw_bool(4);
  return events(s, eo);
}

DataArray assemble(Variable data, const CoordMap &c, const MaskMap &m,
                   const CoordMap &attrs, const std::string &name) {
  DataArray da(std::move(data));
  for (const auto &[k, v] : c)
    da.coords().set(k, v);
  for (const auto &[k, v] : m)
    da.masks().set(k, v);
  for (const auto &[k, v] : attrs)
    da.attrs().set(k, v);
  da.setName(name);
  return da;
}
} // namespace dm
