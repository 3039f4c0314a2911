// C15: slicing and reshaping of data arrays.
#include "c15.h"

#include <algorithm>
#include <set>

#include "scipp/core/slice.h"
#include "scipp/dataset/shape.h"
#include "scipp/dataset/slice.h"
#include "scipp/variable/shape.h"

using namespace scipp;
using namespace st;

namespace {
std::vector<Dim> pool() {
  std::vector<Dim> out;
  for (int i = 0; i < 6; ++i)
    out.push_back(vm::dim_of(i));
  return out;
}

Dim draw_dim() { return pool()[sim::draw(6)]; }

/// A dimension of the array, rarely another one.
Dim draw_dim(const Logical &l) {
  if (l.labels.empty() || sim::draw_bool(20))
    return draw_dim();
  return l.labels[sim::draw(uint32_t(l.labels.size()))];
}

/// A dimension that coords, masks and attrs do not use.
std::optional<Dim> draw_new(const Snap &m) {
  for (int i = 0; i < 6; ++i)
    if (const auto d = draw_dim(); m.data.l.find(d) < 0 && !mentions(m, d))
      return d;
  return {};
}

Snap fold_model(const Snap &m, const Dim d, const Ext &to) {
  const auto &data = m.data.l;
  if (data.find(d) < 0)
    throw Unclear{}; // nothing to do, or an error
  idx volume = 1;
  for (const auto s : to.shape)
    volume *= s;
  if (volume != data.size(d))
    throw Reject{"sizes do not match"};
  for (const auto n : to.labels)
    if (n != d && data.find(n) >= 0)
      throw Reject{"dimension exists"};
  for (const auto n : to.labels)
    if (n != d && mentions(m, n))
      throw Unclear{};
  return map_all(m, [&](const Col &c, int, const std::string &) {
    auto out = c;
    if (c.l.find(d) < 0)
      return std::optional(out);
    if (is_edges(data, c.l, d)) {
      if (to.labels.empty())
        throw Unclear{};
      // Each row gets the edges of its cells.
      const auto left = st::fold(range(c.l, d, 0, c.l.size(d) - 1), d, to);
      const auto right = st::fold(range(c.l, d, 1, c.l.size(d)), d, to);
      const auto inner = to.labels.back();
      const auto n = left.size(inner);
      if (n == 0)
        throw Unclear{};
      out.l = join({left, range(right, inner, n - 1, n)}, inner);
    } else if (c.l.size(d) != data.size(d)) {
      throw Unclear{};
    } else {
      out.l = st::fold(c.l, d, to);
    }
    return std::optional(out);
  });
}

Snap flatten_model(const Snap &m, const std::vector<Dim> &from, const Dim to,
                   const bool all) {
  const auto &data = m.data.l;
  for (const auto d : from)
    if (data.find(d) < 0)
      throw Reject{"no such dimension"};
  if (std::set<Dim>(from.begin(), from.end()).size() != from.size())
    throw Reject{"repeated dimension"};
  for (size_t i = 1; i < from.size(); ++i)
    if (data.find(from[i]) != data.find(from[i - 1]) + 1)
      throw Reject{"not contiguous"};
  const bool is_from = std::find(from.begin(), from.end(), to) != from.end();
  if (!is_from && data.find(to) >= 0)
    throw Reject{"dimension exists"};
  if (!is_from && mentions(m, to))
    throw Unclear{};
  return map_all(m, [&](const Col &c, const int kind, const std::string &) {
    auto out = c;
    if (kind == 0) {
      out.l = st::flatten(c.l, from, to);
      return std::optional(out);
    }
    if (from.empty()) {
      if (all) // every coord of a scalar gets the new dimension
        out.l = st::flatten(c.l, {}, to);
      return std::optional(out);
    }
    const bool any = std::any_of(from.begin(), from.end(),
                                 [&](auto d) { return c.l.find(d) >= 0; });
    if (!any)
      return std::optional(out);
    Dim edge = Dim::Invalid;
    for (const auto d : from)
      if (edge == Dim::Invalid && is_edges(data, c.l, d))
        edge = d;
    // All flattened dimensions next to each other, in order.
    Ext e;
    bool placed = false;
    for (const auto d : c.l.labels) {
      if (std::find(from.begin(), from.end(), d) == from.end()) {
        e.labels.push_back(d);
        e.shape.push_back(c.l.size(d));
      } else if (!placed) {
        placed = true;
        for (const auto f : from) {
          e.labels.push_back(f);
          e.shape.push_back(c.l.find(f) >= 0 ? c.l.size(f) : data.size(f));
        }
      }
    }
    const auto l = spread(c.l, e);
    if (edge == Dim::Invalid) {
      for (const auto d : from)
        if (l.size(d) != data.size(d))
          throw Unclear{};
      out.l = st::flatten(l, from, to);
      return std::optional(out);
    }
    const auto n = l.size(edge);
    const auto left = st::flatten(range(l, edge, 0, n - 1), from, to);
    const auto right = st::flatten(range(l, edge, 1, n), from, to);
    const auto size = left.size(to);
    if (size == 0)
      throw Unclear{};
    // Kept if the cells stay connected.
    if (!st::same(range(left, to, 1, size), range(right, to, 0, size - 1)))
      return std::optional<Col>{};
    out.l = join({left, range(right, to, size - 1, size)}, to);
    return std::optional(out);
  });
}

/// Positions selected by label in a coord.
struct Labels {
  std::vector<double> c;
  idx n; // of the data
  bool edges;
  bool ascending;
};

std::optional<Labels> labels_of(const Snap &m, const Logical &coord) {
  Labels l;
  l.n = m.data.l.size(coord.labels.front());
  for (const auto &x : coord.cells)
    l.c.push_back(x[0].v);
  if (std::any_of(l.c.begin(), l.c.end(), [](double x) { return x != x; }))
    throw Unclear{}; // NaN has no place in an order
  l.edges = idx(l.c.size()) == l.n + 1;
  const bool up = std::is_sorted(l.c.begin(), l.c.end());
  const bool down = std::is_sorted(l.c.rbegin(), l.c.rend());
  if (l.c.size() == 1)
    l.ascending = true;
  else if (up == down)
    return {};
  else
    l.ascending = up;
  return l;
}

Snap label_point(const Snap &m, const std::string &key, const double value) {
  const auto &coord = m.coords.at(key).l;
  const auto d = coord.labels.front();
  const auto n = m.data.l.size(d);
  if (coord.size(d) == n + 1) {
    const auto l = labels_of(m, coord);
    if (!l)
      throw Reject{"edges not sorted"};
    for (idx i = 0; i < n; ++i)
      if (l->ascending ? l->c[i] <= value && value < l->c[i + 1]
                       : l->c[i] >= value && value > l->c[i + 1])
        return point(m, d, i);
    throw Reject{"not in any bin"};
  }
  idx at = -1;
  for (idx i = 0; i < n; ++i)
    if (coord.cells[i][0].v == value) {
      if (at >= 0)
        throw Reject{"not unique"};
      at = i;
    }
  if (at < 0)
    throw Reject{"no such value"};
  return point(m, d, at);
}

Snap label_range(const Snap &m, const std::string &key,
                 const std::optional<double> begin,
                 const std::optional<double> end) {
  const auto &coord = m.coords.at(key).l;
  const auto d = coord.labels.front();
  const auto l = labels_of(m, coord);
  if (!l)
    throw Reject{"not sorted"};
  const auto sign = l->ascending ? 1 : -1;
  const auto before = [&](const double a, const double b) {
    return sign * a < sign * b;
  };
  if (begin && end && before(*end, *begin))
    throw Unclear{};
  // Everything that lies in [begin, end), for bins: that overlaps with it.
  idx first = -1, last = 0, next = 0;
  for (idx i = 0; i < l->n; ++i) {
    const bool in = l->edges ? (!begin || before(*begin, l->c[i + 1])) &&
                                   (!end || before(l->c[i], *end))
                             : (!begin || !before(l->c[i], *begin)) &&
                                   (!end || before(l->c[i], *end));
    if (in && first < 0)
      first = i;
    if (in)
      last = i + 1;
    if (!end || before(l->c[i], *end))
      next = i + 1; // where an empty range lies does not matter for the data
  }
  if (first >= 0)
    return range(m, d, first, last);
  static_cast<void>(next);
  throw Unclear{};
}

struct History {
  DataArray a;
  Snap m;
  std::string log;

  // Anything but a slice takes new entries, and where several elements of an
  // entry are the same memory it cannot be written.
  void expect_open(const DataArray &out) const {
    sim::Quiet q;
    if (out.is_readonly() || out.coords().is_readonly() ||
        out.masks().is_readonly() || out.attrs().is_readonly())
      sim::violation("flag", "%s: dictionaries of the result are read-only",
                     log.c_str());
    const auto check = [&](const auto &dict, const char *kind) {
      for (const auto &[key, v] : dict) {
        idx span = 1;
        const auto &d = v.dims();
        for (idx i = 0; i < d.ndim(); ++i)
          span += (d.shape()[i] - 1) * std::abs(v.strides()[i]);
        if (d.volume() != 0 && d.volume() > span && !v.is_readonly())
          sim::violation("flag", "%s: shared elements of %s can be written",
                         log.c_str(), kind);
      }
    };
    check(out.coords(), "a coord");
    check(out.masks(), "a mask");
    check(out.attrs(), "an attr");
  }

  void step(const std::string &what, const std::function<DataArray()> &op,
            const std::function<Snap()> &model, const bool name = true) {
    log += (log.empty() ? "" : "; ") + what;
    std::optional<Snap> want;
    bool unclear = false;
    std::string reject;
    try {
      want = model();
    } catch (const Reject &r) {
      reject = r.why;
    } catch (const Unclear &) {
      unclear = true;
    }
    DataArray out;
    const auto error = perform(log, {&a}, op, out);
    if (!error.empty()) {
      if (want)
        sim::violation("rejected", "%s: %s", log.c_str(),
                       error.substr(0, 300).c_str());
      log += " (rejected)";
      return;
    }
    if (!reject.empty())
      sim::violation("accepted", "%s was accepted, expected an error: %s",
                     log.c_str(), reject.c_str());
    if (unclear)
      sim::skip("the model does not cover this");
    st::expect(out, *want, log, name);
    if (what.rfind("slice", 0) != 0 && what.rfind("select", 0) != 0)
      expect_open(out);
    // A slice keeps what it is a slice of alive.
    a = out;
    m = snap(a);
  }

  void slice() {
    const auto d = draw_dim(m.data.l);
    const bool has = m.data.l.find(d) >= 0;
    const auto n = has ? m.data.l.size(d) : idx(3);
    if (sim::draw_bool(3)) {
      const auto i = idx(sim::draw(uint32_t(n + (sim::draw_bool(8) ? 2 : 0)) + (n == 0)));
      step("slice " + d.name() + " " + std::to_string(i),
           [&] { return DataArray(a.slice({d, i})); },
           [&] {
             if (!has || i >= n)
               throw Reject{"out of range"};
             return point(m, d, i);
           });
    } else {
      const auto b = idx(sim::draw(uint32_t(n + 1)));
      const auto e =
          b + idx(sim::draw(uint32_t(n - b + (sim::draw_bool(16) ? 2 : 1))));
      const auto stride = sim::draw_bool(4) ? 2 + idx(sim::draw(2)) : idx(1);
      step("slice " + d.name() + " " + std::to_string(b) + ":" +
               std::to_string(e) + ":" + std::to_string(stride),
           [&] { return DataArray(a.slice({d, b, e, stride})); },
           [&] {
             if (!has || e > n)
               throw Reject{"out of range"};
             return range(m, d, b, e, stride);
           });
    }
  }

  void by_label() {
    std::vector<std::string> keys;
    for (const auto &[k, c] : m.coords)
      if (c.l.labels.size() == 1 && m.data.l.find(c.l.labels[0]) >= 0)
        keys.push_back(k);
    if (keys.empty())
      return slice();
    const auto key = keys[sim::draw(uint32_t(keys.size()))];
    const auto &c = m.coords.at(key);
    const auto dim = Dim(key);
    const auto value = [&] {
      if (!c.l.cells.empty() && !sim::draw_bool(3))
        return c.l.cells[sim::draw(uint32_t(c.l.cells.size()))][0].v;
      return double(sim::draw_in(-10, 30)) + (sim::draw_bool() ? 0.5 : 0.0);
    };
    const auto unit =
        sim::draw_bool(20) ? units::Unit(units::kg) : units::Unit(c.l.unit);
    const auto variable = [&](const double v) {
      return by_dtype(c.l.dtype, [&](auto x) {
        using T = decltype(x);
        core::element_array<T> e(1);
        e.data()[0] = static_cast<T>(v);
        return Variable(unit, core::Dimensions{}, std::move(e),
                        std::optional<core::element_array<T>>{});
      });
    };
    const auto as_stored = [&](const double v) {
      return c.l.dtype == dtype<int64_t> ? double(int64_t(v)) : v;
    };
    if (sim::draw_bool()) {
      const auto v = value();
      const auto var = variable(v);
      step("select " + key + " " + std::to_string(v),
           [&] { return dataset::slice(a, dim, var); },
           [&] {
             if (unit != c.l.unit)
               throw Reject{"unit"};
             return label_point(m, key, as_stored(v));
           });
    } else {
      std::optional<double> b, e;
      if (!sim::draw_bool(4))
        b = value();
      if (!sim::draw_bool(4))
        e = value();
      const auto vb = b ? variable(*b) : Variable{};
      const auto ve = e ? variable(*e) : Variable{};
      if (b)
        b = as_stored(*b);
      if (e)
        e = as_stored(*e);
      step("select " + key + " " + (b ? std::to_string(*b) : "") + ":" +
               (e ? std::to_string(*e) : ""),
           [&] { return dataset::slice(a, dim, vb, ve); },
           [&] {
             if ((b || e) && unit != c.l.unit)
               throw Reject{"unit"};
             return label_range(m, key, b, e);
           });
    }
  }

  void transpose() {
    auto order = m.data.l.labels;
    Ext e{order, m.data.l.shape};
    shuffle(e);
    order = e.labels;
    bool bad = false;
    if (sim::draw_bool(12)) {
      if (order.empty() || sim::draw_bool()) {
        order.push_back(draw_dim());
        bad = true;
      } else {
        order.pop_back();
        bad = !order.empty();
      }
    }
    std::string what = "transpose";
    for (const auto d : order)
      what += " " + d.name();
    step(what, [&] { return dataset::transpose(a, order); },
         [&] {
           if (bad)
             throw Reject{"not a permutation"};
           auto full = order;
           if (full.empty())
             full.assign(m.data.l.labels.rbegin(), m.data.l.labels.rend());
           return map_all(m, [&](const Col &c, const int kind, const auto &) {
             auto out = c;
             if (kind == 0)
               out.l = permute(c.l, full);
             return std::optional(out);
           });
         });
  }

  void fold() {
    if (m.data.l.labels.empty())
      return transpose();
    const auto d = draw_dim(m.data.l);
    const bool has = m.data.l.find(d) >= 0;
    auto left = has ? m.data.l.size(d) : idx(4);
    Ext to;
    std::string what = "fold " + d.name() + " into";
    const int n = 1 + int(sim::draw(3));
    for (int i = 0; i < n; ++i) {
      const auto name = sim::draw_bool(3) && i == 0 ? std::optional(d)
                                                    : draw_new(m);
      if (!name ||
          std::find(to.labels.begin(), to.labels.end(), *name) !=
              to.labels.end())
        continue;
      idx size = left;
      if (i + 1 < n && left > 0) {
        std::vector<idx> div;
        for (idx k = 1; k <= left; ++k)
          if (left % k == 0)
            div.push_back(k);
        size = div[sim::draw(uint32_t(div.size()))];
        left /= size;
      }
      to.labels.push_back(*name);
      to.shape.push_back(size);
    }
    if (to.labels.empty())
      return;
    if (sim::draw_bool(16))
      ++to.shape[sim::draw(uint32_t(to.shape.size()))];
    if (sim::draw_bool(24) && !m.data.l.labels.empty())
      to.labels[0] = m.data.l.labels[0];
    if (std::set<Dim>(to.labels.begin(), to.labels.end()).size() !=
        to.labels.size())
      return;
    for (size_t i = 0; i < to.labels.size(); ++i)
      what += " " + to.labels[i].name() + ":" + std::to_string(to.shape[i]);
    Logical l;
    l.labels = to.labels;
    l.shape = to.shape;
    const auto dims = l.dims();
    step(what, [&] { return dataset::fold(a, d, dims); },
         [&] { return fold_model(m, d, to); });
  }

  void flatten() {
    const auto &labels = m.data.l.labels;
    std::vector<Dim> from;
    const bool all = sim::draw_bool(4);
    if (all) {
      from = labels;
    } else if (!labels.empty()) {
      const auto b = sim::draw(uint32_t(labels.size()));
      const auto e = b + sim::draw(uint32_t(labels.size() - b + 1));
      from.assign(labels.begin() + b, labels.begin() + e);
      if (sim::draw_bool(10) && from.size() > 1)
        std::swap(from[0], from[1]);
      if (sim::draw_bool(20))
        from.push_back(draw_dim());
    }
    const auto fresh = draw_new(m);
    const auto to = !from.empty() && sim::draw_bool(4)
                        ? from[sim::draw(uint32_t(from.size()))]
                    : fresh && !sim::draw_bool(12) ? *fresh
                                                   : draw_dim();
    std::string what = all ? "flatten all" : "flatten";
    for (const auto d : from)
      what += " " + d.name();
    what += " to " + to.name();
    std::optional<span<const Dim>> opt;
    if (!all)
      opt = span<const Dim>(from.data(), from.size());
    step(what, [&] { return dataset::flatten(a, opt, to); },
         [&] { return flatten_model(m, from, to, all); });
  }

  void squeeze() {
    const auto &l = m.data.l;
    std::vector<Dim> ones;
    for (size_t i = 0; i < l.labels.size(); ++i)
      if (l.shape[i] == 1)
        ones.push_back(l.labels[i]);
    std::optional<span<const Dim>> opt;
    auto dims = ones;
    std::string what = "squeeze all";
    bool bad = false;
    if (sim::draw_bool()) {
      what = "squeeze";
      dims.clear();
      for (const auto d : ones)
        if (sim::draw_bool())
          dims.push_back(d);
      if (sim::draw_bool(12) && !l.labels.empty()) {
        const auto d = draw_dim(l);
        bad = l.find(d) < 0 || l.size(d) != 1;
        if (!bad && std::find(dims.begin(), dims.end(), d) == dims.end())
          dims.push_back(d);
        else if (bad)
          dims.push_back(d);
      }
      for (const auto d : dims)
        what += " " + d.name();
      opt = span<const Dim>(dims.data(), dims.size());
    }
    step(what, [&] { return dataset::squeeze(a, opt); },
         [&] {
           if (bad)
             throw Reject{"length is not 1"};
           auto out = m;
           for (const auto d : dims)
             out = point(out, d, 0);
           return out;
         });
  }

  void rename() {
    std::vector<std::pair<Dim, Dim>> names;
    std::map<Dim, Dim> map;
    bool bad = false;
    const auto &l = m.data.l;
    if (l.labels.size() > 1 && sim::draw_bool(16)) { // rotate two
      const auto x = l.labels[0], y = l.labels[1];
      names = {{x, y}, {y, x}};
      map = {{x, y}, {y, x}};
    } else {
      auto from = draw_dim(l);
      const auto fresh = draw_new(m);
      // Of coords only, as edges of a dimension that was sliced
      std::vector<Dim> left;
      for (const auto d : pool())
        if (l.find(d) < 0 && mentions(m, d))
          left.push_back(d);
      const bool use_left = !left.empty() && sim::draw_bool();
      const auto to = use_left ? left[sim::draw(uint32_t(left.size()))]
                      : fresh && !sim::draw_bool(10) ? *fresh
                                                     : draw_dim();
      if (use_left && sim::draw_bool()) // where its two values would fit
        for (size_t i = 0; i < l.labels.size(); ++i)
          if (l.shape[i] == 1 || l.shape[i] == 2)
            from = l.labels[i];
      names = {{from, to}};
      map = {{from, to}};
      bad = l.find(from) < 0 ||
            (to != from && (l.find(to) >= 0 || mentions(m, to)));
    }
    std::string what = "rename";
    for (const auto &[f, t] : names)
      what += " " + f.name() + " to " + t.name();
    step(what, [&] { return a.rename_dims(names); },
         [&] {
           if (names.size() > 1)
             throw Unclear{}; // names are replaced one after the other
           if (bad)
             throw Reject{"duplicate or unknown"};
           return map_all(m, [&](const Col &c, int, const auto &) {
             auto out = c;
             out.l = st::rename(c.l, map);
             return std::optional(out);
           });
         });
  }

  void resize() {
    if (m.data.l.binned)
      return squeeze();
    const auto d = draw_dim(m.data.l);
    const auto size = idx(sim::draw(6)) - (sim::draw_bool(20) ? 1 : 0);
    step("resize " + d.name() + " to " + std::to_string(size),
         [&] {
           return dataset::resize(a, d, size, FillValue::Default);
         },
         [&] {
           if (m.data.l.find(d) < 0 || size < 0)
             throw Reject{"no such dimension or negative size"};
           return map_all(
               m, [&](const Col &c, const int kind, const std::string &) {
                 auto out = c;
                 if (kind != 0)
                   return c.l.find(d) < 0 ? std::optional(out)
                                          : std::optional<Col>{};
                 out.l.shape[out.l.find(d)] = size;
                 out.l.resize_cells();
                 for (auto &x : out.l.cells)
                   x[0] = Elem{};
                 return std::optional(out);
               });
         });
  }

  void take_copy() {
    step("copy", [&] { return copy(a); }, [&] { return m; });
  }
};
} // namespace

WORKLOAD(c15_reshape, "C15.reshape", 6) {
  History h;
  ArrayOpts o;
  h.a = draw_array(o);
  h.m = snap(h.a);
  h.log = h.m.data.l.str();
  st::expect(h.a, h.m, h.log);
  const int n = 1 + int(sim::draw(7));
  for (int i = 0; i < n; ++i)
    switch (sim::draw(13)) {
    case 0:
    case 1:
      h.slice();
      break;
    case 2:
    case 3:
      h.by_label();
      break;
    case 4:
      h.transpose();
      break;
    case 5:
    case 6:
      h.fold();
      break;
    case 7:
    case 8:
      h.flatten();
      break;
    case 9:
      h.squeeze();
      break;
    case 10:
    case 11:
      h.rename();
      break;
    default:
      if (sim::draw_bool(3))
        h.resize();
      else
        h.take_copy();
    }
}
