// C04: concatenating the events of bins.
#include "c04.h"

#include "scipp/dataset/shape.h"
#include "scipp/variable/bin_array_model.h"

using namespace ev;

namespace {
using Lists = std::vector<std::vector<idx>>;

/// Events by id, in order, in each bin.
void expect_lists(const Logical &got, const Logical &order, const Lists &want,
                  const std::string &what) {
  bool ok = got.binned && got.labels.size() == order.labels.size();
  for (size_t i = 0; ok && i < order.labels.size(); ++i)
    ok = got.find(order.labels[i]) >= 0 &&
         got.size(order.labels[i]) == order.shape[i];
  if (!ok)
    sim::violation("result", "%s: result is %s, expected %s", what.c_str(),
                   got.str().c_str(), order.str().c_str());
  each(got, [&](const auto &c, const idx k) {
    const auto &w = want[order.at(got, c)];
    if (w.size() != got.cells[k].size())
      sim::violation("conserve", "%s: bin %ld has %zu events, expected %zu",
                     what.c_str(), long(k), got.cells[k].size(), w.size());
    for (size_t e = 0; e < w.size(); ++e)
      if (idx(got.cells[k][e].v) != w[e])
        sim::violation("order", "%s: bin %ld has event %ld at %zu, expected %ld",
                       what.c_str(), long(k), long(got.cells[k][e].v), e,
                       long(w[e]));
  });
}

Variable id_bins(const Variable &v) {
  const auto &[indices, dim, buffer] = v.constituents<DataArray>();
  return make_bins_no_validate(indices, dim, buffer.coords()[Dim("id")]);
}

Logical ids(const Variable &v) {
  return v.dtype() == dtype<core::bin<DataArray>> ? read(id_bins(v)) : read(v);
}

/// More events in other bins, like those of `a` but for the ids.
Source second(const Source &a, const Ext &outer) {
  Source s = a;
  s.outer = outer;
  s.l.labels = outer.labels;
  s.l.shape = outer.shape;
  auto g = dm::draw_gen();
  const auto &[i_, dim, buffer0] = a.da.data().constituents<DataArray>();
  static_cast<void>(i_);
  DataArray buffer = copy(buffer0);
  const auto rows = buffer.dims().volume();
  auto id = buffer.coords()[Dim("id")];
  for (auto &x : id.values<int64_t>())
    x += 1000000;
  const auto n = s.l.volume();
  core::element_array<std::pair<idx, idx>> v(n);
  s.bins.assign(n, {});
  idx at = 0;
  for (idx b = 0; b < n; ++b) {
    const auto lo = std::min(rows, at + g.in(0, 1));
    const auto hi = std::min(rows, lo + g.in(0, 4));
    at = hi;
    v.data()[b] = {lo, hi};
    for (idx r = lo; r < hi; ++r)
      s.bins[b].push_back(r);
  }
  const Variable indices(
      units::none, s.l.dims(), std::move(v),
      std::optional<core::element_array<std::pair<idx, idx>>>{});
  CoordMap coords;
  for (const auto &[k, c] : a.da.coords()) {
    bool fits = true;
    for (const auto &l : c.dims()) {
      const auto i = s.l.find(l);
      fits &= i >= 0 && (s.l.shape[i] == c.dims()[l] ||
                         s.l.shape[i] + 1 == c.dims()[l]);
    }
    if (fits && !sim::draw_bool(6))
      coords.emplace_back(k, c);
  }
  s.da = dm::assemble(dataset::make_bins(indices, dim, buffer), coords,
                      dm::draw_masks(outer, 2), {}, "second");
  return s;
}

/// The ids of the rows of a source.
Lists lists(const Source &s) {
  Lists out(s.bins.size());
  const auto &[i_, dim_, buffer] = s.da.data().constituents<DataArray>();
  static_cast<void>(i_);
  static_cast<void>(dim_);
  const auto id = buffer.coords()[Dim("id")].values<int64_t>().as_span();
  for (size_t b = 0; b < s.bins.size(); ++b)
    for (const auto r : s.bins[b])
      out[b].push_back(id[r]);
  return out;
}

SrcOpts events_only() {
  SrcOpts so;
  so.may_table = false;
  so.may_nan = false;
  return so;
}
} // namespace

/// Concatenate along a dimension.
WORKLOAD(c04_concat, "C04.concat", 60) {
  auto so = events_only();
  so.max_ndim = 3;
  const auto s = draw_source(so);
  if (s.outer.labels.empty())
    sim::skip("no dimension");
  const auto di = sim::draw(uint32_t(s.outer.labels.size()));
  const auto dim = s.outer.labels[di];
  const auto mode = sim::draw(3); // data array, bins of arrays, of variables
  const auto what = std::string("concatenate ") + s.l.str() + " along " +
                    dim.name() + " mode " + std::to_string(mode);
  Variable var = s.da.data();
  if (mode == 2)
    var = id_bins(var);
  std::set<std::string> handled;
  if (mode == 0) {
    handled.insert(dim.name());
    for (const auto &l : s.outer.labels)
      if (s.bin_edges.count(l.name()) || s.bin_coords.count(l.name()))
        handled.insert(l.name());
  }
  const auto hide = hidden(s, handled);
  const auto before = dm::snap(s.da);
  const auto columns = columns_before(s);
  DataArray result;
  Variable vresult;
  const auto error = attempt([&] {
    if (mode == 0) {
      result = dataset::buckets::concatenate(s.da, dim);
      vresult = result.data();
    } else
      vresult = dataset::buckets::concatenate(var, dim);
  });
  sim::Quiet q;
  const auto db = dm::differs(dm::snap(s.da), before);
  if (!db.empty())
    sim::violation("operand", "%s: the input changed: %s", what.c_str(),
                   db.c_str());
  if (!error.empty())
    sim::violation("rejected", "%s: %s", what.c_str(),
                   error.substr(0, 160).c_str());
  Logical order;
  for (size_t i = 0; i < s.outer.labels.size(); ++i)
    if (i != di) {
      order.labels.push_back(s.outer.labels[i]);
      order.shape.push_back(s.outer.shape[i]);
    }
  Lists want(order.volume());
  const auto in = lists(s);
  each(s.l, [&](const auto &c, const idx b) {
    if (!hide[b])
      for (const auto i : in[b])
        want[order.at(s.l, c)].push_back(i);
  });
  expect_lists(ids(vresult), order, want, what);
  const auto got = dm::snap(vresult);
  dm::observe(got);
  if (mode != 2)
    check_columns(columns, got, what);
  if (mode != 0)
    return;
  const auto all = dm::snap(result);
  for (const auto &[k, c] : before.coords) {
    const bool kept = std::none_of(c.l.labels.begin(), c.l.labels.end(),
                                   [&](const auto &l) { return l == dim; });
    dm::Cmp cmp;
    cmp.flags = false;
    if (kept != (all.coords.count(k) > 0) ||
        (kept && !dm::differs(all.coords.at(k), c, cmp).empty()))
      sim::violation("result", "%s: coord %s of the result", what.c_str(),
                     k.c_str());
  }
  for (const auto &[k, m] : before.masks) {
    const bool kept = m.l.find(dim) < 0;
    if (kept != (all.masks.count(k) > 0) ||
        (kept && !dm::differs(all.masks.at(k), m).empty()))
      sim::violation("result", "%s: mask %s of the result", what.c_str(),
                     k.c_str());
  }
}

/// Concatenate the bins of two operands, or append to one.
WORKLOAD(c04_append, "C04.append", 60) {
  auto so = events_only();
  so.masks = false;
  const auto a = draw_source(so);
  const bool in_place = sim::draw_bool();
  Ext outer = sim::draw_bool() ? draw_subset(a.outer) : a.outer;
  if (sim::draw_bool())
    shuffle(outer);
  if (sim::draw_bool(6)) {
    outer.labels.push_back(dim_of(4));
    outer.shape.push_back(idx(sim::draw(3)));
  }
  const auto b = second(a, outer);
  const auto mode = sim::draw(3); // data array, bins of arrays, of variables
  // The operand may be a view.
  DataArray target = a.da;
  Logical l = a.l;
  Lists la = lists(a), lb = lists(b);
  const auto view = sim::draw(4);
  std::vector<Dim> labels = l.labels;
  if (view == 1 && labels.size() > 1) {
    std::reverse(labels.begin(), labels.end());
    target = dataset::transpose(a.da, labels);
    std::reverse(l.labels.begin(), l.labels.end());
    std::reverse(l.shape.begin(), l.shape.end());
    Lists t(la.size());
    each(l, [&](const auto &c, const idx k) { t[k] = la[a.l.at(l, c)]; });
    la = t;
  }
  Variable ta = target.data(), vb = b.da.data();
  if (mode == 2) {
    ta = id_bins(ta);
    vb = id_bins(vb);
  }
  if (mode != 0 && view == 2 && !labels.empty()) { // slice of a variable
    const auto i = sim::draw(uint32_t(labels.size()));
    const auto n = l.shape[i];
    const idx lo = sim::draw(uint32_t(n + 1));
    const idx hi = lo + sim::draw(uint32_t(n - lo + 1));
    ta = ta.slice({labels[i], lo, hi});
    Logical part = l;
    part.shape[i] = hi - lo;
    Lists t(part.volume());
    each(part, [&](auto c, const idx k) {
      c[i] += lo;
      idx f = 0;
      for (size_t j = 0; j < c.size(); ++j)
        f = f * l.shape[j] + c[j];
      t[k] = la[f];
    });
    l = part;
    la = t;
  } else if (mode != 0 && view == 3) { // broadcast
    const auto d = dim_of(3);
    const idx n = 1 + sim::draw(3);
    auto dims = l.dims();
    dims.addInner(d, n);
    ta = broadcast(ta, dims);
    Logical wide = l;
    wide.labels.push_back(d);
    wide.shape.push_back(n);
    Lists t(wide.volume());
    for (size_t k = 0; k < t.size(); ++k)
      t[k] = la[k / n];
    l = wide;
    la = t;
  }
  const bool other_unit = mode != 2 && sim::draw_bool(10);
  if (other_unit) {
    DataArray buffer = vb.bin_buffer<DataArray>();
    buffer.data().setUnit(units::s);
  }
  const auto what = std::string(in_place ? "append" : "concatenate") + " " +
                    l.str() + " and " + b.l.str() + " mode " +
                    std::to_string(mode) + " view " + std::to_string(view);
  const auto all_a = dm::snap(a.da), all_b = dm::snap(b.da);
  const auto before = mode == 0 ? dm::snap(target) : dm::snap(ta);
  Variable alias = mode == 0 ? target.data() : ta; // not appended to
  const auto alias_before = dm::snap(alias);
  std::map<idx, Flat> columns;
  if (mode != 2) {
    columns = columns_before(a);
    collect(dm::snap(b.da), columns, "operand");
  }
  DataArray result;
  Variable vresult;
  std::string error;
  if (in_place) {
    if (mode == 0) {
      result = target;
      error = attempt([&] { dataset::buckets::append(result, b.da); });
      vresult = result.data();
    } else {
      vresult = ta;
      error = attempt([&] { dataset::buckets::append(vresult, vb); });
    }
  } else
    error = attempt([&] {
      if (mode == 0) {
        result = dataset::buckets::concatenate(target, b.da);
        vresult = result.data();
      } else
        vresult = dataset::buckets::concatenate(ta, vb);
    });
  sim::Quiet q;
  auto d = dm::differs(dm::snap(b.da), all_b);
  if (d.empty() && !(in_place && mode == 0))
    d = dm::differs(dm::snap(a.da), all_a);
  if (d.empty())
    d = dm::differs(dm::snap(alias), alias_before);
  if (!d.empty())
    sim::violation("operand", "%s: an operand changed: %s", what.c_str(),
                   d.c_str());
  if (!error.empty()) {
    if (in_place)
      d = dm::differs(mode == 0 ? dm::snap(result) : dm::snap(vresult), before);
    if (!d.empty())
      sim::violation("partial", "%s: raised %s but changed: %s", what.c_str(),
                     error.c_str(), d.c_str());
    bool dims_ok = true; // to append, the result has the dimensions of a
    if (in_place)
      for (const auto &x : b.l.labels)
        dims_ok &= l.find(x) >= 0;
    dims_ok &= view != 3 && view != 2;
    bool coords_ok = mode != 0;
    if (dims_ok && coords_ok && !other_unit)
      sim::violation("rejected", "%s: %s", what.c_str(),
                     error.substr(0, 160).c_str());
    return;
  }
  if (other_unit)
    sim::violation("unit", "%s: units of the events differ but are accepted",
                   what.c_str());
  Logical order = l;
  for (size_t i = 0; i < b.l.labels.size(); ++i)
    if (order.find(b.l.labels[i]) < 0) {
      order.labels.push_back(b.l.labels[i]);
      order.shape.push_back(b.l.shape[i]);
    }
  Lists want(order.volume());
  each(order, [&](const auto &c, const idx k) {
    want[k] = la[l.at(order, c)];
    const auto &x = lb[b.l.at(order, c)];
    want[k].insert(want[k].end(), x.begin(), x.end());
  });
  expect_lists(ids(vresult), order, want, what);
  const auto got = dm::snap(vresult);
  dm::observe(got);
  if (mode != 2)
    check_columns(columns, got, what);
}
