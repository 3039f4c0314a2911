// C04: binning and grouping.
#include "c04.h"

using namespace ev;

namespace {
/// bin() must put every event into the bin it belongs to.
void check_bin(const Source &s, const std::vector<Axis> &axes,
               const std::vector<Dim> &erase, const bool repeat) {
  std::set<std::string> used;
  for (const auto &a : axes)
    used.insert(a.dim.name());
  for (size_t i = 0; i < s.outer.labels.size(); ++i)
    if (s.outer.shape[i] == 0 && used.count(s.outer.labels[i].name()) &&
        s.bin_edges.count(s.outer.labels[i].name()))
      sim::skip("no bins to rebin");
  // Dimensions inside the first rebinned one are handled as well.
  std::set<std::string> handled(used.begin(), used.end());
  for (const auto &d : erase)
    handled.insert(d.name());
  bool rebin = false;
  for (const auto &d : s.outer.labels) {
    rebin |= used.count(d.name()) > 0;
    if (rebin)
      handled.insert(d.name());
  }
  const auto what = describe(s, axes) + (erase.empty() ? "" : " erase " + std::to_string(erase.size()));
  std::vector<Variable> edges, groups;
  for (const auto &a : axes) {
    (a.group ? groups : edges).push_back(a.var);
    if (sim::draw_bool(4)) // such as an unaligned coord of something else
      (a.group ? groups : edges).back().set_aligned(false);
  }
  const auto hide = hidden(s, handled);
  dm::Snap before;
  std::map<idx, Flat> columns;
  {
    sim::Quiet q;
    before = dm::snap(s.da);
    columns = columns_before(s);
  }
  DataArray result, again;
  const auto error = attempt([&] {
    result = dataset::bin(s.da, edges, groups, erase);
    if (repeat)
      again = dataset::bin(s.da, edges, groups, erase);
  });
  sim::Quiet q;
  const auto db = dm::differs(dm::snap(s.da), before);
  if (!db.empty())
    sim::violation("operand", "%s: the input changed: %s", what.c_str(),
                   db.c_str());
  if (!error.empty())
    sim::violation("rejected", "%s: %s", what.c_str(),
                   error.substr(0, 160).c_str());
  const auto got = dm::snap(result);
  dm::observe(got);
  const auto da = repeat ? dm::differs(got, dm::snap(again)) : std::string{};
  if (!da.empty())
    sim::violation("schedule", "%s: not the same when repeated: %s",
                   what.c_str(), da.c_str());
  // The model
  Logical order;
  for (const auto &d : s.outer.labels)
    if (!used.count(d.name()) &&
        std::find(erase.begin(), erase.end(), d) == erase.end()) {
      order.labels.push_back(d);
      order.shape.push_back(s.l.size(d));
    }
  for (const auto &a : axes) {
    order.labels.push_back(a.dim);
    order.shape.push_back(a.size());
  }
  Cells want(order.volume(), std::vector<std::vector<idx>>(s.bins.size()));
  for (size_t b = 0; b < s.bins.size(); ++b) {
    if (hide[b])
      continue;
    for (const auto r : s.bins[b]) {
      idx k = 0;
      for (size_t i = 0; i < order.labels.size() && k >= 0; ++i) {
        const auto d = order.labels[i];
        idx p = -1;
        const auto a = std::find_if(axes.begin(), axes.end(),
                                    [&](const auto &x) { return x.dim == d; });
        if (a == axes.end())
          p = position(s, idx(b), d);
        else if (const auto *c = s.col(d))
          p = a->find(c->values[r]);
        else
          p = a->find(s.bin_coords.at(
              d.name())[position(s, idx(b), s.bin_coord_dim.at(d.name()))]);
        k = p < 0 ? -1 : k * order.shape[i] + p;
      }
      if (k >= 0)
        want[k][b].push_back(r);
    }
  }
  std::set<std::string> dropped;
  for (const auto &a : axes)
    if (a.group)
      dropped.insert(a.dim.name());
  check_cells(s, got, order, want, dropped, what);
  check_columns(columns, got, what);
  for (const auto &[name, mask] : result.masks())
    for (const auto &[other, m] : s.da.masks())
      if (mask.is_same(m))
        sim::violation("shared", "%s: mask %s shares memory with the input",
                       what.c_str(), name.c_str());
  // Meta data
  for (const auto &a : axes) {
    const auto it = got.coords.find(a.dim.name());
    dm::Cmp c;
    c.flags = false;
    const auto d = it == got.coords.end()
                       ? std::string("missing")
                       : dm::differs(it->second, dm::snap(a.var).data, c);
    if (!d.empty())
      sim::violation("result", "%s: coord %s of the result: %s", what.c_str(),
                     a.dim.name().c_str(), d.c_str());
    if (!it->second.aligned)
      sim::violation("result", "%s: coord %s of the result is not aligned",
                     what.c_str(), a.dim.name().c_str());
  }
  if (!s.table)
    for (const auto &[name, m] : before.masks) {
      bool kept = true;
      for (const auto &d : m.l.labels)
        kept &= !handled.count(d.name());
      if (kept && (!got.masks.count(name) ||
                   !dm::differs(got.masks.at(name), m).empty()))
        sim::violation("result", "%s: mask %s is lost or changed", what.c_str(),
                       name.c_str());
      bool gone = false;
      for (const auto &d : m.l.labels)
        gone |= used.count(d.name()) > 0 ||
                std::any_of(erase.begin(), erase.end(),
                            [&](const auto &e) { return e == d; });
      if (gone && got.masks.count(name))
        sim::violation("result", "%s: mask %s is applied and kept",
                       what.c_str(), name.c_str());
    }
}
} // namespace

/// bin() with edges, groups and erased dimensions.
WORKLOAD(c04_bin, "C04.bin", 120) {
  SrcOpts so;
  so.max_ndim = sim::draw_bool(3) ? 3 : 2;
  so.outer_volume = 20;
  so.max_bin = 4;
  const auto s = draw_source(so);
  std::vector<Axis> axes; // in any order
  std::set<std::string> used;
  std::vector<Dim> names;
  for (int k = 0; k < 3; ++k)
    names.push_back(dim_of(k));
  names.push_back(Dim("g"));
  names.push_back(Dim("label"));
  for (size_t i = names.size() - 1; i > 0; --i)
    std::swap(names[i], names[sim::draw(uint32_t(i + 1))]);
  const auto wanted = 1 + sim::draw(3);
  for (const auto &d : names) {
    if (axes.size() >= wanted)
      break;
    const auto *c = s.col(d);
    const bool has = c || s.bin_coords.count(d.name());
    if (!has)
      continue;
    DType t = dtype<double>;
    if (c)
      t = c->dtype;
    else
      t = s.da.coords()[d].dtype();
    const bool group = !is_float(t) && (d.name() == "g" || d.name() == "label" ||
                                        sim::draw_bool(3));
    axes.push_back(draw_axis(d, t, group));
    used.insert(d.name());
  }
  if (axes.empty())
    sim::skip("nothing to bin by");
  std::vector<Dim> erase;
  for (const auto &d : s.outer.labels)
    if (!used.count(d.name()) && sim::draw_bool())
      erase.push_back(d);
  check_bin(s, axes, erase, true);
}

namespace {
void check_many(SrcOpts so, const std::vector<idx> &bins) {
  so.all_columns = true;
  const auto s = draw_source(so);
  std::vector<const EvCol *> cols;
  for (const auto &c : s.cols)
    cols.push_back(&c);
  for (size_t i = cols.size(); i-- > 1;)
    std::swap(cols[i], cols[sim::draw(uint32_t(i + 1))]);
  if (cols.size() < bins.size())
    sim::skip("nothing to bin by");
  std::vector<Axis> axes;
  for (const auto n : bins) {
    const auto &c = *cols[axes.size()];
    axes.push_back(draw_axis(c.dim, c.dtype,
                             !is_float(c.dtype) && sim::draw_bool(), n));
  }
  check_bin(s, axes, {}, sim::draw_bool(3));
}
} // namespace

/// Many bins, mapped in two stages.
WORKLOAD(c04_two_stages, "C04.bin.two-stage", 16) {
  SrcOpts so;
  so.max_bin = 12;
  so.span = 1200;
  so.groups = 17000;
  so.rows = sim::draw_bool(4) ? 2000 : 200;
  so.max_ndim = 1;
  const auto shape = sim::draw(3);
  so.float_coords = shape == 0 && sim::draw_bool();
  if (shape == 0)
    check_many(so, {16385 + idx(sim::draw(3000))});
  else if (shape == 1)
    check_many(so, {128 + idx(sim::draw(10)), 129 + idx(sim::draw(10))});
  else
    check_many(so, {30, 24, 23 + idx(sim::draw(3))});
}

/// Many events for many bins, mapped in chunks.
WORKLOAD(c04_chunks, "C04.bin.chunks", 4) {
  SrcOpts so;
  so.max_bin = 12;
  so.force_table = true;
  so.exact_rows = true;
  so.span = 300;
  so.groups = 700;
  // Above 8 per bin the chunks are emptied and filled again.
  so.rows = sim::draw_bool(3) ? 5400 : 2600;
  if (sim::draw_bool())
    check_many(so, {513 + idx(sim::draw(130))});
  else
    check_many(so, {20, 26 + idx(sim::draw(4))});
}

/// Many events, several threads.
WORKLOAD(c04_threads, "C04.bin.threads", 1) {
  SrcOpts so;
  so.max_bin = 12;
  so.force_table = true;
  so.exact_rows = true;
  so.rows = 100000;
  if (sim::draw_bool())
    check_many(so, {3, 2});
  else
    check_many(so, {3});
}
