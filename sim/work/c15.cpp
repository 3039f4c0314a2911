#include "c15.h"

#include <algorithm>

using namespace scipp;

namespace st {
idx flat(const Logical &l, const P &c) {
  idx k = 0;
  for (size_t i = 0; i < l.shape.size(); ++i)
    k = k * l.shape[i] + c[i];
  return k;
}

Ext ext(const Logical &l) { return {l.labels, l.shape}; }

Logical gather(const Logical &src, const Ext &e,
               const std::function<idx(const P &)> &f) {
  Logical l;
  l.labels = e.labels;
  l.shape = e.shape;
  l.binned = src.binned;
  l.has_var = src.has_var;
  l.dtype = src.dtype;
  l.unit = src.unit;
  l.cells.resize(l.volume());
  each(l, [&](const auto &c, const idx k) { l.cells[k] = src.cells[f(c)]; });
  return l;
}

Logical point(const Logical &l, const Dim d, const idx i) {
  const auto at = l.find(d);
  auto e = ext(l);
  e.labels.erase(e.labels.begin() + at);
  e.shape.erase(e.shape.begin() + at);
  return gather(l, e, [&](P c) {
    c.insert(c.begin() + at, i);
    return flat(l, c);
  });
}

Logical range(const Logical &l, const Dim d, const idx begin, const idx end,
              const idx stride) {
  const auto at = l.find(d);
  auto e = ext(l);
  e.shape[at] = (end - begin + stride - 1) / stride;
  return gather(l, e, [&](P c) {
    c[at] = begin + stride * c[at];
    return flat(l, c);
  });
}

Logical spread(const Logical &l, const Ext &e) {
  Logical in;
  in.labels = e.labels;
  in.shape = e.shape;
  return gather(l, e, [&](const P &c) { return l.at(in, c); });
}

Logical permute(const Logical &l, const std::vector<Dim> &order) {
  Ext e;
  for (const auto d : order) {
    e.labels.push_back(d);
    e.shape.push_back(l.size(d));
  }
  return spread(l, e);
}

Logical rename(const Logical &l, const std::map<Dim, Dim> &names) {
  auto out = l;
  for (auto &d : out.labels)
    if (const auto it = names.find(d); it != names.end())
      d = it->second;
  return out;
}

Logical fold(const Logical &l, const Dim d, const Ext &to) {
  const auto at = l.find(d);
  Ext e;
  for (int i = 0; i < int(l.labels.size()); ++i)
    if (i == at) {
      e.labels.insert(e.labels.end(), to.labels.begin(), to.labels.end());
      e.shape.insert(e.shape.end(), to.shape.begin(), to.shape.end());
    } else {
      e.labels.push_back(l.labels[i]);
      e.shape.push_back(l.shape[i]);
    }
  return gather(l, e, [&](const P &c) {
    P in(c.begin(), c.begin() + at);
    idx k = 0;
    for (size_t i = 0; i < to.shape.size(); ++i)
      k = k * to.shape[i] + c[at + i];
    in.push_back(k);
    in.insert(in.end(), c.begin() + at + to.shape.size(), c.end());
    return flat(l, in);
  });
}

Logical flatten(const Logical &l, const std::vector<Dim> &from, const Dim to) {
  Ext e;
  const auto at = from.empty() ? int(l.labels.size()) : l.find(from.front());
  idx size = 1;
  for (const auto d : from)
    size *= l.size(d);
  for (int i = 0; i < int(l.labels.size()); ++i) {
    if (i == at) {
      e.labels.push_back(to);
      e.shape.push_back(size);
    }
    if (i < at || i >= at + int(from.size())) {
      e.labels.push_back(l.labels[i]);
      e.shape.push_back(l.shape[i]);
    }
  }
  if (at == int(l.labels.size())) {
    e.labels.push_back(to);
    e.shape.push_back(size);
  }
  return gather(l, e, [&](const P &c) {
    P in(c.begin(), c.begin() + at);
    auto k = c[at];
    P sub;
    for (auto it = from.rbegin(); it != from.rend(); ++it) {
      sub.insert(sub.begin(), k % l.size(*it));
      k /= l.size(*it);
    }
    in.insert(in.end(), sub.begin(), sub.end());
    in.insert(in.end(), c.begin() + at + 1, c.end());
    return flat(l, in);
  });
}

Logical join(const std::vector<Logical> &ls, const Dim d) {
  auto e = ext(ls.front());
  const auto at = ls.front().find(d);
  e.shape[at] = 0;
  for (const auto &l : ls)
    e.shape[at] += l.size(d);
  Logical out = ls.front();
  out.labels = e.labels;
  out.shape = e.shape;
  out.cells.assign(out.volume(), {});
  each(out, [&](const auto &c_, const idx k) {
    auto c = c_;
    for (const auto &l : ls) {
      if (c[at] < l.size(d)) {
        out.cells[k] = l.cells[l.at(out, c)];
        break;
      }
      c[at] -= l.size(d);
    }
  });
  return out;
}

bool same(const Logical &a, const Logical &b) {
  if (a.labels != b.labels || a.shape != b.shape || a.dtype != b.dtype ||
      a.unit != b.unit || a.has_var != b.has_var || a.binned != b.binned)
    return false;
  for (size_t k = 0; k < a.cells.size(); ++k) {
    if (a.cells[k].size() != b.cells[k].size())
      return false;
    for (size_t i = 0; i < a.cells[k].size(); ++i)
      if (!close(a.cells[k][i].v, b.cells[k][i].v, 0) ||
          !close(a.cells[k][i].var, b.cells[k][i].var, 0))
        return false;
  }
  return true;
}

bool is_edges(const Logical &data, const Logical &v, const Dim d) {
  if (v.find(d) < 0)
    return false;
  for (const auto o : v.labels)
    if (o != d && (data.find(o) < 0 || data.size(o) != v.size(o)))
      return false;
  return v.size(d) == (data.find(d) >= 0 ? data.size(d) + 1 : 2);
}

Dim dim_of_coord(const Logical &data, const std::string &key, const Logical &v,
                 const bool named_by_dim) {
  if (v.labels.empty())
    return Dim::Invalid;
  if (v.labels.size() == 1)
    return v.labels.front();
  if (named_by_dim) {
    for (const auto d : v.labels)
      if (is_edges(data, v, d))
        return d;
    for (const auto d : v.labels)
      if (d.name() == key)
        return d;
  }
  return Dim::Invalid;
}

Snap map_all(const Snap &a,
             const std::function<std::optional<Col>(const Col &, int,
                                                    const std::string &)> &f) {
  Snap out;
  out.name = a.name;
  out.events = a.events;
  out.data = *f(a.data, 0, "");
  const auto meta = [&](const Cols &in, Cols &to, const int kind) {
    for (const auto &[k, c] : in)
      if (auto x = f(c, kind, k))
        to[k] = *x;
  };
  meta(a.coords, out.coords, 1);
  meta(a.masks, out.masks, 2);
  meta(a.attrs, out.attrs, 3);
  const auto event = [&](const Cols &in, Cols &to) {
    for (const auto &[k, c] : in)
      to[k] = c.l.binned ? *f(c, 0, k) : c;
  };
  event(a.ecoords, out.ecoords);
  event(a.emasks, out.emasks);
  event(a.eattrs, out.eattrs);
  return out;
}

bool mentions(const Snap &a, const Dim d) {
  bool out = false;
  static_cast<void>(map_all(a, [&](const Col &c, const int kind, const auto &) {
    out |= kind != 0 && c.l.find(d) >= 0;
    return std::optional(c);
  }));
  return out;
}

Snap point(const Snap &a, const Dim d, const idx i) {
  const auto &data = a.data.l;
  return map_all(a, [&](const Col &c, const int kind, const std::string &key) {
    auto out = c;
    if (c.l.find(d) < 0)
      return std::optional(out);
    out.l = c.l.size(d) == data.size(d) ? point(c.l, d, i)
                                        : range(c.l, d, i, i + 2);
    if (kind == 1 && dim_of_coord(data, key, c.l) == d)
      out.aligned = false;
    return std::optional(out);
  });
}

Snap range(const Snap &a, const Dim d, const idx begin, const idx end,
           const idx stride) {
  const auto &data = a.data.l;
  return map_all(a, [&](const Col &c, int, const std::string &) {
    auto out = c;
    if (c.l.find(d) < 0)
      return std::optional(out);
    if (c.l.size(d) == data.size(d)) {
      out.l = range(c.l, d, begin, end, stride);
    } else {
      if (stride != 1)
        throw Reject{"stride with bin edges"};
      out.l = range(c.l, d, begin, begin == end ? end : end + 1);
    }
    return std::optional(out);
  });
}

namespace {
/// Bin edges along one of several dimensions.
Variable edge_variable(const Ext &s, const size_t along, Gen &g,
                       const bool chain) {
  Ext e = s;
  ++e.shape[along];
  // Last in memory order of the draw, so that rows can continue.
  idx row = -1, k = 0;
  Logical l;
  l.labels = e.labels;
  l.shape = e.shape;
  std::vector<double> values(l.volume());
  each(l, [&](const P &c, const idx i) {
    P other = c;
    other.erase(other.begin() + along);
    row = 0;
    for (size_t o = 0; o < other.size(); ++o)
      row = row * s.shape[o < along ? o : o + 1] + other[o];
    values[i] = chain ? double(row * s.shape[along] + c[along])
                      : double(g.in(0, 3) + 2 * c[along]);
  });
  return column(e, dtype<double>, units::m, g,
                [&](Gen &) { return values[k++]; });
}

CoordMap meta_of(const Ext &s, const ArrayOpts &o, Gen &g,
                 const char *prefix) {
  CoordMap out;
  for (int i = 0; i < 2; ++i) {
    if (sim::draw_bool())
      continue;
    const auto name = Dim(prefix + std::to_string(i));
    if (o.edges && !s.labels.empty() && sim::draw_bool()) {
      auto e = sim::draw_bool() ? s : draw_subset(s);
      if (e.labels.empty())
        continue;
      const auto along = sim::draw_bool(3)
                             ? sim::draw(uint32_t(e.labels.size()))
                             : e.labels.size() - 1;
      out.emplace_back(name,
                       edge_variable(e, along, g,
                                     !sim::draw_bool(o.chain_one_in)));
    } else {
      idx at = g.in(-40, 40);
      const bool nan = sim::draw_bool(4);
      out.emplace_back(name, column(draw_subset(s),
                                    nan ? dtype<double> : dtype<int64_t>,
                                    units::one, g, [&](Gen &r) {
                                      at += r.in(1, 3);
                                      return nan && r.in(0, 3) == 0
                                                 ? double(NAN)
                                                 : double(at);
                                    }));
    }
    if (sim::draw_bool(4))
      out.back().second.set_aligned(false);
  }
  return out;
}
} // namespace

DataArray draw_array(const ArrayOpts &o, const Ext *shape) {
  const auto s = shape ? *shape : draw_shape(o.max_ndim, o.max_volume, o.zero);
  auto g = draw_gen();
  Opts vo;
  vo.dtype = o.dtype;
  vo.unit = units::m;
  vo.variances = o.dtype == dtype<double> && sim::draw_bool(4);
  double at = g.in(0, 9);
  vo.gen = [&] { return at += double(g.in(1, 2)); };
  const int kind = o.kind >= 0 ? o.kind : sim::draw_bool() ? 0
                                          : 1 + int(sim::draw(2));
  Variable data;
  if (kind == 0) {
    data = dense(s, vo).var;
  } else if (kind == 1) {
    data = binned(s, vo).var;
  } else {
    EvOpts eo;
    eo.dtype = o.dtype;
    eo.unit = units::m;
    eo.variances = vo.variances;
    eo.max_bin = 3;
    eo.value = [&](Gen &r) { return at += double(r.in(1, 2)); };
    eo.coords.push_back({Dim("ev"), dtype<double>, [](Gen &r) {
                           return static_cast<double>(r.in(0, 20));
                         }});
    eo.mask = sim::draw_bool(3);
    data = events(s, eo);
  }
  auto coords = draw_coords(s, o.edges);
  for (auto &c : meta_of(s, o, g, "c"))
    coords.push_back(std::move(c));
  auto masks = draw_masks(s, 2);
  if (o.edges && !s.labels.empty() && sim::draw_bool(6)) {
    Ext e{{s.labels[0]}, {s.shape[0] + 1}};
    masks.emplace_back("edge mask",
                       column(e, dtype<bool>, units::none, g, [](Gen &r) {
                         return double(r.in(0, 1));
                       }));
  }
  return assemble(std::move(data), coords, masks, meta_of(s, o, g, "a"),
                  "name " + std::to_string(sim::draw(3)));
}

void expect(const DataArray &got, const Snap &want, const std::string &what,
            const bool name, const bool order, const bool aligned) {
  sim::Quiet q;
  const auto s = snap(got);
  Cmp c;
  c.name = name;
  c.order = order;
  c.readonly = false;
  c.flags = aligned;
  if (const auto d = differs(s, want, c); !d.empty())
    sim::violation("result", "%s: %s", what.c_str(), d.c_str());
  // Everything fits the sizes of the array.
  const auto fits = [&](const auto &dict, const char *kind) {
    if (static_cast<const core::Sizes &>(got.dims()) != dict.sizes())
      sim::violation("sizes", "%s: sizes of the %s differ from the data",
                     what.c_str(), kind);
  };
  fits(got.coords(), "coords");
  fits(got.masks(), "masks");
  fits(got.attrs(), "attrs");
  observe(s);
}

std::string perform(const std::string &what,
                    const std::vector<const DataArray *> &operands,
                    const std::function<DataArray()> &op, DataArray &out) {
  std::vector<Snap> before;
  for (const auto *o : operands)
    before.push_back(snap(*o));
  const auto unchanged = [&](const char *how) {
    sim::Quiet q;
    for (size_t i = 0; i < operands.size(); ++i)
      if (const auto d = differs(snap(*operands[i]), before[i]); !d.empty())
        sim::violation("operand", "%s%s: operand %d changed: %s", what.c_str(),
                       how, int(i), d.c_str());
  };
  if (sim::draw_bool(4)) {
    sim::fault_window(sim::draw(sim::draw_bool() ? 8 : 64), sim::draw_bool(3));
    try {
      out = op();
    } catch (const std::exception &) {
    }
    sim::end_fault_window();
    unchanged(" without memory");
  }
  const auto once = [&](DataArray &to) {
    try {
      to = op();
    } catch (const std::exception &e) {
      sim::Quiet q;
      return std::string("error: ") + e.what();
    }
    return std::string();
  };
  std::string error;
  if (sim::draw_bool(5)) {
    DataArray other;
    std::string error2;
    sim::concurrently({[&] { error = once(out); },
                       [&] { error2 = once(other); }});
    sim::Quiet q;
    if (error.empty() != error2.empty())
      sim::violation("threads", "%s: one of two threads failed: %s%s",
                     what.c_str(), error.c_str(), error2.c_str());
    if (error.empty())
      if (const auto d = differs(snap(other), snap(out)); !d.empty())
        sim::violation("threads", "%s: results of two threads differ: %s",
                       what.c_str(), d.c_str());
  } else {
    error = once(out);
  }
  unchanged("");
  if (error.find("more than 6 dimensions are not supported") !=
      std::string::npos)
    sim::skip("too many dimensions");
  return error;
}
} // namespace st
