// C15: concatenation of data arrays and datasets.
#include "c15.h"

#include <algorithm>

#include "scipp/core/slice.h"
#include "scipp/dataset/shape.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/operations.h"
#include "scipp/variable/shape.h"

using namespace scipp;
using namespace st;

namespace {
/// Elements of a result of concatenation, in the order of the first input that
/// has the dimension.
Logical concat_model(std::vector<Logical> ls, const Dim d) {
  const Logical *like = nullptr;
  for (const auto &l : ls)
    if (!like && l.find(d) >= 0)
      like = &l;
  Ext e;
  if (like) {
    e = ext(*like);
  } else {
    e = ext(ls.front());
    e.labels.insert(e.labels.begin(), d);
    e.shape.insert(e.shape.begin(), 1);
  }
  for (auto &l : ls) {
    Ext to;
    for (size_t i = 0; i < e.labels.size(); ++i) {
      const auto label = e.labels[i];
      const auto at = l.find(label);
      to.labels.push_back(label);
      if (label == d)
        to.shape.push_back(at < 0 ? 1 : l.shape[at]);
      else if (at >= 0 && l.shape[at] != e.shape[i])
        throw Reject{"shapes differ"};
      else if (at < 0)
        throw Unclear{};
      else
        to.shape.push_back(e.shape[i]);
    }
    for (const auto label : l.labels)
      if (std::find(e.labels.begin(), e.labels.end(), label) == e.labels.end())
        throw Unclear{};
    if (l.unit != ls.front().unit || l.dtype != ls.front().dtype ||
        l.binned != ls.front().binned || l.has_var != ls.front().has_var)
      throw Unclear{};
    l = spread(l, to);
  }
  return join(ls, d);
}

/// Meta data of one kind.
Cols concat_meta(const std::vector<const Snap *> &as, const Dim d,
                 const Cols Snap::*which, const bool coords) {
  Cols out;
  for (const auto &[key, first] : as.front()->*which) {
    std::vector<Logical> ls;
    for (const auto *a : as) {
      const auto it = (a->*which).find(key);
      if (it == (a->*which).end())
        throw Reject{key + " is missing"};
      ls.push_back(it->second.l);
    }
    Col c = first;
    if (dim_of_coord(as.front()->data.l, key, first.l, coords) == d) {
      size_t edges = 0;
      for (size_t i = 0; i < as.size(); ++i)
        edges += is_edges(as[i]->data.l, ls[i], d);
      if (edges != 0 && edges != as.size())
        throw Reject{"only some have bin edges"};
      if (edges != 0) {
        for (size_t i = 1; i < ls.size(); ++i) {
          const auto &p = ls[i - 1];
          const auto n = p.size(d);
          const auto end = point(p, d, n - 1), begin = point(ls[i], d, 0);
          if (end.labels.size() != begin.labels.size())
            throw Unclear{};
          for (const auto label : begin.labels)
            if (end.find(label) < 0)
              throw Unclear{};
          if (end.labels != begin.labels || !st::same(end, begin))
            throw Reject{"bin edges do not match"};
        }
        for (size_t i = 1; i < ls.size(); ++i)
          ls[i] = range(ls[i], d, 1, ls[i].size(d));
      }
      c.l = concat_model(ls, d);
    } else {
      bool differ = false;
      for (const auto &l : ls)
        differ |= l.find(d) >= 0 || !st::same(l, ls.front());
      if (differ) {
        // The extent of the new dimension is that of the data.
        for (size_t i = 0; i < ls.size(); ++i) {
          const auto n = as[i]->data.l.find(d);
          const auto size = n < 0 ? idx(1) : as[i]->data.l.shape[n];
          if (ls[i].find(d) < 0) {
            auto e = ext(ls[i]);
            e.labels.insert(e.labels.begin(), d);
            e.shape.insert(e.shape.begin(), size);
            ls[i] = spread(ls[i], e);
          } else if (ls[i].size(d) != size) {
            throw Unclear{};
          }
        }
        c.l = concat_model(ls, d);
      }
    }
    out[key] = c;
  }
  return out;
}

Snap concat_model(const std::vector<const Snap *> &as, const Dim d) {
  Snap out = *as.front();
  std::vector<Logical> data;
  for (const auto *a : as)
    data.push_back(a->data.l);
  out.data.l = concat_model(data, d);
  out.coords = concat_meta(as, d, &Snap::coords, true);
  out.masks = concat_meta(as, d, &Snap::masks, false);
  out.attrs = concat_meta(as, d, &Snap::attrs, true);
  // Contents of bins follow the data.
  const auto events = [&](Cols Snap::*which) {
    for (auto &[key, c] : out.*which) {
      std::vector<Logical> ls;
      for (const auto *a : as) {
        const auto it = (a->*which).find(key);
        if (it == (a->*which).end())
          throw Unclear{};
        ls.push_back(it->second.l);
      }
      if (c.l.binned)
        c.l = concat_model(ls, d);
    }
  };
  events(&Snap::ecoords);
  events(&Snap::emasks);
  events(&Snap::eattrs);
  return out;
}

/// Some change of the meta data of a copy, so that inputs differ.
DataArray mutate(const DataArray &in, std::string &log) {
  auto a = copy(in);
  const auto key_of = [&](const auto &dict) {
    auto it = dict.begin();
    for (auto n = sim::draw(uint32_t(dict.size())); n > 0; --n)
      ++it;
    return it->first;
  };
  const auto change = [&](auto &dict, const char *kind) {
    if (dict.empty())
      return;
    const auto key = key_of(dict);
    switch (sim::draw(4)) {
    case 0:
      log += std::string(" drop ") + kind;
      dict.erase(key);
      break;
    case 1:
      if (kind == std::string("mask"))
        break;
      dict.set_aligned(key, !dict.at(key).is_aligned());
      break;
    default: {
      log += std::string(" change ") + kind;
      auto v = copy(dict.at(key));
      v.set_aligned(dict.at(key).is_aligned());
      if (v.dims().volume() == 0)
        return;
      if (v.dtype() == dtype<double>)
        v.template values<double>()[0] += 1;
      else if (v.dtype() == dtype<int64_t>)
        v.template values<int64_t>()[0] += 1;
      else if (v.dtype() == dtype<bool>)
        v.template values<bool>()[0] = !v.template values<bool>()[0];
      dict.set(key, v);
    }
    }
  };
  switch (sim::draw(3)) {
  case 0:
    change(a.coords(), "coord");
    break;
  case 1:
    change(a.masks(), "mask");
    break;
  default:
    change(a.attrs(), "attr");
  }
  return a;
}

struct Pieces {
  DataArray base;
  Dim dim = Dim::Invalid;
  std::vector<DataArray> parts;
  bool whole = true; // together they are the base
  std::string log;
};

Pieces draw_pieces() {
  Pieces p;
  ArrayOpts o;
  o.max_ndim = 3;
  o.max_volume = 36;
  p.base = draw_array(o);
  {
    sim::Quiet q;
    p.log = snap(p.base).data.l.str();
  }
  const auto dims = p.base.dims();
  if (dims.ndim() == 0 || sim::draw_bool(5)) { // new dimension
    p.whole = false;
    do
      p.dim = vm::dim_of(int(sim::draw(6)));
    while (dims.contains(p.dim));
    const int n = 1 + int(sim::draw(3));
    for (int i = 0; i < n; ++i)
      p.parts.push_back(p.base);
  } else {
    p.dim = dims.label(sim::draw(uint32_t(dims.ndim())));
    const auto size = dims[p.dim];
    const bool points = sim::draw_bool(5);
    for (idx at = 0; at < size || p.parts.empty();) {
      if (size > 0 && (points || sim::draw_bool(5))) {
        p.parts.emplace_back(p.base.slice({p.dim, at}));
        ++at;
        p.whole = false;
      } else {
        const auto n = idx(sim::draw(uint32_t(size - at + 1)));
        p.parts.emplace_back(p.base.slice({p.dim, at, at + n}));
        at += n;
        if (p.parts.size() > 8)
          break;
      }
      if (at < size && p.parts.size() > 8) {
        p.whole = false;
        break;
      }
    }
    if (p.parts.size() > 8 || size == 0) // an empty slice has no bin edges
      p.whole = false;
  }
  if (sim::draw_bool(8) && p.parts.size() > 1) {
    std::swap(p.parts[0], p.parts[sim::draw(uint32_t(p.parts.size()))]);
    p.whole = false;
    p.log += " swap";
  }
  for (auto &x : p.parts) {
    if (sim::draw_bool(6)) {
      x = mutate(x, p.log);
      p.whole = false;
    }
    if (x.dims().ndim() > 1 && sim::draw_bool(6)) {
      auto order = std::vector<Dim>(x.dims().labels().begin(),
                                    x.dims().labels().end());
      std::reverse(order.begin(), order.end());
      x = dataset::transpose(x, order);
      p.log += " transpose";
      p.whole = false;
    }
    if (sim::draw_bool(6))
      x = copy(x);
  }
  p.log += "; concat " + std::to_string(p.parts.size()) + " along " +
           p.dim.name();
  for (const auto &x : p.parts)
    p.log += " " + to_string(x.dims());
  return p;
}

template <class F>
void outcome(const std::string &log, const std::string &error, F &&model,
             std::optional<Snap> &want) {
  std::string reject;
  try {
    want = model();
  } catch (const Reject &r) {
    reject = r.why;
  } catch (const Unclear &) {
    sim::skip("the model does not cover this");
  }
  if (!error.empty() && want)
    sim::violation("rejected", "%s: %s", log.c_str(),
                   error.substr(0, 300).c_str());
  if (error.empty() && !reject.empty())
    sim::violation("accepted", "%s was accepted, expected an error: %s",
                   log.c_str(), reject.c_str());
}
} // namespace

WORKLOAD(c15_concat, "C15.concat", 3) {
  const auto p = draw_pieces();
  std::vector<const DataArray *> operands;
  std::vector<Snap> snaps;
  {
    sim::Quiet q;
    for (const auto &x : p.parts) {
      operands.push_back(&x);
      snaps.push_back(snap(x));
    }
  }
  std::vector<const Snap *> in;
  for (const auto &s : snaps)
    in.push_back(&s);
  DataArray out;
  const auto error = perform(
      p.log, operands, [&] { return dataset::concat(p.parts, p.dim); }, out);
  std::optional<Snap> want;
  outcome(p.log, error, [&] { return concat_model(in, p.dim); }, want);
  if (!want)
    return;
  st::expect(out, *want, p.log, false, false, false);
  if (p.whole) // what was cut is put together again
    st::expect(out, snap(p.base), p.log + ": whole", false, false, false);
  {
    // Masks of the result belong to it alone.
    sim::Quiet q;
    for (const auto &[key, mask] : out.masks())
      for (const auto &x : p.parts)
        if (x.masks().contains(key) && mask.is_same(x.masks()[key]))
          sim::violation("shared", "%s: mask %s of the result is an operand's",
                         p.log.c_str(), key.c_str());
    for (const auto &[key, mask] : out.masks()) {
      auto v = mask;
      if (v.dtype() != dtype<bool> || v.is_readonly())
        continue;
      for (auto &e : v.values<bool>())
        e = !e;
    }
    for (size_t i = 0; i < operands.size(); ++i)
      if (const auto d = differs(snap(*operands[i]), snaps[i]); !d.empty())
        sim::violation("shared", "%s: changing masks of the result: %s",
                       p.log.c_str(), d.c_str());
  }
  // The result does not share data with what it was made from.
  if (!error.empty() || out.dims().volume() == 0 || sim::draw_bool())
    return;
  if (out.dtype() == dtype<double>) {
    for (auto &x : out.data().values<double>())
      x = -1000;
    for (size_t i = 0; i < operands.size(); ++i)
      if (const auto d = differs(snap(*operands[i]), snaps[i]); !d.empty())
        sim::violation("shared", "%s: writing to the result changes operand %d",
                       p.log.c_str(), int(i));
  }
}

WORKLOAD(c15_concat_dataset, "C15.dataset", 2) {
  // Slice all items the same way; the result has the items of all inputs, each
  // like a concatenation of the items.
  ArrayOpts o;
  o.max_volume = 24;
  const auto s = draw_shape(3, 24, true);
  const int n_items = 1 + int(sim::draw(3));
  Dataset base;
  std::vector<std::string> names;
  std::string log;
  for (int i = 0; i < n_items; ++i) {
    auto item = draw_array(o, &s);
    // Coords are shared by all items.
    if (i != 0)
      item = DataArray(item.data(), {}, item.masks().items(),
                       item.attrs().items());
    names.push_back("item " + std::to_string(i));
    base.setDataInit(names.back(), item);
  }
  const bool fresh = s.labels.empty() || sim::draw_bool(6);
  auto dim = fresh ? Dim::Invalid
                   : s.labels[sim::draw(uint32_t(s.labels.size()))];
  if (fresh)
    do
      dim = vm::dim_of(int(sim::draw(6)));
    while (std::find(s.labels.begin(), s.labels.end(), dim) != s.labels.end());
  std::vector<Dataset> parts;
  if (fresh) {
    const auto n = 2 + int(sim::draw(2));
    for (int i = 0; i < n; ++i)
      parts.push_back(base);
  } else {
    const auto size = base.sizes()[dim];
    const auto cut = idx(sim::draw(uint32_t(size + 1)));
    parts.emplace_back(base.slice({dim, 0, cut}));
    const auto second = cut + idx(sim::draw(uint32_t(size - cut + 1)));
    parts.emplace_back(base.slice({dim, cut, second}));
    if (second < size || sim::draw_bool())
      parts.emplace_back(base.slice({dim, second, size}));
  }
  // Items that one of them lacks.
  for (auto &p : parts)
    for (const auto &name : names)
      if (sim::draw_bool(8) && p.size() > 1) {
        p = copy(p);
        p.erase(name);
        log += " without " + name;
      }
  log = "datasets" + log + " concat along " + dim.name();
  std::vector<DsSnap> before;
  for (const auto &p : parts)
    before.push_back(snap(p));
  const auto unchanged = [&] {
    for (size_t i = 0; i < parts.size(); ++i)
      if (const auto d = differs(snap(parts[i]), before[i]); !d.empty())
        sim::violation("operand", "%s: operand %d changed: %s", log.c_str(),
                       int(i), d.c_str());
  };
  if (sim::draw_bool(4)) {
    sim::fault_window(sim::draw(sim::draw_bool() ? 16 : 256),
                      sim::draw_bool(3));
    try {
      static_cast<void>(dataset::concat(parts, dim));
    } catch (const std::exception &) {
    }
    sim::end_fault_window();
    sim::Quiet q;
    unchanged();
  }
  Dataset out;
  std::string error;
  try {
    out = dataset::concat(parts, dim);
  } catch (const std::exception &e) {
    error = e.what();
  }
  sim::Quiet q;
  unchanged();
  if (error.find("more than 6 dimensions") != std::string::npos)
    sim::skip("too many dimensions");
  std::map<std::string, Snap> want;
  std::string reject;
  try {
    for (const auto &name : names) {
      std::vector<Snap> in;
      for (const auto &p : parts)
        if (p.contains(name))
          in.push_back(snap(p[name]));
      if (in.size() != parts.size())
        continue;
      std::vector<const Snap *> ptr;
      for (const auto &x : in)
        ptr.push_back(&x);
      want.emplace(name, concat_model(ptr, dim));
    }
  } catch (const Reject &r) {
    reject = r.why;
  } catch (const Unclear &) {
    sim::skip("the model does not cover this");
  }
  if (want.empty() && reject.empty())
    sim::skip("no common item");
  if (!error.empty()) {
    if (reject.empty())
      sim::violation("rejected", "%s: %s", log.c_str(), error.c_str());
    return;
  }
  if (!reject.empty())
    sim::violation("accepted", "%s was accepted, expected an error: %s",
                   log.c_str(), reject.c_str());
  if (out.size() != want.size())
    sim::violation("items", "%s: %d items, expected %d", log.c_str(),
                   int(out.size()), int(want.size()));
  for (const auto &[name, w] : want) {
    if (!out.contains(name))
      sim::violation("items", "%s: lacks %s", log.c_str(), name.c_str());
    st::expect(out[name], w, log + ": " + name, false, false, false);
  }
}
