// C09: histories of changes to dicts, sizes, data arrays and datasets against
// a model of who shares what.
#include "data.h"

#include <algorithm>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

#include "scipp/core/dict.h"
#include "scipp/core/dimensions.h"
#include "scipp/core/sizes.h"
#include "scipp/core/slice.h"
#include "scipp/dataset/except.h"
#include "scipp/dataset/sized_dict.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/variable_factory.h"

using namespace scipp;
using scipp::dataset::AttrPolicy;
using scipp::dataset::Attrs;
using scipp::dataset::Coords;
using scipp::dataset::DataArray;
using scipp::dataset::Dataset;
using scipp::dataset::Masks;
using idx = scipp::index;
using Names = std::vector<std::pair<Dim, Dim>>;

namespace {
/// Thrown by the model before it changes anything.
struct Reject {
  std::string why;
};

using MSizes = std::vector<std::pair<Dim, idx>>; // no meaning in the order

idx size_of(const MSizes &s, const Dim d) {
  for (const auto &[dim, n] : s)
    if (dim == d)
      return n;
  return -1;
}
bool has(const MSizes &s, const Dim d) { return size_of(s, d) >= 0; }

MSizes sizes_of(const Dimensions &d) {
  MSizes out;
  for (idx i = 0; i < d.ndim(); ++i)
    out.emplace_back(d.label(i), d.size(i));
  return out;
}

bool same_sizes(const MSizes &a, const MSizes &b) {
  return a.size() == b.size() &&
         std::all_of(a.begin(), a.end(),
                     [&](auto &x) { return size_of(b, x.first) == x.second; });
}

void check_slice(const MSizes &s, const Slice &p) {
  if (p == Slice{})
    return;
  const auto n = size_of(s, p.dim());
  if (n < 0 || (p.isRange() ? p.end() > n : p.begin() >= n))
    throw Reject{"slice out of range"};
}

MSizes slice_sizes(const MSizes &s, const Slice &p) {
  check_slice(s, p);
  MSizes out;
  for (const auto &[d, n] : s)
    if (p == Slice{} || d != p.dim())
      out.emplace_back(d, n);
    else if (p.isRange())
      out.emplace_back(d, (p.end() - p.begin() + p.stride() - 1) / p.stride());
  return out;
}

MSizes rename_sizes(MSizes s, const Names &names, const bool must_exist) {
  for (const auto &[from, to] : names) {
    if (!has(s, from)) {
      if (must_exist)
        throw Reject{"no dimension to rename"};
      continue;
    }
    if (from != to && has(s, to))
      throw Reject{"duplicate dimension"};
    for (auto &[d, n] : s)
      if (d == from)
        d = to;
  }
  return s;
}

/// Ordered dict of variables with dims limited by `sizes`.
template <class K> struct MDict {
  MSizes sizes;
  std::vector<std::pair<K, Variable>> items;
  bool readonly = false;

  auto find(const K &k) {
    return std::find_if(items.begin(), items.end(),
                        [&](auto &x) { return x.first == k; });
  }
  auto find(const K &k) const {
    return std::find_if(items.begin(), items.end(),
                        [&](auto &x) { return x.first == k; });
  }
  bool contains(const K &k) const { return find(k) != items.end(); }
  const Variable &at(const K &k) const {
    const auto it = find(k);
    if (it == items.end())
      throw Reject{"no such key"};
    return it->second;
  }
  void writable() const {
    if (readonly)
      throw Reject{"read-only dict"};
  }
  void expect_fits(const Variable &v) const {
    if (is_bins(v))
      throw Reject{"binned"};
    auto dims = sizes_of(v.dims());
    for (auto it = dims.begin(); it != dims.end(); ++it) {
      const auto n = size_of(sizes, it->first);
      if (n < 0 && it->second == 2) { // edges of a dimension that was sliced
        dims.erase(it);
        break;
      }
      if (n >= 0 && it->second == n + 1) { // edges
        it->second = n;
        break;
      }
    }
    for (const auto &[d, n] : dims)
      if (size_of(sizes, d) != n)
        throw Reject{"dimensions"};
  }
  void put(const K &k, const Variable &v) {
    if (const auto it = find(k); it != items.end())
      it->second = v;
    else
      items.emplace_back(k, v);
  }
  void set(const K &k, const Variable &v) {
    if (contains(k) && at(k).is_same(v))
      return;
    writable();
    expect_fits(v);
    put(k, v);
  }
  Variable extract(const K &k) {
    writable();
    auto out = at(k);
    items.erase(find(k));
    return out;
  }
  void set_aligned(const K &k, const bool a) {
    writable();
    static_cast<void>(at(k));
    find(k)->second.set_aligned(a);
  }
  /// Dimension a key belongs to.
  Dim dim_of(const K &k) const {
    const auto &v = at(k);
    if (v.dims().ndim() == 0)
      return Dim::Invalid;
    if (v.dims().ndim() == 1)
      return v.dims().inner();
    if constexpr (std::is_same_v<K, Dim>) {
      for (const auto &dim : v.dims()) {
        bool edges = v.dims()[dim] ==
                     (has(sizes, dim) ? size_of(sizes, dim) + 1 : 2);
        if (!sizes.empty())
          for (const auto &d : v.dims())
            edges &= d == dim || size_of(sizes, d) == v.dims()[d];
        if (edges)
          return dim;
      }
      if (v.dims().contains(k))
        return k;
    }
    return Dim::Invalid;
  }
  MDict slice(const Slice &p, const bool coords) const {
    MDict out;
    out.sizes = slice_sizes(sizes, p);
    for (const auto &[k, v] : items) {
      if (p == Slice{}) {
        out.items.emplace_back(k, v);
      } else if (!v.dims().contains(p.dim())) {
        out.items.emplace_back(k, v.as_const());
      } else if (v.dims()[p.dim()] == size_of(sizes, p.dim())) {
        out.items.emplace_back(k, v.slice(p));
      } else { // edges
        if (p.stride() != 1)
          throw Reject{"stride with edges"};
        const auto end = !p.isRange()             ? p.begin() + 2
                         : p.begin() == p.end() ? p.end()
                                                : p.end() + 1;
        out.items.emplace_back(k, v.slice(Slice{p.dim(), p.begin(), end}));
      }
      if (coords && p != Slice{} && !p.isRange() &&
          v.dims().contains(p.dim()) && dim_of(k) == p.dim())
        out.items.back().second.set_aligned(false);
    }
    out.readonly = true;
    return out;
  }
  MDict rename(const Names &names, const bool must_exist) const {
    MDict out = *this;
    out.readonly = false;
    out.sizes = rename_sizes(sizes, names, must_exist);
    for (auto &[k, v] : out.items) {
      for (const auto &[from, to] : names)
        if (!has(sizes, to) && v.dims().contains(to))
          throw Reject{"would get the name of edges"};
      static_cast<void>(rename_sizes(sizes_of(v.dims()), names, false));
      v = v.rename_dims(names, false);
    }
    return out;
  }
  MDict as_const() const {
    MDict out = *this;
    for (auto &[k, v] : out.items)
      v = v.as_const();
    out.readonly = true;
    return out;
  }
  MDict copy() const {
    MDict out = *this;
    out.readonly = false;
    return out;
  }
};
using MCoords = MDict<Dim>;
using MMasks = MDict<std::string>;

template <class K> bool equal(const MDict<K> &a, const MDict<K> &b) {
  if (a.items.size() != b.items.size())
    return false;
  for (const auto &[k, v] : a.items)
    if (!b.contains(k) || b.at(k) != v ||
        b.at(k).is_aligned() != v.is_aligned())
      return false;
  return true;
}

struct MArray {
  std::string name;
  std::shared_ptr<Variable> data;
  std::shared_ptr<MCoords> coords;
  std::shared_ptr<MMasks> masks;
  std::shared_ptr<MCoords> attrs;
  bool readonly = false;

  MSizes sizes() const { return sizes_of(data->dims()); }

  static MArray make(const Variable &data, const MCoords &coords,
                     const MMasks &masks, const MCoords &attrs,
                     const std::string &name) {
    MArray out;
    out.name = name;
    out.data = std::make_shared<Variable>(data);
    out.coords = std::make_shared<MCoords>(coords);
    out.masks = std::make_shared<MMasks>(masks);
    out.attrs = std::make_shared<MCoords>(attrs);
    return out;
  }
  MArray copy() const {
    return make(*data, coords->copy(), masks->copy(), attrs->copy(), name);
  }
  MArray as_const() const {
    auto out = make(data->as_const(), coords->as_const(), masks->as_const(),
                    attrs->as_const(), name);
    out.readonly = true;
    return out;
  }
  MArray slice(const Slice &p) const {
    check_slice(sizes(), p);
    auto out = make(data->slice(p), coords->slice(p, true),
                    masks->slice(p, false), attrs->slice(p, false), name);
    out.readonly = true;
    return out;
  }
  MArray rename(const Names &names, const bool must_exist) const {
    static_cast<void>(rename_sizes(sizes(), names, must_exist));
    return make(data->rename_dims(names, must_exist),
                coords->rename(names, false), masks->rename(names, false),
                attrs->rename(names, false), name);
  }
  void set_data(const Variable &v) {
    if (data->is_same(v))
      return;
    if (readonly)
      throw Reject{"read-only array"};
    if (!same_sizes(sizes(), sizes_of(v.dims())))
      throw Reject{"dimensions"};
    *data = v;
  }
};

struct MDataset {
  MCoords coords;
  std::vector<std::pair<std::string, MArray>> items;
  bool readonly = false;

  auto find(const std::string &k) {
    return std::find_if(items.begin(), items.end(),
                        [&](auto &x) { return x.first == k; });
  }
  bool contains(const std::string &k) { return find(k) != items.end(); }
  void writable() const {
    if (readonly)
      throw Reject{"read-only dataset"};
  }
  /// What users get for an item.
  MArray item(const std::string &k) {
    const auto it = find(k);
    if (it == items.end())
      throw Reject{"no such item"};
    auto out = it->second; // shares
    out.name = k;
    auto c = std::make_shared<MCoords>();
    c->sizes = out.sizes();
    for (const auto &[dim, v] : coords.items) {
      bool applies = true;
      for (const auto &d : v.dims())
        applies &= out.data->dims().contains(d);
      if (applies)
        c->items.emplace_back(dim, v.as_const());
    }
    c->readonly = true;
    out.coords = c;
    out.readonly = readonly;
    return out;
  }
  void put(const std::string &k, const MArray &a) {
    if (const auto it = find(k); it != items.end())
      it->second = a;
    else
      items.emplace_back(k, a);
  }
  void set_coord(const Dim d, const Variable &v) {
    writable();
    coords.set(d, v);
  }
  void set_data(const std::string &k, const Variable &v,
                const bool keep = false) {
    writable();
    if (!same_sizes(coords.sizes, sizes_of(v.dims())))
      throw Reject{"dimensions"};
    MCoords attrs, none;
    MMasks masks;
    if (keep && contains(k)) {
      attrs = find(k)->second.attrs->copy();
      masks = find(k)->second.masks->copy();
    }
    none.sizes = masks.sizes = attrs.sizes = sizes_of(v.dims());
    put(k, MArray::make(v, none, masks, attrs, ""));
  }
  void set_data(const std::string &k, const MArray &a) {
    if (contains(k)) {
      const auto old = item(k);
      if (old.data->is_same(*a.data) && equal(*old.masks, *a.masks) &&
          equal(*old.attrs, *a.attrs) && equal(*old.coords, *a.coords))
        return;
    }
    for (const auto &[d, v] : a.coords->items)
      if (coords.contains(d) && coords.at(d).is_aligned() == v.is_aligned() &&
          !equals_nan(coords.at(d), v))
        throw Reject{"mismatching coord"};
    const auto src = a.copy(); // in case it is an item of this dataset
    set_data(k, *src.data);
    for (const auto &[d, v] : src.coords->items)
      if (!coords.contains(d))
        set_coord(d, v);
    auto &it = find(k)->second;
    *it.masks = *src.masks;
    *it.attrs = *src.attrs;
  }
  void erase(const std::string &k) {
    writable();
    if (!contains(k))
      throw Reject{"no such item"};
    items.erase(find(k));
  }
  MDataset copy() const {
    MDataset out = *this;
    out.coords.readonly = false;
    out.readonly = false;
    for (auto &[k, a] : out.items)
      a = a.copy();
    return out;
  }
  MDataset slice(const Slice &p) const {
    MDataset out;
    out.coords = coords.slice(p, true);
    for (const auto &[k, a] : items) {
      auto it = a.slice(p);
      it.readonly = false;
      out.items.emplace_back(k, it);
    }
    out.readonly = true;
    return out;
  }
  MDataset rename(const Names &names) {
    MDataset out;
    out.coords = coords.rename(names, true);
    for (const auto &[k, a] : items)
      out.items.emplace_back(k, a.rename(names, false));
    return out;
  }
};

//  Comparison of the library with the model.

std::string key_name(const Dim d) { return d.name(); }
std::string key_name(const std::string &s) { return s; }

std::string diff(const Variable &got, const Variable &want) {
  if (!got.is_valid())
    return "no variable";
  if (!got.is_same(want))
    return "another variable: " + to_string(got.dims()) + ", expected " +
           to_string(want.dims());
  if (got.is_aligned() != want.is_aligned())
    return got.is_aligned() ? "aligned" : "not aligned";
  if (got.is_readonly() != want.is_readonly())
    return got.is_readonly() ? "read-only" : "not read-only";
  return {};
}

std::string diff(const Sizes &got, const MSizes &want) {
  bool ok = scipp::size(got) == idx(want.size());
  for (const auto &[d, n] : want)
    ok = ok && got.contains(d) && got[d] == n;
  if (ok)
    return {};
  std::string w;
  for (const auto &[d, n] : want)
    w += " " + d.name() + ":" + std::to_string(n);
  return "sizes " + to_string(got) + ", expected" + w;
}

template <class D, class K>
std::string diff(const D &got, const MDict<K> &want) {
  if (auto s = diff(got.sizes(), want.sizes); !s.empty())
    return s;
  if (got.size() != idx(want.items.size()) ||
      got.empty() != want.items.empty())
    return std::to_string(got.size()) + " entries, expected " +
           std::to_string(want.items.size());
  if (got.is_readonly() != want.readonly)
    return got.is_readonly() ? "read-only" : "not read-only";
  size_t i = 0;
  auto key = got.keys_begin();
  auto value = got.values_begin();
  for (const auto &[k, v] : got) {
    if (i == want.items.size())
      return "iteration goes on";
    const auto &[wk, wv] = want.items[i++];
    if (k != wk)
      return "entry " + key_name(k) + " where " + key_name(wk) + " belongs";
    for (const auto &x : {v, *value, got[k], got.at(k)})
      if (auto s = diff(x, wv); !s.empty())
        return "entry " + key_name(k) + ": " + s;
    if (*key != wk || !got.contains(k) || got.count(k) != 1 ||
        got.find(k) == got.end() || got.find(k)->first != wk)
      return "entry " + key_name(k) + " is not found";
    ++key;
    ++value;
  }
  if (i != want.items.size())
    return "iteration ends early";
  return {};
}

std::string diff(const DataArray &got, const MArray &want) {
  if (got.name() != want.name)
    return "name '" + got.name() + "', expected '" + want.name + "'";
  if (auto s = diff(got.data(), *want.data); !s.empty())
    return "data: " + s;
  if (auto s = diff(got.coords(), *want.coords); !s.empty())
    return "coords: " + s;
  if (auto s = diff(got.masks(), *want.masks); !s.empty())
    return "masks: " + s;
  if (auto s = diff(got.attrs(), *want.attrs); !s.empty())
    return "attrs: " + s;
  if (got.is_readonly() != want.readonly)
    return got.is_readonly() ? "read-only" : "not read-only";
  return {};
}

std::string diff(const Dataset &got, MDataset &want) {
  if (!got.is_valid())
    return "not valid";
  if (auto s = diff(got.coords(), want.coords); !s.empty())
    return "coords: " + s;
  if (auto s = diff(got.sizes(), want.coords.sizes); !s.empty())
    return s;
  if (got.is_readonly() != want.readonly)
    return got.is_readonly() ? "read-only" : "not read-only";
  if (got.size() != idx(want.items.size()))
    return std::to_string(got.size()) + " items, expected " +
           std::to_string(want.items.size());
  size_t i = 0;
  auto key = got.keys_begin();
  for (auto it = got.items_begin(); it != got.items_end(); ++it) {
    if (i == want.items.size())
      return "iteration goes on";
    const auto &k = want.items[i++].first;
    const auto [name, item] = *it;
    if (name != k || *key != k)
      return "item " + name + " where " + k + " belongs";
    if (!got.contains(k))
      return "item " + k + " is not found";
    const auto w = want.item(k);
    if (auto s = diff(item, w); !s.empty())
      return "item " + k + ": " + s;
    if (auto s = diff(got[k], w); !s.empty())
      return "item " + k + " by name: " + s;
    ++key;
  }
  if (i != want.items.size())
    return "iteration ends early";
  return {};
}

//  Histories.

struct Arr {
  DataArray a;
  MArray m;
};
struct Set {
  Dataset d;
  MDataset m;
};

/// Comparing looks at all entries and at their alignment.
bool equal(const MArray &a, const MArray &b) {
  return *a.data == *b.data && equal(*a.coords, *b.coords) &&
         equal(*a.masks, *b.masks) && equal(*a.attrs, *b.attrs);
}
bool equal(const MDataset &a, const MDataset &b) {
  if (a.items.size() != b.items.size() || !equal(a.coords, b.coords))
    return false;
  for (const auto &[k, x] : a.items) {
    const auto y = std::find_if(b.items.begin(), b.items.end(),
                                [&n = k](auto &i) { return i.first == n; });
    if (y == b.items.end() || *x.data != *y->second.data ||
        !equal(*x.masks, *y->second.masks) || !equal(*x.attrs, *y->second.attrs))
      return false;
  }
  return true;
}
template <class A, class M>
void compare(const std::string &what, const A &a, const M &ma, const A &b,
             const M &mb) {
  const auto want = equal(ma, mb);
  if ((a == b) != want || (b != a) == want)
    sim::violation("equality", "%s: result compares %s another object",
                   what.c_str(), want ? "different from" : "equal to");
}

struct Base {
  MSizes sizes;
  std::vector<Variable> data, meta, masks;
};

const Dim Foreign = Dim("w");
Dim coord_key() {
  static const Dim keys[] = {Dim::X, Dim::Y, Dim::Z, Dim("p"), Dim("q")};
  return keys[sim::draw(5)];
}
std::string mask_key() {
  static const char *const keys[] = {"m0", "m1", "m2"};
  return keys[sim::draw(3)];
}
std::string item_key() {
  static const char *const keys[] = {
      "a", "b", "", "a name that does not fit into the object itself"};
  return keys[sim::draw(4)];
}

Variable make(const MSizes &dims, const int dtype, const int value) {
  std::vector<Dim> labels;
  std::vector<idx> shape;
  idx volume = 1;
  for (const auto &[d, n] : dims) {
    labels.push_back(d);
    shape.push_back(n);
    volume *= n;
  }
  const Dimensions d(labels, shape);
  if (dtype == 1)
    return makeVariable<bool>(
        d, Values(std::vector<bool>(size_t(volume), value & 1)));
  if (dtype == 2)
    return makeVariable<int64_t>(
        d, units::m, Values(std::vector<int64_t>(size_t(volume), value)));
  return makeVariable<double>(
      d, units::m, Values(std::vector<double>(size_t(volume), value)),
      Variances(std::vector<double>(size_t(volume), 1.0)));
}

/// Dims for a coord or a mask, most of the time ones that fit.
MSizes draw_dims(const MSizes &sizes) {
  MSizes out;
  for (const auto &x : sizes)
    if (sim::draw_bool())
      out.push_back(x);
  if (out.size() > 1 && sim::draw_bool(3))
    std::swap(out.front(), out.back());
  switch (sim::draw(10)) {
  case 0:
    if (!out.empty())
      out[sim::draw(uint32_t(out.size()))].second += 1; // edges
    break;
  case 1:
    out.insert(out.begin() + sim::draw(uint32_t(out.size() + 1)),
               {Foreign, 2});
    break;
  case 2:
    if (!out.empty())
      out[sim::draw(uint32_t(out.size()))].second += sim::draw_in(2, 3);
    break;
  case 3:
    out.emplace_back(Foreign, sim::draw_in(1, 3));
    break;
  default:
    break;
  }
  return out;
}

Base draw_base() {
  Base b;
  static const Dim dims[] = {Dim::X, Dim::Y, Dim::Z};
  const auto n = sim::draw(4);
  for (uint32_t i = 0; i < n; ++i)
    b.sizes.emplace_back(dims[i], sim::draw_in(0, 3));
  for (int i = 0; i < 3; ++i) {
    auto s = b.sizes;
    if (s.size() > 1 && sim::draw_bool(3))
      std::swap(s.front(), s.back());
    if (!s.empty() && sim::draw_bool(8))
      s[sim::draw(uint32_t(s.size()))].second += 1;
    if (!s.empty() && sim::draw_bool(8))
      s.pop_back();
    b.data.push_back(make(s, int(sim::draw(3)), int(sim::draw(2))));
  }
  for (int i = 0; i < 6; ++i) {
    b.meta.push_back(make(draw_dims(b.sizes), int(sim::draw(3)),
                          int(sim::draw(2))));
    if (sim::draw_bool(6))
      b.meta.back().set_aligned(false);
    if (sim::draw_bool(10))
      b.meta.back() = b.meta.back().as_const();
    b.masks.push_back(make(draw_dims(b.sizes), 1, int(sim::draw(2))));
  }
  if (sim::draw_bool(4)) // not allowed
    b.meta.push_back(make_bins(
        makeVariable<index_pair>(Values{std::pair<idx, idx>{0, 2}}), Dim::X,
        makeVariable<double>(Dims{Dim::X}, Shape{2})));
  return b;
}

template <class T> const T &pick(const std::vector<T> &v) {
  return v[sim::draw(uint32_t(v.size()))];
}

template <class K> core::Dict<K, Variable> to_dict(const MDict<K> &m) {
  core::Dict<K, Variable> out;
  for (const auto &[k, v] : m.items)
    out.insert_or_assign(k, v);
  return out;
}

struct Client {
  Base base;
  std::vector<Arr> arrays;
  std::vector<Set> sets;
  std::string log;               // last operation
  std::vector<std::string> past; // and the ones before
  bool faults = false;
  uint64_t done = 0, rejected = 0, failed = 0;
  static constexpr size_t MaxArrays = 6, MaxSets = 4;

  void check(const char *cls) {
    sim::Quiet q;
    for (size_t i = 0; i < arrays.size(); ++i)
      if (auto s = diff(arrays[i].a, arrays[i].m); !s.empty())
        sim::violation(cls, "after %s: array %zu: %s%s", log.c_str(), i,
                       s.c_str(), history().c_str());
    for (size_t i = 0; i < sets.size(); ++i)
      if (auto s = diff(sets[i].d, sets[i].m); !s.empty())
        sim::violation(cls, "after %s: dataset %zu: %s%s", log.c_str(), i,
                       s.c_str(), history().c_str());
  }
  std::string history() const {
    std::string out;
    for (const auto &x : past)
      out += "; " + x;
    return out.empty() ? out : " [history: " + out.substr(2) + "]";
  }
  bool unchanged() {
    sim::Quiet q;
    for (auto &x : arrays)
      if (!diff(x.a, x.m).empty())
        return false;
    for (auto &x : sets)
      if (!diff(x.d, x.m).empty())
        return false;
    return true;
  }

  /// One operation of the library and of the model. `several` for operations
  /// of several steps, which may be left half done when memory runs out.
  void step(const std::string &what, const std::function<void()> &real,
            const std::function<void()> &model, const bool several = false) {
    {
      sim::Quiet q;
      if (!log.empty())
        past.push_back(log);
      if (past.size() > 30)
        past.erase(past.begin());
    }
    log = what;
    enum { Done, Rejected, NoMemory } out = Done;
    std::string why;
    const bool fault = faults && sim::draw_bool(3);
    bool fired = false;
    char text[160] = {};
    if (fault)
      sim::fault_window(sim::draw(sim::draw_bool() ? 4 : 24),
                        sim::draw_bool(4));
    try {
      real();
    } catch (const std::bad_alloc &) {
      out = NoMemory;
    } catch (const std::exception &e) {
      out = Rejected;
      strncpy(text, e.what(), sizeof text - 1);
    }
    if (fault)
      fired = sim::end_fault_window().fired;
    if (out == NoMemory) {
      ++failed;
      if (!fired)
        sim::violation("failure", "%s: bad_alloc without a fault",
                       what.c_str());
      log += " with failed allocation";
      if (unchanged())
        return;
    }
    if (fired && out == Rejected) { // message could not be made
      if (unchanged())
        return;
    }
    bool ok = true;
    {
      sim::Quiet q;
      try {
        model();
      } catch (const Reject &r) {
        ok = false;
        why = r.why;
      }
    }
    if (out == NoMemory) {
      if (ok && unchanged())
        return; // completed before
      if (!ok || !several)
        sim::violation("partial", "%s: neither done nor undone", log.c_str());
      try {
        real();
      } catch (const std::exception &e) {
        sim::violation("retry", "%s: cannot be repeated: %s", log.c_str(),
                       e.what());
      }
      check("retry");
      return;
    }
    if (out == Rejected && ok)
      sim::violation("rejected", "%s: rejected although valid: %s",
                     what.c_str(), text);
    if (out == Done && !ok)
      sim::violation("accepted", "%s: accepted, expected to be rejected: %s",
                     what.c_str(), why.c_str());
    if (out == Rejected) {
      ++rejected;
      sim::count(sim::FaultReject);
      log += " was rejected";
    } else
      ++done;
    check(out == Rejected ? "partial" : "state");
  }

  void add(const std::string &what, const std::function<DataArray()> &real,
           const std::function<MArray()> &model) {
    auto r = std::make_shared<std::optional<DataArray>>();
    auto m = std::make_shared<std::optional<MArray>>();
    const auto slot = arrays.size() < MaxArrays
                          ? arrays.size()
                          : sim::draw(uint32_t(arrays.size()));
    step(what, [&] { r->emplace(real()); }, [&] { m->emplace(model()); });
    if (!*r || !*m)
      return;
    {
      sim::Quiet q;
      if (auto s = diff(**r, **m); !s.empty())
        sim::violation("state", "%s: result: %s", what.c_str(), s.c_str());
      for (const auto &x : arrays)
        compare(what, **r, **m, x.a, x.m);
    }
    Arr x{std::move(**r), std::move(**m)};
    if (slot == arrays.size())
      arrays.push_back(std::move(x));
    else
      arrays[slot] = std::move(x);
  }
  void add(const std::string &what, const std::function<Dataset()> &real,
           const std::function<MDataset()> &model) {
    auto r = std::make_shared<std::optional<Dataset>>();
    auto m = std::make_shared<std::optional<MDataset>>();
    const auto slot = sets.size() < MaxSets ? sets.size()
                                            : sim::draw(uint32_t(sets.size()));
    step(what, [&] { r->emplace(real()); }, [&] { m->emplace(model()); });
    if (!*r || !*m)
      return;
    {
      sim::Quiet q;
      if (auto s = diff(**r, **m); !s.empty())
        sim::violation("state", "%s: result: %s", what.c_str(), s.c_str());
      for (const auto &x : sets)
        compare(what, **r, **m, x.d, x.m);
    }
    Set x{std::move(**r), std::move(**m)};
    if (slot == sets.size())
      sets.push_back(std::move(x));
    else
      sets[slot] = std::move(x);
  }

  Slice draw_slice(const MSizes &s, const bool all = true) {
    if (s.empty() || sim::draw_bool(20))
      return sim::draw_bool() && all ? Slice{}
                              : Slice{Foreign, 0}; // rejected by validation
    const auto &[d, n] = s[sim::draw(uint32_t(s.size()))];
    const auto begin = idx(sim::draw(uint32_t(n + 1)));
    if (sim::draw_bool(3))
      return Slice{d, begin}; // may be out of range
    const auto end = begin + idx(sim::draw(uint32_t(n - begin + 2)));
    return Slice{d, begin, end, sim::draw_bool(5) ? 2 : 1};
  }
  Names draw_names() {
    static const Dim dims[] = {Dim::X, Dim::Y, Dim::Z, Dim("w"), Dim("v")};
    Names out;
    const auto n = 1 + sim::draw(2);
    for (uint32_t i = 0; i < n; ++i) {
      const auto from = dims[sim::draw(4)];
      out.emplace_back(from, dims[sim::draw(5)]);
    }
    return out;
  }
  /// A variable from the pool or one that is in use.
  Variable draw_meta(const MCoords &near) {
    if (!near.items.empty() && sim::draw_bool(5))
      return pick(near.items).second;
    if (!arrays.empty() && sim::draw_bool(6)) {
      const auto &c = *pick(arrays).m.coords;
      if (!c.items.empty())
        return pick(c.items).second;
    }
    return pick(base.meta);
  }

  /// Change a dict in place.
  template <class D, class K>
  void change(const std::string &of, D &dict, MDict<K> &m, const K &k,
              const Variable &v) {
    switch (sim::draw(7)) {
    case 0:
    case 1:
    case 2:
      return step("set " + key_name(k) + " of " + of,
                  [&] { dict.set(k, v); }, [&] { m.set(k, v); });
    case 3:
      return step("erase " + key_name(k) + " of " + of,
                  [&] { dict.erase(k); },
                  [&] { static_cast<void>(m.extract(k)); });
    case 4: {
      Variable out, want;
      step("extract " + key_name(k) + " of " + of,
           [&] { out = dict.extract(k); }, [&] { want = m.extract(k); });
      sim::Quiet q;
      if (out.is_valid() && want.is_valid())
        if (auto s = diff(out, want); !s.empty())
          sim::violation("state", "%s: result: %s", log.c_str(), s.c_str());
      return;
    }
    case 5: {
      Variable out, want;
      step("extract " + key_name(k) + " or default of " + of,
           [&] { out = dict.extract(k, v); },
           [&] { want = m.contains(k) ? m.extract(k) : v; });
      sim::Quiet q;
      if (out.is_valid() && want.is_valid())
        if (auto s = diff(out, want); !s.empty())
          sim::violation("state", "%s: result: %s", log.c_str(), s.c_str());
      return;
    }
    default: {
      const bool a = sim::draw_bool();
      return step("set_aligned " + key_name(k) + " of " + of,
                  [&] { dict.set_aligned(k, a); },
                  [&] { m.set_aligned(k, a); });
    }
    }
  }

  MArray draw_array() {
    MArray m;
    m.name = item_key();
    m.data = std::make_shared<Variable>(pick(base.data));
    m.coords = std::make_shared<MCoords>();
    m.masks = std::make_shared<MMasks>();
    m.attrs = std::make_shared<MCoords>();
    m.coords->sizes = m.masks->sizes = m.attrs->sizes = m.sizes();
    for (auto n = sim::draw(4); n > 0; --n)
      m.coords->put(coord_key(), pick(base.meta));
    for (auto n = sim::draw(3); n > 0; --n)
      m.masks->put(mask_key(), pick(base.masks));
    for (auto n = sim::draw(3); n > 0; --n)
      m.attrs->put(coord_key(), pick(base.meta));
    // Mostly valid.
    if (!sim::draw_bool(6)) {
      const auto keep = [](auto &d) {
        auto items = std::move(d.items);
        d.items.clear();
        for (auto &[k, v] : items)
          try {
            d.expect_fits(v);
            d.items.emplace_back(k, v);
          } catch (const Reject &) {
          }
      };
      keep(*m.coords);
      keep(*m.masks);
      keep(*m.attrs);
    }
    return m;
  }
  void make_array() {
    const auto m = draw_array();
    const auto c = to_dict(*m.coords), at = to_dict(*m.attrs);
    const auto k = to_dict(*m.masks);
    add("DataArray", [&] { return DataArray(*m.data, c, k, at, m.name); },
        [&] {
          for (const auto &[n, v] : m.coords->items)
            m.coords->expect_fits(v);
          for (const auto &[n, v] : m.masks->items)
            m.masks->expect_fits(v);
          for (const auto &[n, v] : m.attrs->items)
            m.attrs->expect_fits(v);
          return m;
        });
  }
  void make_set() {
    const auto n = sim::draw(3);
    core::Dict<std::string, DataArray> items;
    std::vector<std::pair<std::string, MArray>> mitems;
    for (uint32_t i = 0; i < n && !arrays.empty(); ++i) {
      const auto k = item_key();
      if (items.contains(k))
        continue;
      const auto &x = pick(arrays);
      items.insert_or_assign(k, x.a);
      mitems.emplace_back(k, x.m.copy());
    }
    MCoords coords;
    if (!mitems.empty())
      for (auto c = sim::draw(3); c > 0; --c)
        coords.put(coord_key(), pick(base.meta));
    const auto c = to_dict(coords);
    add("Dataset", [&] { return Dataset(items, c); },
        [&] {
          MDataset out;
          if (!mitems.empty())
            out.coords.sizes = mitems.front().second.sizes();
          for (const auto &[k, v] : coords.items)
            out.set_coord(k, v);
          for (const auto &[k, a] : mitems)
            out.set_data(k, a);
          return out;
        });
  }

  void deep_copy(const size_t i) {
    std::optional<DataArray> out;
    step("copy of array " + std::to_string(i),
         [&] { out.emplace(copy(arrays[i].a)); }, [] {});
    if (!out)
      return;
    sim::Quiet q;
    const auto &m = arrays[i].m;
    auto w = m.copy();
    const auto adopt = [&](const char *what, const Variable &got,
                           Variable &want) {
      if (got != want || got.is_aligned() != want.is_aligned() ||
          got.is_readonly())
        sim::violation("copy", "copy of an array: %s differs", what);
      if (got.data_handle() == want.data_handle())
        sim::violation("copy", "copy of an array: %s is shared", what);
      want = got;
    };
    const auto adopt_all = [&](const char *what, const auto &got, auto &want) {
      if (got.size() != idx(want.items.size()))
        sim::violation("copy", "copy of an array: %s differ", what);
      for (auto &[k, v] : want.items) {
        if (!got.contains(k))
          sim::violation("copy", "copy of an array: %s lack %s", what,
                         key_name(k).c_str());
        adopt(what, got[k], v);
      }
    };
    adopt("data", std::as_const(*out).data(), *w.data);
    adopt_all("coords", std::as_const(*out).coords(), *w.coords);
    adopt_all("masks", std::as_const(*out).masks(), *w.masks);
    adopt_all("attrs", std::as_const(*out).attrs(), *w.attrs);
    if (auto s = diff(*out, w); !s.empty())
      sim::violation("copy", "copy of an array: %s", s.c_str());
    if (arrays.size() < MaxArrays)
      arrays.push_back({std::move(*out), std::move(w)});
    else
      arrays[i] = {std::move(*out), std::move(w)};
  }

  void array_op() {
    const auto i = sim::draw(uint32_t(arrays.size()));
    auto &x = arrays[i];
    const auto id = "array " + std::to_string(i);
    switch (sim::draw(17)) {
    case 0:
    case 1:
    case 2: {
      const auto k = coord_key();
      const auto v = draw_meta(*x.m.coords);
      return change("coords of " + id, x.a.coords(), *x.m.coords, k, v);
    }
    case 3:
    case 4: {
      const auto k = mask_key();
      const auto v = pick(base.masks);
      return change("masks of " + id, x.a.masks(), *x.m.masks, k, v);
    }
    case 5: {
      const auto k = coord_key();
      const auto v = draw_meta(*x.m.attrs);
      return change("attrs of " + id, x.a.attrs(), *x.m.attrs, k, v);
    }
    case 6: {
      const auto v = sim::draw_bool(4) ? *pick(arrays).m.data : pick(base.data);
      return step("setData of " + id, [&] { x.a.setData(v); },
                  [&] { x.m.set_data(v); });
    }
    case 7: {
      const auto n = item_key();
      return step("setName of " + id, [&] { x.a.setName(n); },
                  [&] { x.m.name = n; });
    }
    case 8:
      return add("DataArray from " + id, [&] { return DataArray(x.a); },
                 [&] { return x.m.copy(); });
    case 9:
      return add("as_const of " + id, [&] { return x.a.as_const(); },
                 [&] { return x.m.as_const(); });
    case 10: {
      const auto p = draw_slice(x.m.sizes());
      return add("slice of " + id, [&] { return x.a.slice(p); },
                 [&] { return x.m.slice(p); });
    }
    case 11: {
      const auto names = draw_names();
      return add("rename_dims of " + id,
                 [&] { return x.a.rename_dims(names); },
                 [&] { return x.m.rename(names, true); });
    }
    case 12: {
      const int kind = int(sim::draw(3));
      const std::vector<Dim> c{coord_key()};
      const std::vector<std::string> k{mask_key()};
      return add("drop of " + id,
                 [&] {
                   return kind == 0   ? x.a.drop_coords(c)
                          : kind == 1 ? x.a.drop_masks(k)
                                      : x.a.drop_attrs(c);
                 },
                 [&] {
                   auto out = x.m.copy();
                   if (kind == 1)
                     out.masks->extract(k[0]);
                   else
                     (kind == 0 ? out.coords : out.attrs)->extract(c[0]);
                   return out;
                 });
    }
    case 13: {
      const auto j = sim::draw(uint32_t(arrays.size()));
      auto &y = arrays[j];
      return step("assign array " + std::to_string(j) + " to " + id,
                  [&] { x.a = y.a; },
                  [&] {
                    if (&x != &y)
                      x.m = y.m.copy();
                  });
    }
    case 14: {
      std::optional<Coords> got;
      std::optional<MCoords> want;
      step("meta of " + id, [&] { got.emplace(x.a.meta()); },
           [&] {
             auto out = *x.m.attrs;
             for (const auto &[k, v] : x.m.coords->items) {
               if (out.contains(k))
                 throw Reject{"shadowed"};
               out.put(k, v);
             }
             out.readonly = true;
             want = out;
           });
      sim::Quiet q;
      if (got && want)
        if (auto s = diff(*got, *want); !s.empty())
          sim::violation("state", "%s: %s", log.c_str(), s.c_str());
      return;
    }
    case 15:
      return deep_copy(i);
    default:
      return make_array();
    }
  }

  void set_op() {
    const auto i = sim::draw(uint32_t(sets.size()));
    auto &x = sets[i];
    const auto id = "dataset " + std::to_string(i);
    switch (sim::draw(16)) {
    case 0:
    case 1: {
      const auto k = item_key();
      const auto v = sim::draw_bool(4) && !arrays.empty()
                         ? *pick(arrays).m.data
                         : pick(base.data);
      const bool keep = sim::draw_bool();
      return step("setData '" + k + "' of " + id,
                  [&] {
                    x.d.setData(k, v, keep ? AttrPolicy::Keep
                                           : AttrPolicy::Drop);
                  },
                  [&] { x.m.set_data(k, v, keep); });
    }
    case 2:
    case 3:
    case 4: {
      if (arrays.empty())
        return make_array();
      const auto k = item_key();
      const auto j = sim::draw(uint32_t(arrays.size()));
      auto &y = arrays[j];
      return step("set '" + k + "' of " + id + " to array " +
                      std::to_string(j),
                  [&] { x.d.setData(k, y.a); },
                  [&] { x.m.set_data(k, y.m); }, true);
    }
    case 5: {
      const auto k = coord_key();
      const auto v = draw_meta(x.m.coords);
      return step("setCoord " + key_name(k) + " of " + id,
                  [&] { x.d.setCoord(k, v); }, [&] { x.m.set_coord(k, v); });
    }
    case 6:
    case 7: {
      const auto k = coord_key();
      const auto v = draw_meta(x.m.coords);
      return change("coords of " + id, x.d.coords(), x.m.coords, k, v);
    }
    case 8: {
      const auto k = item_key();
      return step("erase '" + k + "' of " + id, [&] { x.d.erase(k); },
                  [&] { x.m.erase(k); });
    }
    case 9: {
      const auto k = item_key();
      return add("extract '" + k + "' of " + id,
                 [&] { return x.d.extract(k); },
                 [&] {
                   auto out = x.m.item(k);
                   x.m.erase(k);
                   return out;
                 });
    }
    case 10:
    case 11: {
      const auto k = item_key();
      return add("item '" + k + "' of " + id, [&] { return x.d[k]; },
                 [&] { return x.m.item(k); });
    }
    case 12: {
      const auto p = draw_slice(x.m.coords.sizes, false);
      return add("slice of " + id, [&] { return x.d.slice(p); },
                 [&] { return x.m.slice(p); });
    }
    case 13: {
      const auto names = draw_names();
      return add("rename_dims of " + id, [&] { return x.d.rename_dims(names); },
                 [&] { return x.m.rename(names); });
    }
    case 14: {
      const auto j = sim::draw(uint32_t(sets.size()));
      auto &y = sets[j];
      switch (sim::draw(4)) {
      case 0:
        return step("clear of " + id, [&] { x.d.clear(); },
                    [&] {
                      x.m.writable();
                      x.m.items.clear();
                    });
      case 1: {
        const std::vector<Dim> c{coord_key()};
        return add("drop_coords of " + id,
                   [&] { return x.d.drop_coords(c); },
                   [&] {
                     auto out = x.m.copy();
                     out.coords.extract(c[0]);
                     return out;
                   });
      }
      case 2:
        if (&x == &y)
          return;
        return step("assign dataset " + std::to_string(j) + " to " + id,
                    [&] { x.d = y.d; }, [&] { x.m = y.m.copy(); });
      default:
        return add("Dataset from " + id, [&] { return Dataset(x.d); },
                   [&] { return x.m.copy(); });
      }
    }
    default:
      return make_set();
    }
  }

  void run(const int n) {
    for (int i = 0; i < n; ++i) {
      if (arrays.empty())
        make_array();
      else if (sets.empty())
        make_set();
      else if (sim::draw_bool())
        array_op();
      else
        set_op();
    }
  }
  void observe() const {
    sim::observe(done);
    sim::observe(rejected);
    sim::observe(failed);
  }
};

/// Objects to start from.
void populate(Client &c) {
  for (int i = 0; i < 3; ++i)
    c.make_array();
  c.make_set();
}

//  Dict and sizes on their own.

using Dict = core::Dict<std::string, std::string>;
using MPairs = std::vector<std::pair<std::string, std::string>>;

std::string diff(const Dict &got, const MPairs &want) {
  if (got.size() != idx(want.size()))
    return std::to_string(got.size()) + " entries, expected " +
           std::to_string(want.size());
  size_t i = 0;
  auto k = got.keys_begin();
  auto v = got.values_begin();
  for (const auto &[key, value] : got) {
    if (i == want.size() || key != want[i].first || value != want[i].second ||
        *k != key || *v != value)
      return "entry " + std::to_string(i) + " is " + key + ": " + value;
    if (!got.contains(key) || got.at(key) != value || got[key] != value ||
        got.find(key) == got.end() || got.find(key)->second != value)
      return "entry " + key + " is not found";
    ++k;
    ++v;
    ++i;
  }
  if (i != want.size() || k != got.keys_end() || v != got.values_end())
    return "iteration ends early";
  return {};
}

std::string long_text(const uint32_t i) {
  return (i & 1 ? "a text that does not fit into the object itself " : "t") +
         std::to_string(i);
}
} // namespace

WORKLOAD(c09_dict, "C09.dict", 1) {
  Dict d, other;
  MPairs m, mother;
  const bool faults = sim::draw_bool();
  const int n = 10 + int(sim::draw(40));
  for (int i = 0; i < n; ++i) {
    const auto key = long_text(sim::draw(8));
    const auto value = long_text(sim::draw(1000));
    const auto op = sim::draw(9);
    const auto found = std::find_if(m.begin(), m.end(), [&](auto &x) {
      return x.first == key;
    });
    const bool has = found != m.end();
    const auto old = has ? found->second : std::string();
    auto after = m;
    const auto at = std::distance(m.begin(), found);
    bool reject = false;
    const char *what = "";
    switch (op) {
    case 0:
    case 1:
    case 2:
      what = "insert_or_assign";
      if (has)
        after[at].second = value;
      else
        after.emplace_back(key, value);
      break;
    case 3:
      what = "erase";
      reject = !has;
      if (has)
        after.erase(after.begin() + at);
      break;
    case 4:
      what = "extract";
      reject = !has;
      if (has)
        after.erase(after.begin() + at);
      break;
    case 5:
      what = "assignment to an element";
      reject = !has;
      if (has)
        after[at].second = value;
      break;
    case 6:
      what = "copy";
      break;
    case 7:
      what = "change during iteration";
      if (sim::draw_bool(8))
        after.clear();
      break;
    default:
      what = "reserve";
    }
    const auto capacity = idx(sim::draw(16));
    std::string text;
    const bool fault = faults && sim::draw_bool(3);
    enum { Done, Rejected, NoMemory } out = Done;
    if (fault)
      sim::fault_window(sim::draw(6), sim::draw_bool(3));
    try {
      switch (op) {
      case 0:
      case 1:
        d.insert_or_assign(key, value);
        break;
      case 2:
        d.insert_or_assign(key, std::string(value));
        break;
      case 3:
        d.erase(key);
        break;
      case 4:
        text = d.extract(key);
        break;
      case 5:
        d[key] = value;
        break;
      case 6:
        other = d; // replaces an earlier copy
        break;
      case 7:
        if (after.empty())
          d.clear();
        break;
      default:
        d.reserve(capacity);
      }
    } catch (const std::bad_alloc &) {
      out = NoMemory;
    } catch (const std::exception &) {
      out = Rejected;
    }
    const bool fired = fault && sim::end_fault_window().fired;
    sim::Quiet q;
    if (out == NoMemory && !fired)
      sim::violation("failure", "%s: bad_alloc without a fault", what);
    if (out == Rejected && !reject)
      sim::violation("rejected", "%s of key %s was rejected", what,
                     key.c_str());
    if (out == Done && reject)
      sim::violation("accepted", "%s of key %s was accepted", what,
                     key.c_str());
    if (out == Done) {
      m = after;
      if (op == 6) {
        if (auto s = diff(other, m); !s.empty())
          sim::violation("state", "copy: %s", s.c_str());
        mother = m;
        mother.emplace_back("only in the copy", "1");
        other.insert_or_assign("only in the copy", "1");
      }
      if (op == 4 && text != old)
        sim::violation("state", "extract returned %s", text.c_str());
    }
    if (auto s = diff(d, m); !s.empty())
      sim::violation(out == Done ? "state" : "partial",
                     "%s of key %s%s: %s", what, key.c_str(),
                     out == NoMemory   ? " with failed allocation"
                     : out == Rejected ? " (rejected)"
                                       : "",
                     s.c_str());
    if (auto s = diff(other, mother); !s.empty())
      sim::violation(out == Done ? "state" : "partial",
                     "%s of key %s: copy: %s", what, key.c_str(), s.c_str());
    // Iterators notice when the number of entries changes.
    if (op == 7 && !m.empty()) {
      auto it = d.begin();
      const auto k = "new " + std::to_string(i);
      d.insert_or_assign(k, "x");
      bool thrown = false;
      try {
        ++it;
      } catch (const std::runtime_error &) {
        thrown = true;
      }
      if (!thrown)
        sim::violation("iterator", "insertion during iteration went unnoticed");
      d.erase(k);
    }
    sim::observe(uint64_t(out));
  }
}

WORKLOAD(c09_sizes, "C09.sizes", 1) {
  Sizes s;
  Dimensions d;
  MSizes ms, md; // the order matters for both
  const bool faults = sim::draw_bool();
  std::vector<Dim> dims{Dim::X, Dim::Y, Dim::Z, Dim::Time, Dim::Invalid};
  for (int i = 0; i < 4; ++i)
    dims.push_back(Dim("size" + std::to_string(i)));
  const int n = 10 + int(sim::draw(40));
  for (int i = 0; i < n; ++i) {
    const auto dim = dims[sim::draw(uint32_t(dims.size()))];
    const auto to = dims[sim::draw(uint32_t(dims.size()))];
    const auto size = idx(sim::draw(12)) - 1;
    const auto op = sim::draw(9);
    const bool on_dims = op >= 5;
    const auto &m = on_dims ? md : ms;
    auto after = m;
    const auto at = std::find_if(after.begin(), after.end(),
                                 [&](auto &x) { return x.first == dim; });
    const bool found = at != after.end();
    bool reject = false;
    const Names names{{dim, to}};
    const char *what = "";
    switch (op) {
    case 0:
    case 1:
      what = "Sizes::set";
      reject = dim == Dim::Invalid || size < 0 || (found && at->second != size);
      if (!reject && !found)
        after.emplace_back(dim, size);
      break;
    case 2:
    case 7:
      what = "resize";
      reject = !found || size < 0;
      if (!reject)
        at->second = size;
      break;
    case 3:
    case 8:
      what = "erase";
      reject = !found;
      if (found)
        after.erase(at);
      break;
    case 4:
      what = "rename_dims";
      reject = !found || (dim != to && has(m, to));
      if (!reject)
        at->first = to;
      break;
    case 5:
      what = "Dimensions::add";
      reject = dim == Dim::Invalid || size < 0 || found;
      if (!reject)
        after.insert(after.begin(), {dim, size});
      break;
    case 6:
      what = "Dimensions::addInner";
      reject = dim == Dim::Invalid || size < 0 || found;
      if (!reject)
        after.emplace_back(dim, size);
      break;
    default:
      break;
    }
    const bool fault = faults && sim::draw_bool(3);
    enum { Done, Rejected, NoMemory } out = Done;
    if (fault)
      sim::fault_window(sim::draw(4), sim::draw_bool(3));
    try {
      switch (op) {
      case 0:
      case 1:
        s.set(dim, size);
        break;
      case 2:
        s.resize(dim, size);
        break;
      case 3:
        s.erase(dim);
        break;
      case 4:
        s = s.rename_dims(names);
        break;
      case 5:
        d.add(dim, size);
        break;
      case 6:
        d.addInner(dim, size);
        break;
      case 7:
        d.resize(dim, size);
        break;
      default:
        d.erase(dim);
      }
    } catch (const std::bad_alloc &) {
      out = NoMemory;
    } catch (const std::exception &) {
      out = Rejected;
    }
    const bool fired = fault && sim::end_fault_window().fired;
    sim::Quiet q;
    const auto id = std::string(what) + " " + dim.name() + " " +
                    std::to_string(size);
    if (out == NoMemory && !fired)
      sim::violation("failure", "%s: bad_alloc without a fault", id.c_str());
    if (out == Rejected && !reject && !fired)
      sim::violation("rejected", "%s was rejected", id.c_str());
    if (out == Done && reject)
      sim::violation("accepted", "%s was accepted", id.c_str());
    if (out == Done)
      (on_dims ? md : ms) = after;
    const auto compare = [&](const Sizes &got, const MSizes &want,
                             const char *which) {
      bool ok = got.size() == idx(want.size()) &&
                idx(got.labels().size()) == got.size() &&
                idx(got.sizes().size()) == got.size() &&
                got.empty() == want.empty();
      for (size_t k = 0; ok && k < want.size(); ++k)
        ok = got.labels()[k] == want[k].first &&
             got.sizes()[k] == want[k].second && got.contains(want[k].first) &&
             got[want[k].first] == want[k].second &&
             got.index(want[k].first) == idx(k);
      if (!ok)
        sim::violation(out == Done ? "state" : "partial",
                       "after %s: %s holds other entries than expected, %d "
                       "labels, %d sizes, expected %d",
                       id.c_str(), which, int(got.labels().size()),
                       int(got.sizes().size()), int(want.size()));
    };
    compare(s, ms, "Sizes");
    compare(d, md, "Dimensions");
    idx volume = 1;
    for (const auto &[k, v] : md)
      volume *= v;
    if (d.volume() != volume || d.ndim() != idx(md.size()) ||
        d.inner() != (md.empty() ? Dim::Invalid : md.back().first))
      sim::violation("state", "after %s: volume or inner differ", id.c_str());
    bool includes = true;
    for (const auto &[k, v] : md)
      includes &= size_of(ms, k) == v;
    if (s.includes(d) != includes)
      sim::violation("state", "after %s: includes differs", id.c_str());
    if ((s == static_cast<const Sizes &>(d)) != same_sizes(ms, md))
      sim::violation("state", "after %s: comparison differs", id.c_str());
    sim::observe(uint64_t(out));
  }
}

WORKLOAD(c09_history, "C09.history", 5) {
  Client c;
  c.base = draw_base();
  populate(c);
  c.run(8 + int(sim::draw(30)));
  c.observe();
}

WORKLOAD(c09_faults, "C09.faults", 4) {
  Client c;
  c.base = draw_base();
  c.faults = true;
  populate(c);
  c.run(8 + int(sim::draw(30)));
  c.observe();
}

WORKLOAD(c09_clients, "C09.clients", 2) {
  Client first;
  first.base = draw_base();
  populate(first);
  std::vector<Client> clients(2 + sim::draw(2));
  for (auto &c : clients) {
    c.base = first.base;
    for (auto &x : first.arrays)
      c.arrays.push_back({DataArray(x.a), x.m.copy()});
    for (auto &x : first.sets)
      c.sets.push_back({Dataset(x.d), x.m.copy()});
  }
  const int n = 3 + int(sim::draw(6));
  std::vector<std::function<void()>> run;
  for (auto &c : clients)
    run.push_back([&c, n] { c.run(n); });
  sim::concurrently(run);
  for (auto &c : clients) {
    c.check("state");
    c.observe();
  }
  first.check("state");
}
