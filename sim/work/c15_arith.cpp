// C15: coords, masks and attrs in operations of two data arrays or datasets.
#include "c15.h"

#include <algorithm>

#include "scipp/core/slice.h"
#include "scipp/dataset/arithmetic.h"
#include "scipp/dataset/generated_arithmetic.h"
#include "scipp/dataset/generated_comparison.h"
#include "scipp/dataset/generated_logical.h"
#include "scipp/dataset/generated_math.h"
#include "scipp/dataset/generated_trigonometry.h"
#include "scipp/dataset/shape.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/operations.h"
#include "scipp/variable/pow.h"
#include "scipp/variable/trigonometry.h"
#include "scipp/variable/shape.h"

using namespace scipp;
using namespace st;

namespace {
enum Op {
  Add, Sub, Mul, Div, // also of datasets
  FloorDiv, Mod, And, Or, Xor, // also in place
  Less, LessEqual, Greater, GreaterEqual, Equal, NotEqual, Pow, Atan2,
  NOp
};
constexpr auto NDataset = FloorDiv, NPlace = Less;
const char *const op_names[] = {"+",  "-", "*",  "/",  "//", "%",   "&",  "|",
                                "^",  "<", "<=", ">",  ">=", "==",  "!=", "pow",
                                "atan2"};

template <class A, class B> auto call(const Op op, const A &a, const B &b) {
  switch (op) {
  case Add:
    return a + b;
  case Sub:
    return a - b;
  case Mul:
    return a * b;
  default:
    return a / b;
  }
}

template <class A, class B>
auto call_array(const Op op, const A &a, const B &b) {
  switch (op) {
  case FloorDiv:
    return floor_divide(a, b);
  case Mod:
    return a % b;
  case And:
    return a & b;
  case Or:
    return a | b;
  case Xor:
    return a ^ b;
  case Less:
    return less(a, b);
  case LessEqual:
    return less_equal(a, b);
  case Greater:
    return greater(a, b);
  case GreaterEqual:
    return greater_equal(a, b);
  case Equal:
    return equal(a, b);
  case NotEqual:
    return not_equal(a, b);
  case Pow:
    return pow(a, b);
  case Atan2:
    return atan2(a, b);
  default:
    return call(op, a, b);
  }
}

template <class A, class B>
void in_place(const Op op, A &a, const B &b) {
  switch (op) {
  case Add:
    a += b;
    break;
  case Sub:
    a -= b;
    break;
  case Mul:
    a *= b;
    break;
  default:
    a /= b;
  }
}

template <class A, class B>
void in_place_array(const Op op, A &a, const B &b) {
  switch (op) {
  case FloorDiv:
    floor_divide_equals(a, b);
    break;
  case Mod:
    a %= b;
    break;
  case And:
    a &= b;
    break;
  case Or:
    a |= b;
    break;
  case Xor:
    a ^= b;
    break;
  default:
    in_place(op, a, b);
  }
}

/// Fits the sizes of the data, up to bin edges along one dimension.
bool fits(const Logical &data, const Logical &v) {
  int edges = 0;
  for (const auto d : v.labels) {
    if (data.find(d) < 0) {
      if (v.size(d) != 2)
        return false;
      ++edges;
    } else if (v.size(d) != data.size(d)) {
      if (v.size(d) != data.size(d) + 1)
        return false;
      ++edges;
    }
  }
  return edges <= 1;
}

void expect_fit(const Snap &s) {
  static_cast<void>(map_all(s, [&](const Col &c, const int kind, const auto &) {
    if (kind != 0 && !fits(s.data.l, c.l))
      throw Reject{"does not fit"};
    return std::optional(c);
  }));
}

/// Aligned coords of either operand, which must match; others only if they are
/// the same in both.
Cols coords_model(const Cols &a, const Cols &b) {
  Cols out;
  for (const auto &[key, c] : a)
    if (c.aligned)
      out[key] = c;
  for (const auto &[key, c] : b) {
    const auto it = a.find(key);
    const bool has = it != a.end();
    if (has && it->second.aligned && c.aligned) {
      if (!st::same(it->second.l, c.l))
        throw Reject{"coord " + key};
    } else if (c.aligned) {
      out[key] = c;
    } else if (has && !it->second.aligned && st::same(it->second.l, c.l)) {
      out[key] = c;
    }
  }
  return out;
}

Logical or_model(const Logical &a, const Logical &b) {
  Logical out = a;
  auto e = ext(a);
  for (const auto d : b.labels) {
    if (a.find(d) < 0) {
      e.labels.push_back(d);
      e.shape.push_back(b.size(d));
    } else if (a.size(d) != b.size(d)) {
      throw Reject{"shapes of masks"};
    }
  }
  const auto x = spread(a, e);
  const auto y = spread(b, e);
  out = x;
  for (size_t i = 0; i < out.cells.size(); ++i)
    out.cells[i][0].v = x.cells[i][0].v != 0 || y.cells[i][0].v != 0;
  return out;
}

Cols masks_model(const Cols &a, const Cols &b) {
  auto out = a;
  for (const auto &[key, m] : b) {
    const auto it = out.find(key);
    if (it == out.end())
      out[key] = m;
    else
      it->second.l = or_model(it->second.l, m.l);
  }
  return out;
}

Cols attrs_model(const Cols &a, const Cols &b) {
  Cols out;
  for (const auto &[key, c] : a)
    if (const auto it = b.find(key); it != b.end() && st::same(it->second.l, c.l))
      out[key] = c;
  return out;
}

/// The data part, C02 says what is in it.
Variable data_of(const Op op, const Variable &a, const Variable &b) {
  try {
    return call_array(op, a, b);
  } catch (const std::exception &e) {
    throw Reject{std::string("data: ") + e.what()};
  }
}

Snap binary_model(const Op op, const DataArray &a, const DataArray &b) {
  const auto x = snap(a), y = snap(b);
  auto out = snap(data_of(op, a.data(), b.data()));
  out.coords = coords_model(x.coords, y.coords);
  out.masks = masks_model(x.masks, y.masks);
  out.attrs = attrs_model(x.attrs, y.attrs);
  expect_fit(out);
  return out;
}

Snap binary_model(const Op op, const DataArray &a, const Variable &b) {
  const auto x = snap(a);
  auto out = snap(data_of(op, a.data(), b));
  out.coords = x.coords;
  out.masks = x.masks;
  out.attrs = x.attrs;
  expect_fit(out);
  return out;
}

Snap binary_model(const Op op, const Variable &a, const DataArray &b) {
  const auto y = snap(b);
  auto out = snap(data_of(op, a, b.data()));
  out.coords = y.coords;
  out.masks = y.masks;
  out.attrs = y.attrs;
  expect_fit(out);
  return out;
}

Snap in_place_data(const Op op, const DataArray &a, const Variable &b) {
  auto out = snap(a);
  auto data = copy(a.data());
  try {
    in_place_array(op, data, b.is_same(a.data()) ? data : b);
  } catch (const std::exception &e) {
    throw Reject{std::string("data: ") + e.what()};
  }
  auto s = snap(data);
  out.data.l = s.data.l;
  return out;
}

Snap in_place_model(const Op op, const DataArray &a, const DataArray &b) {
  const auto x = snap(a), y = snap(b);
  for (const auto &[key, c] : y.coords) {
    const auto it = x.coords.find(key);
    if (it == x.coords.end()) {
      if (c.aligned)
        throw Reject{"coord " + key + " is missing"};
    } else if (c.aligned && it->second.aligned &&
               !st::same(c.l, it->second.l)) {
      throw Reject{"coord " + key};
    }
  }
  auto out = in_place_data(op, a, b.data());
  for (const auto &[key, m] : y.masks) {
    const auto it = out.masks.find(key);
    if (it == out.masks.end()) {
      if (x.meta_readonly[1])
        throw Reject{"new mask in a slice"};
      if (!fits(x.data.l, m.l))
        throw Reject{"mask does not fit"};
      out.masks[key] = m;
    } else {
      for (const auto d : m.l.labels)
        if (it->second.l.find(d) < 0 && it->second.readonly)
          throw Unclear{};
      auto l = or_model(it->second.l, m.l);
      if (it->second.readonly && !st::same(l, it->second.l))
        throw Reject{"broadcast mask"};
      if (l.labels.size() != it->second.l.labels.size())
        throw Reject{"mask needs more dimensions"};
      it->second.l = l;
    }
  }
  return out;
}

/// Other values for the data, to tell the operands apart.
DataArray refill(const DataArray &in) {
  auto a = copy(in);
  if (a.dtype() == dtype<double>) {
    double x = 1;
    for (auto &v : a.data().values<double>())
      v = (x += 0.5);
  } else if (a.dtype() == dtype<bool>) {
    bool x = false;
    for (auto &v : a.data().values<bool>())
      v = (x = !x);
  } else if (a.dtype() == dtype<int64_t>) {
    int64_t x = 0;
    for (auto &v : a.data().values<int64_t>())
      v = (x += 1);
  }
  return a;
}

/// Some changes to the meta data.
void mutate(DataArray &a, std::string &log) {
  const int n = int(sim::draw(3));
  const auto key_of = [&](const auto &dict) {
    auto it = dict.begin();
    for (auto i = sim::draw(uint32_t(dict.size())); i > 0; --i)
      ++it;
    return it->first;
  };
  const auto change = [&](auto &dict, const char *kind) {
    if (dict.empty())
      return;
    const auto key = key_of(dict);
    switch (sim::draw(3)) {
    case 0:
      log += std::string(" drop ") + kind;
      dict.erase(key);
      break;
    case 1:
      if (kind == std::string("mask"))
        break; // means nothing
      log += std::string(" align ") + kind;
      dict.set_aligned(key, !dict.at(key).is_aligned());
      break;
    default: {
      log += std::string(" change ") + kind;
      auto v = copy(dict.at(key));
      v.set_aligned(dict.at(key).is_aligned());
      if (v.dims().volume() == 0)
        return;
      const auto i = sim::draw(uint32_t(v.dims().volume()));
      if (v.dtype() == dtype<double>)
        v.template values<double>()[i] += 1;
      else if (v.dtype() == dtype<int64_t>)
        v.template values<int64_t>()[i] += 1;
      else if (v.dtype() == dtype<bool>)
        v.template values<bool>()[i] = !v.template values<bool>()[i];
      dict.set(key, v);
    }
    }
  };
  for (int i = 0; i < n; ++i)
    switch (sim::draw(4)) {
    case 0:
      change(a.coords(), "coord");
      break;
    case 1:
      change(a.masks(), "mask");
      break;
    case 2:
      change(a.attrs(), "attr");
      break;
    default: {
      // Another set of masks with the same names.
      Ext e;
      for (const auto d : a.dims().labels()) {
        e.labels.push_back(d);
        e.shape.push_back(a.dims()[d]);
      }
      for (const auto &[k, m] : draw_masks(e, 3))
        a.masks().set(k, m);
      log += " masks";
    }
    }
}

/// Second operand: related to the first, so that many coords match.
DataArray derive(const DataArray &base, std::string &log,
                 const bool share = true) {
  auto b = share && sim::draw_bool(3) ? base : refill(base);
  while (b.dims().ndim() > 0 && sim::draw_bool(4)) {
    const auto d = b.dims().label(sim::draw(uint32_t(b.dims().ndim())));
    if (b.dims()[d] == 0)
      break;
    const auto i = idx(sim::draw(uint32_t(b.dims()[d])));
    b = b.slice({d, i});
    log += " slice " + d.name() + " " + std::to_string(i);
  }
  if (b.dims().ndim() > 0 && sim::draw_bool(16)) {
    const auto d = b.dims().label(sim::draw(uint32_t(b.dims().ndim())));
    b = b.slice({d, 0, b.dims()[d] - (b.dims()[d] > 0)});
    log += " shorter " + d.name();
  }
  if (b.dims().ndim() > 1 && sim::draw_bool(5)) {
    std::vector<Dim> order(b.dims().labels().begin(), b.dims().labels().end());
    std::reverse(order.begin(), order.end());
    b = dataset::transpose(b, order);
    log += " transpose";
  }
  b = DataArray(b); // slices have read-only coords
  mutate(b, log);
  return b;
}

template <class F> Snap model_or(F &&f, std::string &reject) {
  try {
    return f();
  } catch (const Reject &r) {
    reject = r.why.empty() ? "rejected" : r.why;
  } catch (const Unclear &) {
    sim::skip("the model does not cover this");
  }
  return {};
}

/// A view cannot change the unit of what it is a view of.
bool is_unit_error(const std::string &error) {
  return error.find("cannot be used to change the unit") != std::string::npos;
}

void outcome(const std::string &log, const std::string &error,
             const std::string &reject) {
  if (!error.empty() && reject.empty() && !is_unit_error(error))
    sim::violation("rejected", "%s: %s", log.c_str(),
                   error.substr(0, 300).c_str());
  if (error.empty() && !reject.empty())
    sim::violation("accepted", "%s was accepted, expected an error: %s",
                   log.c_str(), reject.c_str());
}

Op draw_op(const int n) {
  return static_cast<Op>(sim::draw_bool() ? sim::draw(NDataset) : sim::draw(n));
}

ArrayOpts draw_opts(const Op op = Add) {
  ArrayOpts o;
  if (op >= And && op <= Xor)
    o.dtype = dtype<bool>;
  else if (op >= FloorDiv && sim::draw_bool(3))
    o.dtype = dtype<int64_t>;
  o.max_volume = 30;
  o.kind = sim::draw_bool(3) ? 1 + int(sim::draw(2)) : 0;
  return o;
}
} // namespace

WORKLOAD(c15_binary, "C15.binary", 4) {
  const auto op = draw_op(NOp);
  auto a = draw_array(draw_opts(op));
  std::string log = "a";
  auto b = derive(a, log += "; b");
  if (sim::draw_bool(3))
    mutate(a, log += "; a");
  const auto what_kind = sim::draw(6); // 0: with a variable, 1: reversed
  const bool swap = sim::draw_bool(4) && what_kind > 1;
  const auto &x = swap ? b : a;
  const auto &y = swap ? a : b;
  std::vector<const DataArray *> operands{&a, &b};
  std::string reject;
  Snap want;
  std::function<DataArray()> run;
  {
    sim::Quiet q;
    log += std::string("; a ") + op_names[op] + " b " + to_string(a.dims()) +
           " " + to_string(b.dims()) + (swap ? " swapped" : "");
    if (what_kind == 0)
      want = model_or([&] { return binary_model(op, a, b.data()); }, reject);
    else if (what_kind == 1)
      want = model_or([&] { return binary_model(op, a.data(), b); }, reject);
    else
      want = model_or([&] { return binary_model(op, x, y); }, reject);
  }
  if (what_kind == 0)
    run = [&] { return call_array(op, a, b.data()); };
  else if (what_kind == 1)
    run = [&] { return call_array(op, a.data(), b); };
  else
    run = [&] { return call_array(op, x, y); };
  DataArray out;
  const auto error = perform(log, operands, run, out);
  outcome(log, error, reject);
  if (!error.empty())
    return;
  st::expect(out, want, log, false, false);
  // Masks of the result belong to it alone.
  sim::Quiet q;
  const auto before_a = snap(a), before_b = snap(b);
  for (const auto &[key, m] : out.masks()) {
    auto v = m;
    for (auto &e : v.values<bool>())
      e = !e;
  }
  for (const auto &[s, now] : {std::pair(&before_a, &a), {&before_b, &b}})
    if (const auto d = differs(snap(*now), *s); !d.empty())
      sim::violation("shared", "%s: changing masks of the result: %s",
                     log.c_str(), d.c_str());
}

WORKLOAD(c15_in_place, "C15.in-place", 3) {
  const auto op = draw_op(NPlace);
  auto base = draw_array(draw_opts(op));
  if (sim::draw_bool())
    base = copy(base);
  std::string log = "a";
  auto b = sim::draw_bool(12) ? base : derive(base, log += "; b", false);
  const bool self = b.data().is_same(base.data());
  auto a = base;
  Dim along = Dim::Invalid;
  core::Slice slice;
  if (!self && base.dims().ndim() > 0 && sim::draw_bool(4)) {
    along = base.dims().label(sim::draw(uint32_t(base.dims().ndim())));
    const auto n = base.dims()[along];
    const auto begin = idx(sim::draw(uint32_t(n + 1)));
    const auto end = begin + idx(sim::draw(uint32_t(n - begin + 1)));
    slice = core::Slice(along, begin, end);
    a = base.slice(slice);
    log += "; a slice " + along.name() + " " + std::to_string(begin) + ":" +
           std::to_string(end);
    if (b.dims().contains(along) && b.dims()[along] == n && !sim::draw_bool(4))
      b = DataArray(b.slice(slice));
  } else if (!self && sim::draw_bool(4)) {
    mutate(a, log += "; a");
  }
  const bool with_variable = sim::draw_bool(6);
  std::string reject;
  Snap want;
  Snap before_b, before_base, before_a;
  {
    sim::Quiet q;
    log += std::string("; a ") + op_names[op] + "= b " + to_string(a.dims()) +
           " " + to_string(b.dims());
    want = with_variable
               ? model_or([&] { return in_place_data(op, a, b.data()); }, reject)
               : model_or([&] { return in_place_model(op, a, b); }, reject);
    before_a = snap(a);
    before_b = snap(b);
    before_base = snap(base);
  }
  std::string error;
  try {
    if (with_variable)
      in_place_array(op, a, b.data());
    else
      in_place_array(op, a, b);
  } catch (const std::exception &e) {
    error = e.what();
  }
  sim::Quiet q;
  outcome(log, error, reject);
  if (!self)
    if (const auto d = differs(snap(b), before_b); !d.empty())
      sim::violation("operand", "%s: b changed: %s", log.c_str(), d.c_str());
  if (!error.empty()) {
    if (const auto d = differs(snap(a), before_a); !d.empty())
      sim::violation("rejected-effect", "%s: a changed: %s (%s)", log.c_str(),
                     d.c_str(), error.c_str());
    return;
  }
  st::expect(a, want, log, true, true);
  if (along == Dim::Invalid) {
    // Masks that came from b belong to a alone now.
    if (self)
      return;
    const auto b_now = snap(b);
    for (const auto &[key, m] : a.masks())
      if (auto v = m; !before_a.masks.count(key) && !v.is_readonly())
        for (auto &e : v.values<bool>())
          e = !e;
    if (const auto d = differs(snap(b), b_now); !d.empty())
      sim::violation("shared", "%s: changing new masks of a: %s", log.c_str(),
                     d.c_str());
    return;
  }
  // Through the slice, and nothing else.
  const auto part = DataArray(base.slice(slice));
  auto w = want;
  w.masks = snap(part).masks; // new masks are not possible, see above
  st::expect(part, w, log + ": in place", true, true);
  const auto now = snap(base);
  if (op == Add || op == Sub || (op >= And && op <= Xor) || !(now.data.l.unit != before_base.data.l.unit))
    for (const auto &rest :
         {std::pair(idx(0), slice.begin()),
          std::pair(slice.end(), base.dims()[along])}) {
      const auto x = range(now, along, rest.first, rest.second);
      const auto y = range(before_base, along, rest.first, rest.second);
      if (const auto d = differs(x, y); !d.empty())
        sim::violation("outside", "%s: outside of the slice: %s", log.c_str(),
                       d.c_str());
    }
}

namespace {
Dataset draw_dataset(const int n, const Ext &s, const int first) {
  ArrayOpts o = draw_opts();
  o.kind = 0;
  Dataset out;
  for (int i = 0; i < n; ++i) {
    auto item = draw_array(o, &s);
    if (i != 0)
      item = DataArray(item.data(), {}, item.masks().items(),
                       item.attrs().items());
    out.setDataInit("item " + std::to_string(first + i), item);
  }
  return out;
}
} // namespace

WORKLOAD(c15_dataset_binary, "C15.dataset.binary", 2) {
  // Each item as if it were alone.
  const auto op = draw_op(NDataset);
  const auto s = draw_shape(2, 16, true);
  const int n = 1 + int(sim::draw(3));
  auto a = draw_dataset(n, s, 0);
  auto b = copy(a);
  if (sim::draw_bool())
    a = copy(a);
  std::string log;
  for (const auto &name : std::vector<std::string>{"item 0", "item 1"})
    if (b.contains(name) && b.size() > 1 && sim::draw_bool(4))
      b.erase(name);
  if (sim::draw_bool(4) && !b.coords().empty())
    b.coords().erase(b.coords().begin()->first);
  if (sim::draw_bool(6) && !b.coords().empty()) {
    const auto key = b.coords().begin()->first;
    const auto c = copy(b.coords()[key]);
    b.coords().set_aligned(key, !c.is_aligned());
  }
  const bool place = sim::draw_bool();
  const int kind = int(sim::draw(5)); // 0, 1: dataset, 2: array, 3: variable
  // An operand that belongs to one of the items.
  const auto owner = "item " + std::to_string(sim::draw(uint32_t(n)));
  const auto array = sim::draw_bool(3) && b.contains(owner)
                         ? DataArray(b[owner])
                         : DataArray(a[owner]);
  const bool reversed = kind >= 2 && !place && sim::draw_bool();
  log = std::string("dataset ") + op_names[op] + (place ? "= " : " ") +
        (kind < 2 ? "dataset" : kind < 4 ? "array" : "variable") +
        (reversed ? " reversed" : "");
  std::map<std::string, Snap> want;
  std::string reject;
  DsSnap before_a, before_b;
  Snap before_array;
  {
    sim::Quiet q;
    before_a = snap(a);
    before_b = snap(b);
    before_array = snap(array);
    std::vector<std::string> names;
    for (const auto &i : a)
      if (kind >= 2 || b.contains(i.name()))
        names.push_back(i.name());
    if (place && kind < 2)
      for (const auto &i : b)
        if (!a.contains(i.name()))
          reject = "no such item";
    const auto fixed = copy(array); // as it was before
    for (const auto &name : names) {
      std::string r;
      const auto mine = DataArray(a[name]);
      Snap w;
      if (place) {
        auto x = copy(mine);
        w = kind < 2   ? model_or([&] { return in_place_model(op, x, b[name]); }, r)
            : kind < 4 ? model_or([&] { return in_place_model(op, x, mine.data().is_same(array.data()) ? x : fixed); }, r)
                       : model_or([&] { return in_place_data(op, x, mine.data().is_same(array.data()) ? x.data() : fixed.data()); }, r);
      } else if (kind < 2) {
        w = model_or([&] { return binary_model(op, a[name], b[name]); }, r);
      } else if (kind < 4) {
        w = reversed
                ? model_or([&] { return binary_model(op, array, a[name]); }, r)
                : model_or([&] { return binary_model(op, a[name], array); }, r);
      } else {
        w = reversed
                ? model_or([&] { return binary_model(op, array.data(), a[name]); }, r)
                : model_or([&] { return binary_model(op, a[name], array.data()); }, r);
      }
      if (!r.empty())
        reject = r;
      want[name] = w;
    }
  }
  Dataset out;
  std::string error;
  try {
    if (place) {
      if (kind < 2)
        in_place(op, a, b);
      else if (kind < 4)
        in_place(op, a, array);
      else
        in_place(op, a, array.data());
    } else if (kind < 2) {
      out = call(op, a, b);
    } else if (kind < 4) {
      out = reversed ? call(op, array, a) : call(op, a, array);
    } else {
      out = reversed ? call(op, array.data(), a) : call(op, a, array.data());
    }
  } catch (const std::exception &e) {
    error = e.what();
  }
  sim::Quiet q;
  if (const auto d = differs(snap(b), before_b); !d.empty())
    sim::violation("operand", "%s: b changed: %s", log.c_str(), d.c_str());
  outcome(log, error, reject);
  if (!error.empty() || !place) {
    if (const auto d = differs(snap(a), before_a); !d.empty())
      sim::violation("rejected-effect", "%s: a changed: %s", log.c_str(),
                     d.c_str());
  }
  if (!error.empty())
    return;
  const auto &result = place ? a : out;
  if (!place && result.size() != idx(want.size()))
    sim::violation("items", "%s: %d items, expected %d", log.c_str(),
                   int(result.size()), int(want.size()));
  for (const auto &[name, w] : want) {
    if (!result.contains(name))
      sim::violation("items", "%s: lacks %s", log.c_str(), name.c_str());
    st::expect(result[name], w, log + ": " + name, false, false);
  }
}
