// C02: vectors, spatial transforms, times and strings.
#include "var.h"

#include <algorithm>
#include <type_traits>

#include "scipp/core/eigen.h"
#include "scipp/core/spatial_transforms.h"
#include "scipp/core/time_point.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/generated_math.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/misc_operations.h"
#include "scipp/variable/operations.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/structures.h"
#include "scipp/variable/to_unit.h"
#include "scipp/variable/util.h"

using namespace scipp;
using namespace scipp::variable;
using namespace vm;
using scipp::core::dtype;
using scipp::core::Quaternion;
using scipp::core::time_point;
using scipp::core::Translation;
using Vec = Eigen::Vector3d;
using Mat = Eigen::Matrix3d;
using Aff = Eigen::Affine3d;

namespace {
core::Dimensions dims_of(const Ext &s) {
  return {scipp::span<const Dim>(s.labels.data(), s.labels.size()),
          scipp::span<const idx>(s.shape.data(), s.shape.size())};
}

template <class T>
constexpr bool structure =
    std::is_same_v<T, Vec> || std::is_same_v<T, Mat> || std::is_same_v<T, Aff> ||
    std::is_same_v<T, Quaternion> || std::is_same_v<T, Translation>;

double draw_small() { return double(sim::draw(9)) - 4; }

template <class T> T draw_item() {
  if constexpr (std::is_same_v<T, Vec>) {
    return Vec(draw_small(), draw_small(), draw_small());
  } else if constexpr (std::is_same_v<T, Mat>) {
    Mat m;
    for (int i = 0; i < 9; ++i)
      m(i / 3, i % 3) = draw_small();
    return m;
  } else if constexpr (std::is_same_v<T, Quaternion>) {
    Vec axis(1 + draw_small(), 2, draw_small());
    axis.normalize();
    return Quaternion(
        Eigen::Quaterniond(Eigen::AngleAxisd(draw_small() / 3, axis)));
  } else if constexpr (std::is_same_v<T, Translation>) {
    return Translation(Vec(draw_small(), draw_small(), draw_small()));
  } else if constexpr (std::is_same_v<T, Aff>) {
    Aff a = Aff::Identity();
    a.matrix().block<3, 3>(0, 0) = draw_item<Mat>();
    a.matrix().block<3, 1>(0, 3) = draw_item<Vec>();
    return a;
  } else if constexpr (std::is_same_v<T, time_point>) {
    return time_point(int64_t(sim::draw(2000)) - 1000);
  } else if constexpr (std::is_same_v<T, std::string>) {
    return std::string(sim::draw(30), char('a' + sim::draw(2)));
  } else if constexpr (std::is_same_v<T, bool>) {
    return sim::draw_bool();
  } else {
    return T(draw_small());
  }
}

/// Every type in a form to compare.
template <class T> std::vector<double> coeffs(const T &x) {
  if constexpr (std::is_same_v<T, Vec> || std::is_same_v<T, Mat>) {
    return {x.data(), x.data() + x.size()};
  } else if constexpr (std::is_same_v<T, Aff>) {
    return {x.matrix().data(), x.matrix().data() + 16};
  } else if constexpr (std::is_same_v<T, Quaternion>) {
    return coeffs(Mat(x.quat().toRotationMatrix()));
  } else if constexpr (std::is_same_v<T, Translation>) {
    return coeffs(x.vector());
  } else if constexpr (std::is_same_v<T, time_point>) {
    return {double(x.time_since_epoch())};
  } else if constexpr (std::is_same_v<T, std::string>) {
    std::vector<double> out;
    for (const auto c : x)
      out.push_back(double(c));
    return out;
  } else {
    return {double(x)};
  }
}

template <class T> std::string text(const T &x) {
  std::string s = "(";
  for (const auto c : coeffs(x))
    s += (s.size() > 1 ? " " : "") + std::to_string(c);
  return s + ")";
}

template <class T> bool same(const T &a, const T &b, const double rtol) {
  const auto x = coeffs(a), y = coeffs(b);
  if (x.size() != y.size())
    return false;
  double scale = 1;
  for (const auto c : y)
    scale = std::max(scale, std::abs(c));
  for (size_t i = 0; i < x.size(); ++i)
    if (!(x[i] == y[i] || std::abs(x[i] - y[i]) <= rtol * scale ||
          (std::isnan(x[i]) && std::isnan(y[i]))))
      return false;
  return true;
}

template <class T> struct Typed {
  using type = T;
  Variable var;
  Variable root;
  Ext s;
  std::vector<T> cells;       // row-major in s
  std::vector<T> root_before; // all memory
  Unit unit = units::one;

  const T &at(const Logical &in, const std::vector<idx> &c) const {
    idx k = 0;
    for (size_t i = 0; i < s.labels.size(); ++i)
      k = k * s.shape[i] + c[in.find(s.labels[i])];
    return cells[k];
  }
  std::string str() const {
    std::string t = var.dims().empty() ? "{" : to_string(var.dims());
    return to_string(dtype<T>) + " " + t;
  }
};

/// All elements in row-major order, one by one.
template <class T>
void read_into(const Variable &v, const Ext &s, const size_t dim,
               std::vector<T> &out) {
  if (dim == s.labels.size()) {
    out.push_back(v.value<T>());
    return;
  }
  for (idx i = 0; i < s.shape[dim]; ++i)
    read_into(v.slice({s.labels[dim], i}), s, dim + 1, out);
}

template <class T> std::vector<T> read_all(const Variable &v, const Ext &s) {
  std::vector<T> out;
  read_into(v, s, 0, out);
  return out;
}

template <class T>
Variable from(const Ext &s, const Unit &unit, const std::vector<T> &items) {
  const auto n = idx(items.size());
  if constexpr (structure<T>) {
    constexpr idx k = sizeof(T) / sizeof(double);
    core::element_array<double> flat(n * k);
    for (idx i = 0; i < n; ++i)
      std::copy_n(reinterpret_cast<const double *>(&items[i]), k,
                  flat.data() + i * k);
    return make_structures<T, double>(dims_of(s), unit, std::move(flat));
  } else {
    core::element_array<T> v(n);
    for (idx i = 0; i < n; ++i)
      v.data()[i] = items[i];
    return Variable(unit, dims_of(s), std::move(v),
                    std::optional<core::element_array<T>>{});
  }
}

template <class T>
Typed<T> typed(const Ext &s, const Unit &unit, const bool no_view = false) {
  Typed<T> t;
  t.s = s;
  t.unit = unit;
  auto memory = s;
  if (!sim::draw_bool(3))
    shuffle(memory);
  std::vector<idx> lead(memory.labels.size(), 0);
  auto full = memory;
  if (!no_view && sim::draw_bool())
    for (size_t i = 0; i < lead.size(); ++i) {
      lead[i] = sim::draw_bool() ? sim::draw(3) : 0;
      full.shape[i] += lead[i] + (sim::draw_bool() ? sim::draw(3) : 0);
    }
  idx n = 1;
  for (const auto x : full.shape)
    n *= x;
  for (idx i = 0; i < n; ++i)
    t.root_before.push_back(draw_item<T>());
  sim::Quiet quiet;
  t.root = from(full, unit, t.root_before);
  t.var = t.root;
  for (size_t i = 0; i < lead.size(); ++i)
    if (full.shape[i] != memory.shape[i])
      t.var = t.var.slice(
          {full.labels[i], lead[i], lead[i] + memory.shape[i]});
  if (!s.labels.empty())
    t.var = t.var.transpose(
        scipp::span<const Dim>(s.labels.data(), s.labels.size()));
  t.cells = read_all<T>(t.var, s);
  return t;
}

template <class T> void unchanged(const Typed<T> &t, const std::string &what) {
  const auto p = t.root.template values<T>();
  for (size_t i = 0; i < t.root_before.size(); ++i)
    if (!same(p.data()[i], t.root_before[i], 0))
      sim::violation("operand", "%s: operand %s was modified", what.c_str(),
                     t.str().c_str());
}

/// In place: exactly the elements of the view hold the new contents.
template <class T>
void written(const Typed<T> &t, const std::vector<T> &want,
             const std::string &what, const double rtol) {
  auto expected = from<T>({t.root.dims().labels().begin() ==
                                   t.root.dims().labels().end()
                               ? std::vector<Dim>{}
                               : std::vector<Dim>(t.root.dims().labels().begin(),
                                                  t.root.dims().labels().end()),
                           std::vector<idx>(t.root.dims().shape().begin(),
                                            t.root.dims().shape().end())},
                          t.unit, t.root_before);
  const auto got = read_all<T>(t.var, t.s);
  for (size_t i = 0; i < want.size(); ++i)
    if (!same(got[i], want[i], rtol))
      sim::violation("value", "%s: element %zu is %s instead of %s",
                     what.c_str(), i, text(got[i]).c_str(),
                     text(want[i]).c_str());
  // Restore the old contents, then all memory must be as before.
  const auto p = t.root.template values<T>();
  std::vector<T> now(p.data(), p.data() + t.root_before.size());
  size_t changed = 0;
  for (size_t i = 0; i < now.size(); ++i)
    changed += !same(now[i], t.root_before[i], 0);
  size_t allowed = 0;
  for (size_t i = 0; i < want.size(); ++i)
    allowed += !same(t.cells[i], got[i], 0);
  if (changed != allowed)
    sim::violation("write", "%s: %zu elements of the memory changed but %zu of "
                            "the view",
                   what.c_str(), changed, allowed);
}

template <class R, class F, class... T>
void check_result(const Variable &out, const std::string &what, const Unit &unit,
            const double rtol, F &&f, const Typed<T> &...args) {
  sim::Quiet quiet;
  if (out.dtype() != dtype<R>)
    sim::violation("dtype", "%s: dtype of the result is %s", what.c_str(),
                   to_string(out.dtype()).c_str());
  if (out.unit() != unit)
    sim::violation("unit", "%s: unit of the result is %s", what.c_str(),
                   to_string(out.unit()).c_str());
  Logical l;
  Ext s;
  for (const auto &d : out.dims().labels())
    s.labels.push_back(d);
  for (const auto n : out.dims().shape())
    s.shape.push_back(n);
  l.labels = s.labels;
  l.shape = s.shape;
  size_t found = 0;
  std::vector<Dim> seen;
  const auto check = [&](const auto &a) {
    for (size_t i = 0; i < a.s.labels.size(); ++i) {
      const auto at = l.find(a.s.labels[i]);
      if (at < 0 || l.shape[at] != a.s.shape[i])
        sim::violation("shape", "%s: shape of the result is %s", what.c_str(),
                       to_string(out.dims()).c_str());
      if (std::find(seen.begin(), seen.end(), a.s.labels[i]) == seen.end()) {
        seen.push_back(a.s.labels[i]);
        ++found;
      }
    }
  };
  (check(args), ...);
  if (found != l.labels.size())
    sim::violation("shape", "%s: shape of the result is %s", what.c_str(),
                   to_string(out.dims()).c_str());
  const auto got = read_all<R>(out, s);
  each(l, [&](const auto &c, const idx k) {
    const R want = f(args.at(l, c)...);
    if (!same(got[k], want, rtol))
      sim::violation("value", "%s: element %ld is %s instead of %s",
                     what.c_str(), long(k), text(got[k]).c_str(),
                     text(want).c_str());
  });
  (unchanged(args, what), ...);
  for (const auto &x : got)
    for (const auto c : coeffs(x))
      sim::observe(&c, sizeof(c));
}

template <class... T>
std::string name(const char *op, const Typed<T> &...args) {
  std::string s = std::string(op) + "(";
  size_t n = 0;
  ((s += (n++ ? ", " : "") + args.str()), ...);
  return s + ")";
}

// A transform as an affine map: the oracle for all products.
Aff affine(const Mat &m) {
  Aff a = Aff::Identity();
  a.matrix().block<3, 3>(0, 0) = m;
  return a;
}
Aff affine(const Quaternion &q) {
  return affine(Mat(q.quat().toRotationMatrix()));
}
Aff affine(const Translation &t) {
  Aff a = Aff::Identity();
  a.matrix().block<3, 1>(0, 3) = t.vector();
  return a;
}
Aff affine(const Aff &a) { return a; }

template <class R> R back(const Aff &a) {
  if constexpr (std::is_same_v<R, Aff>)
    return a;
  else if constexpr (std::is_same_v<R, Mat>)
    return a.matrix().block<3, 3>(0, 0);
  else if constexpr (std::is_same_v<R, Translation>)
    return Translation(a.matrix().block<3, 1>(0, 3));
  else
    return Quaternion(
        Eigen::Quaterniond(Mat(a.matrix().block<3, 3>(0, 0))));
}

template <class A, class B, class R> void product(const Ext &full) {
  constexpr bool moves =
      (std::is_same_v<A, Aff> || std::is_same_v<A, Translation>)&&(
          std::is_same_v<B, Aff> || std::is_same_v<B, Translation>);
  const Unit u = moves ? units::m
                       : (sim::draw_bool() ? units::m : units::one);
  const Unit v = moves ? units::m : units::one;
  auto a = typed<A>(draw_subset(full), u);
  auto b = typed<B>(draw_subset(full), v);
  check_result<R>(a.var * b.var, name("product", a, b), u, 1e-12,
            [](const A &x, const B &y) {
              Eigen::Matrix4d m = affine(x).matrix() * affine(y).matrix();
              Aff out;
              out.matrix() = m;
              return back<R>(out);
            },
            a, b);
}

template <class A> void on_vector(const Ext &full) {
  constexpr bool moves =
      std::is_same_v<A, Aff> || std::is_same_v<A, Translation>;
  const Unit u = moves || sim::draw_bool() ? units::m : units::one;
  auto a = typed<A>(draw_subset(full), u);
  auto b = typed<Vec>(draw_subset(full), units::m);
  check_result<Vec>(a.var * b.var, name("transform", a, b),
              moves ? units::m : u * units::m, 1e-12,
              [](const A &x, const Vec &y) {
                const auto m = affine(x).matrix();
                Vec out;
                for (int i = 0; i < 3; ++i)
                  out(i) = m(i, 0) * y(0) + m(i, 1) * y(1) + m(i, 2) * y(2) +
                           m(i, 3);
                return out;
              },
              a, b);
}

template <class T> void scaling(const Ext &full) {
  auto a = typed<Vec>(draw_subset(full), units::m);
  auto b = typed<T>(draw_subset(full), units::s);
  switch (sim::draw(3)) {
  case 0:
    check_result<Vec>(a.var * b.var, name("vector times number", a, b),
                units::m * units::s, 1e-12,
                [](const Vec &x, const T y) { return Vec(x * double(y)); }, a,
                b);
    break;
  case 1:
    check_result<Vec>(b.var * a.var, name("number times vector", a, b),
                units::m * units::s, 1e-12,
                [](const T y, const Vec &x) { return Vec(x * double(y)); }, b,
                a);
    break;
  default:
    check_result<Vec>(a.var / b.var, name("vector divided by number", a, b),
                units::m / units::s, 1e-6,
                [](const Vec &x, const T y) {
                  return Vec(x(0) / y, x(1) / y, x(2) / y);
                },
                a, b);
  }
}

template <class T> void equality(const Ext &full) {
  const Unit u = std::is_same_v<T, std::string> ? units::none : units::m;
  auto a = typed<T>(draw_subset(full), u);
  auto b = typed<T>(draw_subset(full), u);
  const bool alias = sim::draw_bool(4);
  const auto &c = alias ? a : b;
  const auto eq = [](const T &x, const T &y) {
    if constexpr (std::is_same_v<T, Quaternion>)
      return x.quat().coeffs() == y.quat().coeffs();
    else
      return coeffs(x) == coeffs(y);
  };
  if (sim::draw_bool())
    check_result<bool>(equal(a.var, c.var), name("equal", a, c), units::none, 0, eq,
                 a, c);
  else
    check_result<bool>(not_equal(a.var, c.var), name("not_equal", a, c), units::none,
                 0, [&](const T &x, const T &y) { return !eq(x, y); }, a, c);
}

template <class T> void choice(const Ext &full) {
  const Unit u = std::is_same_v<T, std::string> ? units::none : units::m;
  auto c = typed<bool>(draw_subset(full), units::none);
  auto a = typed<T>(draw_subset(full), u);
  auto b = typed<T>(draw_subset(full), u);
  check_result<T>(where(c.var, a.var, b.var), name("where", c, a, b), u, 0,
            [](const bool x, const T &y, const T &z) { return x ? y : z; }, c,
            a, b);
}

template <class T> void duplicate(const Ext &full) {
  const Unit u = std::is_same_v<T, std::string> ? units::none : units::m;
  auto a = typed<T>(full, u);
  check_result<T>(copy(a.var), name("copy", a), u, 0, [](const T &x) { return x; },
            a);
  auto order = full;
  shuffle(order);
  auto b = typed<T>(order, u);
  copy(a.var, b.var);
  sim::Quiet quiet;
  Logical in;
  in.labels = b.s.labels;
  in.shape = b.s.shape;
  std::vector<T> want(b.cells.size());
  each(in, [&](const auto &c, const idx k) { want[k] = a.at(in, c); });
  written(b, want, name("copy into another layout", a, b), 0);
  unchanged(a, "copy into another layout");
}

template <class T> void times(const Ext &full) {
  auto a = typed<time_point>(draw_subset(full), units::s);
  auto b = typed<T>(draw_subset(full), units::s);
  const auto shift = [](const int sign) {
    return [sign](const time_point x, const T y) {
      return time_point(x.time_since_epoch() + sign * int64_t(y));
    };
  };
  switch (sim::draw(3)) {
  case 0:
    check_result<time_point>(a.var + b.var, name("time plus", a, b), units::s, 0,
                       shift(1), a, b);
    break;
  case 1:
    check_result<time_point>(
        b.var + a.var, name("plus time", b, a), units::s, 0,
        [](const T y, const time_point x) {
          return time_point(x.time_since_epoch() + int64_t(y));
        },
        b, a);
    break;
  default:
    check_result<time_point>(a.var - b.var, name("time minus", a, b), units::s, 0,
                       shift(-1), a, b);
  }
}

void compare_times(const Ext &full) {
  auto a = typed<time_point>(draw_subset(full), units::s);
  auto b = typed<time_point>(draw_subset(full), units::s);
  const auto t = [](const time_point x) { return x.time_since_epoch(); };
  const auto op = sim::draw(5);
  switch (op) {
  case 0:
    check_result<int64_t>(a.var - b.var, name("time minus time", a, b), units::s, 0,
                    [&](auto x, auto y) { return t(x) - t(y); }, a, b);
    break;
  case 1:
    check_result<bool>(less(a.var, b.var), name("less", a, b), units::none, 0,
                 [&](auto x, auto y) { return t(x) < t(y); }, a, b);
    break;
  case 2:
    check_result<bool>(greater(a.var, b.var), name("greater", a, b), units::none, 0,
                 [&](auto x, auto y) { return t(x) > t(y); }, a, b);
    break;
  case 3:
    check_result<bool>(less_equal(a.var, b.var), name("less_equal", a, b),
                 units::none, 0, [&](auto x, auto y) { return t(x) <= t(y); },
                 a, b);
    break;
  default:
    check_result<bool>(greater_equal(a.var, b.var), name("greater_equal", a, b),
                 units::none, 0, [&](auto x, auto y) { return t(x) >= t(y); },
                 a, b);
  }
}

template <class A, class B, class Op, class F>
void in_place(const char *what, const Ext &full, const Unit &ua, const Unit &ub,
              Op &&op, F &&f) {
  auto a = typed<A>(full, ua);
  auto b = typed<B>(draw_subset(full), ub);
  op(a.var, b.var);
  sim::Quiet quiet;
  Logical in;
  in.labels = a.s.labels;
  in.shape = a.s.shape;
  std::vector<A> want(a.cells.size());
  each(in, [&](const auto &c, const idx k) {
    want[k] = f(a.cells[k], b.at(in, c));
  });
  written(a, want, name(what, a, b), 1e-12);
  unchanged(b, what);
}
} // namespace

WORKLOAD(c02_structures, "C02.structures", 3) {
  const auto full = draw_shape(3, 24, true);
  switch (sim::draw(24)) {
  case 0:
    return product<Mat, Mat, Mat>(full);
  case 1:
    return sim::draw_bool() ? product<Mat, Quaternion, Mat>(full)
                            : product<Quaternion, Mat, Mat>(full);
  case 2:
    return sim::draw_bool() ? product<Quaternion, Quaternion, Quaternion>(full)
                            : product<Translation, Translation, Translation>(full);
  case 3:
    return sim::draw_bool() ? product<Aff, Aff, Aff>(full)
                            : product<Translation, Aff, Aff>(full);
  case 4:
    return product<Aff, Translation, Aff>(full);
  case 5:
    return on_vector<Mat>(full);
  case 6:
    return on_vector<Quaternion>(full);
  case 7:
    return sim::draw_bool() ? on_vector<Aff>(full) : on_vector<Translation>(full);
  case 8:
    return sim::draw_bool() ? scaling<double>(full) : scaling<float>(full);
  case 9:
    return sim::draw_bool() ? scaling<int64_t>(full) : scaling<int32_t>(full);
  case 10: {
    auto a = typed<Vec>(draw_subset(full), units::m);
    auto b = typed<Vec>(draw_subset(full), units::m);
    if (sim::draw_bool())
      return check_result<Vec>(a.var + b.var, name("plus", a, b), units::m, 0,
                         [](const Vec &x, const Vec &y) { return Vec(x + y); },
                         a, b);
    return check_result<Vec>(a.var - b.var, name("minus", a, b), units::m, 0,
                       [](const Vec &x, const Vec &y) { return Vec(x - y); }, a,
                       b);
  }
  case 11: {
    auto a = typed<Vec>(draw_subset(full), units::m);
    auto b = typed<Vec>(draw_subset(full), units::s);
    if (sim::draw_bool())
      return check_result<double>(dot(a.var, b.var), name("dot", a, b),
                            units::m * units::s, 1e-12,
                            [](const Vec &x, const Vec &y) {
                              return x(0) * y(0) + x(1) * y(1) + x(2) * y(2);
                            },
                            a, b);
    return check_result<Vec>(cross(a.var, b.var), name("cross", a, b),
                       units::m * units::s, 1e-12,
                       [](const Vec &x, const Vec &y) {
                         return Vec(x(1) * y(2) - x(2) * y(1),
                                    x(2) * y(0) - x(0) * y(2),
                                    x(0) * y(1) - x(1) * y(0));
                       },
                       a, b);
  }
  case 12: {
    auto a = typed<Vec>(full, units::m);
    switch (sim::draw(4)) {
    case 0:
      return check_result<double>(norm(a.var), name("norm", a), units::m, 1e-12,
                            [](const Vec &x) {
                              return std::sqrt(x(0) * x(0) + x(1) * x(1) +
                                               x(2) * x(2));
                            },
                            a);
    case 1:
      return check_result<Vec>(-a.var, name("negative", a), units::m, 0,
                         [](const Vec &x) { return Vec(-x); }, a);
    case 2:
      return check_result<bool>(isfinite(a.var), name("isfinite", a), units::none, 0,
                          [](const Vec &) { return true; }, a);
    default: {
      const int i = int(sim::draw(3));
      static const char *const key[] = {"x", "y", "z"};
      return check_result<double>(copy(a.var.elements<Vec>(key[i])),
                            name("component", a), units::m, 0,
                            [i](const Vec &x) { return x(i); }, a);
    }
    }
  }
  case 13: {
    auto x = typed<double>(draw_subset(full), units::m);
    auto y = typed<double>(draw_subset(full), units::m);
    auto z = typed<double>(draw_subset(full), units::m);
    return check_result<Vec>(geometry::position(x.var, y.var, z.var),
                       name("position", x, y, z), units::m, 0,
                       [](double a, double b, double c) {
                         return Vec(a, b, c);
                       },
                       x, y, z);
  }
  case 14:
    switch (sim::draw(4)) {
    case 0:
      return equality<Vec>(full);
    case 1:
      return equality<Mat>(full);
    case 2:
      return equality<std::string>(full);
    default:
      return equality<time_point>(full);
    }
  case 15:
    switch (sim::draw(3)) {
    case 0:
      return equality<Quaternion>(full);
    case 1:
      return equality<Translation>(full);
    default:
      return equality<Aff>(full);
    }
  case 16:
    switch (sim::draw(4)) {
    case 0:
      return choice<Vec>(full);
    case 1:
      return choice<time_point>(full);
    case 2:
      return choice<std::string>(full);
    default:
      return choice<Quaternion>(full);
    }
  case 17:
    switch (sim::draw(6)) {
    case 0:
      return duplicate<Vec>(full);
    case 1:
      return duplicate<Mat>(full);
    case 2:
      return duplicate<time_point>(full);
    case 3:
      return duplicate<std::string>(full);
    case 4:
      return duplicate<Quaternion>(full);
    default:
      return duplicate<Aff>(full);
    }
  case 18:
    return sim::draw_bool() ? times<int64_t>(full) : times<int32_t>(full);
  case 19:
    return compare_times(full);
  case 20:
    if (sim::draw_bool())
      return in_place<Vec, Vec>("plus in place", full, units::m, units::m,
                                [](auto &a, const auto &b) { a += b; },
                                [](const Vec &x, const Vec &y) {
                                  return Vec(x + y);
                                });
    return in_place<Vec, Vec>("minus in place", full, units::m, units::m,
                              [](auto &a, const auto &b) { a -= b; },
                              [](const Vec &x, const Vec &y) {
                                return Vec(x - y);
                              });
  case 21:
    if (sim::draw_bool())
      return in_place<Vec, double>("times in place", full, units::m, units::one,
                                   [](auto &a, const auto &b) { a *= b; },
                                   [](const Vec &x, const double y) {
                                     return Vec(x * y);
                                   });
    return in_place<Mat, Mat>("matrix times in place", full, units::m,
                              units::one,
                              [](auto &a, const auto &b) { a *= b; },
                              [](const Mat &x, const Mat &y) {
                                return Mat(x * y);
                              });
  case 22: {
    const int sign = sim::draw_bool() ? 1 : -1;
    return in_place<time_point, int64_t>(
        "shift of times in place", full, units::s, units::s,
        [sign](auto &a, const auto &b) {
          if (sign > 0)
            a += b;
          else
            a -= b;
        },
        [sign](const time_point x, const int64_t y) {
          return time_point(x.time_since_epoch() + sign * y);
        });
  }
  default: {
    // Writing one component leaves the others alone.
    const int i = int(sim::draw(3));
    static const char *const key[] = {"x", "y", "z"};
    return in_place<Vec, double>(
        "component plus in place", full, units::m, units::m,
        [&](auto &a, const auto &b) {
          auto c = a.template elements<Vec>(key[i]);
          c += b;
        },
        [i](const Vec &x, const double y) {
          Vec out = x;
          out(i) += y;
          return out;
        });
  }
  }
}
