// Stand-in for LLNL-Units 0.9.1, which is not available offline.
//
// STUB COMPONENT: this is not the code under test. It offers exactly the part
// of the LLNL-Units interface that lib/{units,core,variable,dataset} of scipp
// use, with the same observable semantics for the small set of units the
// simulation workloads use, so that the whole C++ core of scipp compiles
// unmodified from /repo. It is header-only, has no mutable global state (the
// alias table aside, see units.hpp) and draws on no nondeterminism.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>

namespace llnl::units {

namespace detail {
class unit_data {
public:
  constexpr unit_data() = default;
  constexpr unit_data(int meter, int kilogram, int second, int ampere,
                      int kelvin, int mole, int candela, int currency,
                      int count, int radians, unsigned per_unit = 0,
                      unsigned i_flag = 0, unsigned e_flag = 0,
                      unsigned equation = 0)
      : m{static_cast<int8_t>(meter),   static_cast<int8_t>(kilogram),
          static_cast<int8_t>(second),  static_cast<int8_t>(ampere),
          static_cast<int8_t>(kelvin),  static_cast<int8_t>(mole),
          static_cast<int8_t>(candela), static_cast<int8_t>(currency),
          static_cast<int8_t>(count),   static_cast<int8_t>(radians)},
        f{per_unit != 0, i_flag != 0, e_flag != 0, equation != 0} {}
  constexpr int meter() const { return m[0]; }
  constexpr int kg() const { return m[1]; }
  constexpr int second() const { return m[2]; }
  constexpr int ampere() const { return m[3]; }
  constexpr int kelvin() const { return m[4]; }
  constexpr int mole() const { return m[5]; }
  constexpr int candela() const { return m[6]; }
  constexpr int currency() const { return m[7]; }
  constexpr int count() const { return m[8]; }
  constexpr int radian() const { return m[9]; }
  constexpr bool is_per_unit() const { return f[0]; }
  constexpr bool has_i_flag() const { return f[1]; }
  constexpr bool has_e_flag() const { return f[2]; }
  constexpr bool is_equation() const { return f[3]; }
  constexpr bool has_same_base(const unit_data &o) const {
    for (int i = 0; i < 10; ++i)
      if (m[i] != o.m[i])
        return false;
    return true;
  }
  constexpr bool operator==(const unit_data &o) const {
    for (int i = 0; i < 4; ++i)
      if (f[i] != o.f[i])
        return false;
    return has_same_base(o);
  }
  constexpr bool operator!=(const unit_data &o) const { return !(*this == o); }
  constexpr unit_data operator*(const unit_data &o) const {
    unit_data r;
    for (int i = 0; i < 10; ++i)
      r.m[i] = static_cast<int8_t>(m[i] + o.m[i]);
    r.f[0] = f[0] || o.f[0];
    r.f[1] = f[1] != o.f[1];
    r.f[2] = f[2] != o.f[2];
    r.f[3] = f[3] || o.f[3];
    return r;
  }
  constexpr unit_data operator/(const unit_data &o) const {
    unit_data r;
    for (int i = 0; i < 10; ++i)
      r.m[i] = static_cast<int8_t>(m[i] - o.m[i]);
    r.f[0] = f[0] || o.f[0];
    r.f[1] = f[1] != o.f[1];
    r.f[2] = f[2] != o.f[2];
    r.f[3] = f[3] || o.f[3];
    return r;
  }
  constexpr unit_data inv() const { return unit_data{} / *this; }
  constexpr unit_data pow(int p) const {
    unit_data r;
    for (int i = 0; i < 10; ++i)
      r.m[i] = static_cast<int8_t>(m[i] * p);
    r.f[0] = f[0];
    r.f[1] = (p % 2 != 0) && f[1];
    r.f[2] = (p % 2 != 0) && f[2];
    r.f[3] = f[3];
    return r;
  }
  constexpr bool has_valid_root(int p) const {
    for (int i = 0; i < 10; ++i)
      if (m[i] % p != 0)
        return false;
    return true;
  }
  constexpr unit_data root(int p) const {
    unit_data r;
    for (int i = 0; i < 10; ++i)
      r.m[i] = static_cast<int8_t>(m[i] / p);
    return r;
  }
  constexpr int exponent(int i) const { return m[i]; }
  constexpr bool empty() const { return has_same_base(unit_data{}); }

private:
  int8_t m[10]{};
  bool f[4]{};
};
} // namespace detail

class precise_unit {
public:
  constexpr precise_unit() = default;
  constexpr explicit precise_unit(double multiplier) noexcept
      : m_multiplier(multiplier) {}
  constexpr precise_unit(const detail::unit_data &base,
                         double multiplier = 1.0) noexcept
      : m_base(base), m_multiplier(multiplier) {}
  constexpr precise_unit(const precise_unit &u, double multiplier) noexcept
      : m_base(u.m_base), m_multiplier(u.m_multiplier * multiplier) {}
  constexpr double multiplier() const { return m_multiplier; }
  constexpr detail::unit_data base_units() const { return m_base; }
  constexpr uint32_t commodity() const { return m_commodity; }
  constexpr bool has_same_base(const precise_unit &o) const {
    return m_base.has_same_base(o.m_base);
  }
  bool is_exactly_the_same(const precise_unit &o) const {
    return m_base == o.m_base && m_commodity == o.m_commodity &&
           m_multiplier == o.m_multiplier;
  }
  bool operator==(const precise_unit &o) const {
    if (m_base != o.m_base || m_commodity != o.m_commodity)
      return false;
    return same_multiplier(m_multiplier, o.m_multiplier);
  }
  bool operator!=(const precise_unit &o) const { return !(*this == o); }
  constexpr precise_unit operator*(const precise_unit &o) const {
    return {m_base * o.m_base, m_multiplier * o.m_multiplier};
  }
  constexpr precise_unit operator/(const precise_unit &o) const {
    return {m_base / o.m_base, m_multiplier / o.m_multiplier};
  }
  constexpr precise_unit inv() const {
    return {m_base.inv(), 1.0 / m_multiplier};
  }
  constexpr precise_unit pow(int p) const {
    double r = 1.0;
    for (int i = 0; i < (p < 0 ? -p : p); ++i)
      r *= m_multiplier;
    return {m_base.pow(p), p < 0 ? 1.0 / r : r};
  }

private:
  static bool same_multiplier(double a, double b) {
    if (a == b)
      return true;
    return std::abs(a - b) <= 1e-11 * (std::abs(a) + std::abs(b));
  }
  detail::unit_data m_base;
  uint32_t m_commodity{0};
  double m_multiplier{1.0};
};

namespace precise {
constexpr precise_unit one{};
constexpr precise_unit meter{detail::unit_data{1, 0, 0, 0, 0, 0, 0, 0, 0, 0}};
constexpr precise_unit m = meter;
constexpr precise_unit kilogram{
    detail::unit_data{0, 1, 0, 0, 0, 0, 0, 0, 0, 0}};
constexpr precise_unit kg = kilogram;
constexpr precise_unit second{detail::unit_data{0, 0, 1, 0, 0, 0, 0, 0, 0, 0}};
constexpr precise_unit s = second;
constexpr precise_unit A{detail::unit_data{0, 0, 0, 1, 0, 0, 0, 0, 0, 0}};
constexpr precise_unit Kelvin{detail::unit_data{0, 0, 0, 0, 1, 0, 0, 0, 0, 0}};
constexpr precise_unit K = Kelvin;
constexpr precise_unit mol{detail::unit_data{0, 0, 0, 0, 0, 1, 0, 0, 0, 0}};
constexpr precise_unit cd{detail::unit_data{0, 0, 0, 0, 0, 0, 1, 0, 0, 0}};
constexpr precise_unit currency{
    detail::unit_data{0, 0, 0, 0, 0, 0, 0, 1, 0, 0}};
constexpr precise_unit count{detail::unit_data{0, 0, 0, 0, 0, 0, 0, 0, 1, 0}};
constexpr precise_unit radian{detail::unit_data{0, 0, 0, 0, 0, 0, 0, 0, 0, 1}};
constexpr precise_unit rad = radian;
constexpr precise_unit deg{rad, 3.14159265358979323846 / 180.0};
constexpr precise_unit milli{1e-3};
constexpr precise_unit micro{1e-6};
constexpr precise_unit nano{1e-9};
constexpr precise_unit mm{meter, 1e-3};
constexpr precise_unit ms{second, 1e-3};
constexpr precise_unit ns{second, 1e-9};
constexpr precise_unit min{second, 60.0};
constexpr precise_unit hr{second, 3600.0};
constexpr precise_unit day{second, 86400.0};
namespace distance {
constexpr precise_unit angstrom{meter, 1e-10};
}
namespace energy {
constexpr precise_unit eV{detail::unit_data{2, 1, -2, 0, 0, 0, 0, 0, 0, 0},
                          1.602176634e-19};
}
namespace custom {
constexpr bool is_custom_unit(const detail::unit_data &) { return false; }
constexpr bool is_custom_count_unit(const detail::unit_data &) {
  return false;
}
constexpr int custom_count_unit_number(const detail::unit_data &) { return 0; }
} // namespace custom
} // namespace precise

} // namespace llnl::units

namespace std {
template <> struct hash<llnl::units::precise_unit> {
  size_t operator()(const llnl::units::precise_unit &u) const noexcept {
    size_t h = 1469598103934665603ull;
    const auto b = u.base_units();
    for (int i = 0; i < 10; ++i)
      h = (h ^ static_cast<size_t>(b.exponent(i) + 128)) * 1099511628211ull;
    return h;
  }
};
} // namespace std
