// Stand-in for LLNL-Units, see unit_definitions.hpp.
#pragma once
#include <cmath>
#include <limits>
#include <map>
#include <string>

#include "unit_definitions.hpp"

namespace llnl::units {

constexpr uint64_t strict_si = 1;

inline bool is_valid(const precise_unit &u) {
  return !std::isnan(u.multiplier());
}
inline bool is_error(const precise_unit &u) {
  return std::isnan(u.multiplier());
}
constexpr precise_unit invalid_unit() {
  return precise_unit{std::numeric_limits<double>::quiet_NaN()};
}
inline precise_unit sqrt(const precise_unit &u) {
  if (!u.base_units().has_valid_root(2) || u.multiplier() < 0.0)
    return invalid_unit();
  return {u.base_units().root(2), std::sqrt(u.multiplier())};
}
inline precise_unit pow(const precise_unit &u, int p) { return u.pow(p); }

inline double quick_convert(const precise_unit &a, const precise_unit &b) {
  return a.has_same_base(b) ? a.multiplier() / b.multiplier()
                            : std::numeric_limits<double>::quiet_NaN();
}

class precise_measurement {
public:
  constexpr precise_measurement(double v, const precise_unit &u)
      : m_value(v), m_unit(u) {}
  constexpr double value() const { return m_value; }
  constexpr precise_unit units() const { return m_unit; }

private:
  double m_value;
  precise_unit m_unit;
};
constexpr precise_measurement operator*(double v, const precise_unit &u) {
  return {v, u};
}

namespace shim {
struct Named {
  const char *name;
  precise_unit unit;
};
inline const Named *names(int &n) {
  using namespace precise;
  static const Named table[] = {
      {"m", m},
      {"kg", kg},
      {"s", s},
      {"A", A},
      {"K", K},
      {"mol", mol},
      {"cd", cd},
      {"$", currency},
      {"counts", count},
      {"count", count},
      {"item", count},
      {"rad", rad},
      {"deg", deg},
      {"min", min},
      {"h", hr},
      {"hr", hr},
      {"D", day},
      {"day", day},
      {"mog", precise_unit{s, 2629746.0}},
      {"a_g", precise_unit{s, 31556952.0}},
      {"angstrom", distance::angstrom},
      {"eV", energy::eV},
      {"J", precise_unit{detail::unit_data{2, 1, -2, 0, 0, 0, 0, 0, 0, 0}}},
      {"Hz", precise_unit{detail::unit_data{0, 0, -1, 0, 0, 0, 0, 0, 0, 0}}},
      {"g", precise_unit{kg, 1e-3}},
      {"one", one},
  };
  n = static_cast<int>(sizeof(table) / sizeof(table[0]));
  return table;
}
struct Prefix {
  const char *name;
  double scale;
};
inline const Prefix *prefixes(int &n) {
  static const Prefix table[] = {{"m", 1e-3}, {"u", 1e-6}, {"µ", 1e-6},
                                 {"n", 1e-9}, {"k", 1e3},  {"M", 1e6},
                                 {"c", 1e-2}, {"G", 1e9},  {"p", 1e-12}};
  n = static_cast<int>(sizeof(table) / sizeof(table[0]));
  return table;
}
inline std::map<std::string, precise_unit> &user_units() {
  static std::map<std::string, precise_unit> units;
  return units;
}
inline precise_unit atom(const std::string &s) {
  if (const auto it = user_units().find(s); it != user_units().end())
    return it->second;
  int n = 0;
  const auto *t = names(n);
  for (int i = 0; i < n; ++i)
    if (s == t[i].name)
      return t[i].unit;
  int np = 0;
  const auto *p = prefixes(np);
  for (int j = 0; j < np; ++j) {
    const std::string pre(p[j].name);
    if (s.size() > pre.size() && s.compare(0, pre.size(), pre) == 0)
      for (int i = 0; i < n; ++i)
        if (s.substr(pre.size()) == t[i].name)
          return {t[i].unit, p[j].scale};
  }
  return invalid_unit();
}
struct Parser {
  const std::string &s;
  std::size_t i = 0;
  precise_unit factor() {
    precise_unit r;
    if (i < s.size() && s[i] == '(') {
      ++i;
      r = expr();
      if (i >= s.size() || s[i] != ')')
        return invalid_unit();
      ++i;
    } else if (i < s.size() && ((s[i] >= '0' && s[i] <= '9') || s[i] == '.')) {
      std::size_t end = 0;
      const double v = std::stod(s.substr(i), &end);
      i += end;
      r = precise_unit{v};
      if (i < s.size() && s[i] != '*' && s[i] != '/' && s[i] != ')')
        r = r * factor();
    } else {
      std::size_t j = i;
      while (j < s.size() && s[j] != '*' && s[j] != '/' && s[j] != '^' &&
             s[j] != '(' && s[j] != ')')
        ++j;
      if (j == i)
        return invalid_unit();
      r = atom(s.substr(i, j - i));
      i = j;
    }
    if (i < s.size() && s[i] == '^') {
      ++i;
      std::size_t end = 0;
      int p = 0;
      try {
        p = std::stoi(s.substr(i), &end);
      } catch (...) {
        return invalid_unit();
      }
      i += end;
      r = r.pow(p);
    } else if (i + 1 < s.size() && s[i] == '*' && s[i + 1] == '*') {
      i += 2;
      std::size_t end = 0;
      const int p = std::stoi(s.substr(i), &end);
      i += end;
      r = r.pow(p);
    }
    return r;
  }
  precise_unit expr() {
    auto r = factor();
    while (i < s.size() && (s[i] == '*' || s[i] == '/')) {
      const char op = s[i++];
      const auto f = factor();
      r = op == '*' ? r * f : r / f;
    }
    return r;
  }
};
} // namespace shim

inline precise_unit unit_from_string(const std::string &str, uint64_t = 0) {
  if (str.empty())
    return precise::one;
  std::string s;
  for (const char ch : str)
    if (ch != ' ')
      s += ch;
  shim::Parser p{s};
  const auto r = p.expr();
  return p.i == s.size() ? r : invalid_unit();
}

inline std::string to_string(const precise_unit &u) {
  if (std::isnan(u.multiplier()))
    return "ERROR";
  int n = 0;
  const auto *t = shim::names(n);
  for (int i = 0; i < n; ++i)
    if (u == t[i].unit)
      return t[i].unit == precise::one ? "" : t[i].name;
  int np = 0;
  const auto *p = shim::prefixes(np);
  for (int j = 0; j < np; ++j)
    for (int i = 0; i < n; ++i)
      if (u == precise_unit{t[i].unit, p[j].scale})
        return std::string(p[j].name) + t[i].name;
  static const char *base[] = {"m",   "kg", "s", "A",     "K",
                               "mol", "cd", "$", "count", "rad"};
  std::string num;
  std::string den;
  const auto b = u.base_units();
  for (int i = 0; i < 10; ++i) {
    const int e = b.exponent(i);
    auto &dst = e > 0 ? num : den;
    if (e == 0)
      continue;
    dst += (e > 0 && !dst.empty()) ? "*" : (e < 0 ? "/" : "");
    dst += base[i];
    if (e > 1 || e < -1)
      dst += "^" + std::to_string(e < 0 ? -e : e);
  }
  std::string mult;
  if (u.multiplier() != 1.0) {
    char buf[40];
    std::snprintf(buf, sizeof(buf), "%.17g", u.multiplier());
    mult = buf;
    if (!num.empty())
      mult += "*";
  }
  if (num.empty() && mult.empty())
    mult = "1";
  return mult + num + den;
}

inline void addUserDefinedUnit(const std::string &name, const precise_unit &u) {
  shim::user_units()[name] = u;
}
inline void clearUserDefinedUnits() { shim::user_units().clear(); }

} // namespace llnl::units
