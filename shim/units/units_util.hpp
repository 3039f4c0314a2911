// Stand-in for LLNL-Units, see unit_definitions.hpp.
#pragma once
#include "units.hpp"

namespace llnl::units {
namespace shim {
inline bool out_of_range(int e) { return e > 127 || e < -128; }
} // namespace shim
inline bool times_overflows(const precise_unit &a, const precise_unit &b) {
  for (int i = 0; i < 10; ++i)
    if (shim::out_of_range(a.base_units().exponent(i) +
                           b.base_units().exponent(i)))
      return true;
  return false;
}
inline bool divides_overflows(const precise_unit &a, const precise_unit &b) {
  for (int i = 0; i < 10; ++i)
    if (shim::out_of_range(a.base_units().exponent(i) -
                           b.base_units().exponent(i)))
      return true;
  return false;
}
inline bool pow_overflows(const precise_unit &a, int p) {
  for (int i = 0; i < 10; ++i) {
    const long e = static_cast<long>(a.base_units().exponent(i)) * p;
    if (e > 127 || e < -128)
      return true;
  }
  return false;
}
} // namespace llnl::units
