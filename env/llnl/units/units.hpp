// See unit_definitions.hpp: stand-in for LLNL/units.
#pragma once
#include "unit_definitions.hpp"
#include <cstdint>
#include <string>

namespace llnl::units {
constexpr std::uint64_t strict_si = 4096;
precise_unit unit_from_string(std::string str, std::uint64_t flags = 0);
std::string to_string(const precise_unit &u);
void addUserDefinedUnit(const std::string &name, const precise_unit &u);
void clearUserDefinedUnits();

/// Plain scale factor, or NaN if a conversion is impossible or affine.
inline double quick_convert(double val, const precise_unit &from,
                            const precise_unit &to) {
  if (from.base_units() == to.base_units() &&
      !from.base_units().is_equation() && !from.base_units().has_e_flag())
    return val * from.multiplier() / to.multiplier();
  return std::numeric_limits<double>::quiet_NaN();
}
inline double quick_convert(const precise_unit &from, const precise_unit &to) {
  return quick_convert(1.0, from, to);
}
} // namespace llnl::units
