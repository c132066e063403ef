// Stand-in for the part of LLNL/units 0.9.1's public API that scipp uses.
// LLNL/units is a third-party dependency that is not available offline; this
// file is part of the (trusted) environment of the checks, not of scipp.
// It implements, exactly: 10 SI-like base dimensions with the bit widths of the
// 64-bit configuration, multiplier, commodity, e/i/per-unit/equation flags,
// product/quotient/power/root, overflow predicates, tolerant equality, exact
// identity and hashing.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <string>

namespace llnl::units {
namespace detail {
struct unit_data {
  // m, s, kg, A, cd, K, mol, rad, $, count
  int e[10]{0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
  bool per_unit_{false}, i_flag_{false}, e_flag_{false}, equation_{false};
  // custom: 0 none, 1 custom unit, 2 custom count unit, 3 equation unit;
  // 4 error
  int kind{0};
  int number{0};

  constexpr unit_data() = default;
  constexpr unit_data(int meter, int kilogram, int second, int ampere,
                      int kelvin, int mole, int candela, int currency,
                      int count, int radians, unsigned int per_unit,
                      unsigned int flag, unsigned int flag2,
                      unsigned int equation)
      : e{meter,  second, kilogram, ampere,   candela,
          kelvin, mole,   radians,  currency, count},
        per_unit_(per_unit), i_flag_(flag), e_flag_(flag2),
        equation_(equation) {}
  static constexpr unit_data custom(int k, int n) {
    unit_data d;
    d.kind = k;
    d.number = n;
    if (k == 3)
      d.equation_ = true;
    return d;
  }
  static constexpr unit_data error() { return custom(4, 0); }

  constexpr int meter() const { return e[0]; }
  constexpr int second() const { return e[1]; }
  constexpr int kg() const { return e[2]; }
  constexpr int ampere() const { return e[3]; }
  constexpr int candela() const { return e[4]; }
  constexpr int kelvin() const { return e[5]; }
  constexpr int mole() const { return e[6]; }
  constexpr int radian() const { return e[7]; }
  constexpr int currency() const { return e[8]; }
  constexpr int count() const { return e[9]; }
  constexpr bool is_per_unit() const { return per_unit_; }
  constexpr bool has_i_flag() const { return i_flag_; }
  constexpr bool has_e_flag() const { return e_flag_; }
  constexpr bool is_equation() const { return equation_; }

  static constexpr int bits(int i) {
    constexpr int w[10]{8, 8, 6, 6, 4, 6, 4, 6, 4, 4};
    return w[i];
  }
  static constexpr bool fits(int i, long v) {
    const long lim = 1l << (bits(i) - 1);
    return v >= -lim && v < lim;
  }
  static constexpr int wrap(int i, long v) {
    const long m = 1l << bits(i);
    long r = ((v % m) + m) % m;
    return static_cast<int>(r >= m / 2 ? r - m : r);
  }
  constexpr bool same_base(const unit_data &o) const {
    for (int i = 0; i < 10; ++i)
      if (e[i] != o.e[i])
        return false;
    return kind == o.kind && number == o.number;
  }
  constexpr bool operator==(const unit_data &o) const {
    return same_base(o) && per_unit_ == o.per_unit_ && i_flag_ == o.i_flag_ &&
           e_flag_ == o.e_flag_ && equation_ == o.equation_;
  }
  constexpr bool operator!=(const unit_data &o) const { return !(*this == o); }
  constexpr bool has_same_base(const unit_data &o) const {
    return same_base(o);
  }
  constexpr bool is_one() const {
    for (int i = 0; i < 10; ++i)
      if (e[i] != 0)
        return false;
    return kind == 0;
  }
  constexpr unit_data combine(const unit_data &o, int sign) const {
    unit_data r;
    for (int i = 0; i < 10; ++i)
      r.e[i] = wrap(i, static_cast<long>(e[i]) + sign * o.e[i]);
    r.per_unit_ = per_unit_ || o.per_unit_;
    r.i_flag_ = i_flag_ != o.i_flag_;
    r.e_flag_ = e_flag_ != o.e_flag_;
    r.equation_ = equation_ || o.equation_;
    if (kind == 0) {
      r.kind = o.kind;
      r.number = o.number;
    } else if (o.kind == 0) {
      r.kind = kind;
      r.number = number;
    } else {
      r.kind = (sign < 0 && kind == o.kind && number == o.number) ? 0 : 4;
    }
    if (kind == 4 || o.kind == 4) {
      r.kind = 4;
      r.number = 0;
    }
    if (r.kind == 0 && kind == 3)
      r.equation_ = false;
    return r;
  }
  constexpr unit_data operator*(const unit_data &o) const {
    return combine(o, 1);
  }
  constexpr unit_data operator/(const unit_data &o) const {
    return combine(o, -1);
  }
  constexpr unit_data pow(int p) const {
    unit_data r;
    for (int i = 0; i < 10; ++i)
      r.e[i] = wrap(i, static_cast<long>(e[i]) * p);
    r.per_unit_ = per_unit_;
    r.i_flag_ = (p % 2 == 0) ? false : i_flag_;
    r.e_flag_ = (p % 2 == 0) ? false : e_flag_;
    r.equation_ = equation_;
    r.kind = p == 0 ? 0 : kind;
    r.number = p == 0 ? 0 : number;
    return r;
  }
  constexpr unit_data root(int p) const {
    unit_data r;
    for (int i = 0; i < 10; ++i) {
      if (e[i] % p != 0)
        return error();
      r.e[i] = e[i] / p;
    }
    if (e_flag_ || i_flag_ || kind != 0)
      return error();
    r.per_unit_ = per_unit_;
    r.equation_ = equation_;
    return r;
  }
};

inline double cround_precise(double val) {
  std::uint64_t bits;
  std::memcpy(&bits, &val, sizeof(bits));
  bits += 0x800ULL;
  bits &= 0xFFFFFFFFFFFFF000ULL;
  std::memcpy(&val, &bits, sizeof(bits));
  return val;
}
inline bool compare_round_equals_precise(double v1, double v2) {
  if (v1 == v2)
    return true;
  const auto c1 = cround_precise(v1);
  const auto c2 = cround_precise(v2);
  return c1 == c2 || cround_precise(v2 * (1.0 + 5e-13)) == c1 ||
         cround_precise(v2 * (1.0 - 5e-13)) == c1;
}
} // namespace detail

class precise_unit {
public:
  constexpr precise_unit() = default;
  constexpr explicit precise_unit(const detail::unit_data &b) noexcept
      : base_units_(b) {}
  constexpr precise_unit(const detail::unit_data &b, double mult) noexcept
      : base_units_(b), multiplier_(mult) {}
  constexpr precise_unit(const detail::unit_data &b, std::uint32_t commodity,
                         double mult) noexcept
      : base_units_(b), commodity_(commodity), multiplier_(mult) {}
  constexpr precise_unit(const precise_unit &o, double mult) noexcept
      : base_units_(o.base_units_), commodity_(o.commodity_),
        multiplier_(mult * o.multiplier_) {}
  constexpr precise_unit(double mult, const precise_unit &o) noexcept
      : base_units_(o.base_units_), commodity_(o.commodity_),
        multiplier_(mult * o.multiplier_) {}

  constexpr precise_unit operator*(const precise_unit &o) const {
    return {base_units_ * o.base_units_,
            commodity_ == 0
                ? o.commodity_
                : (o.commodity_ == 0 ? commodity_ : commodity_ & o.commodity_),
            multiplier_ * o.multiplier_};
  }
  constexpr precise_unit operator/(const precise_unit &o) const {
    return {base_units_ / o.base_units_,
            commodity_ == o.commodity_ ? 0u
                                       : (commodity_ == 0 ? ~o.commodity_
                                                          : commodity_),
            multiplier_ / o.multiplier_};
  }
  precise_unit pow(int p) const {
    double m = 1.0;
    for (int i = 0; i < (p < 0 ? -p : p); ++i)
      m *= multiplier_;
    return {base_units_.pow(p), commodity_, p < 0 ? 1.0 / m : m};
  }
  bool operator==(const precise_unit &o) const {
    if (base_units_ != o.base_units_ || commodity_ != o.commodity_)
      return false;
    return detail::compare_round_equals_precise(multiplier_, o.multiplier_);
  }
  bool operator!=(const precise_unit &o) const { return !(*this == o); }
  constexpr bool is_exactly_the_same(const precise_unit &o) const {
    return base_units_ == o.base_units_ && commodity_ == o.commodity_ &&
           multiplier_ == o.multiplier_;
  }
  constexpr bool has_same_base(const precise_unit &o) const {
    return base_units_.has_same_base(o.base_units_);
  }
  constexpr bool has_same_base(const detail::unit_data &o) const {
    return base_units_.has_same_base(o);
  }
  constexpr double multiplier() const { return multiplier_; }
  constexpr std::uint32_t commodity() const { return commodity_; }
  constexpr detail::unit_data base_units() const { return base_units_; }
  constexpr bool is_equation() const { return base_units_.is_equation(); }

private:
  detail::unit_data base_units_{};
  std::uint32_t commodity_{0};
  double multiplier_{1.0};
};


namespace precise {
using detail::unit_data;
//                                 m kg s A K mol cd $ ct rad
constexpr precise_unit one(unit_data(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0));
constexpr precise_unit meter(unit_data(1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
                                       0));
constexpr precise_unit m = meter;
constexpr precise_unit second(unit_data(0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
                                        0));
constexpr precise_unit s = second;
constexpr precise_unit kilogram(unit_data(0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
                                          0));
constexpr precise_unit kg = kilogram;
constexpr precise_unit Ampere(unit_data(0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0,
                                        0));
constexpr precise_unit A = Ampere;
constexpr precise_unit Kelvin(unit_data(0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0,
                                        0));
constexpr precise_unit K = Kelvin;
constexpr precise_unit mol(unit_data(0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0));
constexpr precise_unit cd(unit_data(0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0));
constexpr precise_unit currency(unit_data(0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0,
                                          0));
constexpr precise_unit count(unit_data(0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0,
                                       0));
constexpr precise_unit rad(unit_data(0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0));
constexpr precise_unit degC(unit_data(0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1,
                                      0));
constexpr precise_unit milli(1e-3, one);
constexpr precise_unit micro(1e-6, one);
constexpr precise_unit nano(1e-9, one);
constexpr precise_unit kilo(1e3, one);
constexpr precise_unit deg(0.017453292519943295769236907684886, rad);
constexpr precise_unit ms(1e-3, s);
constexpr precise_unit ns(1e-9, s);
constexpr precise_unit mm(1e-3, m);
constexpr precise_unit min(60.0, s);
constexpr precise_unit hr(60.0, min);
constexpr precise_unit day(24.0, hr);
constexpr precise_unit N = kg * m / (s * s);
constexpr precise_unit J = N * m;
namespace distance {
constexpr precise_unit angstrom(1e-10, m);
}
namespace energy {
constexpr precise_unit eV(1.602176634e-19, J);
}
namespace time {
// Gregorian year and its twelfth
constexpr precise_unit ag(365.2425, day);
constexpr precise_unit mog(1.0 / 12.0, ag);
} // namespace time
constexpr precise_unit error(detail::unit_data::error(),
                             std::numeric_limits<double>::quiet_NaN());
namespace custom {
constexpr bool is_custom_unit(const detail::unit_data &u) {
  return u.kind == 1;
}
constexpr bool is_custom_count_unit(const detail::unit_data &u) {
  return u.kind == 2;
}
constexpr int custom_count_unit_number(const detail::unit_data &u) {
  return u.number;
}
} // namespace custom
} // namespace precise

inline bool is_error(const precise_unit &u) {
  return u.base_units().kind == 4;
}
inline bool is_valid(const precise_unit &u) {
  return !is_error(u) && !std::isnan(u.multiplier());
}

inline precise_unit root(const precise_unit &u, int p) {
  const auto base = u.base_units().root(p);
  if (base.kind == 4 || (p % 2 == 0 && u.multiplier() < 0))
    return precise::error;
  const double m = p == 2   ? std::sqrt(u.multiplier())
                   : p == 3 ? std::cbrt(u.multiplier())
                            : std::pow(u.multiplier(), 1.0 / p);
  return precise_unit(base, m);
}
inline precise_unit sqrt(const precise_unit &u) { return root(u, 2); }

inline bool times_overflows(const precise_unit &a, const precise_unit &b) {
  const auto x = a.base_units(), y = b.base_units();
  for (int i = 0; i < 10; ++i)
    if (!detail::unit_data::fits(i, static_cast<long>(x.e[i]) + y.e[i]))
      return true;
  return false;
}
inline bool divides_overflows(const precise_unit &a, const precise_unit &b) {
  const auto x = a.base_units(), y = b.base_units();
  for (int i = 0; i < 10; ++i)
    if (!detail::unit_data::fits(i, static_cast<long>(x.e[i]) - y.e[i]))
      return true;
  return false;
}
inline bool pow_overflows(const precise_unit &a, int p) {
  const auto x = a.base_units();
  for (int i = 0; i < 10; ++i)
    if (!detail::unit_data::fits(i, static_cast<long>(x.e[i]) * p))
      return true;
  return false;
}

class precise_measurement {
public:
  precise_measurement(double value, const precise_unit &u)
      : m_value(value), m_units(u) {}
  double value() const { return m_value; }
  precise_unit units() const { return m_units; }

private:
  double m_value;
  precise_unit m_units;
};
inline precise_measurement operator*(double v, const precise_unit &u) {
  return {v, u};
}
} // namespace llnl::units

namespace std {
template <> struct hash<llnl::units::precise_unit> {
  size_t operator()(const llnl::units::precise_unit &u) const {
    size_t h = std::hash<double>()(
        llnl::units::detail::cround_precise(u.multiplier()));
    const auto b = u.base_units();
    for (int i = 0; i < 10; ++i)
      h = h * 31 + static_cast<size_t>(b.e[i] + 128);
    return h * 31 + static_cast<size_t>(b.kind * 64 + b.number);
  }
};
} // namespace std
