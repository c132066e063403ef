// The elementwise operations and what they mean for one element.
#pragma once
#include "arr.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/astype.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/hyperbolic.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/math.h"
#include "scipp/variable/misc_operations.h"
#include "scipp/variable/operations.h"
#include "scipp/variable/pow.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/trigonometry.h"
#include "scipp/variable/util.h"
#include <optional>

namespace ops {
using namespace arr;
namespace sv = scipp::variable;
using core::DType;
using core::time_point;
using Eigen::Vector3d;
using units::Unit;
using Types = std::vector<DType>;
using Cells = std::vector<Cell>;
using Vars = std::vector<Variable>;

inline const DType D = dtype<double>, F = dtype<float>, L = dtype<int64_t>, I = dtype<int32_t>, B = dtype<bool>,
                   S = dtype<std::string>, T = dtype<time_point>, V = dtype<Vector3d>, N = dtype<void>;

/// Result type of arithmetic.
inline DType promote(DType a, DType b) {
  for (const auto t : {D, F, L})
    if (a == t || b == t)
      return t;
  return I;
}
inline bool num(DType t) { return t == D || t == F || t == L || t == I; }
inline long double round_to(DType t, long double x) {
  if (t == D)
    return static_cast<double>(x);
  if (t == F)
    return static_cast<float>(x);
  return x;
}
inline long double eps_of(DType t) { return t == F ? 5e-7L : is_float(t) ? 1e-14L : 0; }

struct Op {
  std::string name;
  int arity;
  std::function<Variable(const Vars &)> f;
  /// result type, or N if the operand types are not supported
  std::function<DType(const Types &)> type;
  /// result unit, or nothing if the units are rejected
  std::function<std::optional<Unit>(const std::vector<Unit> &)> unit;
  /// value of one element
  std::function<Cell(const Cells &, const Types &)> ref;
  /// units for which the operation is plain
  std::vector<Unit> units;
  /// in place: applied to the first operand
  std::function<void(Variable &, const Vars &)> in_place;
  std::function<bool(const Types &)> in_place_types;
  /// result written to an argument
  std::function<void(const Vars &, Variable &)> out;
  /// result of element types that have a component type
  bool exact = false;
};

using OptUnit = std::optional<Unit>;
inline OptUnit same(const std::vector<Unit> &u) {
  for (const auto &x : u)
    if (x != u[0])
      return {};
  return u[0];
}
inline OptUnit same_none(const std::vector<Unit> &u) { return same(u) ? OptUnit(units::none) : OptUnit(); }
inline OptUnit product(const std::vector<Unit> &u) {
  if (u[0] == units::none && u[1] == units::none)
    return units::none;
  if (u[0] == units::none || u[1] == units::none)
    return {};
  return u[0] * u[1];
}
inline OptUnit quotient(const std::vector<Unit> &u) {
  if (u[0] == units::none && u[1] == units::none)
    return units::none;
  if (u[0] == units::none || u[1] == units::none)
    return {};
  return u[0] / u[1];
}
inline OptUnit only(const std::vector<Unit> &u, Unit in, Unit out) {
  for (const auto &x : u)
    if (x != in)
      return {};
  return out;
}

inline std::vector<Op> table() {
  std::vector<Op> t;
  const auto arithmetic = [](const Types &a) { return num(a[0]) && num(a[1]) ? promote(a[0], a[1]) : N; };
  const auto vec3 = [](auto f) {
    return [f](const Cells &c, const Types &) {
      Cell r;
      r.x = f(c[0].x, c[1].x);
      r.y = f(c[0].y, c[1].y);
      r.z = f(c[0].z, c[1].z);
      return r;
    };
  };
#define F2(expr) [](const Vars &v) { const auto &a = v[0]; const auto &b = v[1]; return expr; }
#define F1(expr) [](const Vars &v) { const auto &a = v[0]; return expr; }
#define IP(expr) [](Variable &a, const Vars &v) { const auto &b = v[1]; expr; }
#define OUT1(fn) [](const Vars &v, Variable &o) { fn(v[0], o); }
#define OUT2(fn) [](const Vars &v, Variable &o) { fn(v[0], v[1], o); }
  const auto add_ip = [](const Types &a) {
    const auto x = a[0], y = a[1];
    if (x == V) return y == V;
    if (x == T) return y == L || y == I;
    if (x == D) return y == B || num(y);
    if (x == L) return y == B || y == L || y == I;
    if (x == F) return num(y);
    if (x == I) return y == L || y == I;
    return false;
  };
  const auto mul_ip = [](const Types &a) {
    const auto x = a[0], y = a[1];
    if (x == V) return num(y);
    if (x == D || x == F) return num(y);
    if (x == L) return y == B || y == L || y == I;
    if (x == I) return y == L || y == I;
    return false;
  };
  const auto div_ip = [](const Types &a) { return (a[0] == D || a[0] == F || a[0] == V) && num(a[1]); };
  t.push_back({"add", 2, F2(a + b),
               [=](const Types &a) {
                 if (a[0] == V && a[1] == V) return V;
                 if ((a[0] == T && is_int(a[1])) || (is_int(a[0]) && a[1] == T)) return T;
                 return arithmetic(a);
               },
               same, vec3([](auto x, auto y) { return x + y; }), {units::m, units::m}, IP(a += b), add_ip, {}, true});
  t.push_back({"subtract", 2, F2(a - b),
               [=](const Types &a) {
                 if (a[0] == V && a[1] == V) return V;
                 if (a[0] == T && is_int(a[1])) return T;
                 if (a[0] == T && a[1] == T) return L;
                 return arithmetic(a);
               },
               same, vec3([](auto x, auto y) { return x - y; }), {units::m, units::m}, IP(a -= b), add_ip, {}, true});
  t.push_back({"multiply", 2, F2(a * b),
               [=](const Types &a) {
                 if ((a[0] == V && num(a[1])) || (num(a[0]) && a[1] == V)) return V;
                 if ((num(a[0]) || a[0] == B) && (num(a[1]) || a[1] == B)) return promote(a[0], a[1]);
                 return N;
               },
               product,
               [](const Cells &c, const Types &a) {
                 Cell r(c[0].x * c[1].x);
                 if (a[0] == V) {
                   r.y = c[0].y * c[1].x;
                   r.z = c[0].z * c[1].x;
                 } else if (a[1] == V) {
                   r.y = c[0].x * c[1].y;
                   r.z = c[0].x * c[1].z;
                 }
                 return r;
               },
               {units::m, units::s}, IP(a *= b), mul_ip, {}, true});
  t.push_back({"divide", 2, F2(a / b),
               [=](const Types &a) {
                 if (a[0] == V && num(a[1])) return V;
                 if (is_int(a[0]) && is_int(a[1])) return D;
                 return arithmetic(a);
               },
               quotient,
               [](const Cells &c, const Types &a) {
                 Cell r(c[0].x / c[1].x);
                 if (a[0] == V) {
                   r.y = c[0].y / c[1].x;
                   r.z = c[0].z / c[1].x;
                 }
                 return r;
               },
               {units::m, units::s}, IP(a /= b), div_ip});
  t.push_back({"floor_divide", 2, F2(sv::floor_divide(a, b)), arithmetic, quotient,
               [=](const Cells &c, const Types &a) {
                 if (is_int(a[0]) && is_int(a[1])) return Cell(c[1].x == 0 ? 0 : std::floor(c[0].x / c[1].x));
                 return Cell(std::floor(round_to(promote(a[0], a[1]), c[0].x / c[1].x)));
               },
               {units::m, units::s}, IP(sv::floor_divide_equals(a, b)),
               [](const Types &a) { return ((a[0] == D || a[0] == F) && num(a[1])) || (is_int(a[0]) && a[0] == a[1]); }});
  t.push_back({"mod", 2, F2(a % b), arithmetic,
               [](const std::vector<Unit> &u) { return u[0] == u[1] ? OptUnit(u[0]) : OptUnit(); },
               [=](const Cells &c, const Types &a) {
                 const bool ints = is_int(a[0]) && is_int(a[1]);
                 if (c[1].x == 0) return Cell(ints ? 0 : std::nan(""));
                 if (std::isinf(c[1].x)) return Cell(std::nan("")); // not compared
                 return Cell(c[0].x - std::floor(c[0].x / c[1].x) * c[1].x);
               },
               {units::m, units::m}, IP(a %= b), [](const Types &a) { return ((a[0] == D || a[0] == F) && num(a[1])) || (is_int(a[0]) && is_int(a[1])); }});
  // comparison
  const auto cmp_types = [=](const Types &a) {
    return arithmetic(a) != N || (a[0] == a[1] && (a[0] == B || a[0] == T)) ? B : N;
  };
  const auto eq_types = [=](const Types &a) { return cmp_types(a) == B || (a[0] == a[1] && (a[0] == S || a[0] == V)) ? B : N; };
  const auto cmp = [](auto f) {
    return [f](const Cells &c, const Types &a) {
      if (a[0] == S)
        return Cell(f(c[0].s, c[1].s));
      if (a[0] == V)
        return Cell(f(std::array<long double, 3>{c[0].x, c[0].y, c[0].z}, std::array<long double, 3>{c[1].x, c[1].y, c[1].z}));
      return Cell(f(c[0].x, c[1].x));
    };
  };
  t.push_back({"equal", 2, F2(sv::equal(a, b)), eq_types, same_none, cmp([](auto x, auto y) { return x == y; }), {units::m, units::m}});
  t.push_back({"not_equal", 2, F2(sv::not_equal(a, b)), eq_types, same_none, cmp([](auto x, auto y) { return x != y; }), {units::m, units::m}});
  t.push_back({"less", 2, F2(sv::less(a, b)), cmp_types, same_none, cmp([](auto x, auto y) { return x < y; }), {units::m, units::m}});
  t.push_back({"greater", 2, F2(sv::greater(a, b)), cmp_types, same_none, cmp([](auto x, auto y) { return x > y; }), {units::m, units::m}});
  t.push_back({"less_equal", 2, F2(sv::less_equal(a, b)), cmp_types, same_none, cmp([](auto x, auto y) { return x <= y; }), {units::m, units::m}});
  t.push_back({"greater_equal", 2, F2(sv::greater_equal(a, b)), cmp_types, same_none, cmp([](auto x, auto y) { return x >= y; }), {units::m, units::m}});
  // logical
  const auto bools = [](const Types &a) {
    for (const auto x : a)
      if (x != B)
        return N;
    return B;
  };
  const auto bools_ip = [](const Types &a) { return a[0] == B && a[1] == B; };
  const auto u_none = [](const std::vector<Unit> &u) { return only(u, units::none, units::none); };
  const std::vector<Unit> nn{units::none, units::none};
  t.push_back({"and", 2, F2(a & b), bools, u_none, [](const Cells &c, const Types &) { return Cell(c[0].x && c[1].x); }, nn, IP(a &= b), bools_ip});
  t.push_back({"or", 2, F2(a | b), bools, u_none, [](const Cells &c, const Types &) { return Cell(c[0].x || c[1].x); }, nn, IP(a |= b), bools_ip});
  t.push_back({"xor", 2, F2(a ^ b), bools, u_none, [](const Cells &c, const Types &) { return Cell(c[0].x != c[1].x); }, nn, IP(a ^= b), bools_ip});
  t.push_back({"not", 1, F1(~a), bools, u_none, [](const Cells &c, const Types &) { return Cell(!c[0].x); }, {units::none}});
  // unary arithmetic
  const auto map3 = [](auto f) {
    return [f](const Cells &c, const Types &) {
      Cell r;
      r.x = f(c[0].x);
      r.y = f(c[0].y);
      r.z = f(c[0].z);
      return r;
    };
  };
  const auto keep = [](const std::vector<Unit> &u) { return OptUnit(u[0]); };
  const auto to_none = [](const std::vector<Unit> &) { return OptUnit(units::none); };
  const auto numbers = [](const Types &a) { return num(a[0]) ? a[0] : N; };
  const auto floats = [](const Types &a) { return is_float(a[0]) ? a[0] : N; };
  t.push_back({"negative", 1, F1(-a), [](const Types &a) { return num(a[0]) || a[0] == V ? a[0] : N; }, keep, map3([](auto x) { return -x; }), {units::m}});
  t.push_back({"abs", 1, F1(sv::abs(a)), numbers, keep, map3([](auto x) { return std::abs(x); }), {units::m}, {}, {}, OUT1(sv::abs)});
  t.push_back({"sqrt", 1, F1(sv::sqrt(a)), floats,
               [](const std::vector<Unit> &u) { return u[0] == units::none || u[0] == units::one ? OptUnit(u[0]) : u[0] == units::m * units::m ? OptUnit(units::m) : u[0] == units::s * units::s ? OptUnit(units::s) : OptUnit(); },
               map3([](auto x) { return std::sqrt(x); }), {units::m * units::m}, {}, {}, OUT1(sv::sqrt)});
  t.push_back({"reciprocal", 1, F1(sv::reciprocal(a)), floats, [](const std::vector<Unit> &u) { return quotient({units::one, u[0]}); },
               map3([](auto x) { return 1 / x; }), {units::m}, {}, {}, OUT1(sv::reciprocal)});
  const auto pure = [](const std::vector<Unit> &u) { return only(u, units::one, units::one); };
  t.push_back({"exp", 1, F1(sv::exp(a)), floats, pure, map3([](auto x) { return std::exp(x); }), {units::one}, {}, {}, OUT1(sv::exp)});
  t.push_back({"log", 1, F1(sv::log(a)), floats, pure, map3([](auto x) { return std::log(x); }), {units::one}, {}, {}, OUT1(sv::log)});
  t.push_back({"log10", 1, F1(sv::log10(a)), floats, pure, map3([](auto x) { return std::log10(x); }), {units::one}, {}, {}, OUT1(sv::log10)});
  t.push_back({"floor", 1, F1(sv::floor(a)), floats, keep, map3([](auto x) { return std::floor(x); }), {units::m}, {}, {}, OUT1(sv::floor)});
  t.push_back({"ceil", 1, F1(sv::ceil(a)), floats, keep, map3([](auto x) { return std::ceil(x); }), {units::m}, {}, {}, OUT1(sv::ceil)});
  t.push_back({"rint", 1, F1(sv::rint(a)), floats, keep, map3([](auto x) { return std::rint(x); }), {units::m}, {}, {}, OUT1(sv::rint)});
  const auto special = [](const Types &a) { return num(a[0]) ? is_int(a[0]) ? D : a[0] : N; };
  t.push_back({"erf", 1, F1(sv::erf(a)), special, pure, map3([](auto x) { return std::erf(x); }), {units::one}});
  t.push_back({"erfc", 1, F1(sv::erfc(a)), special, pure, map3([](auto x) { return std::erfc(x); }), {units::one}});
  // trigonometry
  const auto trig = [](const std::vector<Unit> &u) { return u[0] == units::rad || u[0] == units::deg ? OptUnit(units::one) : OptUnit(); };
  const auto itrig = [](const std::vector<Unit> &u) { return only(u, units::one, units::rad); };
  t.push_back({"sin", 1, F1(sv::sin(a)), floats, trig, map3([](auto x) { return std::sin(x); }), {units::rad}, {}, {}, OUT1(sv::sin)});
  t.push_back({"cos", 1, F1(sv::cos(a)), floats, trig, map3([](auto x) { return std::cos(x); }), {units::rad}, {}, {}, OUT1(sv::cos)});
  t.push_back({"tan", 1, F1(sv::tan(a)), floats, trig, map3([](auto x) { return std::tan(x); }), {units::rad}, {}, {}, OUT1(sv::tan)});
  t.push_back({"asin", 1, F1(sv::asin(a)), floats, itrig, map3([](auto x) { return std::asin(x); }), {units::one}, {}, {}, OUT1(sv::asin)});
  t.push_back({"acos", 1, F1(sv::acos(a)), floats, itrig, map3([](auto x) { return std::acos(x); }), {units::one}, {}, {}, OUT1(sv::acos)});
  t.push_back({"atan", 1, F1(sv::atan(a)), floats, itrig, map3([](auto x) { return std::atan(x); }), {units::one}, {}, {}, OUT1(sv::atan)});
  const auto two_floats = [](const Types &a) { return is_float(a[0]) && a[0] == a[1] ? a[0] : N; };
  t.push_back({"atan2", 2, F2(sv::atan2(a, b)), two_floats,
               [](const std::vector<Unit> &u) { return u[0] == u[1] && u[0] != units::none ? OptUnit(units::rad) : OptUnit(); },
               [](const Cells &c, const Types &) { return Cell(std::atan2(c[0].x, c[1].x)); }, {units::m, units::m}, {}, {}, OUT2(sv::atan2)});
  t.push_back({"sinh", 1, F1(sv::sinh(a)), floats, pure, map3([](auto x) { return std::sinh(x); }), {units::one}, {}, {}, OUT1(sv::sinh)});
  t.push_back({"cosh", 1, F1(sv::cosh(a)), floats, pure, map3([](auto x) { return std::cosh(x); }), {units::one}, {}, {}, OUT1(sv::cosh)});
  t.push_back({"tanh", 1, F1(sv::tanh(a)), floats, pure, map3([](auto x) { return std::tanh(x); }), {units::one}, {}, {}, OUT1(sv::tanh)});
  t.push_back({"asinh", 1, F1(sv::asinh(a)), floats, pure, map3([](auto x) { return std::asinh(x); }), {units::one}, {}, {}, OUT1(sv::asinh)});
  t.push_back({"acosh", 1, F1(sv::acosh(a)), floats, pure, map3([](auto x) { return std::acosh(x); }), {units::one}, {}, {}, OUT1(sv::acosh)});
  t.push_back({"atanh", 1, F1(sv::atanh(a)), floats, pure, map3([](auto x) { return std::atanh(x); }), {units::one}, {}, {}, OUT1(sv::atanh)});
  // vectors
  t.push_back({"norm", 1, F1(sv::norm(a)), [](const Types &a) { return a[0] == V ? D : N; }, keep,
               [](const Cells &c, const Types &) { return Cell(std::sqrt(c[0].x * c[0].x + c[0].y * c[0].y + c[0].z * c[0].z)); }, {units::m}});
  const auto two_vecs = [](DType out) { return [out](const Types &a) { return a[0] == V && a[1] == V ? out : N; }; };
  t.push_back({"dot", 2, F2(sv::dot(a, b)), two_vecs(D), product,
               [](const Cells &c, const Types &) { return Cell(c[0].x * c[1].x + c[0].y * c[1].y + c[0].z * c[1].z); }, {units::m, units::s}});
  t.push_back({"cross", 2, F2(sv::cross(a, b)), two_vecs(V), product,
               [](const Cells &c, const Types &) {
                 Cell r;
                 r.x = c[0].y * c[1].z - c[0].z * c[1].y;
                 r.y = c[0].z * c[1].x - c[0].x * c[1].z;
                 r.z = c[0].x * c[1].y - c[0].y * c[1].x;
                 return r;
               },
               {units::m, units::s}});
  t.push_back({"position", 3, [](const Vars &v) { return sv::geometry::position(v[0], v[1], v[2]); },
               [](const Types &a) { return a[0] == D && a[1] == D && a[2] == D ? V : N; }, same,
               [](const Cells &c, const Types &) {
                 Cell r(c[0].x);
                 r.y = c[1].x;
                 r.z = c[2].x;
                 return r;
               },
               {units::m, units::m, units::m}});
  // special values
  const auto to_bool = [](const Types &a) { return num(a[0]) ? B : N; };
  const auto to_bool_v = [](const Types &a) { return num(a[0]) || a[0] == V ? B : N; };
  const auto any_of = [](const Cell &c, const Types &a, auto f) { return a[0] == V ? f(c.x) || f(c.y) || f(c.z) : f(c.x); };
  t.push_back({"isnan", 1, F1(sv::isnan(a)), to_bool_v, to_none,
               [=](const Cells &c, const Types &a) { return Cell(any_of(c[0], a, [](auto x) { return std::isnan(x); })); }, {units::m}});
  t.push_back({"isfinite", 1, F1(sv::isfinite(a)), to_bool_v, to_none,
               [=](const Cells &c, const Types &a) { return Cell(!any_of(c[0], a, [](auto x) { return !std::isfinite(x); })); }, {units::m}});
  t.push_back({"isinf", 1, F1(sv::isinf(a)), to_bool_v, to_none,
               [=](const Cells &c, const Types &a) {
                 return Cell(any_of(c[0], a, [](auto x) { return std::isinf(x); }) && !any_of(c[0], a, [](auto x) { return std::isnan(x); }));
               },
               {units::m}});
  t.push_back({"isposinf", 1, F1(sv::isposinf(a)), to_bool, to_none,
               [](const Cells &c, const Types &) { return Cell(std::isinf(c[0].x) && c[0].x > 0); }, {units::m}});
  t.push_back({"isneginf", 1, F1(sv::isneginf(a)), to_bool, to_none,
               [](const Cells &c, const Types &) { return Cell(std::isinf(c[0].x) && c[0].x < 0); }, {units::m}});
  const auto repl = [](auto f) { return [f](const Cells &c, const Types &) { return f(c[0].x) ? c[1] : c[0]; }; };
  t.push_back({"nan_to_num", 2, F2(sv::nan_to_num(a, b)), two_floats, same, repl([](auto x) { return std::isnan(x); }), {units::m, units::m}, {}, {}, OUT2(sv::nan_to_num), true});
  t.push_back({"pos_inf_to_num", 2, F2(sv::pos_inf_to_num(a, b)), two_floats, same, repl([](auto x) { return std::isinf(x) && x > 0; }), {units::m, units::m}, {}, {}, OUT2(sv::positive_inf_to_num), true});
  t.push_back({"neg_inf_to_num", 2, F2(sv::neg_inf_to_num(a, b)), two_floats, same, repl([](auto x) { return std::isinf(x) && x < 0; }), {units::m, units::m}, {}, {}, OUT2(sv::negative_inf_to_num), true});
  // selection
  t.push_back({"where", 3, [](const Vars &v) { return sv::where(v[0], v[1], v[2]); },
               [](const Types &a) { return a[0] == B && a[1] == a[2] ? a[1] : N; },
               [](const std::vector<Unit> &u) { return u[0] == units::none && u[1] == u[2] ? OptUnit(u[1]) : OptUnit(); },
               [](const Cells &c, const Types &) { return c[0].x ? c[1] : c[2]; }, {units::none, units::m, units::m}, {}, {}, {}, true});
  // powers
  t.push_back({"pow", 2, F2(sv::pow(a, b)),
               [](const Types &a) {
                 if (!num(a[0]) || !num(a[1])) return N;
                 if (a[0] == F && a[1] == D) return D; // with a unit of the base: F
                 if (is_float(a[0])) return a[0];
                 if (is_float(a[1])) return a[1];
                 return a[0] == L ? L : N;
               },
               {}, // examined separately
               [](const Cells &c, const Types &) { return Cell(std::pow(c[0].x, c[1].x)); }, {units::one, units::one}, {}, {}, OUT2(sv::pow)});
  return t;
#undef F1
#undef F2
#undef IP
#undef OUT1
#undef OUT2
}

/// Values for each element type.
inline Cells values_of(DType t, bool special = true) {
  Cells r;
  const auto inf = std::numeric_limits<long double>::infinity();
  if (is_float(t)) {
    for (const long double x : {-2.5L, -1.L, 0.L, 0.25L, 1.L, 3.L})
      r.push_back(x);
    if (special)
      for (const long double x : {inf, -inf, (long double)std::nan("")})
        r.push_back(x);
  } else if (is_int(t)) {
    for (const long double x : {-5.L, -1.L, 0.L, 1.L, 2.L, 7.L})
      r.push_back(x);
  } else if (t == B) {
    r = {Cell(0), Cell(1)};
  } else if (t == T) {
    r = {Cell(-3), Cell(0), Cell(1000), Cell(1600000000000000001.0L)};
  } else if (t == S) {
    for (const char *s : {"", "a", "ab", "a much longer string that is on the heap"}) {
      Cell c;
      c.s = s;
      r.push_back(c);
    }
  } else if (t == V) {
    const long double x[][3] = {{0, 0, 0}, {1, 2, 3}, {1, 2, -3}, {-0.5, 4, 0}, {(long double)std::nan(""), 1, 0}, {0, inf, 1}, {2, 0, -inf}};
    for (const auto &e : x) {
      if (!special && (e[0] != e[0] || std::isinf(e[1]) || std::isinf(e[2])))
        continue;
      Cell c(e[0]);
      c.y = e[1];
      c.z = e[2];
      r.push_back(c);
    }
  }
  return r;
}
inline const char *tname(DType t) {
  return t == D ? "float64" : t == F ? "float32" : t == L ? "int64" : t == I ? "int32" : t == B ? "bool" : t == S ? "string" : t == T ? "datetime64" : "vector3";
}
inline Arr array_of(DType t, Unit u, const std::vector<Dim> &dims, const std::vector<ix> &shape, const Cells &v) {
  Arr a;
  a.t = t;
  a.u = u;
  a.dims = dims;
  a.shape = shape;
  a.v = v;
  return a;
}
} // namespace ops
