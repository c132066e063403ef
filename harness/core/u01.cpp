// U01: unit arithmetic follows dimensional analysis and rejects bad units.
#include "scipp/units/except.h"
#include "scipp/units/unit.h"
#include "vh.h"
#include <array>
#include <cmath>
#include <optional>

using namespace scipp;
using units::Unit;

namespace {
/// A unit in dimensional analysis: exponents of the base dimensions and a scale.
struct Ref {
  bool none = false;
  std::array<long, 10> e{};
  long double scale = 1;
};
// range of the exponents that a unit can represent, in bits
constexpr int width[10] = {8, 6, 8, 6, 6, 4, 4, 4, 4, 6};
constexpr const char *base_name[10] = {"m", "kg", "s", "A", "K", "mol", "cd", "$", "counts", "rad"};
bool fits(const Ref &r) {
  for (int i = 0; i < 10; ++i) {
    const long lim = 1l << (width[i] - 1);
    if (r.e[i] < -lim || r.e[i] >= lim)
      return false;
  }
  return true;
}
bool same_dimension(const Ref &a, const Ref &b) { return !a.none && !b.none && a.e == b.e; }
bool same(const Ref &a, const Ref &b) {
  if (a.none || b.none)
    return a.none == b.none;
  return a.e == b.e && std::abs(a.scale / b.scale - 1) < 1e-11L;
}
using Opt = std::optional<Ref>;
Opt combine(const Ref &a, const Ref &b, int sign) {
  if (a.none && b.none)
    return a;
  if (a.none || b.none)
    return {};
  Ref r;
  for (int i = 0; i < 10; ++i)
    r.e[i] = a.e[i] + sign * b.e[i];
  r.scale = sign > 0 ? a.scale * b.scale : a.scale / b.scale;
  if (!fits(r))
    return {};
  return r;
}
Opt power(const Ref &a, long p) {
  if (a.none)
    return a;
  Ref r;
  for (int i = 0; i < 10; ++i) {
    if (a.e[i] != 0 && std::labs(p) > 1000)
      return {};
    r.e[i] = a.e[i] * p;
  }
  r.scale = std::pow(a.scale, (long double)p);
  if (!fits(r))
    return {};
  return r;
}
Opt root(const Ref &a) {
  if (a.none)
    return a;
  Ref r;
  for (int i = 0; i < 10; ++i) {
    if (a.e[i] % 2 != 0)
      return {};
    r.e[i] = a.e[i] / 2;
  }
  r.scale = std::sqrt(a.scale);
  return r;
}
Ref base(int i, long double scale = 1) {
  Ref r;
  if (i >= 0)
    r.e[i] = 1;
  r.scale = scale;
  return r;
}
struct State {
  Unit u;
  Ref r;
  std::string how;
};
std::string text(const Ref &r) {
  if (r.none)
    return "none";
  std::ostringstream o;
  o << double(r.scale);
  for (int i = 0; i < 10; ++i)
    if (r.e[i])
      o << "*" << base_name[i] << "^" << r.e[i];
  return o.str();
}
/// Whether a unit is what the model says.
std::string mismatch(const Unit &u, const Ref &r) {
  if (u.has_value() == r.none)
    return r.none ? "has a value instead of none" : "is none";
  if (r.none)
    return "";
  std::string bad;
  int k = 0;
  u.map_over_bases([&](const char *name, auto e) {
    int i = 0;
    while (std::string(base_name[i]) != name)
      ++i;
    if (long(e) != r.e[i])
      bad = std::string("exponent of ") + name + " is " + std::to_string(long(e)) + ", not " + std::to_string(r.e[i]);
    ++k;
  });
  if (k != 10)
    return "base units are missing";
  u.map_over_flags([&](const char *name, auto f) {
    if (f)
      bad = std::string("flag ") + name;
  });
  if (!bad.empty())
    return bad;
  if (!(std::abs(u.underlying().multiplier() / r.scale - 1) < 1e-11L))
    return "scale is " + std::to_string(u.underlying().multiplier()) + ", not " + std::to_string(double(r.scale));
  return "";
}
std::vector<State> alphabet() {
  using namespace llnl::units;
  Ref none;
  none.none = true;
  const auto pi = 3.14159265358979323846264338327950288L;
  return {{units::none, none, "none"},
          {units::one, base(-1), "1"},
          {units::m, base(0), "m"},
          {units::kg, base(1), "kg"},
          {units::s, base(2), "s"},
          {Unit(precise::A), base(3), "A"},
          {units::K, base(4), "K"},
          {Unit(precise::mol), base(5), "mol"},
          {units::counts, base(8), "counts"},
          {units::rad, base(9), "rad"},
          {units::deg, base(9, pi / 180), "deg"},
          {units::mm, base(0, 1e-3L), "mm"},
          {units::us, base(2, 1e-6L), "us"},
          {Unit(precise::min), base(2, 60), "min"},
          {Unit(precise_unit(1000.0, precise::one)), base(-1, 1000), "1000"},
          {units::c, [] {
             auto r = base(0, 299792458);
             r.e[2] = -1;
             return r;
           }(), "c"}};
}
template <class F> std::string attempt(F &&f, Unit &out) {
  try {
    out = f();
    return "";
  } catch (const except::UnitError &) {
    return "UnitError";
  } catch (const std::exception &e) {
    return std::string("other: ") + e.what();
  }
}
void expect(vh::Explorer &E, const Opt &want, const std::string &err, const Unit &got, const std::function<std::string()> &what) {
  ++E.transitions;
  if (!want) {
    E.check_lazy(err == "UnitError", "not-rejected", [&] { return what() + " gives " + (err.empty() ? "a unit" : err) + " instead of a unit error"; });
    return;
  }
  E.check_lazy(err.empty(), "rejected", [&] { return what() + " is rejected: " + err; });
  const auto d = mismatch(got, *want);
  E.check_lazy(d.empty(), "unit", [&] { return what() + ": " + d; });
}

/// full: with the operations that only accept equal units (rejections are slow)
void binary(vh::Explorer &E, const State &a, const State &b, const bool full) {
  Unit u;
  const auto what = [&](const char *op) { return [&, op] { return "(" + a.how + ") " + op + " (" + b.how + ")"; }; };
  const bool eq = same(a.r, b.r);
  const auto equal_only = eq ? Opt(a.r) : Opt();
  const auto prod = combine(a.r, b.r, 1), quot = combine(a.r, b.r, -1);
  expect(E, prod, attempt([&] { return a.u * b.u; }, u), u, what("*"));
  expect(E, quot, attempt([&] { return a.u / b.u; }, u), u, what("/"));
  if (full || eq) {
  expect(E, equal_only, attempt([&] { return a.u + b.u; }, u), u, what("+"));
  expect(E, equal_only, attempt([&] { return a.u - b.u; }, u), u, what("-"));
  expect(E, equal_only, attempt([&] { return a.u % b.u; }, u), u, what("%"));
  expect(E, eq && !a.r.none ? Opt(base(9)) : Opt(), attempt([&] { return atan2(a.u, b.u); }, u), u, what("atan2"));
  }
  E.check_lazy((a.u == b.u) == eq && (a.u != b.u) == !eq && (b.u == a.u) == eq, "equality", what("=="));
  E.check_lazy(!identical(a.u, b.u) || eq, "equality", what("identical"));
  if (!a.r.none && !b.r.none)
    E.check_lazy(a.u.has_same_base(b.u) == same_dimension(a.r, b.r), "same-base", what("has_same_base"));
  else if (a.r.none)
    E.check_lazy(!a.u.has_same_base(b.u), "same-base", what("has_same_base"));
  if (!full && !eq)
    return;
  // in place; a rejected operation leaves the unit as it was
  const auto in_place = [&](const Opt &want, auto &&f, const char *op) {
    Unit x = a.u;
    const auto err = attempt([&] { f(x); return x; }, u);
    expect(E, want, err, x, what(op));
    if (!want)
      E.check_lazy(mismatch(x, a.r).empty(), "modified", what(op));
  };
  in_place(prod, [&](Unit &x) { x *= b.u; }, "*=");
  in_place(quot, [&](Unit &x) { x /= b.u; }, "/=");
  in_place(equal_only, [&](Unit &x) { x += b.u; }, "+=");
  in_place(equal_only, [&](Unit &x) { x -= b.u; }, "-=");
  in_place(equal_only, [&](Unit &x) { x %= b.u; }, "%=");
}
void unary(vh::Explorer &E, const State &a) {
  Unit u;
  const auto what = [&](const std::string &op) { return [&, op] { return op + " of (" + a.how + ")"; }; };
  expect(E, a.r, attempt([&] { return -a.u; }, u), u, what("negative"));
  expect(E, a.r, attempt([&] { return abs(a.u); }, u), u, what("abs"));
  expect(E, a.r, attempt([&] { return floor(a.u); }, u), u, what("floor"));
  expect(E, a.r, attempt([&] { return ceil(a.u); }, u), u, what("ceil"));
  expect(E, a.r, attempt([&] { return rint(a.u); }, u), u, what("rint"));
  expect(E, root(a.r), attempt([&] { return sqrt(a.u); }, u), u, what("sqrt"));
  for (const long p : {0l, 1l, 2l, 3l, 4l, 7l, 8l, 15l, 16l, 31l, 32l, 33l, 63l, 64l, 127l, 128l, 129l, -1l, -2l, -3l, -8l, -9l, -16l, -32l, -33l, -128l, -129l, 256l, -256l}) {
    const auto want = power(a.r, p);
    if (want && !(want->scale > 1e-250L && want->scale < 1e250L))
      continue;
    expect(E, want, attempt([&] { return pow(a.u, p); }, u), u, what("power " + std::to_string(p)));
  }
  if (!a.r.none) { // too large for any unit that has a dimension
    bool dim = false;
    for (const auto e : a.r.e)
      dim |= e != 0;
    if (dim)
      for (const long p : {(1l << 32) + 1, 1l << 32, -(1l << 32) + 2, (1l << 33) - 1, (1l << 40) + 2})
        expect(E, {}, attempt([&] { return pow(a.u, p); }, u), u, what("power " + std::to_string(p)));
  }
  const bool angle = same_dimension(a.r, base(9)) && (same(a.r, base(9)) || same(a.r, base(9, 3.14159265358979323846L / 180)));
  const bool pure = same(a.r, base(-1));
  for (auto f : {units::sin, units::cos, units::tan})
    expect(E, angle ? Opt(base(-1)) : Opt(), attempt([&] { return f(a.u); }, u), u, what("trigonometric function"));
  for (auto f : {units::asin, units::acos, units::atan})
    expect(E, pure ? Opt(base(9)) : Opt(), attempt([&] { return f(a.u); }, u), u, what("inverse trigonometric function"));
  for (auto f : {units::sinh, units::cosh, units::tanh, units::asinh, units::acosh, units::atanh})
    expect(E, pure ? Opt(base(-1)) : Opt(), attempt([&] { return f(a.u); }, u), u, what("hyperbolic function"));
  const bool counts = same(a.r, base(8));
  E.check_lazy(a.u.isCounts() == counts, "counts", what("isCounts"));
  E.check_lazy(a.u.isCountDensity() == (!a.r.none && !counts && a.r.e[8] != 0), "counts", what("isCountDensity"));
  E.check_lazy((a.u.name() == "None") == a.r.none, "name", what("name"));
  E.check_lazy(a.u.has_value() == !a.r.none, "name", what("has_value"));
}
/// Units reachable with one more operation.
std::vector<State> step(const std::vector<State> &from, const std::vector<State> &with) {
  std::vector<State> r = from;
  std::set<std::string> seen;
  for (const auto &s : from)
    seen.insert(text(s.r));
  const auto add = [&](const Opt &want, auto &&f, const std::string &how) {
    if (!want || !(want->scale > 1e-60L && want->scale < 1e60L) || !seen.insert(text(*want)).second)
      return;
    State s;
    s.r = *want;
    s.how = how;
    if (!attempt(f, s.u).empty())
      return; // reported where the operation is examined
    r.push_back(s);
  };
  for (const auto &a : from) {
    for (const auto &b : with) {
      add(combine(a.r, b.r, 1), [&] { return a.u * b.u; }, "(" + a.how + "*" + b.how + ")");
      add(combine(a.r, b.r, -1), [&] { return a.u / b.u; }, "(" + a.how + "/" + b.how + ")");
      add(combine(b.r, a.r, -1), [&] { return b.u / a.u; }, "(" + b.how + "/" + a.how + ")");
    }
    for (const long p : {2l, 3l, -1l, -2l})
      add(power(a.r, p), [&] { return pow(a.u, p); }, "(" + a.how + "^" + std::to_string(p) + ")");
    add(root(a.r), [&] { return sqrt(a.u); }, "sqrt(" + a.how + ")");
  }
  return r;
}
} // namespace

VH_EXPLORE(U01) {
  const auto s1 = alphabet();
  const auto s2 = step(s1, s1), s3 = step(s2, s1);
  // operands at the limits of the exponents
  std::vector<State> limits;
  for (int i = 0; i < 10; ++i)
    for (const auto &s : s1) {
      if (s.r.none || s.r.e[i] != 1 || s.r.scale != 1)
        continue;
      const long lim = 1l << (width[i] - 1);
      for (const long p : {lim - 1, lim - 2, lim / 2, lim / 2 - 1, -lim, -lim + 1, -lim / 2, -lim / 2 - 1}) {
        const auto want = power(s.r, p);
        State t;
        t.r = *want;
        t.how = s.how + "^" + std::to_string(p);
        attempt([&] { return pow(s.u, p); }, t.u);
        limits.push_back(t);
      }
    }
  for (const auto &a : s3)
    E.run([&] { return "unit " + text(a.r) + " with all units of one operation"; }, [&] {
      E.nontrivial();
      E.state(vh::hash_str(text(a.r)));
      E.check_lazy(mismatch(a.u, a.r).empty(), "unit", [&] { return a.how + ": " + mismatch(a.u, a.r); });
      unary(E, a);
      size_t k = 0;
      for (const auto &b : E.thorough ? s3 : s2)
        binary(E, a, b, k++ < s1.size());
    });
  for (const auto &a : limits)
    E.run([&] { return "limit " + text(a.r); }, [&] {
      E.nontrivial();
      E.state(vh::hash_str(text(a.r)));
      E.check_lazy(mismatch(a.u, a.r).empty(), "unit", [&] { return a.how + ": " + mismatch(a.u, a.r); });
      unary(E, a);
      for (const auto &b : limits)
        binary(E, a, b, false);
      for (const auto &b : s2) {
        binary(E, a, b, false);
        binary(E, b, a, false);
      }
    });
  // laws
  for (const auto &a : s2)
    E.run([&] { return "laws for " + text(a.r); }, [&] {
      E.nontrivial();
      const auto law = [&](auto &&f, auto &&g, const char *name, const State &b, const State &c) {
        Unit x, y;
        const auto e1 = attempt(f, x), e2 = attempt(g, y);
        ++E.transitions;
        // both or none of them are rejected, unless an exponent overflows on the way
        const auto alike = [&] { // up to rounding of the scale
          if (!x.has_value() || !y.has_value())
            return x.has_value() == y.has_value();
          return x.has_same_base(y) && std::abs(x.underlying().multiplier() / y.underlying().multiplier() - 1) < 1e-12;
        };
        E.check_lazy(e1 != e2 || !e1.empty() || alike(), "law", [&] { return std::string(name) + " of " + a.how + ", " + b.how + ", " + c.how; });
      };
      for (const auto &b : s2) {
        law([&] { return a.u * b.u; }, [&] { return b.u * a.u; }, "commutativity", b, b);
        law([&] { return a.u * b.u / b.u; }, [&] { return a.u; }, "inverse", b, b);
        law([&] { return pow(a.u * b.u, 2); }, [&] { return pow(a.u, 2) * pow(b.u, 2); }, "power of product", b, b);
        law([&] { return sqrt(a.u * a.u * b.u * b.u); }, [&] { return a.u * b.u; }, "root of squares", b, b);
        for (const auto &c : s1) {
          law([&] { return (a.u * b.u) * c.u; }, [&] { return a.u * (b.u * c.u); }, "associativity", b, c);
          law([&] { return (a.u / b.u) / c.u; }, [&] { return a.u / (b.u * c.u); }, "quotient", b, c);
        }
      }
      for (long p = -3; p <= 3; ++p)
        for (long q = -3; q <= 3; ++q) {
          law([&] { return pow(pow(a.u, p), q); }, [&] { return pow(a.u, p * q); }, "power of power", a, a);
          law([&] { return pow(a.u, p) * pow(a.u, q); }, [&] { return pow(a.u, p + q); }, "product of powers", a, a);
        }
    });
}
VH_MAIN
