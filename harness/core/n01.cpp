// N01: numeric helpers are exact over their integer and edge domains.
//
// Complete enumeration of argument sets (a dense range of small numbers and the
// surroundings of powers of two), of short sequences and of shapes, against
// 128-bit integer arithmetic, definitions, and nested loops.
#include "vh.h"
#include "scipp/common/index_composition.h"
#include "scipp/common/numeric.h"
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/math.h"
#include "scipp/core/element/util.h"
#include "scipp/core/time_point.h"
#include <array>

using namespace scipp;
using ix = scipp::index;
using Vec = std::vector<ix>;
using big = __int128;
namespace el = scipp::core::element;

namespace {
template <class T> std::string str(const T &x) {
  std::ostringstream o;
  o.precision(20);
  o << x;
  return o.str();
}
template <class T> const char *name();
template <> const char *name<int32_t>() { return "int32"; }
template <> const char *name<int64_t>() { return "int64"; }
template <> const char *name<float>() { return "float32"; }
template <> const char *name<double>() { return "float64"; }

/// Small numbers and everything near a power of two.
template <class T> std::vector<T> numbers(int dense) {
  std::set<T> s;
  for (int i = -dense; i <= dense; ++i)
    s.insert(T(i));
  for (int b = 5; b < int(sizeof(T)) * 8 - 1; ++b)
    for (int d = -2; d <= 2; ++d) {
      s.insert(T((big(1) << b) + d));
      s.insert(T(-(big(1) << b) + d < std::numeric_limits<T>::min() ? std::numeric_limits<T>::min() : -(big(1) << b) + d));
      s.insert(T((big(3) << (b - 1)) + d > std::numeric_limits<T>::max() ? std::numeric_limits<T>::max() : (big(3) << (b - 1)) + d));
    }
  for (int d = 0; d < 3; ++d) {
    s.insert(std::numeric_limits<T>::min() + d);
    s.insert(std::numeric_limits<T>::max() - d);
  }
  for (T p = 10, i = 0; i < (sizeof(T) == 4 ? 8 : 17); ++i, p *= 10)
    for (int d = -1; d <= 1; ++d) {
      s.insert(p + d);
      s.insert(-p + d);
    }
  return {s.begin(), s.end()};
}
big floor_div(big a, big b) {
  big q = a / b;
  if (a % b != 0 && (a < 0) != (b < 0))
    --q;
  return q;
}

template <class A, class B> void int_division(vh::Explorer &E, int dense) {
  using C = std::common_type_t<A, B>;
  const auto bs = numbers<B>(dense);
  for (const auto a : numbers<A>(dense))
    E.run([&] { return std::string("division of ") + name<A>() + " " + str(a) + " by " + name<B>(); },
          [&] {
            E.nontrivial();
            for (const auto b : bs) {
              const auto where = [&](const char *w, auto got) {
                return std::string(w) + " of " + str(a) + " and " + str(b) + " (" + name<A>() + ", " + name<B>() + ") is " + str(got);
              };
              const auto q = numeric::floor_divide(a, b);
              const auto r = numeric::remainder(a, b);
              const auto eq = el::floor_divide(a, b);
              const auto er = el::mod(a, b);
              static_assert(std::is_same_v<decltype(q), const C>);
              ++E.transitions;
              E.check_lazy(big(eq) == big(q) && big(er) == big(r), "element-operation", [&] { return where("element operation", eq); });
              if constexpr (std::is_same_v<A, B>) {
                A x = a;
                el::floor_divide_equals(x, b);
                E.check_lazy(x == q, "in-place", [&] { return where("in-place floor division", x); });
              }
              if constexpr (sizeof(A) >= sizeof(C)) {
                A y = a;
                el::mod_equals(y, b);
                E.check_lazy(y == A(r), "in-place", [&] { return where("in-place remainder", y); });
              }
              if (b == 0) {
                E.check_lazy(q == 0 && r == 0, "division-by-zero", [&] { return where("division", q); });
                continue;
              }
              const auto expected = floor_div(a, b);
              if (expected > std::numeric_limits<C>::max())
                continue; // the smallest number divided by -1
              E.check_lazy(big(q) == expected, "floor-division", [&] { return where("floor division", q); });
              E.check_lazy(big(r) == big(a) - expected * big(b), "remainder", [&] { return where("remainder", r); });
              E.check_lazy(numeric::true_divide(a, b) == double(a) / double(b), "true-division",
                           [&] { return where("true division", numeric::true_divide(a, b)); });
            }
          });
}

template <class A, class B> void float_division(vh::Explorer &E, int n) {
  // multiples of a quarter, where everything is exact
  for (int i = -n; i <= n; ++i)
    E.run([&] { return std::string("division of ") + name<A>() + " " + str(i / 4.0) + " by " + name<B>(); },
          [&] {
            E.nontrivial();
            for (int j = -n; j <= n; ++j) {
              const int sb = std::is_integral_v<B> ? 1 : 4, sa = std::is_integral_v<A> ? 1 : 4;
              const A a = A(i) / A(sa);
              const B b = B(j) / B(sb);
              const auto q = numeric::floor_divide(a, b);
              const auto r = numeric::remainder(a, b);
              ++E.transitions;
              const auto where = [&](const char *w) {
                return std::string(w) + " of " + str(a) + " and " + str(b) + " (" + name<A>() + ", " + name<B>() + "), got " + str(q) +
                       " and " + str(r);
              };
              if (j == 0) {
                E.check_lazy(std::isnan(r), "division-by-zero", [&] { return where("remainder"); });
                E.check_lazy(i == 0 ? std::isnan(q) : std::isinf(q) && (q > 0) == (i > 0), "division-by-zero",
                             [&] { return where("floor division"); });
                continue;
              }
              const auto expected = double(floor_div(big(i) * sb, big(j) * sa));
              E.check_lazy(q == expected, "float-floor-division", [&] { return where("floor division"); });
              E.check_lazy(double(r) == double(a) - expected * double(b), "float-remainder", [&] { return where("remainder"); });
            }
          });
}

template <class B, class X> void powers(vh::Explorer &E) {
  for (int b = -40; b <= 40; ++b)
    E.run([&] { return std::string("powers of ") + name<B>() + " " + str(b) + " with exponents " + name<X>(); },
          [&] {
            E.nontrivial();
            big p = 1;
            constexpr int digits = std::numeric_limits<B>::digits;
            const big limit = big(1) << digits;
            for (int n = 0; n <= 70; ++n) {
              if (n > 0)
                p *= b;
              if (p >= limit || p <= -limit)
                break;
              ++E.transitions;
              const auto got = numeric::pow(B(b), X(n));
              E.check_lazy(big(got) == p && got == B(p), "power", [&] { return str(b) + "**" + str(n) + " is " + str(got); });
              if constexpr (sizeof(B) == 8 || std::is_floating_point_v<B>)
                if constexpr (std::is_same_v<B, double> || std::is_same_v<B, float> || std::is_same_v<B, int64_t>) {
                  E.check_lazy(el::pow(B(b), X(n)) == B(p), "power", [&] { return str(b) + "**" + str(n) + " (element)"; });
                  B out = 7;
                  const B base = B(b);
                  const X ex = X(n);
                  el::pow_in_place(out, base, ex);
                  E.check_lazy(out == B(p), "power", [&] { return str(b) + "**" + str(n) + " (in place)"; });
                }
              if constexpr (std::is_floating_point_v<B>)
                if (n > 0 && b != 0)
                  E.check_lazy(numeric::pow(B(b), X(-n)) == B(1) / B(p), "negative-power",
                               [&] { return str(b) + "**-" + str(n) + " is " + str(numeric::pow(B(b), X(-n))); });
              if (b == 1 && n == 0)
                for (X big_n : {X(1000), X(12345), std::numeric_limits<X>::max()})
                  E.check(numeric::pow(B(1), big_n) == B(1) && numeric::pow(B(-1), big_n) == (big_n % 2 ? B(-1) : B(1)), "power",
                          "large power of 1 or -1");
            }
          });
}

/// All sequences of the given length over the set.
template <class F> void sequences(const Vec &set, size_t length, F &&f) {
  std::vector<size_t> c(length, 0);
  Vec v(length, set[0]);
  while (true) {
    f(v);
    size_t d = length;
    while (d > 0) {
      --d;
      if (++c[d] < set.size()) {
        v[d] = set[c[d]];
        break;
      }
      c[d] = 0;
      v[d] = set[0];
      if (d == 0)
        return;
    }
    if (length == 0)
      return;
  }
}
bool regular(const Vec &v) {
  if (v.size() < 2 || v[1] <= v[0])
    return false;
  for (size_t i = 1; i < v.size(); ++i)
    if (v[i] - v[i - 1] != v[1] - v[0])
      return false;
  return true;
}
bool consecutive(const Vec &v) {
  for (size_t i = 1; i < v.size(); ++i)
    if (v[i] - v[i - 1] != 1)
      return false;
  return true;
}
template <class T, class F> std::vector<T> convert(const Vec &v, F &&f) {
  std::vector<T> r;
  for (auto x : v)
    r.push_back(f(x));
  return r;
}
std::string show(const Vec &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i)
    s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
void spacing(vh::Explorer &E, const Vec &v) {
  const bool lin = regular(v), ar = consecutive(v);
  ++E.transitions;
  const auto check = [&](bool got, bool exp, const char *sig, const char *type) {
    E.check_lazy(got == exp, sig, [&] { return std::string(sig) + " of " + show(v) + " (" + type + ") is " + (got ? "true" : "false"); });
  };
  const auto i64 = convert<int64_t>(v, [](auto x) { return int64_t(x); });
  const auto i32 = convert<int32_t>(v, [](auto x) { return int32_t(x); });
  const auto tp = convert<core::time_point>(v, [](auto x) { return core::time_point(x); });
  const auto big64 = convert<int64_t>(v, [](auto x) { return int64_t(x) + (int64_t(1) << 60); });
  check(numeric::isarange(i64), ar, "isarange", "int64");
  check(numeric::isarange(i32), ar, "isarange", "int32");
  check(numeric::isarange(big64), ar, "isarange", "large int64");
  check(numeric::islinspace(i64), lin, "islinspace", "int64");
  check(numeric::islinspace(i32), lin, "islinspace", "int32");
  check(numeric::islinspace(big64), lin, "islinspace", "large int64");
  check(numeric::islinspace(tp), lin, "islinspace", "datetime");
  check(el::islinspace(scipp::span<const int64_t>(i64)), lin, "islinspace", "int64 element");
  check(el::islinspace(scipp::span<const core::time_point>(tp)), lin, "islinspace", "datetime element");
  check(el::isarange(scipp::span<const int32_t>(i32)), ar, "isarange", "int32 element");
  for (double scale : {1.0, 0.1, 1.0 / 3, 1e-30, 1e30, 123.456})
    for (double offset : {0.0, 1.0, -0.7, 100.1}) {
      const auto d = convert<double>(v, [&](auto x) { return (offset + x) * scale; });
      check(numeric::islinspace(d), lin, "islinspace", "float64");
      const auto f = convert<float>(v, [&](auto x) { return float((offset + x) * scale); });
      check(numeric::islinspace(f), lin, "islinspace", "float32");
      check(el::islinspace(scipp::span<const double>(d)), lin, "islinspace", "float64 element");
    }
}

void indices(vh::Explorer &E, const Vec &shape) { // shape: fastest first
  const auto nd = shape.size();
  ix n = 1;
  for (auto s : shape)
    n *= s;
  Vec strides(nd, 1);
  for (size_t d = 1; d < nd; ++d)
    strides[d] = strides[d - 1] * shape[d - 1];
  Vec expected(nd, 0);
  const auto where = [&](ix i, const Vec &got) { return "index " + str(i) + " of shape " + show(shape) + " is " + show(got); };
  std::set<Vec> seen;
  for (ix i = 0; i < n; ++i) {
    Vec got(std::max<size_t>(nd, 1), -5);
    extract_indices(i, shape.begin(), shape.end(), got.begin());
    if (nd == 0) {
      E.check_lazy(got[0] == i, "index", [&] { return where(i, got); });
      continue;
    }
    ++E.transitions;
    E.check_lazy(got == expected, "index", [&] { return where(i, got); });
    E.check_lazy(flat_index_from_strides(strides.begin(), strides.end(), got.begin()) == i, "flat-index",
                 [&] { return where(i, got) + ", converted back to " + str(flat_index_from_strides(strides.begin(), strides.end(), got.begin())); });
    E.check_lazy(seen.insert(got).second, "index", [&] { return where(i, got) + ", again"; });
    for (size_t d = 0; d < nd; ++d) {
      if (++expected[d] < shape[d])
        break;
      expected[d] = 0;
    }
  }
  if (nd > 0) { // one past the end
    Vec got(nd, -5);
    extract_indices(n, shape.begin(), shape.end(), got.begin());
    Vec end(nd, 0);
    end[nd - 1] = shape[nd - 1];
    if (n > 0)
      E.check_lazy(got == end, "index-end", [&] { return where(n, got); });
    else
      for (size_t d = 0; d + 1 < nd; ++d)
        E.check_lazy(got[d] == 0, "index-end", [&] { return where(n, got); });
  }
}

template <class T> void midpoints(vh::Explorer &E, int dense) {
  const auto all = numbers<T>(dense);
  for (const auto a : all)
    E.run([&] { return std::string("midpoints of ") + name<T>() + " " + str(a); },
          [&] {
            E.nontrivial();
            for (const auto b : all) {
              ++E.transitions;
              // half of the way, rounded towards the first
              const big d = big(b) - big(a);
              const big exp = big(a) + d / 2;
              E.check_lazy(big(el::midpoint(a, b)) == exp, "midpoint",
                           [&] { return "midpoint of " + str(a) + " and " + str(b) + " is " + str(el::midpoint(a, b)); });
              if constexpr (sizeof(T) == 8)
                E.check(el::midpoint(core::time_point(a), core::time_point(b)) == core::time_point(T(exp)), "midpoint", "datetime");
            }
          });
}
} // namespace

VH_EXPLORE(N01) {
  const int dense = E.thorough ? 150 : 40;
  int_division<int64_t, int64_t>(E, dense);
  int_division<int32_t, int32_t>(E, dense);
  int_division<int64_t, int32_t>(E, dense);
  int_division<int32_t, int64_t>(E, dense);
  const int n = E.thorough ? 120 : 40;
  float_division<double, double>(E, n);
  float_division<float, float>(E, n);
  float_division<double, float>(E, n);
  float_division<float, double>(E, n);
  float_division<double, int64_t>(E, n);
  float_division<double, int32_t>(E, n);
  float_division<float, int64_t>(E, n);
  float_division<float, int32_t>(E, n);
  float_division<int64_t, double>(E, n);
  float_division<int32_t, float>(E, n);
  float_division<int64_t, float>(E, n);
  float_division<int32_t, double>(E, n);
  powers<int64_t, int64_t>(E);
  powers<int64_t, int32_t>(E);
  powers<int32_t, int32_t>(E);
  powers<int32_t, int64_t>(E);
  powers<double, int64_t>(E);
  powers<double, int32_t>(E);
  powers<float, int64_t>(E);
  powers<float, int32_t>(E);
  midpoints<int64_t>(E, dense);
  midpoints<int32_t>(E, dense);
  // regular spacing: short sequences
  const Vec values = E.thorough ? Vec{-3, -2, -1, 0, 1, 2, 3, 4, 6} : Vec{-2, -1, 0, 1, 2, 3, 5};
  for (size_t len = 0; len <= 2; ++len)
    E.run([&] { return "spacing of all sequences of length " + str(len); },
          [&] {
            E.nontrivial();
            sequences(values, len, [&](const Vec &v) { spacing(E, v); });
          });
  for (size_t len = 3; len <= (E.thorough ? 6 : 6); ++len)
    sequences(values, 2, [&](const Vec &first) {
      E.run([&] { return "spacing of all sequences of length " + str(len) + " from " + show(first); },
            [&] {
              E.nontrivial();
              sequences(values, len - 2, [&](const Vec &rest) {
                Vec v(first);
                v.insert(v.end(), rest.begin(), rest.end());
                if (len == 6 && !E.thorough) { // steps that are all equal in size
                  for (size_t i = 2; i < v.size(); ++i)
                    if (std::abs(v[i] - v[i - 1]) != std::abs(v[1] - v[0]))
                      return;
                }
                spacing(E, v);
              });
            });
    });
  // long sequences with one element off
  for (ix len : {7, 16, 100, 1001})
    for (ix step : {1, 2, 7})
      E.run([&] { return "spacing of long sequences, " + str(len) + " elements, step " + str(step); },
            [&] {
              E.nontrivial();
              Vec v(len);
              for (ix i = 0; i < len; ++i)
                v[i] = -20 + i * step;
              spacing(E, v);
              for (ix i = 0; i < len; ++i)
                for (ix d : {-2, -1, 1, 2}) {
                  if (len > 200 && i % 50 > 1 && i + 3 < len)
                    continue;
                  v[i] += d;
                  spacing(E, v);
                  v[i] -= d;
                }
              // floating-point steps as computed by a range
              for (double start : {0.0, 0.1, -3.3, 1000.7})
                for (double delta : {0.1, 1.0 / 3, 2.5e-3}) {
                  std::vector<double> x(len);
                  for (ix i = 0; i < len; ++i)
                    x[i] = start + i * delta;
                  E.check(numeric::islinspace(x), "islinspace", "computed range is not regular");
                  for (ix i : {ix(0), ix(1), len / 2, len - 2, len - 1})
                    for (double f : {-0.5, -1e-3, 1e-3, 0.5}) {
                      const auto keep = x[i];
                      x[i] += f * delta;
                      E.check_lazy(!numeric::islinspace(x), "islinspace", [&] { return "element " + str(i) + " of " + str(len) + " is off by " + str(f) + " steps"; });
                      x[i] = keep;
                    }
                }
            });
  // flat and multi-dimensional indices
  for (size_t nd = 0; nd <= 5; ++nd) {
    const Vec ext = nd <= 3 ? Vec{0, 1, 2, 3, 4, 5, 7} : nd == 4 ? Vec{0, 1, 2, 3} : Vec{1, 2, 3};
    sequences(ext, nd, [&](const Vec &shape) {
      E.run([&] { return "indices of shape " + show(shape); },
            [&] {
              if (nd > 0)
                E.nontrivial();
              indices(E, shape);
            });
    });
  }
}
VH_MAIN
