// S01: spatial transforms compose and apply consistently.
//
// A finite set of rotations, linear maps, translations and affine maps is
// enumerated with all pairs and triples of all type combinations, in several
// memory layouts, and compared with 4x4 matrices; component access with every
// layout and every component.
#include "vh.h"
#include "scipp/core/eigen.h"
#include "scipp/core/spatial_transforms.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/inv.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/structures.h"
#include "scipp/variable/variable.h"
#include <array>

using namespace scipp;
using namespace scipp::variable;
using ix = scipp::index;
using core::Quaternion;
using core::Translation;
using Eigen::Affine3d;
using Eigen::Matrix3d;
using Eigen::Vector3d;

namespace {
using M4 = std::array<std::array<double, 4>, 4>;
M4 eye() {
  M4 m{};
  for (int i = 0; i < 4; ++i)
    m[i][i] = 1;
  return m;
}
M4 mul(const M4 &a, const M4 &b) {
  M4 m{};
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j)
      for (int k = 0; k < 4; ++k)
        m[i][j] += a[i][k] * b[k][j];
  return m;
}
using V3 = std::array<double, 3>;
V3 apply_to(const M4 &m, const V3 &v) {
  V3 r{};
  for (int i = 0; i < 3; ++i)
    r[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] + m[i][3];
  return r;
}
bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(b)); }
bool near(const M4 &a, const M4 &b) {
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j)
      if (!near(a[i][j], b[i][j]))
        return false;
  return true;
}
std::string str(const M4 &m) {
  std::ostringstream o;
  for (int i = 0; i < 3; ++i)
    o << "[" << m[i][0] << " " << m[i][1] << " " << m[i][2] << " | " << m[i][3] << "]";
  return o.str();
}
std::string str(const V3 &v) {
  std::ostringstream o;
  o << "(" << v[0] << "," << v[1] << "," << v[2] << ")";
  return o.str();
}

/// What the elements of a variable mean.
M4 m4(const Matrix3d &a) {
  M4 m = eye();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      m[i][j] = a(i, j);
  return m;
}
M4 m4(const Affine3d &a) {
  M4 m{};
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j)
      m[i][j] = a.matrix()(i, j);
  return m;
}
M4 m4(const Translation &t) {
  M4 m = eye();
  for (int i = 0; i < 3; ++i)
    m[i][3] = t.vector()[i];
  return m;
}
/// Rotation of a unit quaternion, from the definition.
M4 rotation(double x, double y, double z, double w) {
  M4 m = eye();
  const double r[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)},
                          {2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)},
                          {2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)}};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      m[i][j] = r[i][j];
  return m;
}
M4 m4(const Quaternion &q) {
  return rotation(q.quat().x(), q.quat().y(), q.quat().z(), q.quat().w());
}

enum Kind { Rot, Lin, Tra, Aff };
const char *kind_name[] = {"rotation", "linear", "translation", "affine"};
struct Set {
  Kind kind;
  std::vector<M4> ref;
  std::vector<double> elems;
  int per;
};
Set make_set(Kind k, bool thorough) {
  Set s;
  s.kind = k;
  std::vector<std::array<double, 4>> quats{{0, 0, 0, 1}};
  const double h = std::sqrt(0.5), c = std::cos(0.35), d = std::sin(0.35);
  for (int i = 0; i < 3; ++i)
    for (double sg : {1., -1.}) {
      std::array<double, 4> q{};
      q[i] = sg * h;
      q[3] = h;
      quats.push_back(q); // quarter turns
    }
  quats.push_back({1, 0, 0, 0});
  quats.push_back({0, 1, 0, 0});
  quats.push_back({0, 0, 1, 0});
  quats.push_back({.5, .5, .5, .5});
  quats.push_back({.5, -.5, .5, .5});
  quats.push_back({d * .6, 0, d * .8, c});
  quats.push_back({-d * .6, d * .8, 0, -c});
  std::vector<std::array<double, 9>> mats; // row by row
  mats.push_back({1, 0, 0, 0, 1, 0, 0, 0, 1});
  mats.push_back({2, 0, 0, 0, 4, 0, 0, 0, -8});
  mats.push_back({0, 1, 0, 0, 0, 1, 1, 0, 0});
  mats.push_back({1, 2, 3, 0, 1, 4, 0, 0, 1});
  mats.push_back({1, 0, 0, 5, 1, 0, -2, 3, 1});
  mats.push_back({2, -1, 0, 1, 3, -4, 0, 5, 1});
  std::vector<V3> vecs{{0, 0, 0}, {1, 2, 4}, {-3, 0, 5}, {0, 7, -1}};
  if (thorough) {
    mats.push_back({0, 0, 1, 0, -1, 0, 1, 0, 0});
    mats.push_back({3, 1, 4, 1, 5, -9, 2, 6, 5});
    vecs.push_back({100, -20, 3});
  }
  const auto push = [&](const M4 &m, const std::vector<double> &e) {
    s.ref.push_back(m);
    s.elems.insert(s.elems.end(), e.begin(), e.end());
    s.per = e.size();
  };
  if (k == Rot)
    for (auto &q : quats)
      push(rotation(q[0], q[1], q[2], q[3]), {q[0], q[1], q[2], q[3]});
  const auto lin = [](const std::array<double, 9> &a) {
    M4 m = eye();
    for (int i = 0; i < 9; ++i)
      m[i / 3][i % 3] = a[i];
    return m;
  };
  if (k == Lin)
    for (auto &a : mats)
      push(lin(a), {a[0], a[3], a[6], a[1], a[4], a[7], a[2], a[5], a[8]});
  if (k == Tra)
    for (auto &v : vecs) {
      M4 m = eye();
      for (int i = 0; i < 3; ++i)
        m[i][3] = v[i];
      push(m, {v[0], v[1], v[2]});
    }
  if (k == Aff)
    for (size_t i = 0; i < mats.size(); ++i)
      for (size_t j : {i % vecs.size(), (i + 1) % vecs.size()}) {
        M4 m = lin(mats[i]);
        std::vector<double> e;
        for (int r = 0; r < 3; ++r)
          m[r][3] = vecs[j][r];
        for (int col = 0; col < 4; ++col)
          for (int row = 0; row < 4; ++row)
            e.push_back(m[row][col]);
        push(m, e);
      }
  return s;
}
Variable make(Kind k, const Dimensions &dims, units::Unit u, element_array<double> &&e) {
  switch (k) {
  case Rot: return make_rotations(dims, u, std::move(e));
  case Lin: return make_matrices(dims, u, std::move(e));
  case Tra: return make_translations(dims, u, std::move(e));
  default: return make_affine_transforms(dims, u, std::move(e));
  }
}
/// 0: contiguous, 1: every second, between garbage, 2: reversed order is not
/// available, so a column of a two-dimensional transposed buffer.
Variable lay_out(int layout, const std::vector<double> &e, int per, Dim dim, const auto &mk) {
  const ix n = e.size() / per;
  if (layout == 0)
    return mk(Dimensions(dim, n), element_array<double>(e.begin(), e.end()));
  std::vector<double> x;
  const std::vector<double> junk(per, 99.5);
  if (layout == 1) {
    for (ix i = 0; i < n; ++i) {
      x.insert(x.end(), junk.begin(), junk.end());
      x.insert(x.end(), e.begin() + i * per, e.begin() + (i + 1) * per);
    }
    return mk(Dimensions(dim, 2 * n), element_array<double>(x.begin(), x.end())).slice({dim, 1, 2 * n, 2});
  }
  const Dim other("other");
  for (ix i = 0; i < n; ++i)
    for (int c = 0; c < 3; ++c)
      if (c == 2)
        x.insert(x.end(), e.begin() + i * per, e.begin() + (i + 1) * per);
      else
        x.insert(x.end(), junk.begin(), junk.end());
  return mk(Dimensions({dim, other}, {n, 3}), element_array<double>(x.begin(), x.end())).slice({other, 2});
}
Variable variable_of(const Set &s, Dim dim, int layout, units::Unit u) {
  return lay_out(layout, s.elems, s.per, dim,
                 [&](const Dimensions &d, auto &&e) { return make(s.kind, d, u, std::move(e)); });
}
std::vector<M4> matrices(const Variable &v) {
  std::vector<M4> r;
  const auto all = [&](auto &&vals) {
    for (const auto &x : vals)
      r.push_back(m4(x));
  };
  if (v.dtype() == dtype<Matrix3d>)
    all(v.values<Matrix3d>());
  else if (v.dtype() == dtype<Affine3d>)
    all(v.values<Affine3d>());
  else if (v.dtype() == dtype<Quaternion>)
    all(v.values<Quaternion>());
  else if (v.dtype() == dtype<Translation>)
    all(v.values<Translation>());
  else
    throw vh::Fail{"result-type", "unexpected element type of a product of transforms"};
  return r;
}
Kind result_kind(Kind a, Kind b) {
  if (a == b)
    return a;
  if (a != Tra && b != Tra && a != Aff && b != Aff)
    return Lin;
  return Aff;
}
DType type_of(Kind k) {
  return k == Rot ? dtype<Quaternion> : k == Lin ? dtype<Matrix3d> : k == Tra ? dtype<Translation> : dtype<Affine3d>;
}
const std::vector<V3> &vectors() {
  static const std::vector<V3> v{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 2, 3}, {-4, 0.5, 8}};
  return v;
}
Variable vec_variable(Dim dim, int layout, units::Unit u) {
  std::vector<double> e;
  for (const auto &v : vectors())
    e.insert(e.end(), v.begin(), v.end());
  return lay_out(layout, e, 3, dim, [&](const Dimensions &d, auto &&x) { return make_vectors(d, u, std::move(x)); });
}
bool translates(Kind k) { return k == Tra || k == Aff; }
/// Unit of a transform that keeps lengths lengths.
units::Unit unit_for(Kind k) { return translates(k) ? units::m : units::one; }

template <class F> bool raises_unit_error(F &&f) {
  try {
    f();
  } catch (const except::UnitError &) {
    return true;
  }
  return false;
}

template <class T> T element(const Set &s, size_t i);
template <> Quaternion element(const Set &s, size_t i) {
  const double *e = &s.elems[4 * i];
  return Quaternion(Eigen::Quaterniond(e[3], e[0], e[1], e[2]));
}
template <> Translation element(const Set &s, size_t i) {
  const double *e = &s.elems[3 * i];
  return Translation(Vector3d(e[0], e[1], e[2]));
}
template <> Matrix3d element(const Set &s, size_t i) {
  Matrix3d m;
  for (int r = 0; r < 3; ++r)
    for (int c = 0; c < 3; ++c)
      m(r, c) = s.ref[i][r][c];
  return m;
}
template <> Affine3d element(const Set &s, size_t i) {
  Affine3d a;
  for (int r = 0; r < 4; ++r)
    for (int c = 0; c < 4; ++c)
      a.matrix()(r, c) = s.ref[i][r][c];
  return a;
}
template <class T> constexpr Kind kind_of() {
  if constexpr (std::is_same_v<T, Quaternion>) return Rot;
  else if constexpr (std::is_same_v<T, Matrix3d>) return Lin;
  else if constexpr (std::is_same_v<T, Translation>) return Tra;
  else return Aff;
}

/// The operators on single elements.
template <class A, class B> void scalar_pairs(vh::Explorer &E, const std::array<Set, 4> &sets) {
  const auto &sa = sets[kind_of<A>()], &sb = sets[kind_of<B>()];
  for (size_t i = 0; i < sa.ref.size(); ++i)
    E.run([&] { return std::string("product of ") + kind_name[sa.kind] + " " + str(sa.ref[i]) + " and each " + kind_name[sb.kind]; },
          [&] {
            E.nontrivial();
            const A a = element<A>(sa, i);
            for (size_t j = 0; j < sb.ref.size(); ++j) {
              const B b = element<B>(sb, j);
              const auto r = a * b;
              ++E.transitions;
              E.check_lazy(near(m4(r), mul(sa.ref[i], sb.ref[j])), "composition", [&] {
                return std::string("product of ") + kind_name[sa.kind] + " " + str(sa.ref[i]) + " and " + kind_name[sb.kind] + " " +
                       str(sb.ref[j]) + " gives " + str(m4(r));
              });
              for (const auto &v : vectors()) {
                const Vector3d x(v[0], v[1], v[2]);
                const Vector3d y = a * Vector3d(b * x), z = r * x;
                const auto e = apply_to(sa.ref[i], apply_to(sb.ref[j], v));
                for (int k = 0; k < 3; ++k)
                  E.check_lazy(near(y[k], e[k]) && near(z[k], e[k]), "application", [&] {
                    return std::string("applying ") + kind_name[sa.kind] + " " + str(sa.ref[i]) + " after " + kind_name[sb.kind] + " " +
                           str(sb.ref[j]) + " to " + str(v) + " gives component " + std::to_string(y[k]) + " or, composed, " +
                           std::to_string(z[k]);
                  });
              }
            }
          });
}
template <class A> void scalar_single(vh::Explorer &E, const std::array<Set, 4> &sets) {
  const auto &s = sets[kind_of<A>()];
  for (size_t i = 0; i < s.ref.size(); ++i)
    E.run([&] { return std::string("inverse of ") + kind_name[s.kind] + " " + str(s.ref[i]); },
          [&] {
            E.nontrivial();
            const A a = element<A>(s, i);
            const A r(a.inverse());
            ++E.transitions;
            E.check_lazy(near(mul(m4(r), s.ref[i]), eye()) && near(mul(s.ref[i], m4(r)), eye()), "inverse",
                         [&] { return std::string("inverse of ") + str(s.ref[i]) + " gives " + str(m4(r)); });
            E.check_lazy(near(m4(a), s.ref[i]), "elements", [&] { return "stored as " + str(m4(a)); });
            if constexpr (std::is_same_v<A, Quaternion> || std::is_same_v<A, Translation>)
              for (size_t j = 0; j < s.ref.size(); ++j) {
                const A b = element<A>(s, j);
                bool same = true;
                for (int k = 0; k < s.per; ++k)
                  same = same && s.elems[i * s.per + k] == s.elems[j * s.per + k];
                E.check_lazy((a == b) == same && (a != b) == !same, "equality",
                             [&] { return "comparing with " + str(s.ref[j]); });
                // every component matters
                for (int k = 0; k < s.per; ++k) {
                  A c = a;
                  c(k) += 0.25;
                  E.check_lazy(!(c == a) && c != a, "equality", [&] { return "after changing component " + std::to_string(k); });
                  for (int l = 0; l < s.per; ++l)
                    E.check_lazy(c(l) == s.elems[i * s.per + l] + (l == k ? 0.25 : 0), "component",
                                 [&] { return "component " + std::to_string(l) + " after changing " + std::to_string(k); });
                }
              }
          });
}
} // namespace

VH_EXPLORE(S01) {
  const std::array<Set, 4> sets{make_set(Rot, E.thorough), make_set(Lin, E.thorough), make_set(Tra, E.thorough),
                                make_set(Aff, E.thorough)};
  // single elements
  scalar_pairs<Quaternion, Quaternion>(E, sets);
  scalar_pairs<Quaternion, Matrix3d>(E, sets);
  scalar_pairs<Quaternion, Translation>(E, sets);
  scalar_pairs<Quaternion, Affine3d>(E, sets);
  scalar_pairs<Matrix3d, Quaternion>(E, sets);
  scalar_pairs<Matrix3d, Translation>(E, sets);
  scalar_pairs<Translation, Quaternion>(E, sets);
  scalar_pairs<Translation, Matrix3d>(E, sets);
  scalar_pairs<Translation, Translation>(E, sets);
  scalar_pairs<Translation, Affine3d>(E, sets);
  scalar_pairs<Affine3d, Quaternion>(E, sets);
  scalar_pairs<Affine3d, Translation>(E, sets);
  scalar_pairs<Affine3d, Affine3d>(E, sets);
  scalar_single<Quaternion>(E, sets);
  scalar_single<Translation>(E, sets);
  scalar_single<Matrix3d>(E, sets);
  scalar_single<Affine3d>(E, sets);
  E.run([] { return "quaternions that are not of unit length"; }, [&] {
    E.nontrivial();
    for (int i = 0; i < 81; ++i)
      for (int j = 0; j < 81; ++j) {
        const double a[4] = {i % 3 - 1., i / 3 % 3 - 1., i / 9 % 3 * 2 - 2., i / 27 - 1.};
        const double b[4] = {j % 3 - 1., j / 3 % 3 * 2 - 2., j / 9 % 3 - 1., j / 27 - 1.};
        const double na = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
        const Quaternion p(Eigen::Quaterniond(a[3], a[0], a[1], a[2])), q(Eigen::Quaterniond(b[3], b[0], b[1], b[2]));
        auto r = p * q;
        const double e[4] = {a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
                             a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]};
        ++E.transitions;
        for (int k = 0; k < 4; ++k)
          E.check(near(r(k), e[k]), "quaternion-product");
        if (na == 0)
          continue;
        auto one = p * p.inverse();
        auto two = p.inverse() * p;
        for (int k = 0; k < 4; ++k)
          E.check(near(one(k), k == 3) && near(two(k), k == 3), "quaternion-inverse");
      }
  });
  // variables: pairs, with units and layouts
  const Dim da("a"), db("b"), dc("c"), dv("v");
  for (int ka = 0; ka < 4; ++ka)
    for (int la = 0; la < 3; ++la)
      for (int kb = 0; kb < 4; ++kb)
        for (int lb = 0; lb < 3; ++lb)
          E.run([&] { return std::string("variable of each ") + kind_name[ka] + " times each " + kind_name[kb] + ", layouts " +
                             std::to_string(la) + "," + std::to_string(lb); },
                [&] {
                  E.nontrivial();
                  const auto &sa = sets[ka], &sb = sets[kb];
                  const auto a = variable_of(sa, da, la, unit_for(sa.kind));
                  const auto b = variable_of(sb, db, lb, unit_for(sb.kind));
                  const auto a0 = copy(a), b0 = copy(b);
                  const auto check_product = [&](const Variable &r, const auto &want, const char *sig) {
                    const auto got = matrices(r);
                    E.check(got.size() == want.size(), sig, "wrong number of elements");
                    for (size_t i = 0; i < got.size(); ++i) {
                      ++E.transitions;
                      E.check_lazy(near(got[i], want[i]), sig, [&] { return "element " + std::to_string(i) + " is " + str(got[i]) + ", not " + str(want[i]); });
                    }
                  };
                  std::vector<M4> want;
                  for (const auto &x : sa.ref)
                    for (const auto &y : sb.ref)
                      want.push_back(mul(x, y));
                  const bool t = translates(sa.kind) || translates(sb.kind);
                  const auto r = a * b;
                  E.check(r.dtype() == type_of(result_kind(sa.kind, sb.kind)), "result-type");
                  E.check(r.unit() == (t ? units::m : units::one), "result-unit");
                  check_product(r, want, "composition");
                  // transposed: same elements by label
                  check_product((a * b.broadcast(Dimensions({db, da}, {b.dims()[db], a.dims()[da]}))).transpose(std::array{da, db}), want, "composition");
                  // application to vectors, in either order
                  for (int lv = 0; lv < 3; ++lv) {
                    const auto v = vec_variable(dv, lv, units::m);
                    const auto one = r * v, two = a * (b * v);
                    E.check(one.dtype() == dtype<Vector3d> && two.dtype() == dtype<Vector3d>, "result-type");
                    E.check(one.unit() == units::m && two.unit() == units::m, "result-unit");
                    const auto g1 = one.values<Vector3d>(), g2 = two.values<Vector3d>();
                    size_t i = 0;
                    for (size_t x = 0; x < sa.ref.size(); ++x)
                      for (size_t y = 0; y < sb.ref.size(); ++y)
                        for (const auto &w : vectors()) {
                          const auto e = apply_to(sa.ref[x], apply_to(sb.ref[y], w));
                          for (int k = 0; k < 3; ++k)
                            E.check_lazy(near(g1[i][k], e[k]) && near(g2[i][k], e[k]), "application", [&] {
                              return "applying to " + str(w) + ": composed " + std::to_string(g1[i][k]) + ", one after the other " +
                                     std::to_string(g2[i][k]) + ", expected " + std::to_string(e[k]);
                            });
                          ++i;
                        }
                  }
                  E.check(a == a0 && b == b0, "operand-modified");
                  // one transform (no dimension)
                  for (ix i = 0; i < ix(sa.ref.size()); ++i) {
                    std::vector<M4> w(want.begin() + i * sb.ref.size(), want.begin() + (i + 1) * sb.ref.size());
                    check_product(a.slice({da, i}) * b, w, "composition");
                  }
                  // units of length must agree where both have one
                  const auto b_mm = variable_of(sb, db, lb, units::mm);
                  if (translates(sa.kind) && translates(sb.kind))
                    E.check(raises_unit_error([&] { return a * b_mm; }), "unit-not-rejected");
                  if (translates(sa.kind))
                    E.check(raises_unit_error([&] { return a * vec_variable(dv, 0, units::mm); }), "unit-not-rejected");
                });
  // triples
  for (int ka = 0; ka < 4; ++ka)
    for (int kb = 0; kb < 4; ++kb)
      for (int kc = 0; kc < 4; ++kc)
        E.run([&] { return std::string("(") + kind_name[ka] + " " + kind_name[kb] + ") " + kind_name[kc] + " and the other way"; },
              [&] {
                E.nontrivial();
                const auto &sa = sets[ka], &sb = sets[kb], &sc = sets[kc];
                const auto a = variable_of(sa, da, 0, unit_for(sa.kind)), b = variable_of(sb, db, 0, unit_for(sb.kind)),
                           c = variable_of(sc, dc, 0, unit_for(sc.kind));
                const auto l = (a * b) * c, r = a * (b * c);
                E.check(l.dtype() == r.dtype() && l.unit() == r.unit() && l.dims() == r.dims(), "associativity");
                const auto ml = matrices(l), mr = matrices(r);
                size_t i = 0;
                for (const auto &x : sa.ref)
                  for (const auto &y : sb.ref)
                    for (const auto &z : sc.ref) {
                      const auto e = mul(x, mul(y, z));
                      ++E.transitions;
                      E.check_lazy(near(ml[i], e) && near(mr[i], e), "associativity",
                                   [&] { return "composing " + str(x) + " " + str(y) + " " + str(z) + " gives " + str(ml[i]) + " and " + str(mr[i]); });
                      ++i;
                    }
              });
  // inverses
  for (int k = 0; k < 4; ++k)
    for (int l = 0; l < 3; ++l)
      for (const auto u : {units::one, units::m})
        E.run([&] { return std::string("inverse of a variable of each ") + kind_name[k] + ", layout " + std::to_string(l); },
              [&] {
                E.nontrivial();
                const auto a = variable_of(sets[k], da, l, u);
                const auto i = inv(a);
                const auto ii = inv(i);
                E.check(i.dtype() == a.dtype() && i.dims() == a.dims(), "inverse");
                E.check(i.unit() == (translates(sets[k].kind) ? u : units::one / u) && ii.unit() == u, "result-unit");
                const auto mi = matrices(i), mii = matrices(ii), p = matrices(a * i), q = matrices(i * a);
                for (size_t j = 0; j < mi.size(); ++j) {
                  ++E.transitions;
                  E.check_lazy(near(mul(mi[j], sets[k].ref[j]), eye()) && near(p[j], eye()) && near(q[j], eye()) &&
                                   near(mii[j], sets[k].ref[j]),
                               "inverse", [&] { return "inverse of " + str(sets[k].ref[j]) + " is " + str(mi[j]); });
                }
                E.check((a * i).unit() == (translates(sets[k].kind) ? u : units::one), "result-unit");
              });
  // components: every component of every layout, read and written
  for (const bool matrix : {false, true})
    for (int nx = 0; nx <= 3; ++nx)
      for (int ny = 0; ny <= 3; ++ny)
        for (int form = 0; form < 6; ++form)
          E.run([&] { return std::string("components of ") + (matrix ? "matrices" : "vectors") + " of shape " + std::to_string(nx) + "," +
                             std::to_string(ny) + ", selection " + std::to_string(form); },
                [&] {
                  if (nx * ny > 1)
                    E.nontrivial();
                  const int per = matrix ? 9 : 3;
                  std::vector<double> e;
                  for (int i = 0; i < nx * ny * per; ++i)
                    e.push_back(i + 1);
                  const Dimensions dims({Dim::X, Dim::Y}, {nx, ny});
                  auto base = matrix ? make_matrices(dims, units::m, element_array<double>(e.begin(), e.end()))
                                     : make_vectors(dims, units::m, element_array<double>(e.begin(), e.end()));
                  std::vector<ix> cells; // expected, in order
                  Variable v = base;
                  const auto at = [&](ix x, ix y) { cells.push_back(x * ny + y); };
                  if (form == 0 || form == 5) {
                    for (ix x = 0; x < nx; ++x) for (ix y = 0; y < ny; ++y) at(x, y);
                  } else if (form == 1) {
                    v = base.transpose(std::array{Dim(Dim::Y), Dim(Dim::X)});
                    for (ix y = 0; y < ny; ++y) for (ix x = 0; x < nx; ++x) at(x, y);
                  } else if (form == 2) {
                    if (ny < 1) return;
                    v = base.slice({Dim::Y, ny - 1});
                    for (ix x = 0; x < nx; ++x) at(x, ny - 1);
                  } else if (form == 3) {
                    v = base.slice({Dim::X, 0, nx, 2});
                    for (ix x = 0; x < nx; x += 2) for (ix y = 0; y < ny; ++y) at(x, y);
                  } else if (form == 4) {
                    if (nx < 1 || ny < 1) return;
                    v = base.slice({Dim::X, nx - 1}).slice({Dim::Y, ny / 2});
                    at(nx - 1, ny / 2);
                  }
                  const std::vector<std::string> keys = matrix ? std::vector<std::string>{"xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"}
                                                               : std::vector<std::string>{"x", "y", "z"};
                  E.check(element_keys(v) == keys, "component-names");
                  for (int k = 0; k < per; ++k) {
                    auto c = matrix ? v.elements<Matrix3d>(keys[k]) : v.elements<Vector3d>(keys[k]);
                    E.check(c.dtype() == dtype<double> && c.dims() == v.dims() && c.unit() == units::m, "component-type");
                    // storage of matrices is column by column
                    const int off = matrix ? (k % 3) * 3 + k / 3 : k;
                    const auto vals = c.values<double>();
                    E.check(ix(vals.size()) == ix(cells.size()), "component-size");
                    for (size_t i = 0; i < cells.size(); ++i) {
                      ++E.transitions;
                      E.check_lazy(vals[i] == e[cells[i] * per + off], "component",
                                   [&] { return "component " + keys[k] + " of element " + std::to_string(i) + " is " + std::to_string(vals[i]); });
                      const double via = matrix ? v.values<Matrix3d>()[i](k / 3, k % 3) : v.values<Vector3d>()[i][k];
                      E.check(via == vals[i], "component");
                    }
                    // writing changes this component of the selected elements only
                    auto before = e;
                    c += makeVariable<double>(Values{1000.}, units::Unit(units::m));
                    for (const auto cell : cells)
                      before[cell * per + off] += 1000;
                    auto all = matrix ? base.elements<Matrix3d>() : base.elements<Vector3d>();
                    const auto now = all.values<double>();
                    E.check(now.size() == ix(before.size()), "component-size");
                    for (size_t i = 0; i < before.size(); ++i)
                      E.check_lazy(now[i] == before[i], "component-write",
                                   [&] { return "writing component " + keys[k] + " makes number " + std::to_string(i) + " " + std::to_string(now[i]); });
                    e = before;
                  }
                  for (const std::string bad : {"", "w", "xw", "X", "xxx"}) {
                    bool thrown = false;
                    try {
                      const auto c = matrix ? v.elements<Matrix3d>(bad) : v.elements<Vector3d>(bad);
                    } catch (const std::exception &) {
                      thrown = true;
                    }
                    E.check(thrown, "component-names");
                  }
                });
}
VH_MAIN
