// M04: objects compare equal exactly if their content is equal: all pairs of
// bounded universes of variables, data arrays, datasets and binned data, in all
// layouts, compared with equality of plain models.
#include "../common/ds.h"
#include "scipp/core/spatial_transforms.h"
#include "scipp/core/eigen.h"

using namespace ds;
namespace {
// --- equality of models -----------------------------------------------------
bool num_eq(LD a, LD b, bool nan) { return a == b || (nan && std::isnan(a) && std::isnan(b)); }
bool eq(const Arr &a, const Arr &b, bool nan) {
  if (a.t != b.t || !(a.u == b.u) || a.dims != b.dims || a.shape != b.shape || a.var != b.var || a.v.size() != b.v.size())
    return false;
  for (size_t i = 0; i < a.v.size(); ++i) {
    const auto &p = a.v[i], &q = b.v[i];
    if (a.t == S) {
      if (p.s != q.s)
        return false;
      continue;
    }
    if (!num_eq(p.x, q.x, nan) || (a.var && !num_eq(p.var, q.var, nan)))
      return false;
    if (a.t == V && (!num_eq(p.y, q.y, nan) || !num_eq(p.z, q.z, nan)))
      return false;
    if (a.t == dtype<scipp::index_pair> && p.y != q.y)
      return false;
  }
  return true;
}
template <class K, class M, class F> bool eq_map(const std::vector<std::pair<K, M>> &a, const std::vector<std::pair<K, M>> &b, F &&f) {
  if (a.size() != b.size())
    return false;
  for (const auto &[k, x] : a) {
    bool found = false;
    for (const auto &[l, y] : b)
      found |= k == l && f(x, y);
    if (!found)
      return false;
  }
  return true;
}
bool eq(const DA &a, const DA &b, bool nan) {
  if (a.binned != b.binned || a.plain_bins != b.plain_bins)
    return false;
  if (a.binned) {
    if (a.data.dims != b.data.dims || a.data.shape != b.data.shape)
      return false;
    for (size_t i = 0; i < a.bins.size(); ++i)
      if (!eq(a.bins[i], b.bins[i], nan))
        return false;
  } else if (!eq(a.data, b.data, nan))
    return false;
  const auto same = [&](const Arr &x, const Arr &y) { return eq(x, y, nan); };
  return eq_map(a.coords, b.coords, [&](const Coord &x, const Coord &y) { return x.aligned == y.aligned && eq(x.a, y.a, nan); }) &&
         eq_map(a.masks, b.masks, same) && eq_map(a.attrs, b.attrs, same);
}
bool eq_data(const DA &a, const DA &b, bool nan) {
  DA x = a, y = b;
  for (auto *z : {&x, &y}) {
    z->coords.clear();
    z->masks.clear();
    z->attrs.clear();
  }
  return eq(x, y, nan);
}

template <class T> void judge(vh::Explorer &E, const T &x, const T &y, bool want, bool want_nan, const std::function<std::string()> &what) {
  ++E.transitions;
  E.check_lazy((x == y) == want, "equal", [&] { return (want ? "not equal: " : "equal: ") + what(); });
  E.check_lazy((y == x) == want, "symmetric", [&] { return (want ? "not equal: " : "equal: ") + what() + " (swapped)"; });
  E.check_lazy((x != y) == !want, "unequal", [&] { return std::string("!= disagrees: ") + what(); });
  using scipp::dataset::equals_nan;
  using scipp::variable::equals_nan;
  E.check_lazy(equals_nan(x, y) == want_nan, "equal-nan", [&] { return (want_nan ? "not equal with NaN: " : "equal with NaN: ") + what(); });
  E.check_lazy(equals_nan(y, x) == want_nan, "symmetric-nan", [&] { return (want_nan ? "not equal with NaN: " : "equal with NaN: ") + what() + " (swapped)"; });
}

/// All sequences of n letters.
std::vector<std::vector<int>> words(int n, int k) {
  std::vector<std::vector<int>> r{{}};
  for (int i = 0; i < n; ++i) {
    std::vector<std::vector<int>> s;
    for (const auto &x : r)
      for (int j = 0; j < k; ++j) {
        auto y = x;
        y.push_back(j);
        s.push_back(y);
      }
    r = s;
  }
  return r;
}
/// Letters of an element type; the first ones differ least.
std::vector<Cell> letters(DType t) {
  std::vector<Cell> r;
  const auto num = [&](std::initializer_list<LD> v) {
    for (const auto x : v)
      r.emplace_back(x);
  };
  if (t == D)
    num({0.0L, NAN_, std::nextafter(1.0, 2.0), 1.0L, -0.0L, INF});
  else if (t == F)
    num({0.0L, NAN_, std::nextafterf(1.0f, 2.0f), 1.0L, -0.0L, INF});
  else if (t == L || t == T)
    num({0, 1, 9007199254740993.L, 9007199254740992.L, 4294967296.L, -1});
  else if (t == I)
    num({0, 1, 2147483647, -1, 65536});
  else if (t == B)
    num({0, 1});
  else if (t == S)
    for (const char *s : {"", "a", "b", "aa", "a string that does not fit into the object itself 1", "a string that does not fit into the object itself 2"}) {
      Cell c;
      c.s = s;
      r.push_back(c);
    }
  else if (t == V)
    for (const auto &[a, b, c] : std::vector<std::array<LD, 3>>{{0, 0, 0}, {0, 0, NAN_}, {0, 1, 0}, {0, 0, 1}, {1, 0, 0}, {NAN_, 0, 0}}) {
      Cell x(a);
      x.y = b;
      x.z = c;
      r.push_back(x);
    }
  else
    for (const auto &[a, b] : std::vector<std::array<LD, 2>>{{0, 0}, {0, 1}, {1, 1}, {0, 2}}) {
      Cell x(a);
      x.y = b;
      r.push_back(x);
    }
  return r;
}
struct Var {
  Arr a;
  std::vector<Variable> v; ///< in several layouts
};
std::vector<DType> types() { return {D, F, L, I, B, S, T, V, dtype<scipp::index_pair>}; }
units::Unit fit(DType t, const units::Unit &u) { return t == T && u == units::one ? units::Unit("ns") : u; }

Arr column(DType t, units::Unit u, std::vector<LD> v, Dim d = X) {
  Arr a = A(t, u, {d}, {ix(v.size())}, {});
  for (const auto x : v)
    a.v.push_back(Cell(x));
  return a;
}

template <class M, class O> void pairs(vh::Explorer &E, const char *name, const std::vector<M> &models, const std::vector<O> &objects, bool (*same)(const M &, const M &, bool),
                                       std::string (*show)(const M &)) {
  const size_t n = models.size();
  for (size_t i = 0; i < n; ++i)
    E.run([&] { return std::string(name) + ": " + show(models[i]); },
          [&] {
            E.nontrivial();
            for (size_t j = i; j < n; ++j)
              judge(E, objects[i], objects[j], same(models[i], models[j], false), same(models[i], models[j], true),
                    [&] { return show(models[i]) + " and " + show(models[j]); });
          });
}
std::string show_arr(const Arr &a) { return arr::str(a); }
std::string show_da(const DA &a) { return ds::str(a); }
bool eq_arr(const Arr &a, const Arr &b, bool n) { return eq(a, b, n); }
bool eq_da(const DA &a, const DA &b, bool n) { return eq(a, b, n); }
std::string show_ds(const DS &a) {
  std::string s = "dataset";
  for (const auto &[k, x] : a)
    s += " " + k + ":" + ds::str(x);
  return s;
}
/// Coordinates of a dataset are under the name "".
bool eq_ds(const DS &a, const DS &b, bool n) {
  return eq_map(a, b, [&](const DA &x, const DA &y) { return eq(x, y, n); });
}

std::vector<Arr> all_variables() {
  std::vector<Arr> r;
  const std::vector<std::pair<std::vector<Dim>, std::vector<ix>>> shapes{
      {{}, {}}, {{X}, {1}}, {{X}, {2}}, {{Y}, {2}}, {{X, Y}, {1, 2}}, {{Y, X}, {2, 1}}, {{X, Y}, {2, 1}}, {{X, Y}, {2, 2}}, {{Y, X}, {2, 2}}, {{X}, {4}}, {{X}, {0}}, {{Y}, {0}}, {{X, Y}, {0, 2}}, {{X, Y}, {2, 0}}, {{X, Y, Z}, {2, 1, 2}}};
  for (const auto t : types())
    for (const auto &[d, s] : shapes)
      for (const auto &u : {units::one, units::m, units::none, units::Unit("mm")})
        for (const bool var : {false, true}) {
          if (var && !floating(t))
            continue;
          const auto l = letters(t);
          for (int c = 0; c < 4; ++c) {
            Arr a = A(t, t == T && u != units::none ? (u == units::m ? units::s : units::ns) : u, d, s, {}, var);
            const ix n = a.volume();
            if (c > 0 && n == 0)
              break;
            for (ix i = 0; i < n; ++i)
              a.v.push_back(l[c == 0 ? 0 : c == 1 ? i % l.size() : c == 2 ? (i + 1 == n) : (i == 0)]);
            if (var)
              for (ix i = 0; i < n; ++i)
                a.v[i].var = c == 1 ? l[(i + 1) % l.size()].x : LD(c);
            r.push_back(a);
          }
        }
  return r;
}
/// Structures of a spatial type from numbers.
template <class T, int n> T structure(const std::vector<double> &v) {
  T t;
  std::copy(v.begin(), v.begin() + n, reinterpret_cast<double *>(&t));
  return t;
}
template <class T, int n> void structures(vh::Explorer &E, const char *name) {
  static_assert(sizeof(T) >= n * sizeof(double));
  E.run([&] { return std::string(name) + ": a change of each number"; },
        [&] {
          E.nontrivial();
          std::vector<double> v(n);
          for (int i = 0; i < n; ++i)
            v[i] = i + 1;
          const auto make = [&](const std::vector<double> &w, int where, int length) {
            core::element_array<T> vals(length);
            for (int i = 0; i < length; ++i)
              vals.data()[i] = structure<T, n>(i == where ? w : v);
            return makeVariable<T>(scipp::Dimensions(X, length), units::m, Values(std::move(vals)));
          };
          const auto a = make(v, 0, 3);
          judge(E, a, make(v, 0, 3), true, true, [] { return std::string("same"); });
          for (int where = 0; where < 3; ++where)
            for (int k = 0; k < n; ++k) {
              auto w = v;
              w[k] += 0.5;
              judge(E, a, make(w, where, 3), false, false, [&] { return "number " + std::to_string(k) + " of element " + std::to_string(where); });
              w[k] = NAN;
              judge(E, a, make(w, where, 3), false, false, [&] { return "NaN as number " + std::to_string(k) + " of element " + std::to_string(where); });
              judge(E, make(w, where, 3), make(w, where, 3), false, true, [&] { return "both NaN as number " + std::to_string(k) + " of element " + std::to_string(where); });
              // slices without that element
              const auto x = make(w, where, 3);
              for (int s = 0; s < 3; ++s)
                judge(E, a.slice({X, s}), x.slice({X, s}), s != where, s != where, [&] { return "slice " + std::to_string(s) + " with change of " + std::to_string(where); });
            }
        });
}
} // namespace

VH_EXPLORE(M04) {
  // types, shapes, units and variances
  {
    const auto models = all_variables();
    std::vector<Variable> objects;
    for (size_t i = 0; i < models.size(); ++i)
      objects.push_back(make(models[i], i % num_layouts).view);
    pairs(E, "variables", models, objects, eq_arr, show_arr);
  }
  // content, in all pairs of layouts
  for (const auto t : types())
    for (int shape = 0; shape < 4; ++shape)
      for (const bool var : {false, true}) {
        if (var && (!floating(t) || shape == 3))
          continue;
        const auto l = letters(t);
        const int len = shape == 0 ? 0 : shape == 1 ? 2 : shape == 2 ? 3 : 4;
        const int n = shape == 0 ? 1 : len;
        const int k = std::min<int>(l.size(), len == 0 ? 9 : len == 2 ? (var ? 4 : 6) : len == 3 ? (var ? 2 : E.thorough ? 6 : 4) : 3);
        std::vector<Arr> models;
        for (const auto &w : words(n, k))
          for (const auto &z : var ? words(n, k) : std::vector<std::vector<int>>{{}}) {
            Arr a = A(t, t == T ? units::s : units::m, {}, {}, {}, var);
            if (len == 4) {
              a.dims = {X, Y};
              a.shape = {2, 2};
            } else if (len) {
              a.dims = {X};
              a.shape = {len};
            }
            for (int i = 0; i < n; ++i) {
              a.v.push_back(l[w[i]]);
              if (var)
                a.v[i].var = l[z[i]].x;
            }
            models.push_back(a);
          }
        std::vector<std::vector<Variable>> made(models.size());
        for (size_t i = 0; i < models.size(); ++i)
          for (int y = 0; y < num_layouts; ++y)
            made[i].push_back(make(models[i], y).view);
        for (size_t i = 0; i < models.size(); ++i)
          E.run([&] { return "content " + str(models[i]); },
                [&] {
                  E.nontrivial();
                  for (size_t j = 0; j < models.size(); ++j) {
                    const bool a = eq(models[i], models[j], false), b = eq(models[i], models[j], true);
                    const bool many = E.thorough || models.size() < 150 || a || b;
                    for (int p = 0; p < num_layouts; ++p)
                      for (int q = 0; q < num_layouts; ++q)
                        if (many || (p + q + ix(i + j)) % 5 == 0)
                          judge(E, made[i][p], made[j][q], a, b, [&] { return str(models[i]) + " and " + str(models[j]) + ", " + layout_name(p) + " and " + layout_name(q); });
                  }
                  // the very same variable, copies, slices of the same buffer, broadcasts
                  for (const auto &v : made[i]) {
                    const bool self = eq(models[i], models[i], false);
                    judge(E, v, v, self, true, [&] { return str(models[i]) + " and itself"; });
                    judge(E, v, copy(v), self, true, [&] { return str(models[i]) + " and its copy"; });
                    judge(E, v, v.as_const(), self, true, [&] { return str(models[i]) + " and its read-only view"; });
                    const bool rows = v.dims().contains(X);
                    if (rows)
                      for (ix p = 0; p < v.dims()[X]; ++p)
                        for (ix q = 0; q < v.dims()[X]; ++q) {
                          const auto a = point(models[i], X, p), b = point(models[i], X, q);
                          judge(E, v.slice({X, p}), v.slice({X, q}), eq(a, b, false), eq(a, b, true),
                                [&] { return "slices " + std::to_string(p) + " and " + std::to_string(q) + " of " + str(models[i]); });
                        }
                    if (!v.dims().contains(Z) && v.dims().ndim() < 2) {
                      auto target = v.dims();
                      target.addInner(Z, 3);
                      const auto wide = broadcast(v, target);
                      judge(E, wide, copy(wide), self, true, [&] { return "broadcast of " + str(models[i]); });
                    }
                  }
                });
      }
  // one element changed at each position of longer arrays
  for (const auto t : types())
    for (const ix n : {5, 8, 9, 16, 17, 33, 64, 100})
      E.run([&] { return to_string(t) + " with one of " + std::to_string(n) + " elements changed"; },
            [&] {
              E.nontrivial();
              const auto l = letters(t);
              for (const bool var : {false, true}) {
                if (var && !floating(t))
                  continue;
                Arr a = A(t, t == T ? units::s : units::m, {X}, {n}, {}, var);
                for (ix i = 0; i < n; ++i) {
                  a.v.push_back(l[0]);
                  a.v[i].var = 1;
                }
                for (int y = 0; y < num_layouts; ++y) {
                  const auto x = make(a, y).view;
                  judge(E, x, make(a, (y + 1) % num_layouts).view, true, true, [&] { return str(a) + " in another layout"; });
                  for (ix i = 0; i < n; ++i) {
                    auto b = a;
                    b.v[i].x = l[1].x;
                    b.v[i].y = l[1].y;
                    b.v[i].z = l[1].z;
                    b.v[i].s = l[1].s;
                    judge(E, x, make(b, (y + i) % num_layouts).view, false, false, [&] { return "change of element " + std::to_string(i) + " of " + str(a); });
                    if (var) {
                      b = a;
                      b.v[i].var = 2;
                      judge(E, x, make(b, (y + i) % num_layouts).view, false, false, [&] { return "change of variance " + std::to_string(i) + " of " + str(a); });
                      b.v[i].var = NAN_;
                      judge(E, make(b, y).view, make(b, (y + i) % num_layouts).view, false, true, [&] { return "NaN variance " + std::to_string(i); });
                    }
                  }
                }
              }
            });
  structures<Eigen::Vector3d, 3>(E, "vector");
  structures<Eigen::Matrix3d, 9>(E, "matrix");
  structures<core::Quaternion, 4>(E, "rotation");
  structures<core::Translation, 3>(E, "translation");
  structures<Eigen::Affine3d, 16>(E, "affine");
  // invalid variables and variables of variables
  E.run([] { return std::string("unset variables and variables of variables, data arrays and datasets"); },
        [&] {
          E.nontrivial();
          const auto a = makeVariable<double>(Values{1.0}), b = makeVariable<double>(Values{2.0}), n = makeVariable<double>(Values{NAN});
          judge(E, Variable{}, Variable{}, true, true, [] { return std::string("unset and unset"); });
          judge(E, Variable{}, a, false, false, [] { return std::string("unset and set"); });
          std::vector<Variable> vs{a, b, n, makeVariable<float>(Values{1.f}), makeVariable<double>(Values{1.0}, units::m), makeVariable<double>(Dims{X}, Shape{1}, Values{1.0})};
          const auto nested = [](const Variable &v) {
            std::vector<Variable> r{makeVariable<Variable>(Values{v}), makeVariable<DataArray>(Values{DataArray(v)}), makeVariable<Dataset>(Values{Dataset(std::map<std::string, DataArray>{{"a", DataArray(v)}})})};
            DataArray c(makeVariable<double>(v.dims()));
            c.coords().set(X, v);
            r.push_back(makeVariable<DataArray>(Values{c}));
            r.push_back(makeVariable<Variable>(Values{makeVariable<Variable>(Values{v})}));
            return r;
          };
          for (size_t i = 0; i < vs.size(); ++i)
            for (size_t j = 0; j < vs.size(); ++j) {
              const auto p = nested(vs[i]), q = nested(vs[j]);
              for (size_t k = 0; k < p.size(); ++k)
                for (size_t l = 0; l < q.size(); ++l) {
                  // a coordinate of length 1 does not fit
                  judge(E, p[k], q[l], k == l && i == j && i != 2, k == l && i == j, [&] { return "nested " + std::to_string(k) + " of " + std::to_string(i) + " and nested " + std::to_string(l) + " of " + std::to_string(j); });
                }
            }
        });
  // data arrays: all combinations of data and metadata
  {
    std::vector<DA> models;
    const auto data = std::vector<Arr>{column(D, units::m, {1, 2}), column(D, units::m, {1, NAN_}), A(D, units::m, {X}, {2}, {Cell(1, 1), Cell(2, 1)}, true), column(F, units::m, {1, 2})};
    const std::vector<std::vector<Coord>> cx{{}, {{column(D, units::m, {1, 2}), true}}, {{column(D, units::m, {1, 2}), false}}, {{column(D, units::m, {1, NAN_}), true}}, {{column(D, units::m, {1, 3}), true}}, {{column(D, units::m, {1, 2, 3}), true}}};
    const std::vector<std::vector<Coord>> cy{{}, {{column(D, units::m, {1, 2}), true}}, {{A(D, units::m, {}, {}, {Cell(1)}), false}}};
    const std::vector<std::vector<Arr>> ms{{}, {column(B, units::none, {0, 1})}, {column(B, units::none, {0, 0})}};
    const std::vector<std::vector<Arr>> as{{}, {column(D, units::m, {1, 2})}, {column(D, units::m, {1, NAN_})}};
    for (const auto &d : data)
      for (const auto &x : cx)
        for (const auto &y : cy)
          for (const auto &m : ms)
            for (const auto &k : std::vector<std::vector<Arr>>{ms[0], ms[1]})
              for (const auto &s : as)
                for (int order = 0; order < 2; ++order) {
                  DA a;
                  a.data = d;
                  for (const auto &c : x)
                    a.coords.push_back({X, c});
                  for (const auto &c : y)
                    a.coords.push_back({Y, c});
                  for (const auto &c : m)
                    a.masks.push_back({"m", c});
                  for (const auto &c : k)
                    a.masks.push_back({"k", c});
                  for (const auto &c : s)
                    a.attrs.push_back({Z, c});
                  if (order) {
                    if (a.coords.size() + a.masks.size() < 3 && !(a.coords.size() == 2) && !(a.masks.size() == 2))
                      continue;
                    std::reverse(a.coords.begin(), a.coords.end());
                    std::reverse(a.masks.begin(), a.masks.end());
                  }
                  a.name = order ? "another name" : "";
                  models.push_back(a);
                }
    std::vector<DataArray> objects;
    for (size_t i = 0; i < models.size(); ++i)
      objects.push_back(make_da(models[i], 0, i % 7 == 0 ? 2 : i % 5 == 0 ? 3 : 0));
    pairs(E, "data arrays", models, objects, eq_da, show_da);
    // which entries exist, with the same content under different names
    models.clear();
    objects.clear();
    for (int c = 0; c < 8; ++c)
      for (int m = 0; m < 8; ++m)
        for (int t = 0; t < 8; ++t)
          for (int rev = 0; rev < 2; ++rev) {
            DA a;
            a.data = column(D, units::m, {1, 2});
            for (int b = 0; b < 3; ++b) {
              const auto v = column(D, units::m, {1, 2});
              if ((c >> b) & 1)
                a.coords.push_back({b == 0 ? X : b == 1 ? Y : Z, {v, true}});
              if ((m >> b) & 1)
                a.masks.push_back({b == 0 ? "x" : b == 1 ? "y" : "", column(B, units::none, {0, 1})});
              if ((t >> b) & 1) {
                const Dim d = b == 0 ? X : b == 1 ? Y : Dim("other");
                if (!a.coord(d))
                  a.attrs.push_back({d, v});
              }
            }
            if (rev) {
              std::reverse(a.coords.begin(), a.coords.end());
              std::reverse(a.masks.begin(), a.masks.end());
              std::reverse(a.attrs.begin(), a.attrs.end());
            }
            models.push_back(a);
            objects.push_back(make_da(a));
          }
    pairs(E, "entries", models, objects, eq_da, show_da);
  }
  // binned data
  {
    std::vector<DA> models;
    std::vector<int> layouts;
    const auto table = [](int c, int n, bool plain, int variant) {
      DA t;
      std::vector<LD> v;
      for (int i = 0; i < n; ++i)
        v.push_back(c == 0 ? i : c == 1 ? (i + 1 == n ? NAN_ : i) : i + 1);
      t.data = column(variant == 1 ? F : D, variant == 2 ? units::mm : units::m, v, variant == 3 ? Dim("row") : EV);
      if (!plain) {
        if (variant != 4)
          t.coords.push_back({X, {t.data, variant != 5}});
        if (variant == 6)
          t.masks.push_back({"m", A(B, units::none, t.data.dims, t.data.shape, std::vector<Cell>(n, Cell(0)))});
        if (variant == 7)
          t.attrs.push_back({Y, t.data});
        if (variant == 8)
          t.coords.push_back({Y, {t.data, true}});
        if (variant == 9)
          t.coords[0].second.a.u = units::s;
        if (variant == 10)
          t.coords[0].first = Z;
        if (variant == 11 && n)
          t.coords[0].second.a.v[0].x = 77;
        if (variant == 12 && n)
          t.coords[0].second.a.v[n - 1].x = NAN_;
      }
      return t;
    };
    // content of the bins
    for (const bool plain : {true, false})
      for (const auto &dims : std::vector<std::pair<std::vector<Dim>, std::vector<ix>>>{{{}, {}}, {{X}, {2}}, {{X, Y}, {1, 2}}})
        for (const auto &w : words(dims.first.empty() ? 1 : 2, 6))
          for (int layout = 0; layout < 4; ++layout) {
            DA a;
            a.binned = true;
            a.plain_bins = plain;
            a.data = A(D, units::none, dims.first, dims.second, {});
            for (const auto i : w) // empty, one, two, NaN, other, three events
              a.bins.push_back(table(i == 3 ? 1 : i == 4 ? 2 : 0, i < 3 ? i : i == 5 ? 3 : 2, plain, 0));
            models.push_back(a);
            layouts.push_back(layout);
          }
    // what events have
    for (const bool plain : {true, false})
      for (int variant = 0; variant < (plain ? 4 : 13); ++variant)
        for (const int n : {0, 1, 2})
          for (int layout = 0; layout < 4; layout += 3) {
            DA a;
            a.binned = true;
            a.plain_bins = plain;
            a.data = A(D, units::none, {X}, {2}, {});
            a.bins = {table(0, n, plain, variant), table(0, n / 2, plain, variant)};
            models.push_back(a);
            layouts.push_back(layout);
          }
    std::vector<DataArray> objects;
    std::vector<Variable> variables;
    for (size_t i = 0; i < models.size(); ++i) {
      objects.push_back(make_da(models[i], layouts[i]));
      variables.push_back(objects.back().data());
    }
    pairs(E, "binned variables", models, variables, eq_da, show_da);
    std::vector<DA> with;
    std::vector<DataArray> arrays;
    for (size_t i = 0; i < models.size(); i += 3)
      for (int m = 0; m < 3; ++m) {
        DA a = models[i];
        if (m)
          a.coords.push_back({Y, {A(D, units::m, {}, {}, {Cell(m)}), true}});
        with.push_back(a);
        arrays.push_back(make_da(a, layouts[i] ^ 3));
      }
    pairs(E, "binned data arrays", with, arrays, eq_da, show_da);
    // slices
    for (size_t i = 0; i < models.size(); ++i)
      if (models[i].data.dims.size() == 1)
        E.run([&] { return "slices of " + str(models[i]); },
              [&] {
                E.nontrivial();
                for (size_t j = 0; j < models.size(); j += 3)
                  if (models[j].data.dims.size() == 1)
                    for (ix p = 0; p < 2; ++p)
                      for (ix q = 0; q < 2; ++q) {
                        const auto a = take(models[i], X, {p}), b = take(models[j], X, {q});
                        judge(E, variables[i].slice({X, p, p + 1}), variables[j].slice({X, q, q + 1}), eq(a, b, false), eq(a, b, true), [&] { return str(a) + " and " + str(b); });
                      }
              });
  }
  // datasets
  {
    std::vector<DS> models;
    std::vector<Dataset> objects;
    const std::vector<Arr> data{column(D, units::m, {1, 2}), column(D, units::m, {1, NAN_}), column(D, units::s, {1, 2})};
    const std::vector<std::vector<Coord>> cs{{}, {{column(D, units::m, {1, 2}), true}}, {{column(D, units::m, {1, NAN_}), true}}, {{column(D, units::m, {1, 2}), false}}};
    for (const auto &w : words(3, 5))
      for (size_t c = 0; c < cs.size(); ++c)
        for (int order = 0; order < 2; ++order) {
          DS s;
          std::vector<std::pair<std::string, DA>> items;
          for (int i = 0; i < 3; ++i)
            if (w[i]) {
              DA a;
              a.data = data[w[i] == 4 ? 0 : w[i] - 1];
              if (w[i] == 4)
                a.masks.push_back({"m", column(B, units::none, {1, 0})});
              items.push_back({std::string(1, char('a' + i)), a});
            }
          if (order) {
            if (items.size() < 2)
              continue;
            std::reverse(items.begin(), items.end());
          }
          if (items.empty() && c)
            continue;
          Dataset o = items.empty() ? Dataset(std::map<std::string, DataArray>{}) : Dataset();
          for (auto &[k, a] : items) {
            o.setDataInit(k, make_da(a));
            for (const auto &x : cs[c])
              a.coords.push_back({X, x});
            s.push_back({k, a});
          }
          DA shared;
          for (const auto &x : cs[c]) {
            shared.coords.push_back({X, x});
            auto v = make_plain(x.a);
            if (!items.empty()) {
              o.coords().set(X, v);
              o.coords().set_aligned(X, x.aligned);
            }
          }
          s.push_back({"", shared});
          models.push_back(s);
          objects.push_back(o);
        }
    pairs(E, "datasets", models, objects, eq_ds, show_ds);
  }
  // the name of a data array does not matter
  E.run([] { return std::string("names of data arrays and of items"); },
        [&] {
          E.nontrivial();
          DataArray a(makeVariable<double>(Dims{X}, Shape{2}, Values{1, 2})), b(a);
          a.setName("a");
          b.setName("b");
          judge(E, a, b, true, true, [] { return std::string("other name"); });
          Dataset p, q;
          p.setDataInit("x", a);
          q.setDataInit("x", b);
          judge(E, p, q, true, true, [] { return std::string("items of other former name"); });
        });
}
VH_MAIN
