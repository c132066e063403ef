// Labelled arrays as a plain reference model of variables.
#pragma once
#include "scipp/core/eigen.h"
#include "scipp/core/time_point.h"
#include "scipp/units/unit.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/variable.h"
#include "vh.h"
#include <array>
#include <cmath>
#include <string>
#include <vector>

namespace arr {
using namespace scipp;
using scipp::variable::Variable;
using ix = scipp::index;

/// One element: a number, or the components of a vector, or a string.
struct Cell {
  long double x = 0, y = 0, z = 0, var = 0;
  std::string s;
  Cell() = default;
  Cell(long double a) : x(a) {}
  Cell(long double a, long double v) : x(a), var(v) {}
};

struct Arr {
  core::DType t = dtype<double>;
  units::Unit u = units::one;
  std::vector<Dim> dims;
  std::vector<ix> shape;
  std::vector<Cell> v;
  bool var = false;

  ix volume() const {
    ix n = 1;
    for (const auto s : shape)
      n *= s;
    return n;
  }
  int axis(Dim d) const {
    for (size_t i = 0; i < dims.size(); ++i)
      if (dims[i] == d)
        return i;
    return -1;
  }
  /// Multi-index of a flat index.
  std::vector<ix> unravel(ix i) const {
    std::vector<ix> r(shape.size());
    for (int k = int(shape.size()) - 1; k >= 0; --k) {
      r[k] = i % shape[k];
      i /= shape[k];
    }
    return r;
  }
  ix ravel(const std::vector<ix> &m) const {
    ix r = 0;
    for (size_t k = 0; k < shape.size(); ++k)
      r = r * shape[k] + m[k];
    return r;
  }
  /// Flat index of the element with the labels that other's flat index has.
  ix index_of(const Arr &other, ix flat) const {
    const auto m = other.unravel(flat);
    std::vector<ix> mine(dims.size());
    for (size_t k = 0; k < dims.size(); ++k) {
      const int a = other.axis(dims[k]);
      mine[k] = a < 0 ? 0 : m[a];
    }
    return ravel(mine);
  }
  scipp::Dimensions dimensions() const {
    scipp::Dimensions d;
    for (size_t i = 0; i < dims.size(); ++i)
      d.addInner(dims[i], shape[i]);
    return d;
  }
};

using scipp::core::is_float;
using scipp::core::is_int;

template <class T> T from_cell(const Cell &c) {
  if constexpr (std::is_same_v<T, std::string>)
    return c.s;
  else if constexpr (std::is_same_v<T, core::time_point>)
    return core::time_point{static_cast<int64_t>(c.x)};
  else if constexpr (std::is_same_v<T, Eigen::Vector3d>)
    return Eigen::Vector3d(c.x, c.y, c.z);
  else if constexpr (std::is_same_v<T, scipp::index_pair>)
    return scipp::index_pair(ix(c.x), ix(c.y));
  else
    return static_cast<T>(c.x);
}
template <class T> Cell to_cell(const T &x) {
  Cell c;
  if constexpr (std::is_same_v<T, std::string>)
    c.s = x;
  else if constexpr (std::is_same_v<T, core::time_point>)
    c.x = x.time_since_epoch();
  else if constexpr (std::is_same_v<T, Eigen::Vector3d>) {
    c.x = x[0];
    c.y = x[1];
    c.z = x[2];
  } else if constexpr (std::is_same_v<T, scipp::index_pair>) {
    c.x = x.first;
    c.y = x.second;
  } else
    c.x = x;
  return c;
}
template <class F> auto with_type(core::DType t, F &&f) {
  if (t == dtype<double>)
    return f(double{});
  if (t == dtype<float>)
    return f(float{});
  if (t == dtype<int64_t>)
    return f(int64_t{});
  if (t == dtype<int32_t>)
    return f(int32_t{});
  if (t == dtype<bool>)
    return f(bool{});
  if (t == dtype<std::string>)
    return f(std::string{});
  if (t == dtype<core::time_point>)
    return f(core::time_point{});
  if (t == dtype<Eigen::Vector3d>)
    return f(Eigen::Vector3d{});
  if (t == dtype<scipp::index_pair>)
    return f(scipp::index_pair{});
  throw vh::Fail{"result-type", "unexpected element type " + to_string(t)};
}

/// Row-major content of a variable.
inline Arr read(const Variable &v) {
  Arr a;
  a.t = v.dtype();
  a.u = v.unit();
  for (const auto &d : v.dims().labels())
    a.dims.push_back(d);
  for (const auto s : v.dims().shape())
    a.shape.push_back(s);
  a.var = v.has_variances();
  a.v.reserve(a.volume());
  with_type(a.t, [&](auto t) {
    using T = decltype(t);
    for (const auto &x : v.values<T>())
      a.v.push_back(to_cell<T>(x));
    if constexpr (std::is_floating_point_v<T>)
      if (a.var) {
        ix i = 0;
        for (const auto x : v.variances<T>())
          a.v[i++].var = x;
      }
  });
  if (ix(a.v.size()) != a.volume())
    throw vh::Fail{"size", "number of elements differs from the volume"};
  return a;
}

inline Variable make_plain(const Arr &a) {
  const auto d = a.dimensions();
  return with_type(a.t, [&](auto t) -> Variable {
    using T = decltype(t);
    if constexpr (std::is_same_v<T, Eigen::Vector3d> || std::is_same_v<T, std::string> || std::is_same_v<T, scipp::index_pair>) {
      core::element_array<T> vals(a.v.size());
      for (size_t i = 0; i < a.v.size(); ++i)
        vals.data()[i] = from_cell<T>(a.v[i]);
      return makeVariable<T>(d, a.u, Values(std::move(vals)));
    } else {
      core::element_array<T> vals(a.v.size());
      for (size_t i = 0; i < a.v.size(); ++i)
        vals.data()[i] = from_cell<T>(a.v[i]);
      if (a.var) {
        if constexpr (std::is_floating_point_v<T>) {
          core::element_array<T> vars(a.v.size());
          for (size_t i = 0; i < a.v.size(); ++i)
            vars.data()[i] = static_cast<T>(a.v[i].var);
          return makeVariable<T>(d, a.u, Values(std::move(vals)), Variances(std::move(vars)));
        }
      }
      return makeVariable<T>(d, a.u, Values(std::move(vals)));
    }
  });
}

constexpr int num_layouts = 6;
/// Another one, for read-only use: dimensions along which all elements are
/// equal exist once in memory.
constexpr int broadcast_layout = 6;
inline const char *layout_name(int l) {
  static const char *n[] = {"contiguous", "transposed", "strided", "offset", "column", "transposed-strided", "broadcast"};
  return n[l];
}
inline Dim junk_dim() {
  static const Dim d("junk_dim");
  return d;
}
/// A buffer and the part of it that has the content of an array, with a given
/// memory layout.
struct Made {
  Variable base, view;
  std::vector<ix> pos; ///< position in base of every element of view
};
inline Made make(const Arr &a, int layout) {
  Made m;
  if (layout == broadcast_layout && a.var)
    layout = 0; // variances must not be broadcast
  if (layout == broadcast_layout) {
    // dimensions along which the elements are the same
    const auto same = [](const Cell &x, const Cell &y) { return (x.x == y.x || (x.x != x.x && y.x != y.x)) && x.y == y.y && x.z == y.z && (x.var == y.var || (x.var != x.var && y.var != y.var)) && x.s == y.s; };
    Arr small = a, idx = a;
    for (size_t d = 0; d < a.dims.size(); ++d) {
      bool constant = a.volume() > 0;
      for (ix i = 0; i < a.volume() && constant; ++i) {
        auto m_ = a.unravel(i);
        m_[d] = 0;
        constant = same(a.v[i], a.v[a.ravel(m_)]);
      }
      if (!constant)
        continue;
      const int k = small.axis(a.dims[d]);
      small.dims.erase(small.dims.begin() + k);
      small.shape.erase(small.shape.begin() + k);
    }
    small.v.assign(small.volume(), Cell());
    for (ix i = a.volume() - 1; i >= 0; --i) {
      const auto s = small.index_of(a, i);
      small.v[s] = a.v[i];
      m.pos.insert(m.pos.begin(), s);
    }
    m.base = make_plain(small);
    m.view = m.base.broadcast(a.dimensions());
    return m;
  }
  Arr b; // base
  b.t = a.t;
  b.u = a.u;
  b.var = a.var;
  const int n = a.dims.size();
  if (n == 0 && layout != 4 && layout != 3)
    layout = 0;
  std::vector<int> order(n); // dimension of a at each position of the base
  for (int i = 0; i < n; ++i)
    order[i] = (layout == 1 || layout == 5) ? n - 1 - i : i;
  const auto shape_of = [&](int i) { // of dimension i of a
    if ((layout == 2 || layout == 5) && i == n - 1)
      return 2 * a.shape[i] + 1;
    if (layout == 3 && i == 0)
      return a.shape[i] + 2;
    return a.shape[i];
  };
  for (int i = 0; i < n; ++i) {
    b.dims.push_back(a.dims[order[i]]);
    b.shape.push_back(shape_of(order[i]));
  }
  if (layout == 4 || (layout == 3 && n == 0)) {
    b.dims.push_back(junk_dim());
    b.shape.push_back(3);
  }
  const auto view_of = [&](Variable v) {
    if (layout == 2 || layout == 5)
      v = v.slice({a.dims[n - 1], 1, b.shape[b.axis(a.dims[n - 1])], 2});
    if (layout == 3 && n > 0)
      v = v.slice({a.dims[0], 1, a.shape[0] + 1});
    if (layout == 4 || (layout == 3 && n == 0))
      v = v.slice({junk_dim(), 1});
    if ((layout == 1 || layout == 5) && n > 1)
      v = v.transpose(a.dims);
    return v;
  };
  Arr idx = b;
  idx.t = dtype<int64_t>;
  idx.var = false;
  const ix vol = b.volume();
  idx.v.resize(vol);
  for (ix i = 0; i < vol; ++i)
    idx.v[i].x = i;
  for (const auto &c : read(view_of(make_plain(idx))).v)
    m.pos.push_back(ix(c.x));
  Cell junk(77, 55);
  junk.y = 78;
  junk.z = 79;
  junk.s = "junk";
  if (a.t == dtype<bool>)
    junk.x = 1;
  b.v.assign(vol, junk);
  for (size_t i = 0; i < m.pos.size(); ++i)
    b.v[m.pos[i]] = a.v[i];
  m.base = make_plain(b);
  m.view = view_of(m.base);
  return m;
}

inline bool close(long double got, long double want, long double eps) {
  if (std::isnan(want) || std::isnan(got))
    return std::isnan(want) && std::isnan(got);
  if (std::isinf(want) || std::isinf(got))
    return got == want;
  return std::abs(got - want) <= eps * std::abs(want);
}
inline std::string num(long double x) {
  std::ostringstream o;
  o.precision(17);
  o << x;
  return o.str();
}
inline std::string str(const Cell &c, core::DType t, bool var) {
  if (t == dtype<std::string>)
    return '"' + c.s + '"';
  std::string r = num(c.x);
  if (t == dtype<Eigen::Vector3d> || t == dtype<scipp::index_pair>)
    r = "(" + r + "," + num(c.y) + (t == dtype<scipp::index_pair> ? "" : "," + num(c.z)) + ")";
  if (var)
    r += "+-sqrt(" + num(c.var) + ")";
  return r;
}
inline std::string str(const Arr &a) {
  std::string r = to_string(a.t) + "[" + to_string(a.u) + "]{";
  for (size_t i = 0; i < a.dims.size(); ++i)
    r += (i ? "," : "") + to_string(a.dims[i]) + ":" + std::to_string(a.shape[i]);
  r += "}(";
  for (size_t i = 0; i < a.v.size() && i < 24; ++i)
    r += (i ? "," : "") + str(a.v[i], a.t, a.var);
  return r + (a.v.size() > 24 ? ",...)" : ")");
}
inline bool same_cell(const Cell &g, const Cell &w, core::DType t, bool var, long double eps = 0, long double eps_var = 0) {
  if (t == dtype<std::string>)
    return g.s == w.s;
  if (!close(g.x, w.x, eps))
    return false;
  if (t == dtype<Eigen::Vector3d> && (!close(g.y, w.y, eps) || !close(g.z, w.z, eps)))
    return false;
  if (t == dtype<scipp::index_pair> && g.y != w.y)
    return false;
  return !var || close(g.var, w.var, eps_var == 0 ? eps : eps_var);
}
/// Difference of two arrays, empty if none.
inline std::string difference(const Arr &got, const Arr &want, long double eps = 0, long double eps_var = 0) {
  if (got.t != want.t)
    return "element type is " + to_string(got.t) + ", not " + to_string(want.t);
  if (got.u != want.u)
    return "unit is " + to_string(got.u) + ", not " + to_string(want.u);
  if (got.dims != want.dims || got.shape != want.shape)
    return "dimensions differ: " + str(got) + " instead of " + str(want);
  if (got.var != want.var)
    return got.var ? "has variances" : "has no variances";
  for (size_t i = 0; i < want.v.size(); ++i)
    if (!same_cell(got.v[i], want.v[i], want.t, want.var, eps, eps_var))
      return "element " + std::to_string(i) + " is " + str(got.v[i], got.t, got.var) + ", not " + str(want.v[i], want.t, want.var);
  return {};
}
/// The same elements with another order of dimensions.
inline Arr transposed(const Arr &a, const std::vector<Dim> &order) {
  Arr r = a;
  r.dims = order;
  r.shape.clear();
  for (const auto &d : order)
    r.shape.push_back(a.shape[a.axis(d)]);
  for (ix i = 0; i < r.volume(); ++i)
    r.v[i] = a.v[a.index_of(r, i)];
  return r;
}

/// What kind of exception a call ends with ("" for none).
template <class F> std::string raised(F &&f) {
  try {
    f();
    return "";
  } catch (const except::UnitError &) {
    return "UnitError";
  } catch (const except::DimensionError &) {
    return "DimensionError";
  } catch (const except::VariancesError &) {
    return "VariancesError";
  } catch (const except::TypeError &) {
    return "TypeError";
  } catch (const except::BinnedDataError &) {
    return "BinnedDataError";
  } catch (const vh::Fail &) {
    throw;
  } catch (const std::exception &e) {
    return std::string("other: ") + e.what();
  }
}
} // namespace arr
