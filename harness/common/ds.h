// Plain reference model of data arrays, binned data and datasets.
#pragma once
#include "arr.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/dataset.h"
#include "scipp/variable/bins.h"
#include <functional>
#include <map>

namespace ds {
using namespace arr;
using scipp::dataset::DataArray;
using scipp::dataset::Dataset;
namespace sv = scipp::variable;
namespace sd = scipp::dataset;
using core::DType;
using Cells = std::vector<Cell>;
using LD = long double;
inline const DType D = dtype<double>, F = dtype<float>, L = dtype<int64_t>, I = dtype<int32_t>, B = dtype<bool>,
                   S = dtype<std::string>, T = dtype<core::time_point>, V = dtype<Eigen::Vector3d>, N = dtype<void>;
inline const Dim EV("event"), X = Dim::X, Y = Dim::Y, Z = Dim::Z;
inline bool floating(DType t) { return t == D || t == F; }
constexpr long double NAN_ = std::numeric_limits<long double>::quiet_NaN(), INF = std::numeric_limits<long double>::infinity();

struct Coord {
  Arr a;
  bool aligned = true;
};

/// Data array. Binned data is a list of tables, one per element.
struct DA {
  std::string name;
  Arr data; ///< of binned data: dimensions only
  bool binned = false;
  bool plain_bins = false; ///< the events are just a variable
  std::vector<DA> bins;
  std::vector<std::pair<Dim, Coord>> coords;
  std::vector<std::pair<std::string, Arr>> masks;
  std::vector<std::pair<Dim, Arr>> attrs;

  const Coord *coord(Dim d) const {
    for (const auto &[k, c] : coords)
      if (k == d)
        return &c;
    return nullptr;
  }
  Coord *coord(Dim d) {
    for (auto &[k, c] : coords)
      if (k == d)
        return &c;
    return nullptr;
  }
  const Arr *mask(const std::string &n) const {
    for (const auto &[k, m] : masks)
      if (k == n)
        return &m;
    return nullptr;
  }
  const Arr *attr(Dim d) const {
    for (const auto &[k, m] : attrs)
      if (k == d)
        return &m;
    return nullptr;
  }
};

/// Gather positions along a dimension. An array without it is unchanged.
inline Arr take(const Arr &a, Dim d, const std::vector<ix> &which) {
  const int k = a.axis(d);
  if (k < 0)
    return a;
  Arr r = a;
  r.shape[k] = which.size();
  const ix n = r.volume();
  r.v.resize(n);
  for (ix i = 0; i < n; ++i) {
    auto m = r.unravel(i);
    m[k] = which[m[k]];
    r.v[i] = a.v[a.ravel(m)];
  }
  return r;
}
inline std::vector<ix> range(ix b, ix e) {
  std::vector<ix> r;
  for (; b < e; ++b)
    r.push_back(b);
  return r;
}
/// One position along a dimension, which is dropped.
inline Arr point(const Arr &a, Dim d, ix i) {
  const int k = a.axis(d);
  if (k < 0)
    return a;
  Arr r = take(a, d, {i});
  r.dims.erase(r.dims.begin() + k);
  r.shape.erase(r.shape.begin() + k);
  return r;
}
/// Positions of a flat row-major layout gathered along a dimension.
inline std::vector<DA> take_bins(const Arr &dims, const std::vector<DA> &bins, Dim d, const std::vector<ix> &which) {
  const int k = dims.axis(d);
  if (k < 0)
    return bins;
  Arr r = dims;
  r.shape[k] = which.size();
  std::vector<DA> out;
  for (ix i = 0; i < r.volume(); ++i) {
    auto m = r.unravel(i);
    m[k] = which[m[k]];
    out.push_back(bins[dims.ravel(m)]);
  }
  return out;
}
inline bool is_edges(const Arr &a, const Arr &data, Dim d) {
  const int k = a.axis(d), m = data.axis(d);
  return k >= 0 && (m < 0 ? a.shape[k] == 2 : a.shape[k] == data.shape[m] + 1);
}
/// Gather positions of a data array; metadata that are edges along the
/// dimension are dropped.
inline DA take(const DA &a, Dim d, const std::vector<ix> &which) {
  DA r = a;
  if (a.binned)
    r.bins = take_bins(a.data, a.bins, d, which);
  if (a.binned) {
    const int k = r.data.axis(d);
    if (k >= 0)
      r.data.shape[k] = which.size();
  } else
    r.data = take(a.data, d, which);
  r.coords.clear();
  r.masks.clear();
  r.attrs.clear();
  for (const auto &[k, c] : a.coords)
    if (!is_edges(c.a, a.data, d))
      r.coords.push_back({k, {take(c.a, d, which), c.aligned}});
  for (const auto &[k, c] : a.masks)
    if (!is_edges(c, a.data, d))
      r.masks.push_back({k, take(c, d, which)});
  for (const auto &[k, c] : a.attrs)
    if (!is_edges(c, a.data, d))
      r.attrs.push_back({k, take(c, d, which)});
  return r;
}

// --- reading ---------------------------------------------------------------
inline DA read_da(const DataArray &x);

inline Arr dims_of(const Variable &v) {
  Arr a;
  a.u = units::none;
  for (const auto &d : v.dims().labels())
    a.dims.push_back(d);
  for (const auto s : v.dims().shape())
    a.shape.push_back(s);
  return a;
}
/// Rows [b, e) of a table.
inline DA rows(const DA &t, Dim d, ix b, ix e) { return take(t, d, range(b, e)); }

inline void read_data(const Variable &v, DA &r) {
  if (v.dtype() == dtype<core::bin<Variable>>) {
    r.binned = r.plain_bins = true;
    const auto &[ind, dim, buf] = v.constituents<Variable>();
    DA t;
    t.data = read(buf);
    r.data = dims_of(v);
    for (const auto &c : read(ind).v)
      r.bins.push_back(rows(t, dim, ix(c.x), ix(c.y)));
  } else if (v.dtype() == dtype<core::bin<DataArray>>) {
    r.binned = true;
    const auto &[ind, dim, buf] = v.constituents<DataArray>();
    const DA t = read_da(buf);
    r.data = dims_of(v);
    for (const auto &c : read(ind).v)
      r.bins.push_back(rows(t, dim, ix(c.x), ix(c.y)));
  } else
    r.data = read(v);
}
inline DA read_var(const Variable &v) {
  DA r;
  read_data(v, r);
  return r;
}
inline DA read_da(const DataArray &x) {
  DA r;
  r.name = x.name();
  read_data(x.data(), r);
  for (const auto &[k, c] : x.coords())
    r.coords.push_back({k, {read(c), c.is_aligned()}});
  for (const auto &[k, c] : x.masks())
    r.masks.push_back({k, read(c)});
  for (const auto &[k, c] : x.attrs())
    r.attrs.push_back({k, read(c)});
  return r;
}
using DS = std::vector<std::pair<std::string, DA>>;

// --- making ----------------------------------------------------------------
/// How the bins lie in the buffer: bit 0: gaps, bit 1: reverse order.
inline DataArray make_da(const DA &a, int bin_layout = 0, int layout = 0);
inline Variable make_bins_var(const DA &a, int bin_layout) {
  const ix n = a.data.volume();
  const bool gap = bin_layout & 1, rev = bin_layout & 2;
  // a table as sample of what events have
  DA table = a.bins.empty() ? DA{} : a.bins[0];
  if (a.bins.empty())
    throw vh::Fail{"harness", "binned data without bins"};
  const Dim ev = table.data.dims.at(0);
  Arr idx = a.data;
  idx.t = dtype<scipp::index_pair>;
  idx.u = units::none;
  idx.v.assign(n, Cell());
  const auto clear = [](Arr &x) {
    x.v.clear();
    x.shape = {0};
  };
  clear(table.data);
  for (auto &[k, c] : table.coords)
    clear(c.a);
  for (auto &[k, c] : table.masks)
    clear(c);
  for (auto &[k, c] : table.attrs)
    clear(c);
  const auto push = [&](const Arr *from, Arr &to, ix i) {
    Cell junk(to.t == dtype<bool> ? 1 : 33, 44);
    junk.y = 34;
    junk.s = "junk";
    to.v.push_back(from == nullptr ? junk : from->v[i]);
    ++to.shape[0];
  };
  const auto push_row = [&](const DA *b, ix i) {
    push(b ? &b->data : nullptr, table.data, i);
    for (size_t k = 0; k < table.coords.size(); ++k)
      push(b ? &b->coords[k].second.a : nullptr, table.coords[k].second.a, i);
    for (size_t k = 0; k < table.masks.size(); ++k)
      push(b ? &b->masks[k].second : nullptr, table.masks[k].second, i);
    for (size_t k = 0; k < table.attrs.size(); ++k)
      push(b ? &b->attrs[k].second : nullptr, table.attrs[k].second, i);
  };
  if (gap)
    push_row(nullptr, 0);
  for (ix q = 0; q < n; ++q) {
    const ix i = rev ? n - 1 - q : q;
    idx.v[i].x = table.data.shape[0];
    for (ix e = 0; e < a.bins[i].data.volume(); ++e)
      push_row(&a.bins[i], e);
    idx.v[i].y = table.data.shape[0];
    if (gap)
      push_row(nullptr, 0);
  }
  if (a.plain_bins)
    return sv::make_bins(make_plain(idx), ev, make_plain(table.data));
  return sd::make_bins(make_plain(idx), ev, make_da(table));
}
inline DataArray make_da(const DA &a, int bin_layout, int layout) {
  const auto m = [&](const Arr &x) { return layout == 0 ? make_plain(x) : make(x, layout).view; };
  DataArray r(a.binned ? make_bins_var(a, bin_layout) : m(a.data));
  for (const auto &[k, c] : a.coords) {
    auto v = m(c.a);
    v.set_aligned(c.aligned);
    r.coords().set(k, v);
    r.coords().set_aligned(k, c.aligned);
  }
  for (const auto &[k, c] : a.masks)
    r.masks().set(k, m(c));
  for (const auto &[k, c] : a.attrs)
    r.attrs().set(k, m(c));
  r.setName(a.name);
  return r;
}

// --- comparing -------------------------------------------------------------
struct Cmp {
  long double eps = 0, eps_var = 0;
  bool alignment = true, order = false, name = false;
  bool event_order = true;
};
inline std::string difference(const DA &got, const DA &want, const Cmp &c = {});
/// Metadata of the same content in any order (unless c.order).
template <class K, class V, class F> std::string diff_map(const char *what, const std::vector<std::pair<K, V>> &got, const std::vector<std::pair<K, V>> &want, const Cmp &c, F &&f) {
  const auto ks = [](const auto &m) {
    std::string s;
    for (const auto &[k, v] : m) {
      std::ostringstream o;
      o << k;
      s += " " + o.str();
    }
    return s;
  };
  if (got.size() != want.size())
    return std::string(what) + " are" + ks(got) + " instead of" + ks(want);
  for (size_t i = 0; i < want.size(); ++i) {
    if (c.order && !(got[i].first == want[i].first))
      return std::string(what) + " are" + ks(got) + " instead of" + ks(want);
    bool found = false;
    for (const auto &[k, v] : got)
      if (k == want[i].first) {
        found = true;
        if (const auto d = f(v, want[i].second); !d.empty()) {
          std::ostringstream o;
          o << k;
          return std::string(what) + " " + o.str() + ": " + d;
        }
      }
    if (!found)
      return std::string(what) + " are" + ks(got) + " instead of" + ks(want);
  }
  return {};
}
inline std::string difference(const DA &got, const DA &want, const Cmp &c) {
  if (c.name && got.name != want.name)
    return "name is " + got.name + ", not " + want.name;
  if (got.binned != want.binned || (got.binned && got.plain_bins != want.plain_bins))
    return got.binned ? "is binned" : "is not binned";
  if (got.binned) {
    if (got.data.dims != want.data.dims || got.data.shape != want.data.shape)
      return "dimensions of the bins differ: " + str(got.data) + " instead of " + str(want.data);
    for (size_t i = 0; i < want.bins.size(); ++i)
      if (const auto d = difference(got.bins[i], want.bins[i], c); !d.empty())
        return "bin " + std::to_string(i) + ": " + d;
  } else if (const auto d = arr::difference(got.data, want.data, c.eps, c.eps_var); !d.empty())
    return "data: " + d;
  if (const auto d = diff_map("coords", got.coords, want.coords, c,
                              [&](const Coord &g, const Coord &w) {
                                if (c.alignment && g.aligned != w.aligned)
                                  return std::string(g.aligned ? "is aligned" : "is not aligned");
                                return arr::difference(g.a, w.a, c.eps, c.eps_var);
                              });
      !d.empty())
    return d;
  const auto same = [&](const Arr &g, const Arr &w) { return arr::difference(g, w, c.eps, c.eps_var); };
  if (const auto d = diff_map("masks", got.masks, want.masks, c, same); !d.empty())
    return d;
  return diff_map("attrs", got.attrs, want.attrs, c, same);
}

// --- building --------------------------------------------------------------
inline Arr A(core::DType t, units::Unit u, std::vector<Dim> dims, std::vector<ix> shape, std::vector<Cell> v, bool var = false) {
  Arr a;
  a.t = t;
  a.u = u;
  a.dims = std::move(dims);
  a.shape = std::move(shape);
  a.v = std::move(v);
  a.var = var;
  return a;
}
/// Distinct numbers counting from a start.
inline Arr iota(std::vector<Dim> dims, std::vector<ix> shape, long double start, units::Unit u = units::one, core::DType t = dtype<double>, bool var = false) {
  Arr a = A(t, u, std::move(dims), std::move(shape), {}, var);
  for (ix i = 0; i < a.volume(); ++i) {
    Cell c(start + i, var ? 0.25L * (i % 13 + 1) : 0);
    c.s = "s" + std::to_string(long(start) + i);
    if (t == dtype<bool>)
      c.x = (i + ix(start)) % 2;
    a.v.push_back(c);
  }
  return a;
}
inline std::string str(const DA &a) {
  std::string s = a.binned ? "binned" : arr::str(a.data);
  if (a.binned) {
    s += "{";
    for (size_t i = 0; i < a.data.dims.size(); ++i)
      s += (i ? "," : "") + to_string(a.data.dims[i]) + ":" + std::to_string(a.data.shape[i]);
    s += "}";
    for (size_t i = 0; i < a.bins.size() && i < 8; ++i)
      s += " bin(" + str(a.bins[i]) + ")";
  }
  for (const auto &[k, c] : a.coords)
    s += ", coord " + to_string(k) + (c.aligned ? "=" : "(unaligned)=") + arr::str(c.a);
  for (const auto &[k, c] : a.masks)
    s += ", mask " + k + "=" + arr::str(c);
  for (const auto &[k, c] : a.attrs)
    s += ", attr " + to_string(k) + "=" + arr::str(c);
  return s;
}
} // namespace ds
