// O08: concatenation, fold, flatten, transpose, squeeze and resize put every
// element, coordinate and mask where it belongs: all divisions, shapes, layouts
// and kinds of metadata within bounds, compared with gathers of plain arrays.
#include "../common/ds.h"
#include "scipp/dataset/shape.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/except.h"
#include "scipp/dataset/except.h"
#include <algorithm>
#include <optional>
#include <set>

using namespace ds;
namespace {
using E_ = vh::Explorer;
const Dim U("u"), W("w");

Arr reorder_as(const Arr &a, const std::vector<Dim> &order) {
  if (a.dims == order || a.dims.size() != order.size())
    return a;
  for (const auto &d : order)
    if (a.axis(d) < 0)
      return a;
  return transposed(a, order);
}
/// The order of dimensions of metadata is not specified.
void align_order(DA &got, const DA &want) {
  for (auto &[k, c] : got.coords)
    if (const auto *w = want.coord(k))
      c.a = reorder_as(c.a, w->a.dims);
  for (auto &[k, c] : got.masks)
    if (const auto *w = want.mask(k))
      c = reorder_as(c, w->dims);
  for (auto &[k, c] : got.attrs)
    if (const auto *w = want.attr(k))
      c = reorder_as(c, w->dims);
}
bool same_arr(const Arr &a, const Arr &b) { return arr::difference(a, b).empty(); }
std::string list(const std::vector<ix> &v) {
  std::string s;
  for (const auto i : v)
    s += (s.empty() ? "" : ",") + std::to_string(i);
  return s;
}
std::string list(const std::vector<Dim> &v) {
  std::string s;
  for (const auto &i : v)
    s += (s.empty() ? "" : ",") + to_string(i);
  return s;
}

// --- plain references ---------------------------------------------------------
struct Rejected {};
Arr broadcast_to(const Arr &a, const std::vector<Dim> &dims, const std::vector<ix> &shape) {
  Arr r = a;
  r.dims = dims;
  r.shape = shape;
  r.v.clear();
  for (ix i = 0; i < r.volume(); ++i)
    r.v.push_back(a.v[a.index_of(r, i)]);
  return r;
}
/// Concatenation: dimensions in the order of the first input that has the
/// dimension, or with the dimension added as outermost.
Arr concat_ref(const std::vector<Arr> &in, Dim d) {
  Arr r = in.at(0);
  size_t first = 0;
  while (first < in.size() && in[first].axis(d) < 0)
    ++first;
  if (first == in.size()) {
    r.dims.insert(r.dims.begin(), d);
    r.shape.insert(r.shape.begin(), 1);
  } else {
    r.dims = in[first].dims;
    r.shape = in[first].shape;
  }
  const int k = r.axis(d);
  std::vector<Arr> full;
  ix n = 0;
  for (const auto &a : in) {
    if (a.t != r.t || a.u != r.u || a.var != r.var)
      throw Rejected{};
    Arr t = r;
    t.shape[k] = a.axis(d) < 0 ? 1 : a.shape[a.axis(d)];
    for (size_t i = 0; i < a.dims.size(); ++i)
      if (t.axis(a.dims[i]) < 0 || t.shape[t.axis(a.dims[i])] != a.shape[i])
        throw Rejected{};
    if (a.axis(d) >= 0 && a.dims.size() != r.dims.size())
      throw Rejected{}; // not specified, see below
    full.push_back(broadcast_to(a, t.dims, t.shape));
    n += t.shape[k];
  }
  r.shape[k] = n;
  r.v.clear();
  for (ix i = 0; i < r.volume(); ++i) {
    auto m = r.unravel(i);
    size_t p = 0;
    while (m[k] >= full[p].shape[k])
      m[k] -= full[p++].shape[k];
    r.v.push_back(full[p].v[full[p].ravel(m)]);
  }
  return r;
}
Arr fold_ref(const Arr &a, Dim from, const std::vector<Dim> &dims, const std::vector<ix> &shape) {
  const int k = a.axis(from);
  if (k < 0)
    throw Rejected{};
  Arr r = a;
  ix n = 1;
  for (const auto s : shape)
    n *= s;
  if (n != a.shape[k])
    throw Rejected{};
  r.dims.erase(r.dims.begin() + k);
  r.shape.erase(r.shape.begin() + k);
  for (const auto &d : dims)
    if (r.axis(d) >= 0)
      throw Rejected{};
  r.dims.insert(r.dims.begin() + k, dims.begin(), dims.end());
  r.shape.insert(r.shape.begin() + k, shape.begin(), shape.end());
  return r;
}
Arr flatten_ref(const Arr &a, const std::vector<Dim> &labels, Dim to) {
  Arr r = a;
  if (labels.empty()) {
    if (a.axis(to) >= 0)
      throw Rejected{};
    r.dims.push_back(to);
    r.shape.push_back(1);
    return r;
  }
  const int k = a.axis(labels[0]);
  if (k < 0)
    throw Rejected{};
  ix n = 1;
  for (size_t i = 0; i < labels.size(); ++i) {
    if (k + i >= a.dims.size() || a.dims[k + i] != labels[i])
      throw Rejected{};
    n *= a.shape[k + i];
  }
  r.dims.erase(r.dims.begin() + k, r.dims.begin() + k + labels.size());
  r.shape.erase(r.shape.begin() + k, r.shape.begin() + k + labels.size());
  if (r.axis(to) >= 0)
    throw Rejected{};
  r.dims.insert(r.dims.begin() + k, to);
  r.shape.insert(r.shape.begin() + k, n);
  return r;
}
template <class F> std::optional<Arr> maybe(F &&f) {
  try {
    return f();
  } catch (const Rejected &) {
    return std::nullopt;
  }
}
struct Kind {
  std::string name;
  DType t;
  bool var;
  units::Unit u;
};
const std::vector<Kind> kinds{{"float64", D, false, units::m}, {"float64 with variances", D, true, units::m}, {"float32", F, false, units::m}, {"int64", L, false, units::counts}, {"int32", I, false, units::one}, {"bool", B, false, units::none}, {"string", S, false, units::none}, {"datetime", T, false, units::ns}, {"vector", V, false, units::m}};
Arr filled(const Kind &k, std::vector<Dim> dims, std::vector<ix> shape, ix start) {
  Arr a = iota(dims, shape, start, k.u, k.t, k.var);
  for (auto &c : a.v) {
    c.y = c.x + 0.25L;
    c.z = -c.x;
    if (k.t == B)
      c.x = ((&c - a.v.data()) * 7 + start) % 3 == 0;
  }
  return a;
}
template <class G> void compare(E_ &E, const std::string &op, const std::vector<const Arr *> &in, const std::optional<Arr> &want, G &&g, bool may_raise = false) {
  Variable got;
  Arr r;
  const auto err = raised([&] {
    got = g();
    r = read(got);
  });
  ++E.transitions;
  const auto inputs = [&] {
    std::string s;
    for (const auto *a : in)
      s += " " + arr::str(*a);
    return s;
  };
  if (!want || !err.empty()) {
    if (want && may_raise) {
      E.tally["rejected"]++;
      return;
    }
    E.check_lazy(!want && !err.empty(), "raise", [&] { return op + (err.empty() ? " did not raise but gave " + arr::str(r) : " raised " + err) + ", inputs" + inputs(); });
    return;
  }
  const auto d = arr::difference(r, *want);
  E.check_lazy(d.empty(), "result", [&] { return op + ": " + d + ", inputs" + inputs(); });
}
std::vector<std::vector<ix>> pieces_of(int n, ix max) {
  std::vector<std::vector<ix>> r{{}};
  for (int i = 0; i < n; ++i) {
    std::vector<std::vector<ix>> s;
    for (const auto &x : r)
      for (ix j = 0; j <= max; ++j) {
        auto y = x;
        y.push_back(j);
        s.push_back(y);
      }
    r = s;
  }
  return r;
}

void variables(E_ &E) {
  // an extent of -1 is a piece without the dimension
  struct Shape {
    std::vector<Dim> dims;
    std::vector<ix> shape;
  };
  const std::vector<Shape> rest{{{}, {}}, {{Y}, {2}}, {{Y}, {1}}, {{Y}, {0}}, {{Y, Z}, {2, 3}}};
  for (const auto &k : kinds)
    for (int n = 1; n <= 3; ++n)
      for (const auto &sh : rest)
        for (size_t at = 0; at <= sh.dims.size(); ++at)
          E.run("concat of " + std::to_string(n) + " variables of " + k.name + ", other dimensions " + list(sh.dims) + " " + list(sh.shape) + ", position " + std::to_string(at), [&] {
            for (const auto &ext : pieces_of(n, 4)) {
              std::vector<Arr> in;
              ix start = 1;
              for (const auto e : ext) {
                auto dims = sh.dims;
                auto shape = sh.shape;
                if (e > 0) {
                  dims.insert(dims.begin() + at, X);
                  shape.insert(shape.begin() + at, e - 1);
                }
                in.push_back(filled(k, dims, shape, start));
                start += 50;
              }
              const auto want = concat_ref(in, X);
              std::vector<const Arr *> p;
              for (const auto &a : in)
                p.push_back(&a);
              for (int l = 0; l < num_layouts; ++l) {
                std::vector<Variable> vars;
                for (size_t i = 0; i < in.size(); ++i)
                  vars.push_back(make(in[i], (l + i) % num_layouts).view);
                compare(E, "concat", p, want, [&] { return sv::concat(vars, X); });
                const auto all = sv::concat(vars, X);
                ix pos = 0;
                for (size_t i = 0; i < in.size(); ++i) {
                  const bool has = in[i].axis(X) >= 0;
                  const ix len = has ? in[i].shape[in[i].axis(X)] : 1;
                  const auto back = has ? all.slice({X, pos, pos + len}) : all.slice({X, pos});
                  const auto d = arr::difference(reorder_as(read(back), in[i].dims), in[i]);
                  E.check_lazy(d.empty(), "slice-back", [&] { return "piece " + std::to_string(i) + " of a concatenation differs: " + d; });
                  const auto d1 = arr::difference(read(vars[i]), in[i]);
                  E.check_lazy(d1.empty(), "operand", [&] { return "concat changed an input: " + d1; });
                  pos += len;
                }
                // the result does not share data with the inputs
                auto mod = all;
                if (mod.dims().volume() > 0 && (k.t == D)) {
                  mod *= makeVariable<double>(units::one, Values{2});
                  for (size_t i = 0; i < in.size(); ++i)
                    E.check_lazy(same_arr(read(vars[i]), in[i]), "sharing", [&] { return "the result of concat shares data with an input"; });
                }
              }
            }
            E.nontrivial();
          });
  // different orders of dimensions, and what does not fit
  E.run("concat of variables that differ", [&] {
    std::vector<Arr> pool;
    for (const auto &dims : std::vector<Shape>{{{}, {}}, {{X}, {2}}, {{Y}, {2}}, {{Y}, {3}}, {{X, Y}, {2, 2}}, {{Y, X}, {2, 2}}, {{X, Y}, {1, 3}}, {{X, Z}, {2, 2}}, {{X}, {0}}})
      for (const auto &k : {kinds[0], kinds[1], kinds[2], Kind{"float64 s", D, false, units::s}})
        pool.push_back(filled(k, dims.dims, dims.shape, 1));
    for (const auto &a : pool)
      for (const auto &b : pool)
        for (const auto d : {X, Y, W}) {
          const auto want = maybe([&] { return concat_ref({a, b}, d); });
          // broadcasting to a dimension only found in another input is not specified
          bool unsure = false;
          for (const auto *p : {&a, &b}) {
            const auto *q = p == &a ? &b : &a;
            for (const auto &x : p->dims)
              unsure |= x != d && q->axis(x) < 0;
          }
          if (unsure) {
            E.tally["not specified"]++;
            continue;
          }
          compare(E, "concat along " + to_string(d), {&a, &b}, want, [&] { return sv::concat(std::vector<Variable>{make_plain(a), make(b, 5).view}, d); });
        }
    E.check(!raised([&] { static_cast<void>(sv::concat(std::vector<Variable>{}, X)); }).empty(), "raise", "concat of nothing did not raise");
    E.nontrivial();
  });
  // fold and flatten
  for (const auto &k : kinds)
    for (const auto &sh : std::vector<Shape>{{{X}, {6}}, {{X}, {1}}, {{X}, {0}}, {{X}, {4}}, {{Y, X}, {2, 6}}, {{X, Y}, {4, 3}}, {{Y, X, Z}, {2, 6, 2}}, {{Y, X}, {0, 4}}, {{X, Y}, {6, 1}}})
      E.run("fold of " + k.name + " " + list(sh.dims) + " " + list(sh.shape), [&] {
        const auto a = filled(k, sh.dims, sh.shape, 1);
        for (int l = 0; l < num_layouts; ++l) {
          const auto v = make(a, l).view;
          for (const auto &dims : std::vector<std::vector<Dim>>{{U}, {U, W}, {X, U}, {U, X}, {U, W, X}, {Y, U}, {U, U}, {}})
            for (const auto &shape : pieces_of(dims.size(), 6)) {
              if (dims.size() == 2 && dims[0] == dims[1])
                continue;
              for (const auto from : {X, Y, W}) {
                const auto want = maybe([&] { return fold_ref(a, from, dims, shape); });
                scipp::Dimensions target;
                for (size_t i = 0; i < dims.size(); ++i)
                  target.addInner(dims[i], shape[i]);
                if (dims.empty()) // not specified
                  continue;
                compare(E, "fold of " + to_string(from) + " to " + list(dims) + " " + list(shape), {&a}, want, [&] { return sv::fold(v, from, target); });
                if (want) {
                  const auto folded = sv::fold(v, from, target);
                  compare(E, "flatten of folded", {&a}, a, [&] { return sv::flatten(folded, dims, from); });
                }
              }
            }
        }
        E.nontrivial();
      });
  for (const auto &k : kinds)
    for (const auto &sh : std::vector<Shape>{{{}, {}}, {{X}, {3}}, {{X, Y}, {2, 3}}, {{X, Y}, {1, 3}}, {{X, Y}, {2, 1}}, {{X, Y}, {0, 3}}, {{X, Y}, {2, 0}}, {{X, Y, Z}, {2, 3, 2}}, {{X, Y, Z}, {2, 1, 3}}, {{X, Y, Z}, {2, 0, 3}}})
      E.run("flatten of " + k.name + " " + list(sh.dims) + " " + list(sh.shape), [&] {
        const auto a = filled(k, sh.dims, sh.shape, 1);
        std::vector<std::vector<Dim>> labels{{}};
        std::vector<Dim> all{X, Y, Z};
        for (const auto &p : all) {
          labels.push_back({p});
          for (const auto &q : all)
            if (q != p) {
              labels.push_back({p, q});
              for (const auto &r : all)
                if (r != p && r != q)
                  labels.push_back({p, q, r});
            }
        }
        for (int l = 0; l < num_layouts + 2; ++l) {
          // 6 and 7: broadcast along the first or last dimension
          Variable v;
          Arr m = a;
          if (l < num_layouts)
            v = make(a, l).view;
          else if (a.dims.empty() || a.volume() == 0)
            continue;
          else {
            const auto d = l == num_layouts ? a.dims.front() : a.dims.back();
            const auto one = point(a, d, 0);
            m = broadcast_to(one, a.dims, a.shape);
            v = make_plain(one).broadcast(a.dimensions());
          }
          for (const auto &lab : labels)
            for (const auto to : {U, X, Y, Z}) {
              const auto want = maybe([&] { return flatten_ref(m, lab, to); });
              compare(E, "flatten of " + list(lab) + " to " + to_string(to), {&m}, want, [&] { return sv::flatten(v, lab, to); });
              if (want && !lab.empty()) {
                scipp::Dimensions target;
                for (const auto &d : lab)
                  target.addInner(d, m.shape[m.axis(d)]);
                const auto flat = sv::flatten(v, lab, to);
                compare(E, "fold of flattened", {&m}, m, [&] { return sv::fold(flat, to, target); });
              }
            }
        }
        E.nontrivial();
      });
  for (const auto &k : kinds)
    E.run("transpose, squeeze, resize of " + k.name, [&] {
      for (const auto &sh : std::vector<Shape>{{{}, {}}, {{X}, {3}}, {{X}, {1}}, {{X, Y}, {2, 3}}, {{X, Y}, {1, 3}}, {{X, Y, Z}, {1, 2, 1}}, {{X, Y, Z}, {1, 1, 1}}, {{X, Y, Z}, {2, 3, 2}}, {{X, Y}, {0, 1}}}) {
        const auto a = filled(k, sh.dims, sh.shape, 1);
        for (int l = 0; l < num_layouts; ++l) {
          const auto v = make(a, l).view;
          auto order = sh.dims;
          std::sort(order.begin(), order.end());
          do {
            if (order.empty())
              continue;
            compare(E, "transpose to " + list(order), {&a}, transposed(a, order), [&] { return sv::transpose(v, order); });
          } while (std::next_permutation(order.begin(), order.end()));
          auto rev = sh.dims;
          std::reverse(rev.begin(), rev.end());
          compare(E, "transpose", {&a}, transposed(a, rev), [&] { return sv::transpose(v, std::vector<Dim>{}); });
          compare(E, "transpose to absent dimension", {&a}, std::nullopt, [&] { return sv::transpose(v, std::vector<Dim>{W}); });
          // squeeze
          for (int s = 0; s < 16; ++s) {
            std::vector<Dim> sel;
            Arr want = a;
            bool bad = false;
            for (int i = 0; i < 4; ++i)
              if (s >> i & 1) {
                const Dim d = std::vector<Dim>{X, Y, Z, W}[i];
                sel.push_back(d);
                if (want.axis(d) < 0 || want.shape[want.axis(d)] != 1)
                  bad = true;
                else
                  want = point(want, d, 0);
              }
            compare(E, "squeeze of " + list(sel), {&a}, bad ? std::nullopt : std::optional(want), [&] { return sv::squeeze(v, scipp::span<const Dim>(sel)); });
          }
          Arr want = a;
          for (const auto &d : a.dims)
            if (a.shape[a.axis(d)] == 1)
              want = point(want, d, 0);
          compare(E, "squeeze", {&a}, want, [&] { return sv::squeeze(v, std::nullopt); });
        }
      }
      E.nontrivial();
    });
}

// --- data arrays --------------------------------------------------------------------
bool edges_along(const Arr &c, const Arr &data, Dim d) { return c.axis(d) >= 0 && is_edges(c, data, d); }
/// Extent of the data along a dimension, 1 if there is none.
ix extent(const Arr &data, Dim d) { return data.axis(d) < 0 ? 1 : data.shape[data.axis(d)]; }

/// Concatenation of the metadata with one name. Empty if not representable.
Arr concat_meta(const std::vector<Arr> &c, const std::vector<const Arr *> &data, Dim d) {
  bool any_edges = false, all_edges = true, depends = false;
  for (size_t i = 0; i < c.size(); ++i) {
    const bool e = edges_along(c[i], *data[i], d);
    any_edges |= e;
    all_edges &= e;
    depends |= c[i].axis(d) >= 0 || !same_arr(c[i], c[0]);
  }
  if (!depends)
    return c[0];
  std::vector<Arr> p;
  if (any_edges) {
    if (!all_edges)
      throw Rejected{};
    for (size_t i = 0; i < c.size(); ++i) {
      if (i > 0) {
        const auto &a = c[i - 1];
        if (!same_arr(point(a, d, a.shape[a.axis(d)] - 1), point(c[i], d, 0)))
          throw Rejected{};
      }
      p.push_back(i == 0 ? c[i] : take(c[i], d, range(1, c[i].shape[c[i].axis(d)])));
    }
    return concat_ref(p, d);
  }
  for (size_t i = 0; i < c.size(); ++i) {
    if (c[i].axis(d) >= 0)
      p.push_back(c[i]);
    else {
      auto dims = c[i].dims;
      auto shape = c[i].shape;
      dims.insert(dims.begin(), d);
      shape.insert(shape.begin(), extent(*data[i], d));
      p.push_back(broadcast_to(c[i], dims, shape));
    }
  }
  for (auto &x : p)
    x = reorder_as(x, p[0].dims);
  return concat_ref(p, d);
}
Arr positions(const DA &a, ix start = 0) {
  Arr r = A(L, units::none, a.data.dims, a.data.shape, {});
  for (ix i = 0; i < r.volume(); ++i)
    r.v.push_back(Cell(start + i));
  return r;
}
void gather_bins(DA &r, const Arr &which, const std::vector<DA> &bins) {
  r.binned = true;
  r.bins.clear();
  for (const auto &c : which.v)
    r.bins.push_back(bins[ix(c.x)]);
  r.data.dims = which.dims;
  r.data.shape = which.shape;
}
DA concat_da(const std::vector<DA> &in, Dim d) {
  DA r;
  std::vector<const Arr *> data;
  for (const auto &a : in)
    data.push_back(&a.data);
  if (in[0].binned) {
    std::vector<Arr> pos;
    std::vector<DA> bins;
    for (const auto &a : in) {
      pos.push_back(positions(a, bins.size()));
      bins.insert(bins.end(), a.bins.begin(), a.bins.end());
    }
    r.data = in[0].data;
    gather_bins(r, concat_ref(pos, d), bins);
  } else {
    std::vector<Arr> x;
    for (const auto &a : in)
      x.push_back(a.data);
    r.data = concat_ref(x, d);
  }
  const auto meta = [&](auto &&keys, auto &&get, auto &&put) {
    for (const auto &[k, first] : keys) {
      std::vector<Arr> c;
      for (const auto &a : in) {
        const auto *m = get(a, k);
        if (m == nullptr)
          throw Rejected{};
        c.push_back(*m);
      }
      put(k, concat_meta(c, data, d));
    }
  };
  meta(in[0].coords, [](const DA &a, Dim k) { return a.coord(k) ? &a.coord(k)->a : nullptr; }, [&](Dim k, const Arr &x) { r.coords.push_back({k, {x, true}}); });
  meta(in[0].masks, [](const DA &a, const std::string &k) { return a.mask(k); }, [&](const std::string &k, const Arr &x) { r.masks.push_back({k, x}); });
  meta(in[0].attrs, [](const DA &a, Dim k) { return a.attr(k); }, [&](Dim k, const Arr &x) { r.attrs.push_back({k, x}); });
  return r;
}
/// Metadata that is flattened. Nothing if it cannot be represented.
std::optional<Arr> flatten_meta(const Arr &c, const Arr &data, const std::vector<Dim> &labels, Dim to, bool &unsure) {
  Dim edge = Dim::Invalid;
  bool depends = false;
  for (const auto &d : labels) {
    depends |= c.axis(d) >= 0;
    if (edges_along(c, data, d)) {
      if (edge != Dim::Invalid)
        unsure = true; // edges along two dimensions
      edge = d;
    }
  }
  if (!depends)
    return c;
  // data shape of the labels first, then the others
  const auto flat = [&](const Arr &x) {
    std::vector<Dim> dims;
    std::vector<ix> shape;
    for (const auto &d : labels) {
      dims.push_back(d);
      shape.push_back(data.shape[data.axis(d)]);
    }
    for (size_t i = 0; i < x.dims.size(); ++i)
      if (std::find(labels.begin(), labels.end(), x.dims[i]) == labels.end()) {
        dims.push_back(x.dims[i]);
        shape.push_back(x.shape[i]);
      }
    return flatten_ref(broadcast_to(x, dims, shape), labels, to);
  };
  if (unsure)
    return std::nullopt;
  if (edge == Dim::Invalid)
    return flat(c);
  const ix n = data.shape[data.axis(edge)];
  const auto left = flat(take(c, edge, range(0, n))), right = flat(take(c, edge, range(1, n + 1)));
  const ix N = left.shape[left.axis(to)];
  if (N == 0) {
    unsure = true;
    return std::nullopt;
  }
  if (!same_arr(take(left, to, range(1, N)), take(right, to, range(0, N - 1))))
    return std::nullopt;
  return concat_ref({left, take(right, to, {N - 1})}, to);
}
DA flatten_da(const DA &a, const std::vector<Dim> &labels, Dim to, std::set<std::string> &unsure) {
  DA r = a;
  if (a.binned)
    gather_bins(r, flatten_ref(positions(a), labels, to), a.bins);
  else
    r.data = flatten_ref(a.data, labels, to);
  r.coords.clear();
  r.masks.clear();
  r.attrs.clear();
  const auto f = [&](const std::string &name, const Arr &c) -> std::optional<Arr> {
    if (labels.empty())
      return c;
    bool u = false;
    auto x = flatten_meta(c, a.data, labels, to, u);
    if (u)
      unsure.insert(name);
    return x;
  };
  for (const auto &[k, c] : a.coords)
    if (const auto x = f("coord " + to_string(k), c.a))
      r.coords.push_back({k, {*x, c.aligned}});
  for (const auto &[k, c] : a.masks)
    if (const auto x = f("mask " + k, c))
      r.masks.push_back({k, *x});
  for (const auto &[k, c] : a.attrs)
    if (const auto x = f("attr " + to_string(k), c))
      r.attrs.push_back({k, *x});
  return r;
}
Arr fold_meta(const Arr &c, const Arr &data, Dim from, const std::vector<Dim> &dims, const std::vector<ix> &shape) {
  if (c.axis(from) < 0)
    return c;
  if (!edges_along(c, data, from))
    return fold_ref(c, from, dims, shape);
  const ix n = data.shape[data.axis(from)];
  const auto left = fold_ref(take(c, from, range(0, n)), from, dims, shape), right = fold_ref(take(c, from, range(1, n + 1)), from, dims, shape);
  const Dim d = dims.back();
  const ix k = shape.back();
  if (k == 0)
    throw Rejected{};
  return concat_ref({left, take(right, d, {k - 1})}, d);
}
DA fold_da(const DA &a, Dim from, const std::vector<Dim> &dims, const std::vector<ix> &shape) {
  DA r = a;
  if (a.binned)
    gather_bins(r, fold_ref(positions(a), from, dims, shape), a.bins);
  else
    r.data = fold_ref(a.data, from, dims, shape);
  for (auto &[k, c] : r.coords)
    c.a = fold_meta(c.a, a.data, from, dims, shape);
  for (auto &[k, c] : r.masks)
    c = fold_meta(c, a.data, from, dims, shape);
  for (auto &[k, c] : r.attrs)
    c = fold_meta(c, a.data, from, dims, shape);
  return r;
}
template <class G> void compare_da(E_ &E, const std::string &op, const std::vector<const DA *> &in, const std::optional<DA> &want, G &&g, bool alignment = true, const std::set<std::string> &unsure = {}) {
  DA got;
  const auto err = raised([&] { got = read_da(g()); });
  ++E.transitions;
  const auto inputs = [&] {
    std::string s;
    for (const auto *a : in)
      s += "\n  " + str(*a);
    return s;
  };
  if (!err.empty() && want && !unsure.empty()) {
    E.tally["rejected"]++;
    return;
  }
  if (!want || !err.empty()) {
    E.check_lazy(!want && !err.empty(), "raise", [&] { return op + (err.empty() ? " did not raise but gave " + str(got) : " raised " + err) + ", inputs" + inputs(); });
    return;
  }
  const auto drop = [&](auto &m, const char *what) {
    for (size_t i = 0; i < m.size();) {
      std::ostringstream o;
      o << what << " " << m[i].first;
      if (unsure.count(o.str()))
        m.erase(m.begin() + i);
      else
        ++i;
    }
  };
  drop(got.coords, "coord");
  drop(got.masks, "mask");
  drop(got.attrs, "attr");
  align_order(got, *want);
  const auto d = difference(got, *want, {0, 0, alignment});
  E.check_lazy(d.empty(), "result", [&] { return op + ": " + d + ", inputs" + inputs(); });
}
DA with_bins(DA a, ix start) {
  a.binned = true;
  for (ix i = 0; i < a.data.volume(); ++i) {
    DA t;
    const ix n = (i * 2 + start) % 3;
    t.data = iota({EV}, {n}, start * 100 + i * 10, units::counts);
    t.coords.push_back({Dim("ec"), {iota({EV}, {n}, start + i, units::m), true}});
    a.bins.push_back(t);
  }
  a.data.v.clear();
  return a;
}
/// States of a piece of metadata with respect to X. absent, scalar, points,
/// edges, other dimension, two dimensions, edges in two dimensions.
const int NSTATES = 8;
std::optional<Arr> meta_state(int s, const Arr &data, ix at, int value, bool mask) {
  const bool x = data.axis(X) >= 0, y = data.axis(Y) >= 0;
  const ix nx = extent(data, X), ny = extent(data, Y);
  const auto dims_of = [&](bool wx, bool wy, ix ex, ix ey) -> std::optional<Arr> {
    if ((wx && !x && ex == 0) || (wy && !y && ey == 0))
      return std::nullopt;
    Arr a = A(mask ? B : D, mask ? units::none : units::s, {}, {}, {});
    if (wx) {
      a.dims.push_back(X);
      a.shape.push_back(nx + ex);
    }
    if (wy) {
      a.dims.push_back(Y);
      a.shape.push_back(ny + ey);
    }
    for (ix i = 0; i < a.volume(); ++i) {
      const auto m = a.unravel(i);
      const LD v = value * 1000 + (wx ? at + m[0] : 0) * 10 + (wy ? m[wx] * 100 : 0);
      a.v.push_back(Cell(mask ? ix(v / 10) % 2 : v));
    }
    return a;
  };
  if (mask && (s == 3 || s == 6 || s == 7))
    return std::nullopt;
  switch (s) {
  case 1:
    return dims_of(false, false, 0, 0);
  case 2:
    return dims_of(true, false, 0, 0);
  case 3:
    return dims_of(true, false, 1, 0);
  case 4:
    return dims_of(false, true, 0, 0);
  case 5:
    return dims_of(true, true, 0, 0);
  case 6:
    return dims_of(true, true, 1, 0);
  case 7:
    return dims_of(false, true, 0, 1);
  }
  return std::nullopt;
}
/// What concat rejects or does in a way that is not specified.
void concats(E_ &E) {
  struct Piece {
    std::vector<Dim> dims;
    std::vector<ix> shape;
  };
  std::vector<Piece> shapes{{{}, {}}, {{X}, {0}}, {{X}, {1}}, {{X}, {2}}, {{Y}, {2}}, {{X, Y}, {1, 2}}, {{Y, X}, {2, 2}}};
  if (E.thorough)
    shapes.push_back({{X, Y}, {0, 2}});
  const auto piece = [&](const Piece &p, int number) {
    DA a;
    a.data = iota(p.dims, p.shape, number * 50 + 1, units::m);
    return a;
  };
  for (int kind = 0; kind < 3; ++kind) // coord of the dimension, other coord, mask (and attr)
    for (int n = 2; n <= 3; ++n)
      for (size_t s0 = 0; s0 < shapes.size(); ++s0)
        for (size_t s1 = 0; s1 < shapes.size(); ++s1)
          E.run("concat of data arrays with " + std::string(kind == 0 ? "the coord" : kind == 1 ? "a coord" : "a mask") + ": " + std::to_string(n) + " pieces, shapes " + list(shapes[s0].dims) + " " + list(shapes[s0].shape) + " and " + list(shapes[s1].dims) + " " + list(shapes[s1].shape), [&, s0, s1, kind, n] {
            std::vector<DA> base{piece(shapes[s0], 0), piece(shapes[s1], 1)};
            if (n == 3)
              base.push_back(piece(shapes[s0], 2));
            std::vector<ix> at{0};
            for (const auto &b : base)
              at.push_back(at.back() + extent(b.data, X));
            // 0: the same in all, 1: continued, 2: different, 3: the same with NaN
            for (int value = 0; value < (kind == 1 && n == 2 ? 4 : 3); ++value)
              for (int m0 = 0; m0 < NSTATES; ++m0)
                for (int m1 = 0; m1 < NSTATES; ++m1)
                  for (int m2 = 0; m2 < (n == 3 ? NSTATES : 1); ++m2) {
                    if (n == 3 && !E.thorough && m2 != m0 && m2 != m1)
                      continue;
                    auto in = base;
                    bool possible = true;
                    for (int i = 0; i < n; ++i) {
                      const int s = i == 0 ? m0 : i == 1 ? m1 : m2;
                      if (s == 0)
                        continue;
                      auto m = meta_state(s, in[i].data, value == 0 || value == 3 ? 0 : at[i], value == 2 ? i : 0, kind == 2);
                      possible &= m.has_value();
                      if (!possible)
                        break;
                      possible &= !(value == 3 && (s == 3 || s == 6)); // edges that are NaN do not match
                      if (value == 3 && !m->v.empty())
                        m->v.back().x = NAN_;
                      if (kind == 2) {
                        in[i].masks.push_back({"m", *m});
                        in[i].attrs.push_back({Dim("at"), *m});
                      } else
                        in[i].coords.push_back({kind == 0 ? X : Dim("lab"), {*m, true}});
                    }
                    if (!possible)
                      continue;
                    for (const auto d : {X, W}) {
                      // pieces that lack dimensions of others are not specified
                      bool skip = false;
                      for (const auto &p : in)
                        for (const auto &q : in)
                          for (const auto &x : p.data.dims)
                            skip |= x != d && q.data.axis(x) < 0;
                      // metadata only found in later pieces is not specified
                      skip |= in[0].coords.empty() && in[0].masks.empty() && m0 == 0 && (m1 || m2);
                      // edges of another dimension, mixed with points
                      for (const auto &p : in)
                        for (const auto &[k, c] : p.coords)
                          for (const auto &q : in)
                            if (const auto *o = q.coord(k))
                              for (const auto &x : c.a.dims)
                                skip |= x != d && edges_along(c.a, p.data, x) != edges_along(o->a, q.data, x) && o->a.axis(x) >= 0;
                      // metadata of one piece lacks a dimension of that of another
                      bool dims_differ = false;
                      std::vector<const Arr *> metas;
                      for (const auto &p : in) {
                        for (const auto &[k, c] : p.coords)
                          metas.push_back(&c.a);
                        for (const auto &[k, c] : p.masks)
                          metas.push_back(&c);
                      }
                      for (const auto *p : metas)
                        for (const auto *q : metas)
                          for (const auto &x : p->dims)
                            dims_differ |= x != d && q->axis(x) < 0;
                      if (skip) {
                        E.tally["not specified"]++;
                        continue;
                      }
                      std::optional<DA> want;
                      try {
                        want = concat_da(in, d);
                      } catch (const Rejected &) {
                      }
                      if (dims_differ) {
                        E.tally["not specified"]++;
                        continue;
                      }
                      std::vector<const DA *> p;
                      for (const auto &a : in)
                        p.push_back(&a);
                      for (int l = 0; l < (n == 2 ? 6 : 1); l += 5) {
                        std::vector<DataArray> das;
                        for (const auto &a : in)
                          das.push_back(make_da(a, 0, l));
                        compare_da(E, "concat along " + to_string(d), p, want, [&] { return sd::concat(das, d); }, false);
                        for (int i = 0; i < n; ++i) {
                          const auto diff = difference(read_da(das[i]), in[i]);
                          E.check_lazy(diff.empty(), "operand", [&] { return "concat changed an input: " + diff; });
                        }
                        if (kind == 2 && l == 0 && n == 2 && want) { // masks are never shared
                          const auto out = sd::concat(das, d);
                          for (const auto &[k, m] : out.masks()) {
                            auto w = m;
                            if (w.dims().volume() == 0 || w.is_readonly())
                              continue;
                            scipp::variable::copy(~w, w);
                          }
                          for (int i = 0; i < n; ++i) {
                            const auto diff = difference(read_da(das[i]), in[i]);
                            E.check_lazy(diff.empty(), "aliased", [&] { return "a mask of the result of concat along " + to_string(d) + " is written, input changed: " + diff; });
                          }
                        }
                        // items of a dataset omit coords with dimensions the dataset does not have
                        bool omitted = false;
                        for (const auto &a : in)
                          for (const auto &[k, c] : a.coords)
                            for (const auto &x : c.a.dims)
                              omitted |= a.data.axis(x) < 0;
                        if (l == 0 && n == 2 && !omitted) {
                          std::vector<Dataset> sets;
                          for (const auto &a : das) {
                            Dataset s;
                            s.setDataInit("a", a);
                            s.setData("b", a);
                            sets.push_back(s);
                          }
                          compare_da(E, "concat of datasets along " + to_string(d), p, want, [&] { return DataArray(sd::concat(sets, d)["b"]); }, false);
                        }
                      }
                      if (kind == 0 && n == 2 && m1 == m0) {
                        auto b = in;
                        for (int i = 0; i < n; ++i)
                          b[i] = with_bins(in[i], i);
                        if (b[0].bins.empty() || b[1].bins.empty())
                          continue;
                        std::optional<DA> wb;
                        try {
                          wb = concat_da(b, d);
                        } catch (const Rejected &) {
                        }
                        std::vector<const DA *> pb{&b[0], &b[1]};
                        for (int l = 0; l < 4; ++l)
                          compare_da(E, "concat of binned data along " + to_string(d), pb, wb, [&] { return sd::concat(std::vector<DataArray>{make_da(b[0], l), make_da(b[1], 3 - l)}, d); }, false);
                      }
                    }
                  }
            E.nontrivial();
          });
  E.run("concat of datasets with other items", [&] {
    // every item is in every subset of four datasets
    for (int n = 1; n <= 4; ++n)
      for (int sa = 0; sa < 1 << n; ++sa)
        for (int sb = 0; sb < 1 << n; ++sb) {
          std::vector<Dataset> sets;
          DA want_a, want_b;
          bool valid = true;
          for (int i = 0; i < n; ++i) {
            Dataset s;
            for (const auto &[name, in, from] : {std::tuple<std::string, int, int>{"a", sa, 1}, {"b", sb, 7}, {"c", i == n - 1 ? 15 : 0, 9}})
              if (in >> i & 1) {
                DA a;
                a.data = iota({X}, {2}, 10 * i + from);
                a.coords.push_back({X, {iota({X}, {2}, 2 * i), true}});
                s.setDataInit(name, make_da(a));
              }
            valid = valid && s.is_valid();
            sets.push_back(s);
          }
          if (!valid || (n > 1 && sa != (1 << n) - 1 && sb != (1 << n) - 1))
            continue; // (no item in common)
          const auto out = sd::concat(sets, X);
          ++E.transitions;
          std::set<std::string> want, got;
          if (sa == (1 << n) - 1)
            want.insert("a");
          if (sb == (1 << n) - 1)
            want.insert("b");
          if (n == 1)
            want.insert("c");
          for (const auto &i : out) {
            got.insert(i.name());
            DA w;
            w.data = A(D, units::one, {X}, {2 * n}, {});
            for (int k = 0; k < n; ++k)
              for (int j = 0; j < 2; ++j)
                w.data.v.push_back(Cell(10 * k + j + (i.name() == "a" ? 1 : i.name() == "b" ? 7 : 9)));
            w.coords.push_back({X, {iota({X}, {2 * n}, 0), true}});
            const auto diff = difference(read_da(i), w);
            E.check_lazy(diff.empty(), "dataset", [&] { return "concat of datasets: item " + i.name() + ": " + diff; });
          }
          E.check_lazy(got == want, "dataset", [&] { return "concat of " + std::to_string(n) + " datasets, those with a: " + std::to_string(sa) + ", with b: " + std::to_string(sb) + ": wrong items"; });
        }
    E.nontrivial();
  });
  // datasets that consist of coords only
  for (int n = 1; n <= 3; ++n)
    for (int with_x = n == 1; with_x < 2; ++with_x) // (one dataset without the dimension: not specified)
      E.run("concat of " + std::to_string(n) + " datasets without items, " + (with_x ? "of the dimension" : "without the dimension"), [&, n, with_x] {
        const int kinds = 4; // plain, edges, independent of the dimension, both dimensions
        const int total = static_cast<int>(std::pow(with_x ? 4 : 1, n));
        for (int lens = 0; lens < total; ++lens)
          for (int set = 0; set < 1 << kinds; ++set)
            for (int differ = 0; differ < 2; ++differ)
              for (int l = 0; l < num_layouts; ++l) {
                std::vector<DA> in;
                std::vector<Dataset> sets;
                ix first_edge = 0;
                for (int i = 0; i < n; ++i) {
                  const ix len = lens >> (2 * i) & 3;
                  DA a;
                  a.data = with_x ? A(D, units::one, {Y, X}, {2, len}, {}) : A(D, units::one, {Y}, {2}, {});
                  for (ix k = 0; k < a.data.volume(); ++k)
                    a.data.v.push_back(Cell(0));
                  if (set & 1)
                    a.coords.push_back({X, {with_x ? iota({X}, {len}, 10 * i) : iota({}, {}, 10 * i), true}});
                  if (set & 2 && with_x) {
                    a.coords.push_back({Dim("edges"), {iota({X}, {len + 1}, first_edge), true}});
                    first_edge += len;
                  }
                  if (set & 4)
                    a.coords.push_back({Y, {iota({Y}, {2}, differ * i), true}});
                  if (set & 8)
                    a.coords.push_back({Dim("all"), {iota(a.data.dims, a.data.shape, 100 * i), true}});
                  scipp::core::Sizes sizes(a.data.dimensions());
                  scipp::dataset::Coords coords(sizes, {});
                  for (const auto &[k, c] : a.coords)
                    coords.set(k, make(c.a, l).view);
                  sets.emplace_back(Dataset({}, std::move(coords)));
                  in.push_back(std::move(a));
                }
                ++E.transitions;
                std::optional<DA> want;
                try {
                  want = concat_da(in, X);
                } catch (const Rejected &) {
                }
                const auto name = [&] { return "concat of datasets without items, lengths " + std::to_string(lens) + ", coords " + std::to_string(set) + ", different " + std::to_string(differ) + ", layout " + std::to_string(l); };
                Dataset out;
                const auto err = raised([&] { out = sd::concat(sets, X); });
                E.check_lazy(err.empty() == want.has_value(), "raise", [&] { return name() + (err.empty() ? " did not raise" : " raised " + err); });
                if (!err.empty() || !want)
                  continue;
                E.check_lazy(out.size() == 0, "dataset", [&] { return name() + ": has items"; });
                E.check_lazy(scipp::index(out.coords().size()) == ix(want->coords.size()), "dataset", [&] { return name() + ": number of coords"; });
                for (ix d = 0; d < ix(want->data.dims.size()); ++d)
                  E.check_lazy(out.sizes().contains(want->data.dims[d]) && out.sizes()[want->data.dims[d]] == want->data.shape[d], "dataset", [&] { return name() + ": wrong sizes"; });
                E.check_lazy(out.sizes().size() == ix(want->data.dims.size()), "dataset", [&] { return name() + ": wrong dimensions"; });
                for (const auto &[k, c] : want->coords)
                  E.check_lazy(out.coords().contains(k) && same_arr(read(out.coords()[k]), reorder_as(c.a, read(out.coords()[k]).dims)), "dataset", [&, k = k] { return name() + ": wrong coord " + to_string(k); });
              }
        E.nontrivial();
      });
  E.run("concat of binned data that differs", [&] {
    const auto make_one = [&](int what) {
      DA a;
      a.data = A(D, units::none, {X}, {2}, {});
      a = with_bins(a, 2);
      for (auto &b : a.bins) {
        if (what == 1)
          b.data.u = units::s;
        if (what == 2)
          b.coords[0].second.a.u = units::s;
        if (what == 3)
          b.coords[0].first = Dim("other");
        if (what == 4)
          b.masks.push_back({"m", iota({EV}, b.data.shape, 0, units::none, B)});
        if (what == 5)
          b.data.var = true;
        if (what == 6)
          b.data.t = L;
      }
      return a;
    };
    for (int what = 0; what < 7; ++what)
      for (int l = 0; l < 4; ++l)
        for (const auto d : {X, W})
          for (int flip = 0; flip < 2; ++flip) {
            const auto a = make_da(make_one(0), l), b = make_da(make_one(what), 3 - l);
            const auto err = raised([&] { static_cast<void>(sd::concat(flip ? std::vector<DataArray>{b, a} : std::vector<DataArray>{a, b}, d)); });
            ++E.transitions;
            E.check_lazy(err.empty() == (what == 0), "raise", [&] { return "concat of binned data, difference " + std::to_string(what) + (err.empty() ? " did not raise" : " raised " + err); });
            const auto diff = difference(read_da(a), make_one(0)) + difference(read_da(b), make_one(what));
            E.check_lazy(diff.empty(), "operand", [&] { return "concat of binned data changed an input: " + diff; });
          }
    E.nontrivial();
  });
}
/// Elements of a variable that can be written are distinct.
void apart(E_ &E, Variable v, const std::string &what) {
  const auto before = read(v);
  if (before.t != D || before.volume() == 0)
    return;
  std::string err = raised([&] { (void)v.values<double>(); });
  ++E.transitions;
  if (!err.empty()) {
    E.tally["read-only"]++;
    return;
  }
  for (ix i = 0; i < before.volume(); ++i) {
    auto vals = v.values<double>();
    const double old = vals[i];
    vals[i] = -99;
    auto want = before;
    want.v[i].x = -99;
    const auto diff = arr::difference(read(v), want);
    E.check_lazy(diff.empty(), "aliased", [&] { return what + ": after element " + std::to_string(i) + " of " + arr::str(before) + " is set: " + diff; });
    vals[i] = old;
  }
}
/// All metadata of a data array: every subset of dimensions in both orders,
/// with edges along each.
std::vector<Arr> all_meta(const Arr &data, int values) {
  std::vector<Arr> r;
  const int n = data.dims.size();
  for (int s = 0; s < (1 << n); ++s) {
    std::vector<Dim> dims;
    std::vector<ix> shape;
    for (int i = 0; i < n; ++i)
      if (s >> i & 1) {
        dims.push_back(data.dims[i]);
        shape.push_back(data.shape[i]);
      }
    for (int rev = 0; rev < (dims.size() > 1 ? 2 : 1); ++rev) {
      for (int e = -1; e < int(dims.size()); ++e) {
        auto sh = shape;
        if (e >= 0)
          ++sh[e];
        Arr a = A(D, units::s, dims, sh, {});
        for (ix i = 0; i < a.volume(); ++i) {
          const auto m = a.unravel(i);
          LD x = 0;
          if (values == 0) // all distinct
            x = i * i + 1;
          else if (values == 1) { // continuous along the last dimension
            for (size_t k = 0; k < m.size(); ++k)
              x = x * (k + 1 == m.size() || int(k) != e ? shape[k] : shape[k]) + m[k];
          } else if (values == 2) { // continuous along the edges, whatever is first
            LD f = 1;
            for (size_t k = 0; k < m.size(); ++k)
              if (int(k) == e)
                x += m[k];
            if (e >= 0)
              f = shape[e];
            for (size_t k = m.size(); k-- > 0;)
              if (int(k) != e) {
                x += f * m[k];
                f *= shape[k];
              }
          } else if (values == 3) // constant
            x = 7;
          else // edges only
            x = e >= 0 ? m[e] : m.empty() ? 0 : m[0];
          a.v.push_back(Cell(x));
        }
        r.push_back(a);
      }
      std::reverse(dims.begin(), dims.end());
      std::reverse(shape.begin(), shape.end());
    }
  }
  return r;
}
void reshapes(E_ &E) {
  struct Shape {
    std::vector<Dim> dims;
    std::vector<ix> shape;
  };
  const std::vector<Shape> shapes{{{}, {}}, {{X}, {3}}, {{X}, {1}}, {{X, Y}, {2, 3}}, {{X, Y}, {2, 2}}, {{X, Y}, {1, 3}}, {{X, Y}, {3, 1}}, {{X, Y}, {0, 2}}, {{X, Y}, {2, 0}}, {{X, Y}, {1, 1}}, {{X, Y, Z}, {2, 2, 2}}, {{X, Y, Z}, {1, 2, 3}}, {{X, Y, Z}, {2, 1, 2}}, {{X, Y, Z}, {2, 3, 1}}, {{X, Y, Z}, {2, 3, 2}}};
  for (const auto &sh : shapes)
    for (int values = 0; values < 5; ++values)
      E.run("flatten of a data array " + list(sh.dims) + " " + list(sh.shape) + ", values " + std::to_string(values), [&, values] {
        std::vector<std::vector<Dim>> labels{{}};
        const std::vector<Dim> all{X, Y, Z};
        for (const auto &p : all) {
          labels.push_back({p});
          for (const auto &q : all)
            if (q != p)
              labels.push_back({p, q});
        }
        labels.push_back({X, Y, Z});
        DA plain;
        plain.data = iota(sh.dims, sh.shape, 1, units::m);
        for (const auto &m : all_meta(plain.data, values)) {
          auto a = plain;
          a.coords.push_back({m.dims.empty() ? Dim("lab") : m.dims.back(), {m, true}});
          a.coords.push_back({Dim("label"), {m, false}});
          a.attrs.push_back({Dim("at"), m});
          bool edges = false;
          for (const auto &d : m.dims)
            edges |= edges_along(m, a.data, d);
          if (!edges) {
            auto k = m;
            k.t = B;
            k.u = units::none;
            for (auto &c : k.v)
              c.x = ix(c.x) % 2;
            a.masks.push_back({"m", k});
          }
          for (int l = 0; l < num_layouts + 1; ++l) {
            const bool bins = l == num_layouts;
            if (bins && plain.data.volume() == 0)
              continue;
            const auto am = bins ? with_bins(a, 1) : a;
            const auto x = make_da(am, 1, bins ? 0 : l);
            for (const auto &lab : labels)
              for (const auto to : {U, X, Y}) {
                std::set<std::string> unsure;
                std::optional<DA> want;
                try {
                  want = flatten_da(am, lab, to, unsure);
                } catch (const Rejected &) {
                }
                compare_da(E, "flatten of " + list(lab) + " to " + to_string(to), {&am}, want, [&] { return sd::flatten(x, scipp::span<const Dim>(lab), to); }, true, unsure);
                const auto same = difference(read_da(x), am);
                E.check_lazy(same.empty(), "operand", [&] { return "flatten changed its input: " + same; });
                // back
                if (want && unsure.empty() && !lab.empty()) {
                  const auto flat = sd::flatten(x, scipp::span<const Dim>(lab), to);
                  scipp::Dimensions target;
                  std::vector<ix> shape;
                  for (const auto &d : lab) {
                    target.addInner(d, am.data.shape[am.data.axis(d)]);
                    shape.push_back(am.data.shape[am.data.axis(d)]);
                  }
                  std::optional<DA> back;
                  try {
                    back = fold_da(*want, to, lab, shape);
                  } catch (const Rejected &) {
                  }
                  compare_da(E, "fold of flattened", {&am}, back, [&] { return sd::fold(flat, to, target); });
                }
              }
            if (!sh.dims.empty()) {
              std::set<std::string> unsure;
              std::optional<DA> want;
              try {
                want = flatten_da(am, sh.dims, U, unsure);
              } catch (const Rejected &) {
              }
              compare_da(E, "flatten of all dimensions", {&am}, want, [&] { return sd::flatten(x, std::nullopt, U); }, true, unsure);
            }
          }
        }
        E.nontrivial();
      });
  for (const auto &sh : std::vector<Shape>{{{X}, {6}}, {{X}, {4}}, {{X}, {1}}, {{X, Y}, {4, 2}}, {{Y, X}, {2, 6}}, {{Y, X, Z}, {2, 4, 2}}, {{Y, X}, {0, 4}}, {{X}, {0}}})
    for (int values = 0; values < 3; ++values)
      E.run("fold of a data array " + list(sh.dims) + " " + list(sh.shape) + ", values " + std::to_string(values), [&, values] {
        DA plain;
        plain.data = iota(sh.dims, sh.shape, 1, units::m);
        const ix n = extent(plain.data, X);
        for (const auto &m : all_meta(plain.data, values)) {
          auto a = plain;
          a.coords.push_back({m.dims.empty() ? Dim("lab") : m.dims.back(), {m, true}});
          a.coords.push_back({Dim("label"), {m, false}});
          a.attrs.push_back({Dim("at"), m});
          bool edges = false;
          for (const auto &d : m.dims)
            edges |= edges_along(m, a.data, d);
          if (!edges) {
            auto k = m;
            k.t = B;
            k.u = units::none;
            for (auto &c : k.v)
              c.x = ix(c.x) % 2;
            a.masks.push_back({"m", k});
          }
          for (int l = 0; l < num_layouts + 1; ++l) {
            const bool bins = l == num_layouts;
            if (bins && plain.data.volume() == 0)
              continue;
            const auto am = bins ? with_bins(a, 1) : a;
            const auto x = make_da(am, 2, bins ? 0 : l);
            for (const auto &dims : std::vector<std::vector<Dim>>{{U}, {U, W}, {X, U}, {U, X}, {U, W, X}, {Y, U}, {U, Y}})
              for (const auto &shape : pieces_of(dims.size(), 6)) {
                ix vol = 1;
                for (const auto s : shape)
                  vol *= s;
                if (vol != n && vol != n + 1)
                  continue;
                if (vol == 0 && shape.back() == 0 && edges)
                  continue;
                std::optional<DA> want;
                try {
                  want = fold_da(am, X, dims, shape);
                } catch (const Rejected &) {
                }
                scipp::Dimensions target;
                for (size_t i = 0; i < dims.size(); ++i)
                  target.addInner(dims[i], shape[i]);
                // edges that get a second dimension with edges
                compare_da(E, "fold to " + list(dims) + " " + list(shape), {&am}, want, [&] { return sd::fold(x, X, target); });
                const auto same = difference(read_da(x), am);
                E.check_lazy(same.empty(), "operand", [&] { return "fold changed its input: " + same; });
                if (want && n > 0) { // without bins the edges may be gone
                  const auto folded = sd::fold(x, X, target);
                  if (l == 0)
                    for (const auto &[k, c] : folded.coords())
                      apart(E, c, "a coord of fold to " + list(dims) + " " + list(shape));
                  compare_da(E, "flatten of folded", {&am}, am, [&] { return sd::flatten(folded, scipp::span<const Dim>(dims), X); });
                }
              }
          }
        }
        E.nontrivial();
      });
  E.run("transpose, squeeze and resize of data arrays", [&] {
    for (const auto &sh : shapes)
      for (int values = 0; values < 2; ++values) {
        DA plain;
        plain.data = iota(sh.dims, sh.shape, 1, units::m);
        for (const auto &m : all_meta(plain.data, values)) {
          auto a = plain;
          a.coords.push_back({m.dims.empty() ? Dim("lab") : m.dims.back(), {m, true}});
          a.attrs.push_back({Dim("at"), m});
          bool edges = false;
          for (const auto &d : m.dims)
            edges |= edges_along(m, a.data, d);
          if (!edges) {
            auto k = m;
            k.t = B;
            k.u = units::none;
            for (auto &c : k.v)
              c = Cell(ix(c.x) % 2);
            a.masks.push_back({"m", k});
          }
          for (int l = 0; l < num_layouts + 1; ++l) {
            const bool bins = l == num_layouts;
            if (bins && plain.data.volume() == 0)
              continue;
            const auto am = bins ? with_bins(a, 1) : a;
            const auto x = make_da(am, 3, bins ? 0 : l);
            Dataset set;
            set.setDataInit("i", x);
            auto order = sh.dims;
            std::sort(order.begin(), order.end());
            do {
              if (order.empty())
                continue;
              auto want = am;
              if (bins)
                gather_bins(want, transposed(positions(am), order), am.bins);
              else
                want.data = transposed(am.data, order);
              compare_da(E, "transpose to " + list(order), {&am}, want, [&] { return sd::transpose(x, order); });
              compare_da(E, "transpose of a dataset to " + list(order), {&am}, want, [&] { return DataArray(sd::transpose(set, order)["i"]); });
            } while (std::next_permutation(order.begin(), order.end()));
            for (int s = 0; s < 8; ++s) {
              std::vector<Dim> sel;
              bool bad = false;
              // what slicing at 0 gives
              auto y = x;
              for (int i = 0; i < 3; ++i)
                if (s >> i & 1) {
                  const Dim d = std::vector<Dim>{X, Y, Z}[i];
                  sel.push_back(d);
                  bad |= am.data.axis(d) < 0 || am.data.shape[am.data.axis(d)] != 1;
                  if (!bad)
                    y = y.slice({d, 0});
                }
              compare_da(E, "squeeze of " + list(sel), {&am}, bad ? std::nullopt : std::optional(read_da(y)), [&] { return sd::squeeze(x, scipp::span<const Dim>(sel)); });
              if (!bad) {
                DA direct = am;
                const auto got = sd::squeeze(x, scipp::span<const Dim>(sel));
                Arr pos = positions(am);
                for (const auto d : sel)
                  pos = point(pos, d, 0);
                if (bins)
                  gather_bins(direct, pos, am.bins);
                else {
                  direct.data = am.data;
                  for (const auto d : sel)
                    direct.data = point(direct.data, d, 0);
                }
                direct.coords.clear();
                direct.attrs.clear();
                direct.masks.clear();
                auto g = read_da(got);
                g.coords.clear();
                g.attrs.clear();
                g.masks.clear();
                const auto diff = difference(g, direct);
                E.check_lazy(diff.empty(), "result", [&] { return "squeeze of " + list(sel) + ": " + diff; });
                E.check_lazy(!got.coords().is_readonly() && !got.masks().is_readonly(), "readonly", [&] { return "the result of squeeze is read-only"; });
              }
            }
            if (!bins && l == 0)
              for (const auto d : {X, Y})
                for (ix n = 0; n < 4; ++n)
                  if (am.data.axis(d) >= 0) {
                    DA want;
                    want.data = am.data;
                    want.data.shape[want.data.axis(d)] = n;
                    want.data.v.assign(want.data.volume(), Cell(0));
                    for (const auto &[k, c] : am.coords)
                      if (c.a.axis(d) < 0)
                        want.coords.push_back({k, c});
                    for (const auto &[k, c] : am.masks)
                      if (c.axis(d) < 0)
                        want.masks.push_back({k, c});
                    for (const auto &[k, c] : am.attrs)
                      if (c.axis(d) < 0)
                        want.attrs.push_back({k, c});
                    compare_da(E, "resize of " + to_string(d) + " to " + std::to_string(n), {&am}, want, [&] { return sd::resize(x, d, n); });
                  }
          }
        }
      }
    E.nontrivial();
  });
}
} // namespace
VH_EXPLORE(O08) {
  variables(E);
  concats(E);
  reshapes(E);
}
VH_MAIN
