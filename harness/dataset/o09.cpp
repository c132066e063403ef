// O09: selection by label and by condition.
#include "../common/ds.h"
#include "scipp/dataset/dataset.h"
#include "scipp/dataset/extract.h"
#include "scipp/dataset/slice.h"
#include "scipp/variable/slice.h"
#include <optional>

using namespace ds;

namespace {
using vh_E = vh::Explorer;
const Dim LAB("lab");
using Words = std::vector<std::vector<LD>>;
/// All sequences of up to a length over an alphabet.
Words words(const std::vector<LD> &alphabet, size_t min, size_t max) {
  Words r;
  for (size_t n = min; n <= max; ++n) {
    std::vector<size_t> w(n, 0);
    while (true) {
      std::vector<LD> s;
      for (const auto i : w)
        s.push_back(alphabet[i]);
      r.push_back(s);
      size_t k = 0;
      while (k < n && ++w[k] == alphabet.size())
        w[k++] = 0;
      if (k == n)
        break;
    }
  }
  return r;
}
Cell cell_of(DType t, LD x) {
  Cell c(x);
  if (t == S)
    c.s = std::string(1, char('m' + int(2 * x)));
  if (t == V)
    c.y = 1, c.z = 2;
  return c;
}
std::vector<Cell> cells_of(DType t, const std::vector<LD> &v) {
  std::vector<Cell> r;
  for (const auto x : v)
    r.push_back(cell_of(t, x));
  return r;
}
enum class Order { none, ascending, descending, constant };
Order order_of(const std::vector<LD> &c) {
  bool up = true, down = true;
  for (size_t i = 1; i < c.size(); ++i) {
    up &= c[i - 1] <= c[i];
    down &= c[i - 1] >= c[i];
  }
  return up && down ? Order::constant : up ? Order::ascending : down ? Order::descending : Order::none;
}
struct Want {
  bool raises = false, any = false;
  bool may_raise = false;
  ix begin = 0, end = 0;
  std::optional<std::pair<ix, ix>> other; ///< alternative
};
/// What selecting a single value gives.
Want by_value(const std::vector<LD> &c, bool edges, LD x) {
  Want w;
  std::vector<ix> found;
  if (!edges) {
    for (size_t i = 0; i < c.size(); ++i)
      if (c[i] == x)
        found.push_back(i);
  } else {
    const auto o = order_of(c);
    if (o == Order::ascending || o == Order::descending)
      for (size_t i = 0; i + 1 < c.size(); ++i)
        if (o == Order::ascending ? c[i] <= x && x < c[i + 1] : c[i] >= x && x > c[i + 1])
          found.push_back(i);
  }
  if (found.size() != 1)
    w.raises = true;
  else
    w.begin = w.end = found[0];
  return w;
}
Want by_range(const std::vector<LD> &c, bool edges, std::optional<LD> b, std::optional<LD> e) {
  Want w;
  const auto o = order_of(c);
  const ix n = ix(c.size()) - edges;
  if (o == Order::none) {
    w.raises = true;
    return w;
  }
  if (o == Order::constant)
    w.may_raise = c.size() != 1;
  const bool up = o != Order::descending;
  if (b && e && (up ? *b > *e : *b < *e)) {
    w.any = true;
    w.may_raise = true;
    return w;
  }
  std::vector<ix> found;
  for (ix i = 0; i < n; ++i) {
    const LD lo = c[i], hi = edges ? c[i + 1] : c[i];
    bool in = true;
    if (edges) {
      if (b)
        in &= up ? hi > *b : hi < *b;
      if (e)
        in &= up ? lo < *e : lo > *e;
    } else {
      if (b)
        in &= up ? lo >= *b : lo <= *b;
      if (e)
        in &= up ? lo < *e : lo > *e;
    }
    if (in)
      found.push_back(i);
  }
  if (!found.empty()) {
    w.begin = found.front();
    w.end = found.back() + 1;
  }
  // one bin or none
  if (edges && b && e && *b == *e) {
    w.other = {0, 0};
    w.may_raise = true;
  }
  return w;
}
std::string describe(const Arr &c, const char *what, const std::string &q) { return std::string(what) + " " + q + " with coord " + arr::str(c); }

/// Objects with a coord along X that are selected from.
struct Objects {
  std::vector<std::pair<std::string, DataArray>> arrays;
  std::vector<std::pair<std::string, Dataset>> sets;
};
Objects objects_for(const Arr &coord, Dim key, ix n, int layout, bool aligned, bool all) {
  Objects r;
  const auto base = [&](std::vector<Dim> dims, std::vector<ix> shape, LD start) {
    DA a;
    a.data = iota(dims, shape, start, units::counts);
    a.coords.push_back({key, {coord, aligned}});
    a.coords.push_back({Dim("edge"), {iota({X}, {n + 1}, 50), true}});
    a.masks.push_back({"m", iota({X}, {n}, 0, units::none, B)});
    for (ix i = 0; i < n; ++i)
      a.masks.back().second.v[i].x = i % 2;
    return a;
  };
  r.arrays.push_back({"1-D", make_da(base({X}, {n}, 1), 0, layout)});
  if (!all)
    return r;
  auto yx = base({Y, X}, {2, n}, 20), xy = base({X, Y}, {n, 2}, 60);
  yx.coords.push_back({Y, {iota({Y}, {2}, 7), true}});
  r.arrays.push_back({"2-D inner", make_da(yx, 0, layout)});
  r.arrays.push_back({"2-D outer", make_da(xy, 0, layout)});
  Dataset s;
  s.setDataInit("a", r.arrays[1].second);
  DA other;
  other.data = iota({Y, X}, {2, n}, 90);
  s.setData("b", make_da(other));
  r.sets.push_back({"dataset", s});
  return r;
}
template <class Sel, class Direct> void selection(vh_E &E, const Want &w, const std::string &what, Sel &&sel, Direct &&direct) {
  ++E.transitions;
  DataArray got;
  const auto err = raised([&] { got = sel(); });
  if (!err.empty()) {
    E.check_lazy(w.raises || w.may_raise, "raise", [&] { return what + " raised " + err; });
    return;
  }
  E.check_lazy(!w.raises, "no raise", [&] { return what + " did not raise but gave " + str(read_da(got)); });
  if (w.raises || w.any)
    return;
  const auto matches = [&](ix b, ix e, bool range) -> std::string {
    if (range && b == e)
      return got.dims().volume() == 0 && got.dims().contains(X) && got.dims()[X] == 0 ? "" : "is not empty: " + str(read_da(got));
    return difference(read_da(got), read_da(direct(b, e)));
  };
  const bool range = &w && what.rfind("range", 0) == 0;
  auto d = matches(w.begin, w.end, range);
  if (!d.empty() && w.other && matches(w.other->first, w.other->second, range).empty())
    d.clear();
  E.check_lazy(d.empty(), "selection", [&] { return what + ": expected " + std::to_string(w.begin) + ":" + std::to_string(w.end) + ", " + d; });
}
void label_case(vh_E &E, DType t, DType qt, const std::vector<LD> &c, bool edges, const std::vector<LD> &queries, int layout, bool all, Dim key, bool aligned, bool may_raise = false) {
  const Arr coord = A(t, t == T ? units::ns : t == S || t == B ? units::none : units::m, {X}, {ix(c.size())}, cells_of(t, c));
  const ix n = ix(c.size()) - edges;
  const auto objs = objects_for(coord, key, n, layout, aligned, all);
  const auto scalar = [&](LD x) { return make_plain(A(qt, coord.u, {}, {}, {cell_of(qt, x)})); };
  const auto each = [&](Want w, const std::string &what, auto &&sel, const auto &direct) {
    w.may_raise |= may_raise;
    for (const auto &[name, da] : objs.arrays) {
      const auto &a = da;
      const auto before = read_da(a);
      selection(E, w, what + " of " + name, [&] { return sel(a); }, [&](ix b, ix e) { return a.slice(direct(b, e)); });
      // data values tell which elements were selected
      E.check_lazy(difference(read_da(a), before).empty(), "operand", [&] { return what + " changed the data array"; });
    }
    for (const auto &[name, set] : objs.sets)
      for (const auto &item : {"a", "b"})
        selection(E, w, what + " of item " + item, [&, &set = set] { return DataArray(sel(set)[item]); }, [&, &set = set](ix b, ix e) { return DataArray(set.slice(direct(b, e))[item]); });
  };
  for (const auto q : queries)
    each(by_value(c, edges, q), describe(coord, edges ? "bin" : "point", arr::str(cell_of(qt, q), qt, false)),
         [&](const auto &o) { return sd::slice(o, key, scalar(q)); }, [&](ix b, ix) { return scipp::Slice(X, b); });
  for (ix i = -1; i < ix(queries.size()); ++i)
    for (ix j = -1; j < ix(queries.size()); ++j) {
      std::optional<LD> b, e;
      if (i >= 0)
        b = queries[i];
      if (j >= 0)
        e = queries[j];
      auto w = by_range(c, edges, b, e);
      if (t == S || t == V || t == B) { // no order
        if (t == B)
          w.may_raise = true;
        else {
          w = Want();
          w.raises = true;
        }
      }
      const auto bound = [&](const std::optional<LD> &x) { return x ? arr::str(cell_of(qt, *x), qt, false) : std::string(); };
      // an item that does not depend on the dimension is not shortened
      Want wi = w;
      wi.may_raise |= may_raise;
      const auto what = describe(coord, edges ? "range of bins" : "range of points", bound(b) + ":" + bound(e));
      const auto sel = [&](const auto &o) { return sd::slice(o, key, b ? scalar(*b) : Variable{}, e ? scalar(*e) : Variable{}); };
      for (const auto &[name, da] : objs.arrays)
        selection(E, wi, what + " of " + name, [&, &da = da] { return sel(da); }, [&, &da = da](ix x, ix y) { return da.slice(scipp::Slice(X, x, y)); });
      for (const auto &[name, set] : objs.sets)
        selection(E, wi, what + " of dataset", [&, &set = set] { return DataArray(sel(set)["a"]); }, [&, &set = set](ix x, ix y) { return DataArray(set.slice(scipp::Slice(X, x, y))["a"]); });
    }
}
/// Positional selection itself agrees with the data.
void explore_labels(vh_E &E) {
  const std::vector<LD> alphabet{0, 1, 2, 3};
  struct Pair {
    DType t, q;
    std::vector<LD> queries;
    bool may_raise;
  };
  const std::vector<LD> half{-1, 0, 0.5, 1, 1.5, 2, 2.5, 3, 4}, whole{-1, 0, 1, 2, 3, 4};
  std::vector<Pair> pairs{{D, D, half, false}, {F, F, half, false}, {L, L, whole, false}, {I, I, whole, false}, {T, T, whole, false}, {S, S, whole, false}, {V, V, whole, false}, {B, B, {0, 1}, false},
                          {D, F, half, true}, {F, D, half, true}, {D, L, whole, true}, {L, D, half, true}, {L, I, whole, true}, {I, L, whole, true}, {I, D, half, true}};
  for (const auto &p : pairs)
    for (int edges = 0; edges < 2; ++edges) {
      if (edges && (p.t == S || p.t == V || p.t == B))
        continue;
      for (size_t n = 0; n <= (E.thorough ? 5 : 4); ++n)
        for (size_t first = 0; first < (n ? alphabet.size() : 1); ++first)
          E.run("labels " + to_string(p.t) + " by " + to_string(p.q) + (edges ? " edges" : " points") + ", length " + std::to_string(n) + ", first " + std::to_string(first), [&] {
            for (const auto &c : words(p.t == B ? std::vector<LD>{0, 1} : alphabet, n, n)) {
              if (n && c[0] != alphabet[first])
                continue;
              if (edges && c.empty())
                continue;
              const bool core = p.t == D && p.q == D;
              label_case(E, p.t, p.q, c, edges, p.queries, 0, core || n <= 3, X, true, p.may_raise);
              if (core && n <= 3)
                for (int l = 1; l < 6; ++l)
                  label_case(E, p.t, p.q, c, edges, p.queries, l, false, X, true, false);
              if (core && n <= 3) {
                label_case(E, p.t, p.q, c, edges, p.queries, 0, true, LAB, true);
                label_case(E, p.t, p.q, c, edges, p.queries, 0, true, X, false);
              }
              E.nontrivial();
            }
          });
    }
  // longer ones, all queries at, next to and between labels
  for (int edges = 0; edges < 2; ++edges)
    for (int down = 0; down < 2; ++down)
      for (ix n = 5; n <= (E.thorough ? 40 : 24); ++n)
        E.run("labels " + std::string(edges ? "edges" : "points") + (down ? " descending" : " ascending") + ", length " + std::to_string(n), [&, n] {
          for (int kind = 0; kind < 3; ++kind) {
            std::vector<LD> c, q;
            for (ix i = 0; i < n; ++i)
              c.push_back(kind == 0 ? i : kind == 1 ? i * i : (i / 2) * 2);
            q = {-1, c.back() + 1};
            for (const auto x : c) {
              q.push_back(x);
              q.push_back(std::nextafter(double(x), -1e9));
              if (q.size() < 20)
                q.push_back(x + 0.5);
            }
            if (down)
              std::reverse(c.begin(), c.end());
            label_case(E, D, D, c, edges, q, 0, false, X, true);
          }
          E.nontrivial();
        });
  E.run("selections that are rejected", [&] {
    const auto check = [&](const std::string &what, auto &&f) {
      ++E.transitions;
      E.check_lazy(!raised(f).empty(), "no raise", [&] { return what + " did not raise"; });
    };
    for (int edges = 0; edges < 2; ++edges)
      for (int l = 0; l < 6; ++l) {
        const auto c = iota({X}, {3 + edges}, 0, units::m);
        const auto objs = objects_for(c, X, 3, l, true, true);
        const auto all = [&](const std::string &what, Dim d, const Variable &x) {
          const auto both = [&](const auto &o) {
            check(what, [&] { static_cast<void>(sd::slice(o, d, x)); });
            check(what + " as begin", [&] { static_cast<void>(sd::slice(o, d, x, Variable{})); });
            check(what + " as end", [&] { static_cast<void>(sd::slice(o, d, Variable{}, x)); });
            check(what + " as begin and end", [&] { static_cast<void>(sd::slice(o, d, x, x)); });
          };
          for (const auto &[n, a] : objs.arrays)
            both(a);
          for (const auto &[n, s] : objs.sets)
            both(s);
        };
        all("value of another unit", X, makeVariable<double>(units::s, Values{1}));
        all("value without unit", X, makeVariable<double>(units::one, Values{1}));
        all("value in a multiple of the unit", X, makeVariable<double>(units::mm, Values{1}));
        all("value that is not a scalar", X, makeVariable<double>(Dims{X}, Shape{1}, units::m, Values{1}));
        all("value that is an array", X, makeVariable<double>(Dims{Y}, Shape{2}, units::m, Values{1, 1}));
        all("dimension without coord", Dim::Z, makeVariable<double>(units::m, Values{1}));
        all("string for numbers", X, makeVariable<std::string>(units::m, Values{std::string("a")}));
        // 2-D and scalar coords
        auto a = objs.arrays[1].second;
        a.coords().set(Dim("two"), make_plain(iota({Y, X}, {2, 3}, 0, units::m)));
        a.coords().set(Dim("two edges"), make_plain(iota({Y, X}, {2, 4}, 0, units::m)));
        a.coords().set(Dim("two outer"), make_plain(iota({X, Y}, {3, 3}, 0, units::m)));
        a.coords().set(Dim("none"), makeVariable<double>(units::m, Values{1}));
        const auto one = makeVariable<double>(units::m, Values{1});
        for (const auto *name : {"two", "two edges", "two outer", "none"}) {
          check(std::string("coord ") + name, [&] { static_cast<void>(sd::slice(a, Dim(name), one)); });
          check(std::string("range by coord ") + name, [&] { static_cast<void>(sd::slice(a, Dim(name), one, Variable{})); });
          check(std::string("range by coord ") + name, [&] { static_cast<void>(sd::slice(a, Dim(name), one, one)); });
        }
      }
    E.nontrivial();
  });
}

// --- by condition ----------------------------------------------------------
Arr condition(Dim d, ix n, unsigned bits) {
  Arr c = A(B, units::none, {d}, {n}, {});
  for (ix i = 0; i < n; ++i)
    c.v.push_back(Cell((bits >> i) & 1));
  return c;
}
std::vector<ix> chosen(ix n, unsigned bits) {
  std::vector<ix> r;
  for (ix i = 0; i < n; ++i)
    if (bits >> i & 1)
      r.push_back(i);
  return r;
}
DA table(ix n, ix k) {
  DA t;
  t.data = iota({EV}, {n}, k, units::counts);
  t.coords.push_back({X, {iota({EV}, {n}, k + 0.5, units::m), true}});
  t.masks.push_back({"em", A(B, units::none, {EV}, {n}, Cells(n, Cell(k % 2)))});
  return t;
}
DA with_everything(const Arr &data, bool binned) {
  DA a;
  a.data = data;
  if (binned) {
    a.binned = true;
    a.data.v.clear();
    a.data.t = D;
    for (ix i = 0; i < data.volume(); ++i)
      a.bins.push_back(table(i % 3, 10 * i));
  }
  a.coords.push_back({Dim("none"), {iota({}, {}, 4), false}});
  a.masks.push_back({"none", A(B, units::none, {}, {}, {Cell(1)})});
  for (size_t k = 0; k < data.dims.size(); ++k) {
    const auto d = data.dims[k];
    const auto name = to_string(d);
    a.coords.push_back({d, {iota({d}, {data.shape[k]}, 100 * k, units::m), true}});
    a.coords.push_back({Dim(name + " edges"), {iota({d}, {data.shape[k] + 1}, 300 * k, units::s), true}});
    a.coords.push_back({Dim(name + " label"), {iota({d}, {data.shape[k]}, 200 * k, units::m, D, true), false}});
    a.attrs.push_back({Dim(name + " attr"), iota({d}, {data.shape[k]}, 400 * k)});
    a.attrs.push_back({Dim(name + " edge attr"), iota({d}, {data.shape[k] + 1}, 500 * k)});
    auto m = iota({d}, {data.shape[k]}, k, units::none, B);
    for (auto &c : m.v)
      c = Cell(ix(c.x) % 2);
    a.masks.push_back({name, m});
  }
  if (data.dims.size() > 1) {
    a.coords.push_back({Dim("all"), {iota(data.dims, data.shape, 1000), true}});
    auto s = data.shape;
    ++s[0];
    a.coords.push_back({Dim("all edges"), {iota(data.dims, s, 2000), true}});
  }
  return a;
}
void explore_conditions(vh_E &E) {
  struct Kind {
    DType t;
    bool var;
  };
  const ix longest = E.thorough ? 7 : 5;
  const std::vector<std::vector<Dim>> orders{{X}, {X, Y}, {Y, X}, {Y, X, Z}};
  const auto shape_of = [](const std::vector<Dim> &dims, ix n) {
    std::vector<ix> s;
    for (const auto &d : dims)
      s.push_back(d == X ? n : d == Y ? 2 : 3);
    return s;
  };
  for (const auto &k : std::vector<Kind>{{D, false}, {D, true}, {F, true}, {L, false}, {I, false}, {B, false}, {S, false}, {T, false}, {V, false}})
    for (const auto &dims : orders)
      for (ix n = 0; n <= longest; ++n)
        E.run("condition for variable " + to_string(k.t) + (k.var ? " with variances " : " ") + std::to_string(dims.size()) + "-D " + to_string(dims[0]) + " length " + std::to_string(n), [&, n] {
          auto a = iota(dims, shape_of(dims, n), 1, units::m, k.t == S || k.t == V ? D : k.t, k.var);
          a.t = k.t;
          for (auto &c : a.v) {
            if (k.t == B)
              c = Cell(ix(c.x) % 3 == 0);
            else if (k.t == S || k.t == V)
              c = cell_of(k.t, c.x);
          }
          for (unsigned bits = 0; bits < (1u << n); ++bits)
            for (int l = 0; l < 6; ++l)
              for (int cl = 0; cl < 6; ++cl) {
                if (l && cl && l != cl)
                  continue;
                const auto v = make(a, l), c = make(condition(X, n, bits), cl);
                ++E.transitions;
                Variable got;
                const auto err = raised([&] { got = scipp::extract(v.view, c.view); });
                E.check_lazy(err.empty(), "raise", [&] { return "selecting " + arr::str(condition(X, n, bits)) + " (" + layout_name(cl) + ") of " + arr::str(a) + " raised " + err; });
                if (!err.empty())
                  continue;
                const auto d = arr::difference(read(got), take(a, X, chosen(n, bits)));
                E.check_lazy(d.empty(), "condition", [&] { return "selecting " + arr::str(condition(X, n, bits)) + " of " + arr::str(a) + ": " + d; });
                const auto e = arr::difference(read(v.view), a);
                E.check_lazy(e.empty(), "operand", [&] { return "selecting changed the variable: " + e; });
              }
          E.nontrivial();
        });
  for (int binned = 0; binned < 2; ++binned)
    for (const auto &dims : orders)
      for (ix n = 0; n <= longest; ++n)
        E.run("condition for " + std::string(binned ? "binned " : "") + "data array and dataset " + std::to_string(dims.size()) + "-D " + to_string(dims[0]) + " length " + std::to_string(n), [&, n] {
          auto a = with_everything(iota(dims, shape_of(dims, n), 1, units::m), binned);
          if (a.bins.size() == 0 && binned)
            return;
          // also along the other dimensions
          for (const auto &along : dims) {
            const ix m = along == X ? n : along == Y ? 2 : 3;
            for (unsigned bits = 0; bits < (1u << m); ++bits)
              for (int l = 0; l < (binned ? 4 : 6); ++l) {
                const auto da = binned ? make_da(a, l) : make_da(a, 0, l);
                const auto before = read_da(da);
                const auto c = make(condition(along, m, bits), l % 3 == 0 ? 0 : l);
                const auto want = take(a, along, chosen(m, bits));
                const auto text = [&] { return "selecting " + arr::str(condition(along, m, bits)) + " of " + str(a); };
                ++E.transitions;
                DataArray got;
                auto err = raised([&] { got = scipp::extract(da, c.view); });
                E.check_lazy(err.empty(), "raise", [&] { return text() + " raised " + err; });
                if (err.empty()) {
                  const auto d = difference(read_da(got), want);
                  E.check_lazy(d.empty(), "condition", [&] { return text() + ": " + d; });
                }
                const auto e = difference(read_da(da), before);
                E.check_lazy(e.empty(), "operand", [&] { return text() + " changed the data array: " + e; });
                // as part of a dataset
                Dataset s;
                s.setDataInit("a", da);
                DA other;
                other.data = iota(dims, a.data.shape, 900, units::s);
                other.masks.push_back({"o", condition(along, m, 0x2a)});
                s.setData("b", make_da(other, 0, binned ? 0 : (l + 1) % 6));
                ++E.transitions;
                Dataset sub;
                err = raised([&] { sub = scipp::extract(s, c.view); });
                E.check_lazy(err.empty(), "raise", [&] { return text() + " in a dataset raised " + err; });
                if (!err.empty())
                  continue;
                E.check_lazy(sub.size() == 2 && sub.contains("a") && sub.contains("b"), "condition", [&] { return text() + " in a dataset: wrong items"; });
                auto d = difference(read_da(DataArray(sub["a"])), want);
                E.check_lazy(d.empty(), "condition", [&] { return text() + " in a dataset: " + d; });
                auto wb = take(other, along, chosen(m, bits));
                const auto gb = read_da(DataArray(sub["b"]));
                d = arr::difference(gb.data, wb.data) + (gb.masks.size() == 1 ? arr::difference(gb.masks[0].second, wb.masks[0].second) : "no mask");
                E.check_lazy(d.empty(), "condition", [&] { return text() + ", other item of the dataset: " + d; });
                // its coords are those of the dataset
                for (const auto &[k, x] : gb.coords)
                  E.check_lazy(want.coord(k) && arr::difference(x.a, want.coord(k)->a).empty(), "condition", [&] { return text() + ": coord of the other item " + to_string(k); });
              }
          }
          E.nontrivial();
        });
  E.run("conditions that are rejected", [&] {
    for (int l = 0; l < 6; ++l)
      for (int binned = 0; binned < 2; ++binned) {
        if (binned && l > 3)
          continue;
        const auto a = with_everything(iota({X, Y}, {3, 2}, 1, units::m), binned);
        const auto da = binned ? make_da(a, l) : make_da(a, 0, l);
        Dataset s;
        s.setDataInit("a", da);
        const auto bad = [&](const std::string &what, const Variable &c) {
          E.transitions += 3;
          E.check_lazy(!raised([&] { static_cast<void>(scipp::extract(da.data(), c)); }).empty(), "no raise", [&] { return "condition that is " + what + " did not raise"; });
          E.check_lazy(!raised([&] { static_cast<void>(scipp::extract(da, c)); }).empty(), "no raise", [&] { return "condition that is " + what + " did not raise"; });
          E.check_lazy(!raised([&] { static_cast<void>(scipp::extract(s, c)); }).empty(), "no raise", [&] { return "condition that is " + what + " did not raise"; });
        };
        bad("a scalar", make_plain(A(B, units::none, {}, {}, {Cell(1)})));
        bad("2-D", make_plain(A(B, units::none, {X, Y}, {3, 2}, Cells(6, Cell(1)))));
        bad("too short", make_plain(condition(X, 2, 3)));
        bad("too long", make_plain(condition(X, 4, 15)));
        bad("empty", make_plain(condition(X, 0, 0)));
        bad("of another dimension", make_plain(condition(Z, 3, 7)));
        bad("of integers", make_plain(iota({X}, {3}, 0, units::none, L)));
        bad("of floats", make_plain(iota({X}, {3}, 0, units::none, D)));
      }
    E.nontrivial();
  });
}
} // namespace
VH_EXPLORE(O09) {
  explore_labels(E);
  explore_conditions(E);
}
VH_MAIN
