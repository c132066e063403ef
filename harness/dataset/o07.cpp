// O07: sorting yields the ordered permutation and moves everything along.
#include "../common/ds.h"
#include "scipp/dataset/sort.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/sort.h"
#include "scipp/variable/util.h"
#include <algorithm>
#include <numeric>

using namespace ds;
using Order = scipp::SortOrder;

namespace {
/// Whether a may stand directly before b.
bool in_order(const Cell &a, const Cell &b, DType t, Order o) {
  if (t == S)
    return o == Order::Ascending ? a.s <= b.s : a.s >= b.s;
  if (o == Order::Ascending)
    return std::isnan(b.x) || (!std::isnan(a.x) && a.x <= b.x);
  // descending: NaN together, at either end
  return std::isnan(b.x) || std::isnan(a.x) || a.x >= b.x;
}
bool ordered(const Cells &k, DType t, Order o) {
  int runs = 0;
  for (size_t i = 0; i < k.size(); ++i) {
    if (t != S && std::isnan(k[i].x) && (i == 0 || !std::isnan(k[i - 1].x)))
      ++runs;
    if (i > 0 && !in_order(k[i - 1], k[i], t, o))
      return false;
  }
  return runs <= 1 && (runs == 0 || k.empty() || std::isnan(k.front().x) || std::isnan(k.back().x));
}
Cells alphabet(DType t) {
  if (t == S) {
    Cells r(4);
    r[0].s = "b";
    r[1].s = "a";
    r[2].s = "";
    r[3].s = "ab";
    return r;
  }
  if (t == B)
    return {Cell(1), Cell(0)};
  if (floating(t))
    return {Cell(2, 1), Cell(-1, 2), Cell(NAN_, 3), Cell(INF, 4), Cell(2, 5)};
  return {Cell(3), Cell(-1), Cell(0), Cell(7)};
}
units::Unit unit_of(DType t) { return t == T ? units::ns : t == S || t == B ? units::none : units::m; }
std::string oname(Order o) { return o == Order::Ascending ? "ascending" : "descending"; }
template <class F> void sequences(int n, int len, F &&f) {
  long total = 1;
  for (int i = 0; i < len; ++i)
    total *= n;
  std::vector<int> s(len);
  for (long k = 0; k < total; ++k) {
    long x = k;
    for (int i = 0; i < len; ++i, x /= n)
      s[i] = x % n;
    f(s);
  }
}

// (a) sorting the values of a variable -----------------------------------------
void multiset_sorted(vh::Explorer &E, const Cells &got, Cells in, DType t, bool var, Order o, const std::function<std::string()> &what) {
  ++E.transitions;
  E.check_lazy(ordered(got, t, o), "order", what);
  // the same pairs of value and variance
  std::vector<bool> used(in.size());
  for (const auto &g : got) {
    bool found = false;
    for (size_t i = 0; i < in.size() && !found; ++i)
      if (!used[i] && same_cell(g, in[i], t, var)) {
        used[i] = true;
        found = true;
      }
    E.check_lazy(found, "permutation", what);
  }
}
void values_sweep(vh::Explorer &E) {
  for (const DType t : {D, F, L, I, S, T})
    for (const bool var : {false, true})
      for (const Order o : {Order::Ascending, Order::Descending})
        for (int len = 0; len <= 5; ++len) {
          if (var && !floating(t))
            continue;
          E.run([&] { return "sort values of " + to_string(t) + " " + oname(o) + ", length " + std::to_string(len); }, [&] {
            if (len > 1)
              E.nontrivial();
            const auto al = alphabet(t);
            sequences(al.size() - (var ? 0 : floating(t)), len, [&](const std::vector<int> &s) {
              Arr a = A(t, unit_of(t), {X}, {len}, {}, var);
              for (const auto i : s)
                a.v.push_back(al[i]);
              const auto v = make_plain(a);
              const auto g = read(sv::sort(v, X, o));
              const auto what = [&] { return "sort(" + arr::str(a) + ", " + oname(o) + ") is " + arr::str(g); };
              E.check_lazy(g.dims == a.dims && g.shape == a.shape && g.t == t && g.u == a.u && g.var == var, "kind", what);
              multiset_sorted(E, g.v, a.v, t, var, o, what);
              E.check_lazy(arr::difference(read(v), a).empty(), "operand-modified", what);
            });
          });
        }
  // lines of an array
  for (const DType t : {D, L, S})
    for (const std::vector<ix> &shape : std::vector<std::vector<ix>>{{2, 3}, {3, 2}, {1, 4}, {0, 3}, {3, 0}, {2, 2, 3}})
      for (const Order o : {Order::Ascending, Order::Descending})
        E.run([&] { return "sort lines of " + to_string(t); }, [&] {
          E.nontrivial();
          Arr a = A(t, unit_of(t), {X, Y, Z}, shape, {}, false);
          a.dims.resize(shape.size());
          for (ix i = 0; i < a.volume(); ++i) {
            Cell c((i * 5 + 2) % 7);
            c.s = std::string(1, char('a' + (i * 5 + 2) % 7));
            a.v.push_back(c);
          }
          for (int l = 0; l <= broadcast_layout; ++l)
            for (int d = 0; d < int(shape.size()); ++d) {
              Arr g;
              const auto m = make(a, l);
              const auto e = raised([&] { g = read(sv::sort(m.view, a.dims[d], o)); });
              const auto what = [&] { return "sort(" + arr::str(a) + ", " + to_string(a.dims[d]) + ", " + oname(o) + ") " + layout_name(l) + " is " + arr::str(g); };
              if (d + 1 != int(shape.size()) && e == "DimensionError")
                continue; // documented only for contiguous dimensions
              E.check_lazy(e.empty(), "raised", [&] { return what() + " raised " + e; });
              E.check_lazy(g.dims == a.dims && g.shape == a.shape, "kind", what);
              std::map<ix, std::pair<Cells, Cells>> lines;
              for (ix i = 0; i < a.volume(); ++i) {
                auto k = a.unravel(i);
                k[d] = 0;
                lines[a.ravel(k)].first.push_back(a.v[i]);
                lines[a.ravel(k)].second.push_back(g.v[i]);
              }
              for (const auto &[k, p] : lines)
                multiset_sorted(E, p.second, p.first, t, false, o, what);
              E.check_lazy(arr::difference(read(m.view), a).empty(), "operand-modified", what);
            }
        });
}

// (b) sorting by a key ----------------------------------------------------------
/// Permutation with which the key was sorted, from an array that numbers the
/// positions.
std::vector<ix> permutation(vh::Explorer &E, const Arr &ids, ix n, const std::function<std::string()> &what) {
  std::vector<ix> p;
  std::vector<bool> seen(n);
  for (const auto &c : ids.v) {
    const ix i = ix(c.x);
    E.check_lazy(i >= 0 && i < n && !seen[i], "permutation", what);
    seen[i] = true;
    p.push_back(i);
  }
  E.check_lazy(ix(p.size()) == n, "permutation", what);
  return p;
}
void check_key(vh::Explorer &E, const Cells &key, DType t, const std::vector<ix> &p, Order o, const std::function<std::string()> &what) {
  Cells k;
  for (const auto i : p)
    k.push_back(key[i]);
  ++E.transitions;
  E.check_lazy(ordered(k, t, o), "order", what);
}
/// Data array with metadata of all kinds; position i along X is numbered by
/// coordinate "id".
DA rich(ix n, int form, DType kt, const Cells &key) {
  DA a;
  a.name = "rich";
  std::vector<Dim> dims;
  std::vector<ix> shape;
  if (form == 0)
    dims = {X}, shape = {n};
  else if (form == 1)
    dims = {X, Y}, shape = {n, 2};
  else
    dims = {Y, X}, shape = {2, n};
  a.data = iota(dims, shape, 100, units::counts, D, true);
  if (form == 3) { // binned
    a.binned = true;
    a.data.var = false;
    for (ix i = 0; i < 2 * n; ++i) {
      DA b;
      const ix k = (i * 2 + 1) % 3;
      b.data = iota({EV}, {k}, 1000 + 10 * i, units::counts, D, true);
      b.coords.push_back({Dim("time"), {iota({EV}, {k}, 2000 + 10 * i, units::us), true}});
      a.bins.push_back(b);
    }
    if (a.bins.empty()) {
      DA b;
      b.data = iota({EV}, {0}, 0, units::counts, D, true);
      a.data.v.clear();
    } else
      a.data.v.assign(2 * n, Cell());
  }
  a.coords.push_back({Dim("id"), {iota({X}, {n}, 0, units::none, L), true}});
  a.coords.push_back({Dim("key"), {A(kt, unit_of(kt), {X}, {n}, key), true}});
  a.coords.push_back({X, {iota({X}, {n + 1}, 5), true}}); // edges
  a.coords.push_back({Dim("scalar"), {iota({}, {}, 7), false}});
  a.coords.push_back({Dim("unaligned"), {iota({X}, {n}, 50, units::s, D), false}});
  if (form > 0) {
    a.coords.push_back({Y, {iota({Y}, {3}, 9), true}}); // edges
    a.coords.push_back({Dim("xy"), {iota({Y, X}, {2, n}, 60, units::one, F), true}});
    a.coords.push_back({Dim("yedge"), {iota({X, Y}, {n, 3}, 70), true}});
    a.masks.push_back({"my", iota({Y}, {2}, 0, units::none, B)});
    a.masks.push_back({"mxy", iota({X, Y}, {n, 2}, 1, units::none, B)});
  }
  a.masks.push_back({"mx", iota({X}, {n}, 1, units::none, B)});
  a.attrs.push_back({Dim("ax"), iota({X}, {n}, 80, units::none, S)});
  a.attrs.push_back({Dim("a0"), iota({}, {}, 81)});
  return a;
}
void key_case(vh::Explorer &E, const Cells &key, DType t, Order o, int layout) {
  const ix n = key.size();
  for (int form = 0; form < 4; ++form) {
    if (form == 3 && n == 0)
      continue;
    const DA a = rich(n, form, t, key);
    const auto da = make_da(a, form + layout % 4, 0);
    const auto kv = layout ? make(a.coord(Dim("key"))->a, layout).view : make_plain(a.coord(Dim("key"))->a);
    for (const bool by_name : {true, false}) {
      const auto g = read_da(by_name ? sd::sort(da, Dim("key"), o) : sd::sort(da, kv, o));
      const auto what = [&] { return "sort(" + str(a) + ", " + oname(o) + ") is " + str(g); };
      E.check_lazy(g.coord(Dim("id")) != nullptr, "metadata", what);
      const auto p = permutation(E, g.coord(Dim("id"))->a, n, what);
      check_key(E, key, t, p, o, what);
      const auto d = difference(g, take(a, X, p));
      E.check_lazy(d.empty(), "moved", [&] { return what() + ": " + d; });
      E.check_lazy(difference(read_da(da), a).empty(), "operand-modified", what);
    }
    { // the key is an attribute
      auto b = a;
      b.attrs.push_back({Dim("key"), a.coord(Dim("key"))->a});
      b.coords.erase(std::find_if(b.coords.begin(), b.coords.end(), [](const auto &c) { return c.first == Dim("key"); }));
      const auto g = read_da(sd::sort(make_da(b, form + layout % 4, 0), Dim("key"), o));
      const auto what = [&] { return "sort(" + str(b) + ") by an attribute, " + oname(o) + " is " + str(g); };
      E.check_lazy(g.coord(Dim("id")) != nullptr, "metadata", what);
      const auto p = permutation(E, g.coord(Dim("id"))->a, n, what);
      check_key(E, key, t, p, o, what);
      const auto d = difference(g, take(b, X, p));
      E.check_lazy(d.empty(), "moved", [&] { return what() + ": " + d; });
    }
    // variable
    const auto v = read_var(sd::sort(da.data(), kv, o));
    DA only;
    only.data = a.data;
    only.binned = a.binned;
    only.bins = a.bins;
    const auto whatv = [&] { return "sort of the data of " + str(a) + ", " + oname(o) + " is " + str(v); };
    // the permutation from the data: distinct numbers, or bins
    std::vector<ix> p;
    if (!a.binned) {
      const Arr line = form == 0 ? v.data : point(v.data, Y, 0), in = form == 0 ? a.data : point(a.data, Y, 0);
      Arr ids = line;
      for (auto &c : ids.v) {
        ix k = -1;
        for (ix i = 0; i < n; ++i)
          if (in.v[i].x == c.x)
            k = i;
        c.x = k;
      }
      p = permutation(E, ids, n, whatv);
      check_key(E, key, t, p, o, whatv);
      const auto d = difference(v, take(only, X, p));
      E.check_lazy(d.empty(), "moved-data", [&] { return whatv() + ": " + d; });
    }
  }
  // dataset with two items
  Dataset s;
  auto a = rich(n, 1, t, key), b = rich(n, 1, t, key);
  b.data = iota({Y, X}, {2, n}, 500, units::m, L);
  a.name = "a";
  b.name = "b";
  s.setDataInit("a", make_da(a));
  s.setDataInit("b", make_da(b));
  for (const bool by_name : {true, false}) {
    const auto r = by_name ? sd::sort(s, Dim("key"), o) : sd::sort(s, make_plain(a.coord(Dim("key"))->a), o);
    E.check_lazy(r.size() == 2, "dataset", [] { return "number of items differs"; });
    const auto ga = read_da(r["a"]), gb = read_da(r["b"]);
    const auto what = [&] { return "sort of a dataset with " + str(a) + ", " + oname(o) + " is " + str(ga); };
    E.check_lazy(ga.coord(Dim("id")) != nullptr, "metadata", what);
    const auto p = permutation(E, ga.coord(Dim("id"))->a, n, what);
    check_key(E, key, t, p, o, what);
    for (const auto &[g, w] : {std::pair{ga, a}, std::pair{gb, b}}) {
      const auto d = difference(g, take(w, X, p));
      E.check_lazy(d.empty(), "moved", [&] { return what() + ": " + d; });
    }
  }
}
void key_sweep(vh::Explorer &E) {
  for (const DType t : {D, F, L, I, S, T, B})
    for (const Order o : {Order::Ascending, Order::Descending})
      for (int len = 0; len <= (E.thorough ? 5 : 4); ++len)
        for (int layout = 0; layout < 3; ++layout) {
          if (layout > 0 && t != D)
            continue;
          // blocks by first element
          const auto al = alphabet(t);
          const int n = floating(t) ? al.size() - 1 : al.size();
          for (int first = 0; first < (len ? n : 1); ++first)
            E.run([&] { return "sort by a key of " + to_string(t) + " " + oname(o) + ", length " + std::to_string(len) + ", layout " + layout_name(layout); }, [&] {
              if (len > 1)
                E.nontrivial();
              sequences(n, len, [&](const std::vector<int> &s) {
                if (len && s[0] != first)
                  return;
                Cells key;
                for (const auto i : s)
                  key.push_back(al[i]);
                for (auto &c : key)
                  c.var = 0;
                key_case(E, key, t, o, layout);
              });
            });
        }
  // all permutations of more distinct values
  for (const Order o : {Order::Ascending, Order::Descending})
    for (int first = 0; first < 6; ++first)
      E.run([&] { return "all permutations " + oname(o); }, [&] {
        E.nontrivial();
        std::vector<int> p(6);
        std::iota(p.begin(), p.end(), 0);
        do {
          if (p[0] != first)
            continue;
          Arr key = A(L, units::none, {X}, {6}, {});
          for (const auto i : p)
            key.v.push_back(Cell(i * 10));
          const auto da = DataArray(make_plain(iota({X}, {6}, 0)), {{Dim("key"), make_plain(key)}});
          const auto g = read_da(sd::sort(da, Dim("key"), o));
          for (int i = 0; i < 6; ++i) {
            const int want = o == Order::Ascending ? i : 5 - i;
            E.check_lazy(g.coord(Dim("key"))->a.v[i].x == want * 10 && p[ix(g.data.v[i].x)] == want, "order", [&] { return str(g); });
          }
          ++E.transitions;
        } while (std::next_permutation(p.begin(), p.end()));
      });
  // large
  for (const ix n : {100, 5000, 40000})
    for (const Order o : {Order::Ascending, Order::Descending})
      E.run([&] { return "sort " + std::to_string(n) + " elements"; }, [&] {
        E.nontrivial();
        Arr key = A(D, units::m, {X}, {n}, {});
        for (ix i = 0; i < n; ++i)
          key.v.push_back(Cell(i % 97 == 5 ? NAN_ : static_cast<long double>((i * 7919) % 1009)));
        const auto da = DataArray(make_plain(iota({X}, {n}, 0)), {{Dim("key"), make_plain(key)}});
        const auto g = read_da(sd::sort(da, Dim("key"), o));
        const auto what = [&] { return std::to_string(n) + " elements " + oname(o); };
        const auto p = permutation(E, g.data, n, what);
        check_key(E, key.v, D, p, o, what);
        E.check_lazy(difference(g, take(read_da(da), X, p)).empty(), "moved", what);
        multiset_sorted(E, {}, {}, D, false, o, what);
        const auto vals = read(sv::sort(make_plain(key), X, o));
        E.check_lazy(ordered(vals.v, D, o), "order", what);
      });
}
// (c) calls that must be rejected -------------------------------------------------
void rejected(vh::Explorer &E) {
  const auto da = make_da(rich(3, 1, D, {Cell(3), Cell(1), Cell(2)}));
  Dataset dset;
  dset.setDataInit("a", da);
  const auto bad = [&](const char *name, auto &&f) {
    E.run([&] { return std::string(name); }, [&] {
      E.nontrivial();
      const auto e = raised(f);
      ++E.transitions;
      E.check_lazy(!e.empty(), "not-rejected", [&] { return std::string(name); });
    });
  };
  for (const ix n : {0, 2, 4, 100}) {
    const auto key = make_plain(iota({X}, {n}, 0));
    bad("variable by a key of another length", [&] { (void)sd::sort(da.data(), key); });
    bad("data array by a key of another length", [&] { (void)sd::sort(da, key); });
    bad("dataset by a key of another length", [&] { (void)sd::sort(dset, key); });
  }
  bad("data array by bin edges", [&] { (void)sd::sort(da, X); });
  bad("dataset by bin edges", [&] { (void)sd::sort(dset, X); });
  bad("data array by a 2-D key", [&] { (void)sd::sort(da, Dim("xy")); });
  bad("dataset by a 2-D key", [&] { (void)sd::sort(dset, Dim("xy")); });
  bad("data array by a scalar", [&] { (void)sd::sort(da, Dim("scalar")); });
  bad("data array by a missing coordinate", [&] { (void)sd::sort(da, Dim("missing")); });
  bad("dataset by a missing coordinate", [&] { (void)sd::sort(dset, Dim("missing")); });
  bad("data array by a key of another dimension", [&] { (void)sd::sort(da, make_plain(iota({Z}, {3}, 0))); });
  bad("dataset by a key of another dimension", [&] { (void)sd::sort(dset, make_plain(iota({Z}, {3}, 0))); });
  bad("variable along a missing dimension", [&] { (void)sv::sort(make_plain(iota({X}, {3}, 0)), Y, Order::Ascending); });
}
// (d) predicates ------------------------------------------------------------------
void predicates(vh::Explorer &E) {
  for (const DType t : {D, F, L, I, S, T})
    for (int len = 0; len <= 5; ++len)
      E.run([&] { return "sortedness of " + to_string(t) + ", length " + std::to_string(len); }, [&] {
        if (len > 1)
          E.nontrivial();
        Cells al = alphabet(t);
        if (floating(t))
          al = {Cell(2), Cell(-1), Cell(INF), Cell(0.5L)};
        sequences(al.size(), len, [&](const std::vector<int> &s) {
          Arr a = A(t, unit_of(t), {X}, {len}, {});
          for (const auto i : s)
            a.v.push_back(al[i]);
          for (int l = 0; l < 4; ++l)
            for (const Order o : {Order::Ascending, Order::Descending}) {
              const auto v = make(a, l).view;
              const bool want = ordered(a.v, t, o);
              ++E.transitions;
              const auto what = [&] { return "sortedness of " + arr::str(a) + " " + oname(o); };
              E.check_lazy(sv::issorted(v, X, o).value<bool>() == want, "issorted", what);
              E.check_lazy(sv::allsorted(v, X, o) == want, "allsorted", what);
            }
        });
      });
  // lines of arrays
  for (const std::vector<ix> &shape : std::vector<std::vector<ix>>{{2, 3}, {3, 2}, {3, 0}, {0, 3}, {2, 2, 2}})
    for (int code = 0; code < 4; ++code)
      E.run([&] { return std::string("sortedness of lines"); }, [&] {
        E.nontrivial();
        Arr a = A(D, units::m, {X, Y, Z}, shape, {});
        a.dims.resize(shape.size());
        const ix n = a.volume();
        for (long k = 0; k < 729; ++k) {
          long x = k;
          a.v.clear();
          for (ix i = 0; i < n; ++i) {
            a.v.push_back(Cell(i < 6 ? x % 3 : code));
            x /= 3;
          }
          for (int d = 0; d < int(shape.size()); ++d)
            for (const Order o : {Order::Ascending, Order::Descending}) {
              const auto v = make(a, code).view;
              const auto g = read(sv::issorted(v, a.dims[d], o));
              std::map<ix, Cells> lines;
              for (ix i = 0; i < n; ++i)
                lines[g.index_of(a, i)].push_back(a.v[i]);
              bool all = true;
              ++E.transitions;
              for (ix i = 0; i < g.volume(); ++i) {
                const bool want = ordered(lines[i], D, o);
                all &= want;
                E.check_lazy((g.v[i].x != 0) == want, "issorted", [&] { return arr::str(a) + " " + oname(o) + " along " + to_string(a.dims[d]); });
              }
              E.check_lazy(sv::allsorted(v, a.dims[d], o) == all, "allsorted", [&] { return arr::str(a) + " " + oname(o) + " along " + to_string(a.dims[d]); });
            }
        }
      });
  // a single inversion at any of many positions
  for (const ix n : {40, 16385, 16400, 70000})
    E.run([&] { return "one inversion among " + std::to_string(n); }, [&] {
      E.nontrivial();
      auto v = make_plain(iota({X}, {n}, 0));
      auto w = copy(v * (-1.0 * units::one));
      E.check_lazy(sv::allsorted(v, X, Order::Ascending) && !sv::allsorted(v, X, Order::Descending), "allsorted", [] { return "increasing"; });
      E.check_lazy(!sv::allsorted(w, X, Order::Ascending) && sv::allsorted(w, X, Order::Descending), "allsorted", [] { return "decreasing"; });
      for (const ix at : {ix(0), ix(1), n / 24, n / 2, n / 2 + 1, ix(16383), ix(16384), n - 2}) {
        if (at + 1 >= n)
          continue;
        auto a = v.values<double>();
        auto b = w.values<double>();
        a[at] += 1.5;
        b[at] -= 1.5;
        ++E.transitions;
        E.check_lazy(!sv::allsorted(v, X, Order::Ascending), "allsorted", [&] { return "inversion at " + std::to_string(at); });
        E.check_lazy(!sv::allsorted(w, X, Order::Descending), "allsorted", [&] { return "inversion at " + std::to_string(at); });
        a[at] -= 1.5;
        b[at] += 1.5;
      }
    });
}
} // namespace

VH_EXPLORE(O07) {
  values_sweep(E);
  key_sweep(E);
  rejected(E);
  predicates(E);
}
VH_MAIN
