// O12: order, spacing and bin-edge queries answer for every line of a variable.
#include "../common/ds.h"
#include "scipp/dataset/except.h"
#include "scipp/dataset/histogram.h"
#include "scipp/variable/util.h"
#include <optional>

using namespace ds;
namespace {
using LD = long double;
using Line = std::vector<LD>;
bool sorted(const Line &v, bool asc) {
  for (size_t i = 1; i < v.size(); ++i)
    if (!(asc ? v[i - 1] <= v[i] : v[i - 1] >= v[i]))
      return false;
  return true;
}
bool even(const Line &v) {
  if (v.size() < 2 || !std::isfinite(v[0]) || !(v[1] > v[0]))
    return false;
  for (size_t i = 1; i < v.size(); ++i)
    if (!std::isfinite(v[i]) || v[i] - v[i - 1] != v[1] - v[0])
      return false;
  return true;
}
bool consecutive(const Line &v) {
  for (size_t i = 1; i < v.size(); ++i)
    if (v[i] - v[i - 1] != 1)
      return false;
  return true;
}
std::vector<Line> lines(const Arr &a, Dim d, Arr &out) {
  // the values along d for every combination of the other dimensions
  const int k = a.axis(d);
  out = a;
  out.dims.erase(out.dims.begin() + k);
  out.shape.erase(out.shape.begin() + k);
  std::vector<Line> r;
  for (ix i = 0; i < out.volume(); ++i) {
    auto m = out.unravel(i);
    m.insert(m.begin() + k, 0);
    Line l;
    for (ix j = 0; j < a.shape[k]; ++j) {
      m[k] = j;
      const auto &c = a.v[a.ravel(m)];
      l.push_back(a.t == S ? c.s.empty() ? -1 : LD(c.s[0]) : c.x);
    }
    r.push_back(l);
  }
  return r;
}
std::string where(const Arr &a, Dim d, int layout) { return "(" + arr::str(a) + ", " + to_string(d) + ") " + layout_name(layout); }
void query(vh::Explorer &E, const Arr &a, Dim d, int layout) {
  const auto m = make(a, layout);
  Arr want;
  const auto ls = lines(a, d, want);
  want.t = B;
  want.u = units::none;
  want.var = false;
  const auto check = [&](const char *name, auto &&call, auto &&rule, bool has, bool may_fail = false) {
    std::optional<Variable> out;
    const auto err = raised([&] { out = call(); });
    ++E.transitions;
    if (may_fail && !out)
      return;
    E.check_lazy(out.has_value() == has, has ? "rejected" : "not-rejected", [&] { return name + where(a, d, layout) + " " + err; });
    if (!out || !has)
      return;
    want.v.clear();
    for (const auto &l : ls)
      want.v.push_back(Cell(rule(l)));
    auto got = read(*out);
    if (got.dims.size() == want.dims.size() && std::is_permutation(got.dims.begin(), got.dims.end(), want.dims.begin()))
      got = transposed(got, want.dims);
    const auto diff = arr::difference(got, want);
    E.check_lazy(diff.empty(), name, [&] { return name + where(a, d, layout) + " is " + arr::str(got) + ": " + diff; });
  };
  const bool ordered = !a.var && (a.t == D || a.t == F || a.t == L || a.t == I || a.t == S || a.t == T);
  const bool short_ = a.shape[a.axis(d)] < 2; // nothing is compared
  for (const bool asc : {true, false}) {
    const auto o = asc ? SortOrder::Ascending : SortOrder::Descending;
    check(asc ? "issorted" : "issorted descending", [&] { return sv::issorted(m.view, d, o); }, [&](const Line &l) { return sorted(l, asc); }, ordered || short_, !ordered);
    if (!ordered)
      continue;
    bool all = true;
    for (const auto &l : ls)
      all = all && sorted(l, asc);
    const bool got = sv::allsorted(m.view, d, o);
    ++E.transitions;
    E.check_lazy(got == all, "allsorted", [&] { return std::string("allsorted") + (asc ? "" : " descending") + where(a, d, layout) + " is " + (got ? "true" : "false"); });
  }
  check("islinspace", [&] { return sv::islinspace(m.view, d); }, even, ordered && a.t != S);
  // only for integers next to each other in memory
  check("isarange", [&] { return sv::isarange(m.view, d); }, consecutive, !a.var && (a.t == L || a.t == I), m.view.stride(d) != 1);
  E.check_lazy(arr::difference(read(m.view), a).empty(), "operand-modified", [&] { return where(a, d, layout); });
}
Arr from(const std::vector<Line> &ls, DType t, bool inner, bool var = false, bool more = false) {
  const ix n = ls.at(0).size(), k = ls.size();
  Arr a = A(t, t == T ? units::ns : t == S ? units::none : units::m, {}, {}, {}, var);
  if (more || k > 1) {
    a.dims = inner ? std::vector<Dim>{Y, X} : std::vector<Dim>{X, Y};
    a.shape = inner ? std::vector<ix>{k, n} : std::vector<ix>{n, k};
  } else {
    a.dims = {X};
    a.shape = {n};
  }
  for (ix i = 0; i < a.volume(); ++i) {
    const ix l = k == 1 ? 0 : inner ? i / n : i % k, p = k == 1 ? i : inner ? i % n : i / k;
    Cell c(ls[l][p], var ? 0.5L : 0);
    if (t == S)
      c.s = ls[l][p] < 0 ? "" : std::string(1, char('a' + int(ls[l][p]) * 2)) + (p % 2 ? "" : "");
    a.v.push_back(c);
  }
  return a;
}
std::vector<Line> words(const Line &alphabet, int n) {
  std::vector<Line> r{{}};
  for (int i = 0; i < n; ++i) {
    std::vector<Line> s;
    for (const auto &l : r)
      for (const auto x : alphabet) {
        s.push_back(l);
        s.back().push_back(x);
      }
    r = s;
  }
  return r;
}
Line alphabet(DType t, bool small) {
  if (t == D || t == F)
    return small ? Line{0, 1, 2, NAN_} : Line{0, 1, 2, 3, NAN_, INF};
  if (t == S)
    return {-1, 0, 1, 2};
  return small ? Line{0, 1, 2} : Line{-1, 0, 1, 2, 4};
}
void queries(vh::Explorer &E) {
  for (const DType t : {D, F, L, I, T, S, B})
    for (int n = 0; n <= (E.thorough ? 6 : 5); ++n)
      E.run([&] { return "all lines of " + std::to_string(n) + " " + to_string(t); }, [&] {
        E.nontrivial();
        auto al = alphabet(t, n > 4);
        if (t == B)
          al = {0, 1};
        for (const auto &l : words(al, n)) {
          for (int layout = 0; layout <= broadcast_layout; ++layout)
            query(E, from({l}, t, true), X, layout);
          if (floating(t) && n < 4)
            query(E, from({l}, t, true, true), X, 0);
        }
      });
  for (const DType t : {D, F, L, I, T, S})
    for (int n = 1; n <= 3; ++n)
      for (const bool inner : {true, false})
        E.run([&] { return std::string("all pairs of ") + (inner ? "inner" : "outer") + " lines of " + std::to_string(n) + " " + to_string(t); }, [&] {
          E.nontrivial();
          const auto w = words(alphabet(t, true), n);
          for (const auto &p : w)
            for (const auto &q : w)
              for (int layout = 0; layout <= broadcast_layout; ++layout)
                if (n < 3 || layout == 0 || (&p - &w[0] + (&q - &w[0])) % 6 == layout)
                  query(E, from({p, q}, t, inner), X, layout);
        });
  // one step that is not as the others
  for (const DType t : {D, F, L, I, T})
    for (const bool inner : {true, false})
      for (const int n : {7, 40, 300})
        E.run([&] { return std::string("one other step in ") + (inner ? "inner" : "outer") + " lines of " + std::to_string(n) + " " + to_string(t); }, [&] {
          E.nontrivial();
          for (const int row : {0, 1, 2})
            for (int at = 0; at <= n; at += n > 100 && !E.thorough ? 7 : 1)
              for (const int by : {-2, -1, 0, 1})
                for (const bool asc : {true, false}) {
                  if (n > 100 && (row != 1 || by == 0))
                    continue;
                  std::vector<Line> ls(3);
                  for (int r = 0; r < 3; ++r)
                    for (int i = 0; i < n; ++i)
                      ls[r].push_back((asc ? i : n - i) + (r == row && i >= at ? by : 0));
                  for (const int layout : {0, 1, 5, broadcast_layout})
                    query(E, from(ls, t, inner), X, layout);
                }
        });
  E.run([&] { return std::string("three dimensions and nothing"); }, [&] {
    E.nontrivial();
    const std::vector<Dim> dims{X, Y, Z};
    for (const std::vector<ix> &shape : {std::vector<ix>{2, 3, 2}, {3, 1, 2}, {0, 2, 3}, {2, 0, 3}, {2, 3, 0}})
      for (int k = 0; k < 64; ++k)
        for (const auto t : {D, L, T}) {
          Arr a = A(t, t == T ? units::ns : units::m, dims, shape, {});
          for (ix i = 0; i < a.volume(); ++i) {
            const auto m = a.unravel(i);
            a.v.push_back(Cell(LD((k & 3) - 1) * m[0] + ((k >> 2 & 3) - 1) * m[1] + ((k >> 4) - 1) * m[2]));
          }
          for (const auto d : dims)
            for (int layout = 0; layout <= broadcast_layout; ++layout)
              query(E, a, d, layout);
        }
  });
}
void spaced(vh::Explorer &E) {
  const std::vector<LD> vals{-3, -0.1L, 0, 1, 2.5L, 1e6L};
  for (const DType t : {D, F})
    for (int num = 1; num <= 9; ++num)
      E.run([&] { return "linspace of " + std::to_string(num) + " " + to_string(t); }, [&] {
        E.nontrivial();
        const auto judge = [&](const Arr &s, const Arr &e, int layout) {
          const auto a = make(s, layout), b = make(e, layout);
          const auto got = read(sv::linspace(a.view, b.view, X, num));
          ++E.transitions;
          const auto what = [&] { return "linspace(" + arr::str(s) + ", " + arr::str(e) + ", " + std::to_string(num) + ") " + layout_name(layout) + " is " + arr::str(got); };
          auto dims = s.dims;
          dims.push_back(X);
          auto shape = s.shape;
          shape.push_back(num);
          E.check_lazy(got.t == t && got.u == s.u && !got.var && got.dims == dims && got.shape == shape, "linspace-kind", what);
          for (ix i = 0; i < s.volume(); ++i)
            for (int j = 0; j < num; ++j) {
              const LD x = got.v[i * num + j].x, lo = s.v[i].x, hi = e.v[i].x;
              if (j == num - 1)
                E.check_lazy(x == hi, "linspace-end", what);
              else {
                E.check_lazy(j != 0 || x == lo, "linspace-begin", what);
                const LD w = lo + (hi - lo) * j / (num - 1), scale = std::max(std::abs(lo), std::abs(hi));
                E.check_lazy(std::abs(x - w) <= scale * (t == F ? 4e-7L : 1e-15L), "linspace-value", what);
              }
            }
          if (num > 1) {
            const auto is = read(sv::islinspace(sv::linspace(a.view, b.view, X, num), X));
            for (ix i = 0; i < s.volume(); ++i)
              E.check_lazy((is.v[i].x != 0) == (e.v[i].x > s.v[i].x), "linspace-islinspace", what);
          }
          E.check_lazy(arr::difference(read(a.view), s).empty() && arr::difference(read(b.view), e).empty(), "operand-modified", what);
        };
        for (const auto lo : vals)
          for (const auto hi : vals) {
            const auto f = [&](LD v) { return t == F ? LD(float(v)) : LD(double(v)); };
            judge(A(t, units::m, {}, {}, {{f(lo)}}), A(t, units::m, {}, {}, {{f(hi)}}), 0);
            for (int layout = 0; layout <= broadcast_layout; ++layout) {
              judge(A(t, units::s, {Y}, {3}, {{f(lo)}, {f(hi)}, {5}}), A(t, units::s, {Y}, {3}, {{f(hi)}, {f(lo)}, {7}}), layout);
              judge(A(t, units::s, {Y, Z}, {2, 2}, {{f(lo)}, {f(hi)}, {5}, {1}}), A(t, units::s, {Y, Z}, {2, 2}, {{f(hi)}, {f(lo)}, {7}, {0}}), layout);
            }
          }
      });
  E.run([&] { return std::string("linspace that is rejected"); }, [&] {
    E.nontrivial();
    const auto no = [&](const Arr &s, const Arr &e, const char *why) {
      ++E.transitions;
      E.check_lazy(!raised([&] { (void)sv::linspace(make_plain(s), make_plain(e), X, 3); }).empty(), "not-rejected", [&] { return std::string("linspace with ") + why; });
    };
    const auto v = [&](DType t, units::Unit u, bool var = false) { return A(t, u, {}, {}, {{1, var ? 1.0L : 0}}, var); };
    for (const bool swap : {false, true}) {
      const auto both = [&](const Arr &a, const Arr &b, const char *why) { swap ? no(b, a, why) : no(a, b, why); };
      both(v(D, units::m), v(D, units::s), "other units");
      both(v(D, units::m), v(D, units::none), "no unit");
      both(v(D, units::m), v(D, units::Unit("mm")), "another scale");
      both(v(D, units::m), v(F, units::m), "other types");
      both(v(D, units::m), v(D, units::m, true), "variances");
      both(v(D, units::m, true), v(D, units::m, true), "variances");
      both(v(L, units::m), v(L, units::m), "integers");
      both(v(T, units::ns), v(T, units::ns), "datetimes");
      both(v(D, units::m), A(D, units::m, {Y}, {2}, {{1}, {2}}), "other dimensions");
      both(A(D, units::m, {Y}, {3}, {{1}, {2}, {3}}), A(D, units::m, {Y}, {2}, {{1}, {2}}), "other lengths");
      both(A(D, units::m, {X}, {2}, {{1}, {2}}), A(D, units::m, {X}, {2}, {{1}, {2}}), "the dimension in use");
    }
  });
}
/// Is metadata of these dimensions bin edges along d of data of these sizes?
bool edges_rule(const Arr &data, const Arr &c, Dim d) {
  if (c.axis(d) < 0)
    return false;
  for (size_t i = 0; i < c.dims.size(); ++i)
    if (!(c.dims[i] == d) && data.axis(c.dims[i]) < 0)
      return false;
    else if (!(c.dims[i] == d) && data.shape[data.axis(c.dims[i])] != c.shape[i])
      return false;
  return c.shape[c.axis(d)] == (data.axis(d) < 0 ? 2 : data.shape[data.axis(d)] + 1);
}
void recognised(vh::Explorer &E) {
  const std::vector<std::vector<Dim>> dims{{}, {X}, {Y}, {X, Y}, {Y, X}};
  const auto fill = [](const std::vector<Dim> &d, const std::vector<ix> &s) { return iota(d, s, 0, units::m); };
  for (const auto &dd : dims)
    for (int sx = 0; sx < 4; ++sx)
      for (int sy = 0; sy < 3; ++sy)
        E.run([&] { return "edges of data of " + std::to_string(dd.size()) + " dimensions, " + std::to_string(sx) + " and " + std::to_string(sy); }, [&] {
          E.nontrivial();
          std::vector<ix> s;
          for (const auto d : dd)
            s.push_back(d == X ? sx : sy);
          const Arr data = fill(dd, s);
          // all pairs of coordinates for X and Y that fit
          std::vector<std::optional<Arr>> cs{std::nullopt};
          for (const auto &cd : dims)
            for (int ex = 0; ex < 2; ++ex)
              for (int ey = 0; ey < 2; ++ey) {
                std::vector<ix> cshape;
                for (const auto d : cd)
                  cshape.push_back((data.axis(d) < 0 ? 1 : data.shape[data.axis(d)]) + (d == X ? ex : ey));
                const auto c = fill(cd, cshape);
                if (!raised([&] { DataArray a(make_plain(data)); a.coords().set(Dim("c"), make_plain(c)); }).empty())
                  continue;
                cs.push_back(c);
              }
          for (const auto &cx : cs)
            for (const auto &cy : cs) {
              DA a;
              a.data = data;
              if (cx)
                a.coords.push_back({X, {*cx, true}});
              if (cy)
                a.coords.push_back({Y, {*cy, false}});
              std::optional<DataArray> m;
              if (!raised([&] { m = make_da(a); }).empty())
                continue;
              const auto what = [&] { return str(a); };
              std::set<Dim> along;
              for (const auto d : {X, Y}) {
                const auto *c = a.coord(d);
                const bool hist = data.axis(d) >= 0 && c != nullptr && c->a.axis(d) >= 0 && c->a.shape[c->a.axis(d)] == data.shape[data.axis(d)] + 1;
                if (hist)
                  along.insert(d);
                ++E.transitions;
                E.check_lazy(sd::is_histogram(*m, d) == hist, "is_histogram", [&] { return "is_histogram(" + what() + ", " + to_string(d) + ")"; });
                Dataset s_;
                s_.setDataInit("a", *m);
                s_.setDataInit("b", *m);
                E.check_lazy(sd::is_histogram(s_, d) == hist, "is_histogram", [&] { return "is_histogram of a dataset of " + what() + ", " + to_string(d); });
                E.check_lazy(!sd::is_histogram(*m, Z), "is_histogram", [&] { return "is_histogram(" + what() + ", z)"; });
                if (c == nullptr)
                  continue;
                for (const auto q : {X, Y, Z}) {
                  const bool got = m->coords().is_edges(d, q);
                  E.check_lazy(got == edges_rule(data, c->a, q), "is_edges", [&] { return "is_edges(" + what() + ", " + to_string(d) + ", " + to_string(q) + ") is " + (got ? "true" : "false"); });
                }
                if (c->a.dims.size() == 1) {
                  const bool got = m->coords().is_edges(d);
                  E.check_lazy(got == edges_rule(data, c->a, c->a.dims[0]), "is_edges", [&] { return "is_edges(" + what() + ", " + to_string(d) + ") is " + (got ? "true" : "false"); });
                } else if (c->a.dims.size() > 1)
                  E.check_lazy(!raised([&] { (void)m->coords().is_edges(d); }).empty(), "not-rejected", [&] { return "is_edges(" + what() + ", " + to_string(d) + ") of several dimensions"; });
              }
              E.check_lazy(sd::edge_dimensions(*m) == along, "edge_dimensions", what);
              std::optional<Dim> one;
              (void)raised([&] { one = sd::edge_dimension(*m); });
              E.check_lazy(one.has_value() == (along.size() == 1) && (!one || *one == *along.begin()), "edge_dimension", what);
            }
        });
}
} // namespace

VH_EXPLORE(O12) {
  queries(E);
  spaced(E);
  recognised(E);
}
VH_MAIN
