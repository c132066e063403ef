// O10: rebinning conserves counts and follows the overlap rule.
#include "../common/ds.h"
#include "scipp/dataset/rebin.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/rebin.h"

using namespace ds;

namespace {
using LD = long double;
DType out_type(DType t) { return t == F ? F : D; }
std::vector<LD> line(const Arr &e, Dim d, const std::vector<ix> &m, const Arr &labels) {
  // the edges of one line, for edges that may depend on other dimensions
  std::vector<LD> r;
  const int k = e.axis(d);
  std::vector<ix> at(e.dims.size());
  for (size_t i = 0; i < e.dims.size(); ++i)
    if (int(i) != k)
      at[i] = m[labels.axis(e.dims[i])];
  for (ix i = 0; i < e.shape[k]; ++i) {
    at[k] = i;
    r.push_back(e.v[e.ravel(at)].x);
  }
  return r;
}
/// Share of an old bin that falls in a new one.
LD share(LD ol, LD oh, LD nl, LD nh) {
  if (ol > oh)
    return share(oh, ol, nh, nl);
  const LD overlap = std::min(oh, nh) - std::max(ol, nl);
  return overlap > 0 ? overlap / (oh - ol) : 0;
}
Arr rebinned(const Arr &a, Dim d, const Arr &oe, const Arr &ne, const std::function<bool(ix)> &masked = {}) {
  Arr r = a;
  const int k = a.axis(d);
  r.t = out_type(a.t);
  r.shape[k] = ne.shape[ne.axis(d)] - 1;
  r.v.assign(r.volume(), Cell());
  for (ix i = 0; i < r.volume(); ++i) {
    auto m = r.unravel(i);
    const ix j = m[k];
    const auto n = line(ne, d, m, r), o = line(oe, d, m, r);
    for (ix q = 0; q < a.shape[k]; ++q) {
      m[k] = q;
      const auto f = share(o[q], o[q + 1], n[j], n[j + 1]);
      const ix at = a.ravel(m);
      if (f == 0 || (masked && masked(at)))
        continue;
      r.v[i].x += f * a.v[at].x;
      r.v[i].var += f * a.v[at].var;
    }
  }
  return r;
}
std::vector<std::vector<LD>> subsets(const std::vector<LD> &g, int min, int max) {
  std::vector<std::vector<LD>> r;
  for (unsigned m = 0; m < (1u << g.size()); ++m) {
    std::vector<LD> s;
    for (size_t i = 0; i < g.size(); ++i)
      if (m >> i & 1)
        s.push_back(g[i]);
    if (int(s.size()) >= min && int(s.size()) <= max)
      r.push_back(s);
  }
  return r;
}
Arr edges(const std::vector<LD> &e, bool desc, DType t, LD factor = 1, Dim d = X, units::Unit u = units::m) {
  Arr a = A(t, t == T ? units::ns : u, {d}, {ix(e.size())}, {});
  for (size_t i = 0; i < e.size(); ++i)
    a.v.push_back(Cell(factor * e[desc ? e.size() - 1 - i : i]));
  return a;
}
/// The order of the dimensions is not compared.
Arr like(const Arr &g, const Arr &w) {
  if (g.dims.size() != w.dims.size())
    return g;
  for (const auto &d : w.dims)
    if (g.axis(d) < 0)
      return g;
  return transposed(g, w.dims);
}
LD eps(DType t) { return t == F ? 2e-6L : 1e-13L; }

const std::vector<LD> old_grid{0, 1, 2.5L, 3, 5}, new_grid{-1, 0, 0.5L, 1, 2.5L, 2.75L, 5, 7};

Arr content(std::vector<Dim> dims, std::vector<ix> shape, DType t, bool var) {
  Arr a = A(t, t == B || t == dtype<int32_t> ? units::none : units::counts, std::move(dims), std::move(shape), {}, var);
  for (ix i = 0; i < a.volume(); ++i)
    a.v.push_back(Cell(t == B ? LD(i % 3 != 1) : LD((i * 5 + 3) % 8 + 1), var ? 0.5L * (i % 5 + 1) : 0));
  return a;
}
void one(vh::Explorer &E, const Arr &a, Dim d, const Arr &oe, const Arr &ne, int layout, int edge_layout = 0) {
  const auto m = make(a, layout);
  const auto o = make(oe, edge_layout).view, n = make(ne, edge_layout).view;
  const auto g = read(sv::rebin(m.view, d, o, n));
  const auto w = rebinned(a, d, oe, ne);
  ++E.transitions;
  const auto what = [&] { return "rebin(" + arr::str(a) + ", " + to_string(d) + ", " + arr::str(oe) + ", " + arr::str(ne) + ") " + layout_name(layout) + " is " + arr::str(g); };
  E.check_lazy(g.t == w.t && g.u == w.u && g.var == w.var, "kind", what);
  E.check_lazy(g.dims == w.dims && g.shape == w.shape, "dims", what);
  Arr gv = g, wv = w;
  gv.var = wv.var = false;
  auto diff = arr::difference(gv, wv, eps(w.t));
  E.check_lazy(diff.empty(), "value", [&] { return what() + ": " + diff; });
  diff = arr::difference(g, w, eps(w.t));
  E.check_lazy(diff.empty(), "variance", [&] { return what() + ": " + diff; });
  E.check_lazy(arr::difference(read(m.view), a).empty(), "operand-modified", what);
}

void all_edges(vh::Explorer &E) {
  const auto olds = subsets(old_grid, 2, 5);
  const auto news = subsets(new_grid, 2, E.thorough ? 8 : 4);
  for (const auto &o : olds)
    for (const bool desc : {false, true})
      for (const DType t : {D, F, L, I, B})
        E.run([&] { return "all new edges for " + arr::str(edges(o, desc, D)) + ", " + to_string(t); }, [&] {
          E.nontrivial();
          const ix n = o.size() - 1;
          for (const bool var : {false, true}) {
            if (var && !floating(t))
              continue;
            const auto a1 = content({X}, {n}, t, var), a2 = content({X, Y}, {n, 2}, t, var), a3 = content({Y, X}, {2, n}, t, var);
            for (const auto &e : news) {
              one(E, a1, X, edges(o, desc, D), edges(e, desc, D), 0);
              one(E, a2, X, edges(o, desc, D), edges(e, desc, D), 0);
              if (e.size() < 4)
                one(E, a3, X, edges(o, desc, D), edges(e, desc, D), 0);
            }
          }
        });
}
void forms(vh::Explorer &E) {
  const auto olds = subsets({0, 1, 2.5L, 3}, 2, 4);
  auto news = subsets({-1, 0, 0.5L, 2.5L, 7}, 2, 4);
  news.push_back({0, 0, 1, 1, 3}); // empty new bins
  news.push_back({2, 2});
  struct Form {
    std::vector<Dim> dims;
    std::vector<ix> shape; // -1: rebinned
  };
  const std::vector<Form> fs{{{X}, {-1}}, {{X, Y}, {-1, 2}}, {{Y, X}, {2, -1}}, {{X, Y}, {-1, 1}}, {{X, Y}, {-1, 0}}, {{Y, X}, {0, -1}}, {{Z, X, Y}, {2, -1, 2}}, {{X, Y, Z}, {-1, 2, 2}}, {{Y, Z, X}, {2, 1, -1}}};
  for (const auto &f : fs)
    for (const bool desc : {false, true})
      for (const DType ct : {D, F, T})
        for (const DType t : {D, F, L, I, B})
          E.run([&] { return "layouts, " + to_string(t) + " with edges of " + to_string(ct) + ", " + std::to_string(f.dims.size()) + " dimensions"; }, [&] {
            E.nontrivial();
            for (const auto &o : olds)
              for (const auto &e : news)
                for (const bool var : {false, true}) {
                  if (var && !floating(t))
                    continue;
                  const LD factor = ct == T ? 2 : 1;
                  const auto oe = edges(o, desc, ct, factor), ne = edges(e, desc, ct, factor);
                  auto shape = f.shape;
                  for (auto &s : shape)
                    s = s < 0 ? ix(o.size()) - 1 : s;
                  const auto a = content(f.dims, shape, t, var);
                  for (int l = 0; l <= broadcast_layout; ++l) {
                    std::string r;
                    if (ct != D || t == F || t == B) {
                      // not every combination is supported, but none may be wrong
                      r = raised([&] { (void)sv::rebin(make(a, l).view, X, make_plain(oe), make_plain(ne)); });
                      if (r == "TypeError")
                        continue;
                    }
                    one(E, a, X, oe, ne, l, l % 3);
                  }
                }
          });
  // edges that depend on another dimension
  for (const bool desc : {false, true})
    for (int form = 0; form < 4; ++form)
      E.run([&] { return std::string("edges of two dimensions"); }, [&] {
        E.nontrivial();
        const auto line2 = [&](const std::vector<LD> &p, const std::vector<LD> &q, bool transposed_) {
          Arr a = A(D, units::m, {Y, X}, {2, ix(p.size())}, {});
          for (const auto *s : {&p, &q})
            for (size_t i = 0; i < s->size(); ++i)
              a.v.push_back(Cell((*s)[desc ? s->size() - 1 - i : i]));
          return transposed_ ? transposed(a, {X, Y}) : a;
        };
        const auto news3 = subsets({-1, 0, 0.5L, 2.5L, 7}, 3, 3);
        const auto olds3 = subsets({0, 1, 2.5L, 3}, 3, 3);
        for (const auto &o1 : olds3)
          for (const auto &o2 : olds3)
            for (const auto &n1 : news3)
              for (size_t k = 0; k < news3.size(); k += 3) {
                const auto &n2 = news3[k];
                const auto a = form % 2 ? content({X, Y}, {2, 2}, D, true) : content({Y, X}, {2, 2}, D, true);
                one(E, a, X, line2(o1, o2, form & 2), edges(n1, desc, D), form);
                one(E, a, X, edges(o1, desc, D), line2(n1, n2, form & 2), form);
                one(E, a, X, line2(o1, o2, form & 2), line2(n1, n2, false), 0);
              }
      });
  // many bins
  for (const ix n : {1000, 20000})
    for (const bool desc : {false, true})
      for (const int form : {0, 1, 2})
        E.run([&] { return std::to_string(n) + " bins"; }, [&] {
          E.nontrivial();
          std::vector<LD> o, e;
          LD x = 0;
          for (ix i = 0; i <= n; ++i)
            o.push_back(x += 1 + (i * 7 % 5));
          x = -10;
          for (ix i = 0; i <= n / 3; ++i)
            e.push_back(x += 2.5L + (i * 11 % 13));
          const auto a = form == 0 ? content({X}, {n}, D, true) : form == 1 ? content({X, Y}, {n, 2}, D, true) : content({Y, X}, {2, n}, D, true);
          const auto oe = edges(o, desc, D), ne = edges(e, desc, D);
          // reference by one pass
          Arr w = a;
          const int k = a.axis(X);
          w.shape[k] = e.size() - 1;
          w.v.assign(w.volume(), Cell());
          ix i = 0, j = 0;
          const auto lo = [](const Arr &q, ix b) { return std::min(q.v[b].x, q.v[b + 1].x); };
          const auto hi = [](const Arr &q, ix b) { return std::max(q.v[b].x, q.v[b + 1].x); };
          while (i < n && j < w.shape[k]) {
            const auto f = share(oe.v[i].x, oe.v[i + 1].x, ne.v[j].x, ne.v[j + 1].x);
            for (ix y = 0; y < (form ? 2 : 1); ++y) {
              const std::vector<ix> from = form == 0 ? std::vector<ix>{i} : form == 1 ? std::vector<ix>{i, y} : std::vector<ix>{y, i};
              const std::vector<ix> to = form == 0 ? std::vector<ix>{j} : form == 1 ? std::vector<ix>{j, y} : std::vector<ix>{y, j};
              w.v[w.ravel(to)].x += f * a.v[a.ravel(from)].x;
              w.v[w.ravel(to)].var += f * a.v[a.ravel(from)].var;
            }
            const bool old_first = desc ? lo(oe, i) > lo(ne, j) : hi(oe, i) < hi(ne, j);
            old_first ? ++i : ++j;
          }
          const auto g = read(sv::rebin(make_plain(a), X, make_plain(oe), make_plain(ne)));
          const auto diff = arr::difference(g, w, 1e-12L);
          ++E.transitions;
          E.check_lazy(diff.empty(), "value", [&] { return diff; });
        });
}
void data_arrays(vh::Explorer &E) {
  const auto olds = subsets({0, 1, 2.5L, 3}, 4, 4);
  const auto news = subsets({-1, 0, 0.5L, 2.5L, 7}, 2, 4);
  for (int order = 0; order < 2; ++order)
    for (const bool var : {false, true})
      for (int mask = 0; mask < 64; ++mask) // masks along x, along y, and of both
        E.run([&] { return "data array with masks number " + std::to_string(mask); }, [&] {
          if (mask)
            E.nontrivial();
          DA a;
          a.name = "counts";
          a.data = order ? content({X, Y}, {3, 2}, D, var) : content({Y, X}, {2, 3}, D, var);
          const auto oe = edges(olds[0], false, D);
          a.coords.push_back({X, {oe, true}});
          a.coords.push_back({Y, {iota({Y}, {3}, 5, units::s), true}});
          a.coords.push_back({Dim("y2"), {iota({Y}, {2}, 6, units::s), false}});
          a.coords.push_back({Dim("x2"), {iota({X}, {3}, 7, units::s), true}});
          a.coords.push_back({Dim("xy"), {iota({Y, X}, {2, 3}, 8), true}});
          a.coords.push_back({Dim("scalar"), {iota({}, {}, 9), true}});
          a.attrs.push_back({Dim("ay"), iota({Y}, {2}, 10)});
          a.attrs.push_back({Dim("ax"), iota({X}, {4}, 11)});
          Arr mx = A(B, units::none, {X}, {3}, {}), my = A(B, units::none, {Y}, {2}, {}), mxy = A(B, units::none, {Y, X}, {2, 3}, {});
          for (int i = 0; i < 3; ++i)
            mx.v.push_back(Cell(mask >> i & 1));
          for (int i = 0; i < 2; ++i)
            my.v.push_back(Cell(i == 1));
          for (int i = 0; i < 6; ++i)
            mxy.v.push_back(Cell((mask >> (i % 3 + 3) & 1) && i % 2 == 0));
          a.masks = {{"mx", mx}, {"my", my}, {"mxy", mxy}};
          const auto is_masked = [&](ix at) {
            Arr none;
            return mx.v[mx.index_of(a.data, at)].x != 0 || mxy.v[mxy.index_of(a.data, at)].x != 0;
          };
          for (ix i = 0; i < a.data.volume(); ++i)
            if (is_masked(i))
              a.data.v[i].x = i % 2 ? NAN_ : INF;
          const auto da = make_da(a);
          Dataset dset;
          auto b = a;
          b.name = "b";
          for (auto &c : b.data.v)
            c.x *= 2;
          dset.setDataInit("counts", da);
          dset.setDataInit("b", make_da(b));
          for (const auto &e : news) {
            const auto ne = edges(e, false, D);
            const auto want = [&](const DA &q) {
              DA w;
              w.name = q.name;
              w.data = rebinned(q.data, X, oe, ne, is_masked);
              for (const auto &[k, c] : q.coords)
                if (c.a.axis(X) < 0)
                  w.coords.push_back({k, c});
              w.coords.push_back({X, {ne, true}});
              w.masks = {{"my", my}};
              w.attrs = {{Dim("ay"), *q.attr(Dim("ay"))}};
              return w;
            };
            const auto check = [&](const DataArray &r, const DA &q, const char *kind) {
              auto g = read_da(r);
              const auto w = want(q);
              g.data = like(g.data, w.data);
              ++E.transitions;
              Cmp c;
              c.name = true;
              c.eps = 1e-13L;
              const auto d = difference(g, w, c);
              E.check_lazy(d.empty(), "data-array", [&] { return std::string(kind) + " " + str(q) + " rebinned to " + arr::str(ne) + " is " + str(g) + ": " + d; });
            };
            check(sd::rebin(da, X, make_plain(ne)), a, "data array");
            const auto rs = sd::rebin(dset, X, make_plain(ne));
            E.check_lazy(rs.size() == 2, "dataset", [] { return "number of items"; });
            check(rs["counts"], a, "item of dataset");
            check(rs["b"], b, "item of dataset");
          }
          E.check_lazy(difference(read_da(da), a).empty(), "operand-modified", [&] { return str(a); });
        });
}
void rejected(vh::Explorer &E) {
  const auto bad = [&](const std::string &name, const Arr &a, const Arr &o, const Arr &n) {
    for (int l = 0; l <= broadcast_layout; ++l)
      E.run([&] { return name + ", " + layout_name(l); }, [&] {
        E.nontrivial();
        const auto v = make(a, l).view;
        const auto e = raised([&] { (void)sv::rebin(v, X, make_plain(o), make_plain(n)); });
        ++E.transitions;
        E.check_lazy(!e.empty(), "not-rejected", [&] { return name + ": rebin(" + arr::str(a) + ", " + arr::str(o) + ", " + arr::str(n) + ") " + layout_name(l); });
      });
  };
  const std::vector<Arr> as{content({X}, {3}, D, false), content({X, Y}, {3, 2}, D, true), content({Y, X}, {2, 3}, D, false), content({X, Y}, {3, 2}, L, false)};
  for (const auto &a : as) {
    const auto good = edges({0, 1, 2, 3}, false, D);
    // every sequence that is not sorted
    for (int k = 0; k < 64; ++k) {
      const LD p[] = {LD(k % 4), LD(k / 4 % 4), LD(k / 16)};
      const bool asc = p[0] <= p[1] && p[1] <= p[2], desc = p[0] >= p[1] && p[1] >= p[2];
      if (!asc)
        bad("new edges not ascending", a, good, edges({p[0], p[1], p[2]}, false, D));
      if (!desc)
        bad("new edges not descending", a, edges({0, 1, 2, 3}, true, D), edges({p[0], p[1], p[2]}, false, D));
      if (!asc && !desc)
        bad("old edges not sorted", a, edges({p[0], p[1], p[2], 9}, false, D), good);
    }
    bad("no edges but points", a, edges({0, 1, 2}, false, D), good);
    bad("too many edges", a, edges({0, 1, 2, 3, 4}, false, D), good);
    bad("new edges of another unit", a, good, edges({0, 1, 2}, false, D, 1, X, units::s));
    bad("new edges of another scale", a, good, edges({0, 1, 2}, false, D, 1, X, units::Unit("mm")));
    bad("old edges without unit", a, edges({0, 1, 2, 3}, false, D, 1, X, units::none), good);
    bad("edges of another dimension", a, edges({0, 1, 2, 3}, false, D, 1, Y), good);
    bad("new edges of another dimension", a, good, edges({0, 1, 2, 3}, false, D, 1, Y));
  }
  E.run([&] { return std::string("binned data"); }, [&] {
    E.nontrivial();
    DA a;
    a.binned = a.plain_bins = true;
    a.data = iota({X}, {2}, 0);
    for (int i = 0; i < 2; ++i) {
      DA b;
      b.data = iota({EV}, {2}, i);
      a.bins.push_back(b);
    }
    const auto v = make_bins_var(a, 0);
    const auto o = make_plain(edges({0, 1, 2}, false, D)), n = make_plain(edges({0, 2}, false, D));
    E.check_lazy(!raised([&] { (void)sv::rebin(v, X, o, n); }).empty(), "not-rejected", [] { return "binned data"; });
  });
}
} // namespace

VH_EXPLORE(O10) {
  all_edges(E);
  forms(E);
  data_arrays(E);
  rejected(E);
}
VH_MAIN
