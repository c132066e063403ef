// B02: histogramming counts each event once and agrees with binning.
#include "../common/binref.h"
#include "scipp/dataset/bin.h"
#include "scipp/variable/reduction.h"
#include "scipp/dataset/histogram.h"
#include "scipp/dataset/shape.h"

using namespace ds;

namespace {
/// Weights are multiples of a quarter, so that all sums are exact.
struct Hist {
  DA out;
  std::vector<char> open; // not a number: not compared
};
bool any_mask(const DA &a, Dim d, const Arr &labels, const std::vector<ix> &m) {
  for (const auto &[n, k] : a.masks)
    if (k.axis(d) >= 0 && at(k, labels, m).x != 0)
      return true;
  return false;
}
/// The element of a coordinate or of edges at a position, all but dimension d fixed.
std::vector<LD> line(const Arr &e, Dim d, const Arr &labels, const std::vector<ix> &m) {
  std::vector<ix> p;
  for (const auto &k : e.dims)
    p.push_back(k == d ? 0 : m[labels.axis(k)]);
  std::vector<LD> r;
  const int k = e.axis(d);
  for (ix i = 0; i < e.shape[k]; ++i) {
    p[k] = i;
    r.push_back(e.v[e.ravel(p)].x);
  }
  return r;
}
ix find(const std::vector<LD> &e, LD x) {
  ix f = -1;
  for (size_t j = 0; j + 1 < e.size(); ++j)
    if (e[j] <= x && x < e[j + 1])
      f = j;
  return f;
}
DA dense_ref(const DA &in, const Arr &edges) {
  const Dim d = edges.dims.back();
  const Arr &c = in.coord(d)->a;
  Dim ev = c.dims.size() == 1 ? c.dims[0] : d;
  if (c.dims.size() > 1) {
    ev = d;
    if (c.axis(d) < 0)
      ev = EV;
  }
  DA r;
  r.name = in.name;
  Arr &o = r.data;
  o.t = in.data.t;
  o.u = in.data.u;
  o.var = in.data.var;
  const auto add = [&](const Arr &a, Dim without) {
    for (size_t i = 0; i < a.dims.size(); ++i)
      if (a.dims[i] != without && a.dims[i] != d && o.axis(a.dims[i]) < 0) {
        o.dims.push_back(a.dims[i]);
        o.shape.push_back(a.shape[i]);
      }
  };
  add(in.data, ev);
  add(edges, d);
  o.dims.push_back(d);
  o.shape.push_back(edges.shape.back() - 1);
  o.v.assign(o.volume(), Cell());
  for (ix i = 0; i < in.data.volume(); ++i) {
    const auto m = in.data.unravel(i);
    if (any_mask(in, ev, in.data, m))
      continue;
    std::vector<ix> p(o.dims.size(), 0);
    for (size_t k = 0; k + 1 < o.dims.size(); ++k)
      p[k] = m[in.data.axis(o.dims[k])];
    const auto b = find(line(edges, d, o, p), at(c, in.data, m).x);
    if (b < 0)
      continue;
    p.back() = b;
    auto &cell = o.v[o.ravel(p)];
    cell.x += in.data.v[i].x;
    cell.var += in.data.v[i].var;
  }
  for (const auto &[k, cc] : in.coords)
    if (cc.a.axis(ev) < 0 && k != d)
      r.coords.push_back({k, cc});
  r.coords.push_back({d, {edges, true}});
  for (const auto &[k, cc] : in.masks)
    if (cc.axis(ev) < 0)
      r.masks.push_back({k, cc});
  for (const auto &[k, cc] : in.attrs)
    if (cc.axis(ev) < 0)
      r.attrs.push_back({k, cc});
  return r;
}
DA binned_ref(const DA &in, const Arr &edges) {
  const Dim d = edges.dims.back();
  DA r;
  r.name = in.name;
  Arr &o = r.data;
  o.t = in.bins[0].data.t;
  o.u = in.bins[0].data.u;
  o.var = in.bins[0].data.var;
  for (size_t i = 0; i < in.data.dims.size(); ++i)
    if (in.data.dims[i] != d) {
      o.dims.push_back(in.data.dims[i]);
      o.shape.push_back(in.data.shape[i]);
    }
  o.dims.push_back(d);
  o.shape.push_back(edges.shape.back() - 1);
  o.v.assign(o.volume(), Cell());
  for (ix b = 0; b < in.data.volume(); ++b) {
    const auto m = in.data.unravel(b);
    if (any_mask(in, d, in.data, m))
      continue;
    std::vector<ix> p(o.dims.size(), 0);
    for (size_t k = 0; k + 1 < o.dims.size(); ++k)
      p[k] = m[in.data.axis(o.dims[k])];
    const auto e = line(edges, d, o, p);
    const auto &t = in.bins[b];
    for (ix i = 0; i < ix(t.data.v.size()); ++i) {
      if (any_mask(t, EV, t.data, {i}))
        continue;
      const Arr &c = t.coord(d) ? t.coord(d)->a : *t.attr(d);
      const auto j = find(e, c.v[i].x);
      if (j < 0)
        continue;
      p.back() = j;
      auto &cell = o.v[o.ravel(p)];
      cell.x += t.data.v[i].x;
      cell.var += t.data.v[i].var;
    }
  }
  for (const auto &[k, cc] : in.coords)
    if (cc.a.axis(d) < 0 && k != d)
      r.coords.push_back({k, cc});
  r.coords.push_back({d, {edges, true}});
  for (const auto &[k, cc] : in.masks)
    if (cc.axis(d) < 0)
      r.masks.push_back({k, cc});
  for (const auto &[k, cc] : in.attrs)
    if (cc.axis(d) < 0)
      r.attrs.push_back({k, cc});
  return r;
}
void compare(vh::Explorer &E, const DataArray &in, const DA &model, const Arr &edges, int edge_layout = 0) {
  ++E.transitions;
  const auto what = [&] { return "histogram(" + ds::str(model) + "; " + arr::str(edges) + ")"; };
  std::optional<DataArray> out;
  std::string err;
  try {
    out = sd::histogram(in, edge_layout ? make(edges, edge_layout).view : make_plain(edges));
  } catch (const std::exception &e) {
    err = e.what();
  }
  E.check_lazy(out.has_value(), "rejected", [&] { return what() + " raised " + err.substr(0, 300); });
  const auto w = model.binned ? binned_ref(model, edges) : dense_ref(model, edges);
  const auto g = like(read_da(*out), w);
  const auto d = ds::difference(g, w);
  E.check_lazy(d.empty(), "result", [&] { return what() + ": " + d + "; got " + ds::str(g); });
}
void unchanged(vh::Explorer &E, const DataArray &in, const DA &model) {
  const auto d = ds::difference(read_da(in), model);
  E.check_lazy(d.empty(), "operand-modified", [&] { return "histogram changed its input: " + d; });
}
template <class F> void rejects(vh::Explorer &E, const std::string &what, F &&f) {
  ++E.transitions;
  E.check_lazy(!raised(f).empty(), "accepted", [&] { return what + " was accepted"; });
}
Arr column(const std::vector<LD> &v, DType t = D, units::Unit u = units::m, Dim d = EV) {
  Arr a = A(t, t == T ? units::ns : u, {d}, {ix(v.size())}, {});
  for (const auto x : v)
    a.v.push_back(Cell(x));
  return a;
}
/// Weights: powers of two of a quarter identify every event in a sum.
Arr weights(ix n, DType t, bool var, Dim d = EV) {
  Arr a = A(t, units::counts, {d}, {n}, {}, var);
  for (ix i = 0; i < n; ++i)
    a.v.push_back(Cell(LD(1 << (i % 12)) * (floating(t) ? 0.25L : 1), var ? LD(1 << ((i + 3) % 12)) * 0.25L : 0));
  return a;
}
template <class F> void sequences(const std::vector<LD> &alphabet, size_t n, F &&f) {
  std::vector<LD> s(n);
  std::vector<size_t> i(n, 0);
  for (;;) {
    for (size_t k = 0; k < n; ++k)
      s[k] = alphabet[i[k]];
    f(s);
    size_t k = n;
    while (k > 0 && ++i[k - 1] == alphabet.size())
      i[--k] = 0;
    if (k == 0)
      return;
  }
}
std::string list(const std::vector<LD> &v) {
  std::string s;
  for (const auto x : v)
    s += " " + num(x);
  return "[" + s + " ]";
}

/// A table, the same events in one bin, and in two bins along the dimension.
void table(vh::Explorer &E, const std::vector<LD> &x, const std::vector<LD> &edges, DType ct, DType et, DType wt, bool var, bool against_bin) {
  DA t;
  t.data = weights(x.size(), wt, var);
  t.coords.push_back({X, {column(x, ct), true}});
  const auto e = column(edges, et, units::m, X);
  const auto in = make_da(t);
  compare(E, in, t, e);
  for (const ix nb : {1, 2}) {
    DA b;
    b.binned = true;
    b.data = A(D, units::none, {nb == 1 ? Y : X}, {nb}, {});
    const ix cut = nb == 1 ? x.size() : x.size() / 2;
    b.bins.push_back(rows(t, EV, 0, cut));
    if (nb == 2)
      b.bins.push_back(rows(t, EV, cut, x.size()));
    compare(E, make_da(b, nb == 1 ? 1 : 3), b, e);
  }
  if (against_bin) {
    const auto s = sv::bins_sum(sd::bin(in, {make_plain(e)}).data());
    const auto h = sd::histogram(in, make_plain(e)).data();
    const auto d = arr::difference(read(h), read(s));
    E.check_lazy(d.empty(), "binning", [&] { return "histogram of x = " + list(x) + " in " + list(edges) + " differs from the sum of bins: " + d; });
  }
}
void all_tables(vh::Explorer &E) {
  struct Fam {
    std::vector<LD> edges, values;
  };
  const LD e = 1 + 0x1p-52L, m = 1 - 0x1p-53L;
  const std::vector<Fam> fams{
      {{0, 1, 2, 3}, {-0.5L, 0, 0.5L, 1, 2, 2.5L, 3, NAN_, INF}},
      {{0, 1, 3}, {-0.5L, 0, 0.5L, 1, 2.5L, 3, INF, NAN_, -INF}},
      {{0, 1}, {-INF, -0.0L, 0.5L, m, 1, e, NAN_, INF}},
      {{0, 1, 1, 2}, {-1, 0, m, 1, e, 2, 3, NAN_}},
      {{1, 1}, {0, m, 1, e, 2}},
      {{0, 0, 1, 1}, {-1, 0, 0.5L, 1, 2}},
      {{-INF, 0, INF}, {-INF, -1, 0, 1, INF, NAN_}},
      {{-3, -1, 1, 3}, {-4, -3, -2, -1, 0, 1, 3, NAN_}},
      {{0.1, 0.1 + 0.1, 0.1 + 0.2, 0.4}, {0.1, 0.2, 0.1 + 0.2, 0.3, 0.4, 0.25L, 0}},
      {{1e15, 1e15 + 1, 1e15 + 2}, {1e15, 1e15 + 0.5L, 1e15 + 1, 1e15 + 2, 1e15 - 1, 0}},
      {{1e16, 1e16 + 2, 1e16 + 4, 1e16 + 20}, {1e16, 1e16 + 2, 1e16 + 4, 1e16 + 6, 1e16 + 18, 1e16 + 20}},
      {{1, 1 + 0x1p-52L, 1 + 0x1p-51L, 1 + 0x1p-49L}, {m, 1, 1 + 0x1p-52L, 1 + 0x1p-51L, 1 + 3 * 0x1p-51L, 1 + 0x1p-49L}},
  };
  for (const auto &f : fams)
    for (size_t n = 0; n <= (E.thorough ? 5 : 4); ++n)
      for (size_t first = 0; first < (n ? f.values.size() : 1); ++first)
        E.run([&] { return "tables of " + std::to_string(n) + " events in edges " + list(f.edges) + ", first value " + (n ? num(f.values[first]) : ""); }, [&] {
          if (n)
            E.nontrivial();
          const auto go = [&](std::vector<LD> s) {
            if (n)
              s.insert(s.begin(), f.values[first]);
            table(E, s, f.edges, D, D, D, n % 2, true);
          };
          if (n < 2)
            go({});
          else
            sequences(f.values, n - 1, go);
        });
}
/// All sequences of edges over a small grid, also ones that are not sorted.
void all_edges(vh::Explorer &E) {
  const std::vector<LD> x{-1, 0, 0.5L, 1, 1.5L, 2, 2.5L, 3, 4, 5, 6};
  for (const DType et : {D, F, L, I, T})
    for (size_t n = 0; n <= (E.thorough ? 5 : 4); ++n)
      E.run([&] { return "all " + std::to_string(n) + " edges of type " + to_string(et); }, [&] {
        E.nontrivial();
        std::vector<LD> grid{0, 1, 2, 3, 5};
        if (floating(et))
          grid.push_back(NAN_);
        sequences(grid, n, [&](const std::vector<LD> &ed) {
          const bool nan = n > 1 && std::any_of(ed.begin(), ed.end(), [](LD e) { return std::isnan(e); });
          DA t;
          std::vector<LD> c = x;
          const DType ct = et == T ? T : (et == I || et == L) ? et : D;
          if (!floating(ct))
            for (auto &v : c)
              v = std::floor(v);
          t.data = weights(c.size(), D, true);
          t.coords.push_back({X, {column(c, ct), true}});
          const auto e = column(ed, et, units::m, X);
          const auto in = make_da(t);
          if (n == 1 && std::isnan(ed[0]))
            return;
          if (n > 0 && !nan && std::is_sorted(ed.begin(), ed.end()))
            compare(E, in, t, e);
          else {
            rejects(E, "unsorted edges " + list(ed), [&] { sd::histogram(in, make_plain(e)); });
            DA b;
            b.binned = true;
            b.bins = {t};
            rejects(E, "unsorted edges " + list(ed) + " of binned data", [&] { sd::histogram(make_da(b), make_plain(e)); });
          }
        });
      });
}
void types(vh::Explorer &E) {
  for (const DType ct : {D, F, L, I, T})
    for (const DType et : {D, F, L, I, T})
      for (const DType wt : {D, F, L, I})
        for (const auto &ed : std::vector<std::vector<LD>>{{0, 2, 4}, {0, 1, 4}, {-2, 0}})
          for (int var = 0; var < (floating(wt) ? 2 : 1); ++var) {
            if ((ct == T) != (et == T))
              continue;
            E.run([&] { return "coordinate " + to_string(ct) + ", edges " + list(ed) + " " + to_string(et) + ", weights " + to_string(wt); }, [&] {
              E.nontrivial();
              const std::vector<LD> vals = floating(ct) ? std::vector<LD>{-2, -0.5L, 0, 1, 1.5L, 2, 4} : std::vector<LD>{-2, -1, 0, 1, 2, 3, 4};
              sequences(vals, 2, [&](const std::vector<LD> &s) { table(E, s, ed, ct, et, wt, var, false); });
            });
          }
}
/// Dense data of several dimensions, with masks and other metadata.
void dense(vh::Explorer &E) {
  struct Form {
    std::vector<Dim> data, coord, edges;
  };
  const std::vector<Form> forms{{{EV}, {EV}, {X}},       {{X}, {X}, {X}},          {{Y, EV}, {EV}, {X}},    {{EV, Y}, {EV}, {X}},        {{Y, EV}, {Y, EV}, {X}},   {{Y, EV}, {EV, Y}, {X}},
                                {{Y, X}, {X}, {X}},      {{X, Y}, {X}, {X}},       {{X, Y}, {Y, X}, {X}},   {{Y, X}, {Y, X}, {Y, X}},    {{Y, X}, {X}, {Y, X}},     {{Z, Y, X}, {X}, {Y, X}},
                                {{Z, X, Y}, {Y, X}, {X}}, {{Z, EV}, {EV}, {X}}};
  for (const auto &f : forms)
    for (int masks = 0; masks < 16; ++masks)
      for (int ed = 0; ed < 3; ++ed)
        E.run([&] { return "data of " + std::to_string(f.data.size()) + " dimensions, coordinate of " + std::to_string(f.coord.size()) + ", edges of " + std::to_string(f.edges.size()) + ", masks " + std::to_string(masks); }, [&] {
          E.nontrivial();
          const auto len = [](Dim d) -> ix { return d == Y ? 2 : d == Z ? 3 : 5; };
          const auto arr_of = [&](const std::vector<Dim> &dims, auto &&cell, DType t, units::Unit u, bool var = false) {
            Arr a = A(t, u, dims, {}, {}, var);
            for (const auto d : dims)
              a.shape.push_back(len(d));
            for (ix i = 0; i < a.volume(); ++i)
              a.v.push_back(cell(i));
            return a;
          };
          const Dim ev = f.coord.size() == 1 ? f.coord[0] : (f.coord[0] == Y ? f.coord[1] : f.coord[0]);
          if (f.coord.size() == 2 && ev == EV)
            return; // the event dimension of such a coordinate is not determined
          for (const DType wt : {D, F, I})
            for (int pattern = 0; pattern < 3; ++pattern) {
              DA a;
              a.name = "name";
              a.data = arr_of(f.data, [&](ix i) { return Cell(LD((i * 7 + pattern) % 19 + 1) * (floating(wt) ? 0.25L : 1), floating(wt) ? LD(i % 5 + 1) * 0.25L : 0); }, wt, units::counts, floating(wt));
              a.coords.push_back({X, {arr_of(f.coord, [&](ix i) { return Cell(LD((i * 5 + pattern * 2) % 11) / 2 - 1); }, D, units::m), true}});
              const auto m = [&](std::vector<Dim> d, int k) { return arr_of(d, [&](ix i) { return Cell((i + k + pattern) % 3 == 0); }, B, units::none); };
              const Dim other = f.data.size() > 1 ? (f.data[0] == ev ? f.data[1] : f.data[0]) : ev;
              if (masks & 1)
                a.masks.push_back({"ev", m({ev}, 0)});
              if ((masks & 2) && other != ev)
                a.masks.push_back({"other", m({other}, 1)});
              if ((masks & 4) && other != ev)
                a.masks.push_back({"both", m({ev, other}, 2)});
              if (masks & 8) {
                a.masks.push_back({"none", m({}, pattern)});
                a.coords.push_back({Dim("c0"), {arr_of({}, [&](ix) { return Cell(3); }, L, units::s), true}});
                a.coords.push_back({Dim("ce"), {arr_of({ev}, [&](ix i) { return Cell(i); }, L, units::s), true}});
                a.coords.push_back({Dim("co"), {arr_of({other}, [&](ix i) { return Cell(i); }, L, units::s), true}});
                a.attrs.push_back({Dim("ae"), arr_of({ev}, [&](ix i) { return Cell(i); }, L, units::s)});
                a.attrs.push_back({Dim("ao"), arr_of({other}, [&](ix i) { return Cell(i); }, L, units::s)});
              }
              if ((masks & 1) && floating(wt)) // what is masked may be anything
                for (ix i = 0; i < a.data.volume(); ++i)
                  if (any_mask(a, ev, a.data, a.data.unravel(i)))
                    a.data.v[i].x = i % 2 ? NAN_ : INF;
              std::vector<LD> e1 = ed == 0 ? std::vector<LD>{-1, 0, 1, 2, 3} : ed == 1 ? std::vector<LD>{-1, 0.5L, 2, 2, 4} : std::vector<LD>{0, 3};
              Arr edges = column(e1, D, units::m, X);
              if (f.edges.size() == 2) {
                edges.dims = f.edges;
                edges.shape = {2, ix(e1.size())};
                for (const auto v : e1)
                  edges.v.push_back(Cell(v + (v > 1)));
              }
              for (const int layout : {0, 1, 2, 3, 4}) {
                const auto in = make_da(a, 0, layout);
                compare(E, in, a, edges, layout == 2 ? 2 : 0);
                unchanged(E, in, a);
              }
            }
        });
}
void binned(vh::Explorer &E) {
  struct Shape {
    std::vector<Dim> dims;
    std::vector<ix> shape;
  };
  const std::vector<Shape> shapes{{{}, {}}, {{X}, {3}}, {{Y}, {2}}, {{X, Y}, {3, 2}}, {{Y, X}, {2, 3}}, {{Z, X}, {2, 2}}, {{X, Z, Y}, {2, 2, 2}}, {{Y, Z}, {2, 3}}, {{X}, {1}}};
  for (const auto &sh : shapes)
    for (int ed = 0; ed < 5; ++ed)
      for (int masks = 0; masks < 16; ++masks)
        for (int kind = 0; kind < 4; ++kind) // coordinates: none, edges, x is an attribute, all
          E.run([&] { return "bins " + arr::str(A(D, units::one, sh.dims, sh.shape, {})) + " edges " + std::to_string(ed) + " masks " + std::to_string(masks) + " metadata " + std::to_string(kind); }, [&] {
            E.nontrivial();
            for (int pattern = 0; pattern < (E.thorough ? 6 : 3); ++pattern)
              for (const DType wt : {D, F, L}) {
                DA a;
                a.name = "name";
                a.binned = true;
                a.data = A(D, units::none, sh.dims, sh.shape, {});
                const auto hasd = [&](Dim d) { return a.data.axis(d) >= 0; };
                const auto len = [&](Dim d) { return a.data.shape[a.data.axis(d)]; };
                ix id = 0;
                for (ix b = 0; b < a.data.volume(); ++b) {
                  const auto p = a.data.unravel(b);
                  const ix n = pattern == 0 ? 3 : pattern == 1 ? (b * 2 + 1) % 4 : (b * 5 + pattern) % 6;
                  DA t;
                  t.data = A(wt, units::counts, {EV}, {n}, {}, floating(wt));
                  Arr x = column({}), em = A(B, units::none, {EV}, {n}, {});
                  x.shape = {n};
                  for (ix i = 0; i < n; ++i, ++id) {
                    t.data.v.push_back(Cell(LD(id % 17 + 1) * (floating(wt) ? 0.25L : 1), floating(wt) ? LD(id % 7) * 0.25L : 0));
                    const LD x0 = hasd(X) && kind ? p[a.data.axis(X)] : 0;
                    x.v.push_back(Cell(x0 + LD((id * 3 + pattern) % (kind ? 4 : 17)) / 4));
                    em.v.push_back(Cell((id + pattern) % 3 == 0));
                  }
                  if (kind == 2)
                    t.attrs.push_back({X, x});
                  else
                    t.coords.push_back({X, {x, true}});
                  if (masks & 8) {
                    if (floating(wt))
                      for (ix i = 0; i < n; ++i)
                        if (em.v[i].x != 0)
                          t.data.v[i].x = NAN_;
                    t.masks.push_back({"em", em});
                  }
                  a.bins.push_back(t);
                }
                const auto m = [&](std::vector<Dim> d, int k) {
                  std::vector<ix> s;
                  for (const auto x : d)
                    s.push_back(len(x));
                  return iota(d, s, k + pattern, units::none, B);
                };
                if ((masks & 1) && hasd(X))
                  a.masks.push_back({"mx", m({X}, 0)});
                if ((masks & 2) && hasd(Y))
                  a.masks.push_back({"my", m({Y}, 1)});
                if ((masks & 4) && hasd(X) && hasd(Y))
                  a.masks.push_back({"mxy", m({Y, X}, 0)});
                if (masks & 4)
                  a.masks.push_back({"m0", m({}, 1)});
                if (kind == 1 && hasd(X))
                  a.coords.push_back({X, {iota({X}, {len(X) + 1}, 0, units::m), true}});
                if (kind == 3) {
                  if (hasd(X))
                    a.coords.push_back({Dim("cx"), {iota({X}, {len(X)}, 0), true}});
                  if (hasd(Y))
                    a.coords.push_back({Y, {iota({Y}, {len(Y) + 1}, 0), true}});
                  if (hasd(Y))
                    a.attrs.push_back({Dim("ay"), iota({Y}, {len(Y)}, 0)});
                  a.coords.push_back({Dim("c0"), {iota({}, {}, 0), false}});
                }
                Arr edges = column(ed == 0 ? std::vector<LD>{0, 1, 2, 3} : ed == 1 ? std::vector<LD>{0, 0.5L, 2, 2, 4} : ed == 2 ? std::vector<LD>{0.25L, 2.75L} : ed == 3 ? std::vector<LD>{-2, -1} : std::vector<LD>{0, 1.5L, 3}, D, units::m, X);
                if (ed == 4) {
                  if (!hasd(Y))
                    return;
                  edges.dims = {Y, X};
                  edges.shape = {2, 3};
                  for (const LD v : {0.25L, 0.5L, 4.0L})
                    edges.v.push_back(Cell(v));
                }
                for (const int form : {0, 1, 3, 4}) {
                  std::vector<Dim> order(sh.dims.rbegin(), sh.dims.rend());
                  const auto in = form == 4 ? sd::transpose(make_da(permuted(a, order), 3), sh.dims) : make_da(a, form);
                  compare(E, in, a, edges, form == 3 ? 2 : 0);
                  unchanged(E, in, a);
                }
              }
          });
}
/// Sizes at which other algorithms are used.
void large(vh::Explorer &E) {
  struct Case {
    ix events, edges, bins, outer;
    bool regular, variances;
    int mask;
  };
  std::vector<Case> cases;
  for (const bool regular : {true, false})
    for (int mask = 0; mask < 2; ++mask) {
      for (const ix n : {99999, 100000, 100001, 100003, 250007})
        cases.push_back({n, 7, 0, 0, regular, n % 2 == 0, mask});
      cases.push_back({100001, 2000, 0, 0, regular, true, mask});
      // existing bins times new bins beyond 10**8
      cases.push_back({50, 10001, 10001, 0, regular, true, mask});
      cases.push_back({50, 5001, 10001, 2, regular, true, mask});
    }
  if (E.thorough)
    for (const ix n : {1000000, 1000001, 1000003, 2000001})
      cases.push_back({n, 70, 0, 0, true, false, 1});
  for (const auto &c : cases)
    E.run([&] { return std::to_string(c.events) + " events into " + std::to_string(c.edges) + (c.regular ? " regular" : " irregular") + " edges from " + std::to_string(c.bins) + " bins times " + std::to_string(c.outer); }, [&] {
      E.nontrivial();
      std::vector<LD> x, ed;
      for (ix i = 0; i < c.edges; ++i)
        ed.push_back(c.regular ? i : LD(i) * (i + 1) / 2);
      DA t;
      t.data = A(D, units::counts, {EV}, {c.events}, {}, c.variances);
      Arr mask = A(B, units::none, {EV}, {c.events}, {});
      for (ix i = 0; i < c.events; ++i) {
        const ix j = (i * 7919) % c.edges;
        x.push_back(i % 17 == 3 ? -1 : ed[j] + 0.5L * (i % 2) * (c.regular ? 1 : j + 1));
        t.data.v.push_back(Cell(i % 5 + 1, c.variances ? i % 3 + 1 : 0));
        mask.v.push_back(Cell(i % 7 == 2));
      }
      t.coords.push_back({X, {column(x), true}});
      if (c.mask)
        t.masks.push_back({"m", mask});
      const auto edges = column(ed, D, units::m, X);
      // reference by search
      const ix no = std::max<ix>(c.outer, 1), nb = c.edges - 1;
      std::vector<Cell> want(no * nb);
      DA in = t;
      const auto where = [&](ix i) { return c.bins ? i % (no * c.bins) : 0; };
      if (c.bins) {
        in = DA();
        in.binned = true;
        if (c.outer)
          in.data = A(D, units::none, {Y, X}, {c.outer, c.bins}, {});
        else
          in.data = A(D, units::none, {X}, {c.bins}, {});
        std::vector<std::vector<ix>> r(no * c.bins);
        for (ix i = 0; i < c.events; ++i)
          r[where(i * 997)].push_back(i);
        for (const auto &q : r)
          in.bins.push_back(take(t, EV, q));
      }
      for (ix i = 0; i < c.events; ++i) {
        if (c.mask && mask.v[i].x != 0)
          continue;
        const auto it = std::upper_bound(ed.begin(), ed.end(), x[i]);
        if (it == ed.begin() || it == ed.end())
          continue;
        const ix o = c.bins ? where(i * 997) / c.bins : 0;
        auto &w = want[o * nb + (it - ed.begin() - 1)];
        w.x += t.data.v[i].x;
        w.var += t.data.v[i].var;
      }
      ++E.transitions;
      const auto got = read(sd::histogram(make_da(in), make_plain(edges)).data());
      Arr w = A(D, units::counts, {X}, {nb}, want, c.variances);
      if (c.outer) {
        w.dims = {Y, X};
        w.shape = {c.outer, nb};
      }
      const auto d = arr::difference(got, w);
      E.check_lazy(d.empty(), "result", [&] { return d.substr(0, 300); });
    });
}
void errors(vh::Explorer &E) {
  E.run([&] { return std::string("rejected arguments"); }, [&] {
    E.nontrivial();
    DA t;
    t.data = weights(3, D, false);
    t.coords.push_back({X, {column({0, 1, 2}), true}});
    DA b;
    b.binned = true;
    b.bins = {t};
    for (const auto &m : {t, b}) {
      const auto in = make_da(m);
      const auto e = [&](const std::vector<LD> &v, units::Unit u = units::m, Dim d = X) { return make_plain(column(v, D, u, d)); };
      rejects(E, "descending edges", [&] { sd::histogram(in, e({2, 1, 0})); });
      rejects(E, "edges of another unit", [&] { sd::histogram(in, e({0, 1, 2}, units::s)); });
      rejects(E, "edges without coordinate", [&] { sd::histogram(in, e({0, 1, 2}, units::m, Y)); });
      unchanged(E, in, m);
    }
    DA h;
    h.data = weights(3, D, false, X);
    h.coords.push_back({X, {column({0, 1, 2, 3}, D, units::m, X), true}});
    rejects(E, "data that is a histogram already", [&] { sd::histogram(make_da(h), make_plain(column({0, 1, 2}, D, units::m, X))); });
  });
}
} // namespace

VH_EXPLORE(B02) {
  all_tables(E);
  all_edges(E);
  types(E);
  dense(E);
  binned(E);
  large(E);
  errors(E);
}
VH_MAIN
