// O11: counts and densities are converted by the exact bin widths.
#include "../common/ds.h"
#include "scipp/dataset/counts.h"
#include "scipp/variable/arithmetic.h"
#include <optional>

using namespace ds;
namespace {
using LD = long double;
enum Kind { Counts, Density, Free };
/// (the unit of a density along all dimensions that have edges in m and s)
Kind kind_of(const units::Unit &u) {
  static const std::vector<units::Unit> densities{units::Unit("counts/m"), units::Unit("counts/s"), units::Unit("counts/m/s"), units::Unit("counts*m"), units::Unit("counts*counts"), units::Unit("1000*counts")};
  if (u == units::counts)
    return Counts;
  return std::find(densities.begin(), densities.end(), u) != densities.end() ? Density : Free;
}
void scale(Arr &a, const std::function<LD(ix)> &f, bool up) {
  for (ix i = 0; i < ix(a.v.size()); ++i) {
    const LD w = up ? f(i) : 1 / f(i);
    a.v[i].x *= w;
    a.v[i].var *= w * w;
  }
}
units::Unit times(const units::Unit &u, const units::Unit &w, bool up) { return up ? u * w : u / w; }
/// Data multiplied with or divided by the widths of bins along dims.
DA converted(DA a, const std::vector<Dim> &dims, bool up) {
  for (const auto d : dims) {
    const Arr &e = a.coord(d)->a;
    const int k = e.axis(d);
    const auto width = [&](ix i) {
      const auto m = a.data.unravel(i);
      std::vector<ix> at(e.dims.size());
      for (size_t j = 0; j < e.dims.size(); ++j)
        at[j] = m[a.data.axis(e.dims[j])];
      const LD lo = e.v[e.ravel(at)].x;
      ++at[k];
      return LD(e.v[e.ravel(at)].x) - lo;
    };
    if (a.binned) {
      for (ix i = 0; i < ix(a.bins.size()); ++i) {
        Arr &b = a.bins[i].data;
        scale(b, [&](ix) { return width(i); }, up);
        b.u = times(b.u, e.u, up);
      }
    } else {
      scale(a.data, width, up);
      a.data.u = times(a.data.u, e.u, up);
    }
  }
  return a;
}
/// (binned data itself has no unit, so it is neither counts nor a density)
units::Unit unit_of(const DA &a) { return a.binned ? units::none : a.data.u; }
/// nothing if the call has to be rejected
std::optional<DA> want(const DA &a, const std::vector<Dim> &dims, bool up) {
  for (const auto d : dims)
    if (a.coord(d) == nullptr || a.coord(d)->a.u == units::one)
      return std::nullopt;
  const auto kind = kind_of(unit_of(a));
  if (!up && kind == Density)
    return std::nullopt;
  if (kind == (up ? Density : Counts)) {
    for (const auto d : dims) {
      const Arr &e = a.coord(d)->a;
      if (a.data.axis(d) < 0 || e.axis(d) < 0 || e.shape[e.axis(d)] != a.data.shape[a.data.axis(d)] + 1)
        return std::nullopt;
    }
    return converted(a, dims, up);
  }
  return a;
}
DataArray call(const DataArray &x, const std::vector<Dim> &dims, bool up) {
  if (dims.size() == 1)
    return up ? sd::counts::fromDensity(x, dims[0]) : sd::counts::toDensity(x, dims[0]);
  return up ? sd::counts::fromDensity(x, dims) : sd::counts::toDensity(x, dims);
}
Dataset call(const Dataset &x, const std::vector<Dim> &dims, bool up) {
  if (dims.size() == 1)
    return up ? sd::counts::fromDensity(x, dims[0]) : sd::counts::toDensity(x, dims[0]);
  return up ? sd::counts::fromDensity(x, dims) : sd::counts::toDensity(x, dims);
}
const char *name(bool up) { return up ? "fromDensity" : "toDensity"; }
std::string list(const std::vector<Dim> &v) {
  std::string s;
  for (const auto &i : v)
    s += (s.empty() ? "" : ",") + to_string(i);
  return "[" + s + "]";
}
LD eps(const DA &a) {
  const auto t = a.binned ? a.bins.at(0).data.t : a.data.t;
  return t == F ? 1e-6L : 1e-14L;
}
Cmp cmp(const DA &a) {
  Cmp c;
  c.eps = eps(a);
  c.eps_var = 4 * eps(a);
  c.name = true;
  return c;
}
void bump(DataArray &x) {
  Variable data(x.data());
  if (data.dtype() == dtype<scipp::core::bin<DataArray>>)
    data = data.bin_buffer<DataArray>().data();
  if (data.dtype() == F)
    for (auto &q : data.values<float>())
      q = 3 * q + 1;
  else
    for (auto &q : data.values<double>())
      q = 3 * q + 1;
  for (const auto &[k, m] : x.masks()) {
    Variable v(m);
    for (auto &q : v.values<bool>())
      q = !q;
  }
}
void one(vh::Explorer &E, const DA &a, const std::vector<Dim> &dims, int form) {
  for (const bool up : {false, true}) {
    const auto in = make_da(a, form, a.binned ? 0 : form);
    const auto what = [&] { return std::string(name(up)) + "(" + str(a) + ", " + list(dims) + ")"; };
    const auto w = want(a, dims, up);
    std::optional<DataArray> out;
    const auto err = raised([&] { out = call(in, dims, up); });
    ++E.transitions;
    E.check_lazy(out.has_value() == w.has_value(), w ? "rejected" : "not-rejected", [&] { return what() + " " + err; });
    auto diff = difference(read_da(in), a);
    E.check_lazy(diff.empty(), "operand-modified", [&] { return what() + ": " + diff; });
    if (!out || !w)
      continue;
    const auto got = read_da(*out);
    diff = difference(got, *w, cmp(a));
    E.check_lazy(diff.empty(), "value", [&] { return what() + " is " + str(got) + ": " + diff; });
    if (!up && kind_of(unit_of(a)) == Counts) {
      // and back
      const auto back = read_da(call(*out, dims, true));
      diff = difference(back, a, cmp(a));
      E.check_lazy(diff.empty(), "round-trip", [&] { return what() + " and back is " + str(back) + ": " + diff; });
    }
    bump(*out);
    diff = difference(read_da(in), a);
    E.check_lazy(diff.empty(), "output-shares-input", [&] { return what() + ": after the output was modified the input is " + diff; });
  }
}

struct Edge {
  Dim d;
  std::vector<LD> e;
  units::Unit u;
  DType t = D;
};
Arr make_edges(const Edge &e, ix n, const std::vector<std::pair<Dim, ix>> &more = {}) {
  Arr a = A(e.t, e.u, {}, {}, {});
  for (const auto &[d, m] : more) {
    a.dims.push_back(d);
    a.shape.push_back(m);
  }
  a.dims.push_back(e.d);
  a.shape.push_back(n + 1);
  for (ix i = 0; i < a.volume(); ++i)
    a.v.push_back(Cell(e.e[i % (n + 1)] * (1 + i / (n + 1))));
  return a;
}
DA content(std::vector<Dim> dims, std::vector<ix> shape, units::Unit u, DType t, bool var, bool binned) {
  DA a;
  a.name = "na";
  Arr v = A(t, u, dims, shape, {}, var);
  for (ix i = 0; i < v.volume(); ++i)
    v.v.push_back(Cell((i * 5 + 3) % 8 + 1, var ? 0.5L * (i % 5 + 1) : 0));
  a.data = v;
  if (binned) {
    a.binned = true;
    for (ix i = 0; i < v.volume(); ++i) {
      DA b;
      b.data = A(t, u, {EV}, {(i + 1) % 3}, {}, var);
      for (ix j = 0; j < (i + 1) % 3; ++j)
        b.data.v.push_back(Cell(i + 4 * j + 1, var ? 0.5L * (j + 1) : 0));
      b.coords.push_back({X, {iota({EV}, {(i + 1) % 3}, i), true}});
      a.bins.push_back(b);
    }
    a.data.t = D;
    a.data.u = units::one;
    a.data.var = false;
    a.data.v.clear();
  }
  return a;
}
void arrays(vh::Explorer &E) {
  const std::vector<units::Unit> us{units::counts, units::Unit("counts/m"), units::Unit("counts/s"), units::Unit("counts/m/s"), units::Unit("counts*m"), units::Unit("counts*counts"), units::Unit("1000*counts"), units::one, units::m, units::none};
  struct Shape {
    std::vector<Dim> dims;
    std::vector<ix> shape;
  };
  const std::vector<Shape> shapes{{{X}, {1}}, {{X}, {3}}, {{X}, {0}}, {{Y, X}, {2, 3}}, {{X, Y}, {3, 2}}, {{Y, X}, {0, 2}}, {{X, Y, Z}, {2, 2, 2}}, {{Z, Y, X}, {2, 3, 2}}};
  const std::vector<std::vector<Dim>> args{{X}, {Y}, {X, Y}, {Y, X}, {Z}, {}, {X, X}};
  for (const auto &sh : shapes)
    for (const auto &u : us)
      for (const auto &arg : args)
        for (int coords = 0; coords < 8; ++coords)
          E.run([&] { return arr::str(A(D, u, sh.dims, sh.shape, {})) + " along " + list(arg) + " coords " + std::to_string(coords); }, [&] {
            E.nontrivial();
            struct Kind_ {
              DType t;
              bool var, binned;
            };
            for (const auto &k : {Kind_{D, false, false}, Kind_{D, true, false}, Kind_{F, false, false}, Kind_{F, true, false}, Kind_{D, false, true}, Kind_{D, true, true}}) {
              DA a = content(sh.dims, sh.shape, u, k.t, k.var, k.binned);
              if (k.binned && a.bins.empty())
                continue;
              const auto len = [&](Dim d) { return a.data.shape[a.data.axis(d)]; };
              const auto has = [&](Dim d) { return a.data.axis(d) >= 0; };
              const Edge ex{X, {-1, 0, 0.5L, 3}, coords == 4 ? units::one : units::m, coords == 5 && k.t == F ? F : D}, ei{X, {0, 1, 3, 7}, units::m, L}, ey{Y, {0.25L, 0.75L, 4, 5}, units::s, k.t == F ? F : D};
              if (has(X) && coords != 3) {
                if (coords == 7 && len(X) == 0)
                  continue;
                if (coords == 6 && has(Y))
                  a.coords.push_back({X, {make_edges(ex, len(X), {{Y, len(Y)}}), true}});
                else if (coords == 7)
                  a.coords.push_back({X, {iota({X}, {len(X)}, 1, units::m), true}}); // not edges
                else
                  a.coords.push_back({X, {make_edges(coords == 1 ? ei : ex, len(X)), coords != 2}});
              }
              if (has(Y)) {
                if (coords == 2)
                  a.coords.push_back({Y, {iota({}, {}, 1, units::s), true}}); // neither
                else
                  a.coords.push_back({Y, {make_edges(ey, len(Y)), true}});
              }
              if (coords == 2 && (std::count(arg.begin(), arg.end(), Y) || arg.empty()))
                continue;
              if (coords == 0) {
                if (has(X)) {
                  a.masks.push_back({"mx", iota({X}, {len(X)}, 0, units::none, B)});
                  a.attrs.push_back({Dim("ax"), iota({X}, {len(X)}, 0)});
                }
                a.masks.push_back({"m0", iota({}, {}, 1, units::none, B)});
              }
              // descending or empty bins are not part of the property; one set of
              // dimensions is
              for (int form = 0; form < (k.binned ? 4 : num_layouts); ++form) {
                if (a.data.volume() == 0 && form > 0)
                  break;
                one(E, a, arg, form);
              }
            }
          });
}
void datasets(vh::Explorer &E) {
  const std::vector<units::Unit> us{units::counts, units::Unit("counts/m"), units::one, units::none, units::Unit("counts/m/s")};
  for (const auto &u1 : us)
    for (const auto &u2 : us)
      for (const auto &u3 : us)
        for (const auto &arg : {std::vector<Dim>{X}, std::vector<Dim>{X, Y}, std::vector<Dim>{Y}, std::vector<Dim>{Z}})
          for (int coords = 0; coords < 2; ++coords)
            E.run([&] { return "dataset of " + to_string(u1) + ", " + to_string(u2) + ", " + to_string(u3) + " along " + list(arg) + (coords ? " dimensionless edges" : ""); }, [&] {
              E.nontrivial();
              for (const bool up : {false, true}) {
                std::vector<DA> items;
                const std::vector<units::Unit> u{u1, u2, u3};
                bool ok = true;
                std::vector<DA> wanted;
                Dataset in;
                for (int i = 0; i < 3; ++i) {
                  DA a = content({Y, X}, {2, 3}, u[i], i == 1 ? F : D, i == 2, i == 2 && coords == 0);
                  a.name = std::string(1, char('a' + i));
                  a.coords.push_back({X, {make_edges({X, {-1, 0, 0.5L, 3}, coords ? units::one : units::m}, 3), true}});
                  a.coords.push_back({Y, {make_edges({Y, {0.25L, 0.75L, 4}, units::s}, 2), true}});
                  a.masks.push_back({"m", iota({X}, {3}, i, units::none, B)});
                  const auto w = want(a, arg, up);
                  ok = ok && w;
                  if (w)
                    wanted.push_back(*w);
                  items.push_back(a);
                  in.setDataInit(a.name, make_da(a));
                }
                const auto what = [&] { return std::string(name(up)) + " of a dataset along " + list(arg); };
                std::optional<Dataset> out;
                const auto err = raised([&] { out = call(in, arg, up); });
                ++E.transitions;
                E.check_lazy(out.has_value() == ok, ok ? "rejected" : "not-rejected", [&] { return what() + " " + err; });
                const auto same = [&](const std::vector<DA> &w, const Dataset &g, const char *sig) {
                  E.check_lazy(g.size() == ix(w.size()), "items", what);
                  for (const auto &i : w) {
                    const auto got = read_da(g[i.name]);
                    const auto diff = difference(got, i, cmp(i));
                    E.check_lazy(diff.empty(), sig, [&] { return what() + " item " + i.name + ": " + diff; });
                  }
                };
                same(items, in, "operand-modified");
                if (!out)
                  continue;
                same(wanted, *out, "value");
                for (auto &&i : *out)
                  bump(i);
                same(items, in, "output-shares-input");
              }
            });
}
} // namespace

VH_EXPLORE(O11) {
  arrays(E);
  datasets(E);
}
VH_MAIN
