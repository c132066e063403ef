// U02: conversion of units scales values by the exact ratio, rounds integers to
// nearest, rejects what cannot be converted, and leaves the input alone.
#include "ds.h"
#include "scipp/core/spatial_transforms.h"
#include "scipp/dataset/to_unit.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/structures.h"
#include "scipp/variable/to_unit.h"

using namespace ds;
using units::Unit;
using scipp::CopyPolicy;
namespace lu = llnl::units;

namespace {
using Ex = vh::Explorer;
using Int = __int128;

/// A unit as a rational multiple of the base unit of a dimension.
struct U {
  const char *name;
  Unit u;
  int dim;
  LD num, den = 1; // integers where exact
  bool exact = true;
};
Unit mult(double f, const Unit &u) { return Unit(lu::precise_unit(f, u.underlying())); }
const std::vector<U> &alphabet() {
  const LD pi = 3.14159265358979323846264338327950288L;
  using units::m, units::s, units::one;
  static const Unit J = units::kg * m * m / s / s;
  static const std::vector<U> a{
      {"none", units::none, -1, 1},
      {"one", one, 0, 1},
      {"1000", mult(1000, one), 0, 1000},
      {"percent", mult(0.01, one), 0, 1, 100},
      {"m", m, 1, 1},
      {"mm", units::mm, 1, 1, 1000},
      {"cm", mult(0.01, m), 1, 1, 100},
      {"km", mult(1000, m), 1, 1000},
      {"um", mult(1e-6, m), 1, 1, 1000000},
      {"nm", mult(1e-9, m), 1, 1, 1000000000},
      {"angstrom", units::angstrom, 1, 1, 10000000000},
      {"inch", mult(0.0254, m), 1, 254, 10000},
      {"Mm", mult(1e6, m), 1, 1000000},
      {"2.5Mm", mult(2.5e6, m), 1, 2500000},
      {"s", s, 2, 1},
      {"ms", mult(1e-3, s), 2, 1, 1000},
      {"us", units::us, 2, 1, 1000000},
      {"ns", units::ns, 2, 1, 1000000000},
      {"min", mult(60, s), 2, 60},
      {"h", mult(3600, s), 2, 3600},
      {"D", mult(86400, s), 2, 86400},
      {"week", mult(604800, s), 2, 604800},
      {"year", mult(31556952, s), 2, 31556952},
      {"rad", units::rad, 3, 1},
      {"deg", units::deg, 3, pi, 180, false},
      {"m/s", m / s, 4, 1},
      {"km/h", mult(1000, m) / mult(3600, s), 4, 10, 36},
      {"c", units::c, 4, 299792458},
      {"J", J, 5, 1},
      {"meV", mult(1e-3 * 1.602176634e-19, J), 5, 1.602176634e-22L, 1, false},
      {"kg", units::kg, 6, 1},
      {"g", mult(1e-3, units::kg), 6, 1, 1000},
      {"K", units::K, 7, 1},
      {"mK", mult(1e-3, units::K), 7, 1, 1000},
      {"counts", units::counts, 8, 1},
      {"counts/us", units::counts / units::us, 9, 1000000},
      {"counts/s", units::counts / s, 9, 1},
      {"m^2", m * m, 10, 1},
      {"mm^2", units::mm * units::mm, 10, 1, 1000000},
      {"1/m", one / m, 11, 1},
      {"1/angstrom", one / units::angstrom, 11, 10000000000}};
  return a;
}
bool large_time(const U &u) { return u.dim == 2 && u.num / u.den >= 86400; }

const std::vector<LD> &numbers(DType t) {
  static const std::vector<LD> d{0, 1, -1, 2.5, -2.25, 1.0L / 3, 123456.789L, -1e10, 1e20, -1e-20, 7e-3, INF, -INF, NAN_},
      f{0, 1, -1, 2.5, -2.25, 0.333251953125L, 123456.75L, -1e5, 1e10, -1e-6, INF, -INF, NAN_},
      i64{0, 1, -1, 2, -3, 4, 5, -5, 6, 49, 50, 51, -50, -51, 499, 500, 501, -499, -500, -501, 999, 1000, 1001, 1499, 1500, 1501, -1499, -1500, -1501, 29, 30, 31, 43199, 43200, 43201, 43199999, 43200001, 499999999, 500000000, 500000001, -499999999, -500000001, 1499999999, 1500000001, 2147483647, -2147483648.0L, 2147483648.0L, 9007199254740991.0L, 9007199254740993.0L, -9007199254740993.0L, 1600000000000000123.0L, -1600000000000000789.0L, 9223372036854775807.0L, -9223372036854775807.0L},
      i32{0, 1, -1, 2, -3, 4, 5, -5, 6, 49, 50, 51, -50, -51, 499, 500, 501, -499, -500, -501, 999, 1000, 1001, 1499, 1500, 1501, -1499, -1500, -1501, 29, 30, 31, 43199, 43200, 43201, 499999999, 500000000, 500000001, -499999999, -500000001, 1499999999, 1500000001, 2147483646, 2147483647, -2147483647.0L, -2147483648.0L};
  if (t == D || t == V)
    return d;
  if (t == F)
    return f;
  return t == I ? i32 : i64;
}
Arr values(DType t, const Unit &u, bool var) {
  Arr a;
  a.t = t;
  a.u = u;
  a.var = var;
  a.dims = {X};
  const auto &x = numbers(t);
  for (size_t i = 0; i < x.size(); ++i) {
    Cell c(x[i]);
    c.y = x[(i + 3) % x.size()], c.z = x[(i + 7) % x.size()];
    if (t == F)
      c.x = float(c.x);
    else if (t == D || t == V)
      c.x = double(c.x), c.y = double(c.y), c.z = double(c.z);
    if (var)
      c.var = t == F ? LD(float(0.25 * i + 1)) : LD(0.3 * i + 1);
    a.v.push_back(c);
  }
  a.shape = {ix(a.v.size())};
  return a;
}

/// What one number may become, empty if got is fine.
bool accepts(LD x, LD got, DType t, const U &a, const U &b, bool variance = false) {
  const LD ratio = (a.num / a.den) * (b.den / b.num);
  if (t == D || t == F || t == V) {
    LD want = variance ? x * ratio * ratio : x * ratio;
    const LD max = t == F ? LD(std::numeric_limits<float>::max()) : LD(std::numeric_limits<double>::max());
    const LD tiny = t == F ? LD(std::numeric_limits<float>::min()) : LD(std::numeric_limits<double>::min());
    if (std::isnan(want))
      return std::isnan(got);
    if (std::abs(want) > 0.999L * max)
      return std::isinf(want) ? got == want : true; // overflow
    if (std::abs(want) < 4 * tiny)
      return std::abs(got) <= 5 * tiny;
    return close(got, want, t == F ? 2.5e-7L : 1.2e-15L);
  }
  // integers
  const LD lo = t == I ? LD(std::numeric_limits<int32_t>::min()) : LD(std::numeric_limits<int64_t>::min());
  const LD hi = t == I ? LD(std::numeric_limits<int32_t>::max()) : LD(std::numeric_limits<int64_t>::max());
  const LD want = x * ratio;
  if (want > hi * (1 - 1e-15L) || want < lo * (1 - 1e-15L))
    return true; // not representable
  LD tolerance = std::abs(want) * 5e-16L; // multiplied as float64
  if (a.exact && b.exact) {
    // exact where the ratio is an integer (and representable in steps)
    const LD n = a.num * b.den, d = a.den * b.num;
    if (std::fmod(n, d) == 0) {
      const LD r = n / d;
      if (r <= 1e6L || std::fmod(r, 1e6L) == 0 || std::abs(want) < 4503599627370496.0L)
        return got == LD(Int(x) * Int(r));
    }
  }
  return std::abs(got - want) <= 0.5L + tolerance;
}
std::string difference_converted(const Arr &got, const Arr &in, const U &a, const U &b) {
  if (got.t != in.t)
    return "element type is " + to_string(got.t);
  if (got.u != b.u)
    return "unit is " + to_string(got.u) + ", not " + to_string(b.u);
  if (got.dims != in.dims || got.shape != in.shape)
    return "dimensions differ";
  if (got.var != in.var)
    return got.var ? "has variances" : "has no variances";
  for (size_t i = 0; i < in.v.size(); ++i) {
    const auto &g = got.v[i], &x = in.v[i];
    bool ok = accepts(x.x, g.x, in.t, a, b);
    if (in.t == V)
      ok = ok && accepts(x.y, g.y, in.t, a, b) && accepts(x.z, g.z, in.t, a, b);
    if (in.var)
      ok = ok && accepts(x.var, g.var, in.t, a, b, true);
    if (!ok)
      return arr::str(x, in.t, in.var) + " becomes " + arr::str(g, in.t, in.var);
  }
  return {};
}
bool numeric(DType t) { return t == D || t == F || t == L || t == I || t == T || t == V; }
/// Kind of error that is required, "" if the conversion is possible.
std::string rejection(DType t, const U &a, const U &b) {
  if (a.u == b.u)
    return "";
  if (a.dim != b.dim || a.dim < 0)
    return "UnitError";
  if (t == T && (a.dim != 2 || large_time(a) || large_time(b)))
    return "UnitError";
  return numeric(t) ? "" : "TypeError";
}
/// Same element wherever it occurs in the original buffer.
template <class F> void convert_check(Ex &E, const std::string &what, DType t, const U &a, const U &b, const Variable &in, const Arr &content, const Variable &base, F &&expand) {
  const auto base_before = read(base);
  for (const auto policy : {CopyPolicy::Always, CopyPolicy::TryAvoid}) {
    const auto text = [&] { return what + " from " + a.name + " to " + b.name + (policy == CopyPolicy::Always ? "" : " without copying"); };
    Variable out;
    const auto err = raised([&] { out = to_unit(in, b.u, policy); });
    const auto want = rejection(t, a, b);
    ++E.transitions;
    E.check_lazy(err == want, "errors", [&] { return text() + ": " + (err.empty() ? "no error" : err) + " instead of " + (want.empty() ? "a result" : want); });
    E.check_lazy(arr::difference(read(base), base_before).empty(), "input", [&] { return text() + " modified the input: " + arr::difference(read(base), base_before); });
    if (!err.empty())
      continue;
    const auto got = read(out);
    const auto d = a.u == b.u ? arr::difference(got, content) : difference_converted(got, content, a, b);
    E.check_lazy(d.empty(), "value", [&] { return text() + ": " + d; });
    const bool shares = out.data_handle() == in.data_handle();
    E.check_lazy(shares == (a.u == b.u && policy == CopyPolicy::TryAvoid), "sharing", [&] { return text() + (shares ? " shares memory" : " copies"); });
    expand(out);
  }
}
void explore_dense(Ex &E) {
  const auto &units_ = alphabet();
  const std::vector<DType> types{D, F, L, I, T, V, S, B, dtype<scipp::index_pair>};
  for (const auto t : types)
    for (int var = 0; var < 2; ++var) {
      if (var && t != D && t != F)
        continue;
      for (const auto &a : units_)
        E.run(to_string(t) + (var ? " with variances in " : " in ") + a.name, [&, t, var] {
          for (const auto &b : units_) {
            auto x = numeric(t) ? values(t, a.u, var) : Arr{};
            if (!numeric(t)) {
              x.t = t, x.u = a.u, x.dims = {X}, x.shape = {2};
              x.v = {Cell(0), Cell(1)};
              x.v[1].s = "text", x.v[1].y = 2;
            }
            for (int layout = 0; layout < num_layouts; ++layout) {
              auto y = x;
              // different shapes
              const ix n = y.v.size();
              if (layout % 2 == 1 && n % 2 == 0)
                y.dims = {Y, X}, y.shape = {2, n / 2};
              const auto m = make(y, layout);
              convert_check(E, to_string(t) + " " + layout_name(layout), t, a, b, m.view, y, m.base, [](const Variable &) {});
            }
            // scalars and arrays without elements
            for (int k = 0; k < 2; ++k) {
              auto y = x;
              y.dims = k ? std::vector<Dim>{Y, X} : std::vector<Dim>{};
              y.shape = k ? std::vector<ix>{2, 0} : std::vector<ix>{};
              y.v.resize(1 - k);
              const auto v = make_plain(y);
              convert_check(E, to_string(t) + (k ? " empty" : " scalar"), t, a, b, v, y, v, [](const Variable &) {});
            }
            // broadcast
            if (!var) {
              auto y = x;
              y.dims = {Y, X}, y.shape = {2, ix(x.v.size())};
              y.v.insert(y.v.end(), x.v.begin(), x.v.end());
              const auto v = make_plain(x);
              convert_check(E, to_string(t) + " broadcast", t, a, b, v.broadcast(y.dimensions()), y, v, [](const Variable &) {});
            }
          }
          E.state(vh::hash_mix(vh::hash_str(to_string(t)), vh::hash_str(a.name)));
          E.nontrivial();
        });
    }
}
/// Slices of one larger array and results must be writable without effects on each other.
void explore_structures(Ex &E) {
  // element types with a direction and a position
  const auto &units_ = alphabet();
  for (const auto &a : units_)
    E.run(std::string("spatial transforms in ") + a.name, [&] {
      for (const auto &b : units_) {
        const LD ratio = (a.num / a.den) * (b.den / b.num);
        const auto want = rejection(D, a, b);
        const auto close_to = [&](double got, double x, bool scaled) { return !scaled ? got == x : close(got, a.u == b.u ? LD(x) : x * ratio, 1.2e-15L); };
        const auto what = [&] { return std::string(a.name) + " to " + b.name; };
        {
          Eigen::Affine3d t1 = Eigen::Affine3d::Identity(), t2;
          t1.linear() << 1, 2, 3, 4, 5.5, 6, 7, 8, -9;
          t1.translation() << 0.5, -3, 4e6;
          t2 = t1;
          t2.linear() *= 2.0;
          t2.translation() << 0, 1, 2;
          auto v = makeVariable<Eigen::Affine3d>(scipp::Dimensions{X, 2}, a.u, Values{t1, t2});
          const auto before = copy(v);
          Variable out;
          const auto err = raised([&] { out = to_unit(v, b.u); });
          ++E.transitions;
          E.check_lazy(err == want, "errors", [&] { return "affine transform from " + what() + ": " + err + " instead of " + want; });
          E.check_lazy(v == before, "input", [&] { return "affine transform from " + what() + " modified the input"; });
          if (err.empty()) {
            E.check_lazy(out.unit() == b.u, "value", [&] { return "affine transform from " + what() + ": unit " + to_string(out.unit()); });
            for (int k = 0; k < 2; ++k) {
              const auto &g = out.values<Eigen::Affine3d>()[k], &x = k ? t2 : t1;
              for (int i = 0; i < 3; ++i) {
                E.check_lazy(close_to(g.translation()[i], x.translation()[i], true), "value", [&] { return "affine transform from " + what() + ": translation " + num(x.translation()[i]) + " becomes " + num(g.translation()[i]); });
                for (int j = 0; j < 3; ++j)
                  E.check_lazy(g.linear()(i, j) == x.linear()(i, j), "value", [&] { return "affine transform from " + what() + ": the linear part changed"; });
              }
            }
          }
        }
        {
          using scipp::core::Translation;
          auto v = makeVariable<Translation>(scipp::Dimensions{X, 2}, a.u, Values{Translation(Eigen::Vector3d(0.5, -3, 4e6)), Translation(Eigen::Vector3d(0, 1, 2))});
          const auto before = copy(v);
          Variable out;
          const auto err = raised([&] { out = to_unit(v, b.u); });
          ++E.transitions;
          E.check_lazy(err == want, "errors", [&] { return "translation from " + what() + ": " + err + " instead of " + want; });
          E.check_lazy(v == before, "input", [&] { return "translation from " + what() + " modified the input"; });
          if (err.empty())
            for (int k = 0; k < 2; ++k)
              for (int i = 0; i < 3; ++i)
                E.check_lazy(close_to(out.values<Translation>()[k].vector()[i], v.values<Translation>()[k].vector()[i], true) && out.unit() == b.u, "value", [&] { return "translation from " + what() + " becomes " + num(out.values<Translation>()[k].vector()[i]); });
        }
        { // rotations have no magnitude that could be scaled
          using scipp::core::Quaternion;
          auto v = makeVariable<Quaternion>(scipp::Dimensions{X, 1}, a.u, Values{Quaternion(Eigen::Quaterniond(0, 1, 0, 0))});
          const auto before = copy(v);
          const auto err = raised([&] { static_cast<void>(to_unit(v, b.u)); });
          ++E.transitions;
          E.check_lazy(err.empty() == (a.u == b.u), "errors", [&] { return "rotation from " + what() + ": " + err; });
          E.check_lazy(v == before, "input", [&] { return "rotation from " + what() + " modified the input"; });
        }
      }
      E.nontrivial();
    });
}
void explore_binned(Ex &E) {
  const auto &units_ = alphabet();
  for (const auto t : {D, F, L, I, T})
    for (int var = 0; var < 2; ++var) {
      if (var && t != D && t != F)
        continue;
      for (const auto &a : units_)
        E.run("binned " + to_string(t) + (var ? " with variances in " : " in ") + a.name, [&, t, var] {
          const auto x = values(t, a.u, var);
          const ix n = x.v.size();
          for (int table = 0; table < 2; ++table)
            for (int arrangement = 0; arrangement < 3; ++arrangement) {
              // bins of the buffer, in order, out of order with gaps, and with empty ones
              static const auto split = [](ix n, int how) {
                std::vector<scipp::index_pair> r;
                if (how == 0)
                  r = {{0, n / 2}, {n / 2, n}};
                else if (how == 1)
                  r = {{n / 2 + 1, n}, {1, n / 2}};
                else
                  r = {{0, 0}, {2, n}, {1, 2}, {0, 1}};
                return r;
              };
              const auto ranges = split(n, arrangement);
              std::vector<scipp::index_pair> rv(ranges.begin(), ranges.end());
              const auto dims = arrangement == 2 ? scipp::Dimensions({Y, X}, {2, 2}) : scipp::Dimensions(X, 2);
              for (const auto &b : units_) {
                auto ex = x;
                ex.dims = {EV};
                auto buffer = make_plain(ex);
                std::optional<DataArray> tab;
                const auto ind = makeVariable<scipp::index_pair>(dims, Values(rv));
                Variable binned;
                if (table) {
                  Arr c;
                  c.t = L, c.u = units::m, c.dims = {EV}, c.shape = {n};
                  for (ix i = 0; i < n; ++i)
                    c.v.push_back(Cell(100 + i));
                  tab = DataArray(buffer, {{X, make_plain(c)}}, {{"mask", make_plain([&] {
                                                                    auto m = c;
                                                                    m.t = B, m.u = units::none;
                                                                    for (ix i = 0; i < n; ++i)
                                                                      m.v[i].x = i % 2;
                                                                    return m;
                                                                  }())}});
                  binned = sd::make_bins_no_validate(ind, EV, *tab);
                } else
                  binned = variable::make_bins_no_validate(ind, EV, buffer);
                for (int sliced = 0; sliced < 3; ++sliced)
                  for (const auto policy : {CopyPolicy::Always, CopyPolicy::TryAvoid}) {
                    const auto in = sliced == 0 ? binned : sliced == 1 ? binned.slice({X, 1}) : binned.slice({X, 0, 2, 2});
                    const auto before = read_var(in), all_before = read_var(binned);
                    Variable out;
                    const auto err = raised([&] { out = to_unit(in, b.u, policy); });
                    const auto want = rejection(t, a, b);
                    ++E.transitions;
                    const auto text = [&] { return "binned " + to_string(t) + (table ? " table" : "") + " arrangement " + std::to_string(arrangement) + " slice " + std::to_string(sliced) + " from " + a.name + " to " + b.name; };
                    E.check_lazy(err == want, "errors", [&] { return text() + ": " + (err.empty() ? "no error" : err) + " instead of " + (want.empty() ? "a result" : want); });
                    E.check_lazy(arr::difference(read(buffer), ex).empty() && difference(read_var(binned), all_before).empty(), "input", [&] { return text() + " modified the input"; });
                    if (!err.empty())
                      continue;
                    const auto got = read_var(out);
                    // the values are judged one by one, everything else by comparison
                    auto ref = before;
                    std::string d;
                    if (got.bins.size() != ref.bins.size())
                      d = "number of bins";
                    else
                      for (size_t i = 0; i < ref.bins.size() && d.empty(); ++i) {
                        d = a.u == b.u ? arr::difference(got.bins[i].data, ref.bins[i].data) : difference_converted(got.bins[i].data, ref.bins[i].data, a, b);
                        if (!d.empty())
                          d = "bin " + std::to_string(i) + ": " + d;
                        ref.bins[i].data = got.bins[i].data;
                      }
                    if (d.empty())
                      d = difference(got, ref);
                    E.check_lazy(d.empty(), "value", [&] { return text() + ": " + d; });
                    const bool shares = out.data_handle() == in.data_handle();
                    E.check_lazy(shares == (a.u == b.u && policy == CopyPolicy::TryAvoid), "sharing", [&] { return text() + (shares ? " shares memory" : " copies"); });
                    if (!shares && ref.bins.size() > 1) {
                      // what is returned is new
                      if (table)
                        out.constituents<DataArray>(), std::get<2>(out.to_constituents<DataArray>()).data().setUnit(units::one);
                      else
                        std::get<2>(out.to_constituents<Variable>()).setUnit(units::one);
                      E.check_lazy(arr::difference(read(buffer), ex).empty(), "sharing", [&] { return text() + ": the events are shared with the input"; });
                    }
                  }
              }
            }
          E.nontrivial();
        });
    }
}
void explore_arrays(Ex &E) {
  const auto &units_ = alphabet();
  for (const auto &a : units_)
    E.run(std::string("data array in ") + a.name, [&] {
      for (const auto &b : units_)
        for (int binned = 0; binned < 2; ++binned) {
          DA x;
          x.name = "name";
          auto v = values(D, a.u, true);
          v.v.resize(4), v.shape = {4};
          if (!binned)
            x.data = v;
          else {
            x.binned = true;
            x.data.dims = {X}, x.data.shape = {4}, x.data.u = units::none;
            for (int i = 0; i < 4; ++i) {
              DA t;
              t.data = v;
              t.data.dims = {EV};
              t.coords.push_back({Y, {t.data}});
              x.bins.push_back(t);
            }
          }
          Arr c;
          c.u = a.u; // also of metadata, which is not converted
          c.dims = {X}, c.shape = {5};
          for (int i = 0; i < 5; ++i)
            c.v.push_back(Cell(i));
          x.coords.push_back({X, {c}});
          auto lab = c;
          lab.v.resize(4), lab.shape = {4};
          x.coords.push_back({Y, {lab, false}});
          x.attrs.push_back({Z, lab});
          auto mask = lab;
          mask.t = B, mask.u = units::none;
          for (int i = 0; i < 4; ++i)
            mask.v[i].x = i % 2;
          x.masks.push_back({"mask", mask});
          for (const auto policy : {CopyPolicy::Always, CopyPolicy::TryAvoid}) {
            const auto in = make_da(x);
            const auto before = read_da(in);
            DataArray out;
            const auto err = raised([&] { out = to_unit(in, b.u, policy); });
            const auto want = rejection(D, a, b);
            ++E.transitions;
            const auto text = [&] { return std::string(binned ? "binned " : "") + "data array from " + a.name + " to " + b.name; };
            Cmp cmp;
            cmp.name = true;
            E.check_lazy(err == want, "errors", [&] { return text() + ": " + (err.empty() ? "no error" : err); });
            E.check_lazy(difference(read_da(in), before, cmp).empty(), "input", [&] { return text() + " modified the input: " + difference(read_da(in), before, cmp); });
            if (!err.empty())
              continue;
            auto got = read_da(out);
            auto ref = before;
            std::string d;
            if (binned)
              for (size_t i = 0; i < 4 && d.empty(); ++i) {
                d = a.u == b.u ? arr::difference(got.bins.at(i).data, ref.bins[i].data) : difference_converted(got.bins.at(i).data, ref.bins[i].data, a, b);
                ref.bins[i].data = got.bins[i].data;
              }
            else {
              d = a.u == b.u ? arr::difference(got.data, ref.data) : difference_converted(got.data, ref.data, a, b);
              ref.data = got.data;
            }
            if (d.empty())
              d = difference(got, ref, cmp);
            E.check_lazy(d.empty(), "value", [&] { return text() + ": " + d; });
            const bool same = a.u == b.u && policy == CopyPolicy::TryAvoid;
            E.check_lazy((out.data().data_handle() == in.data().data_handle()) == same, "sharing", [&] { return text() + ": data is " + (same ? "copied" : "shared"); });
            if (!same) { // masks of the result can be modified independently
              out.masks()["mask"].setSlice({X, 0}, makeVariable<bool>(units::none, Values{true}));
              E.check_lazy(difference(read_da(in), before, cmp).empty(), "sharing", [&] { return text() + ": masks are shared with the input"; });
            }
          }
        }
      E.nontrivial();
    });
}
} // namespace

VH_EXPLORE(U02) {
  explore_dense(E);
  explore_structures(E);
  explore_binned(E);
  explore_arrays(E);
}
VH_MAIN
