// O06: reductions equal the mathematical fold over the reduced labels.
#include "ops.h"
#include "scipp/variable/accumulate.h"
#include "scipp/variable/cumulative.h"
#include "scipp/variable/reduction.h"

using namespace ops;

namespace {
using LD = long double;
constexpr LD INF = std::numeric_limits<LD>::infinity();

struct Red {
  std::string name;
  Variable (*dim)(const Variable &, const Dim);
  Variable (*all)(const Variable &);
  Variable (*bins)(const Variable &);
  void (*into)(Variable &, const Variable &);
};
std::vector<Red> reductions() {
  return {{"sum", sv::sum, sv::sum, sv::bins_sum, sv::sum_into},
          {"nansum", sv::nansum, sv::nansum, sv::bins_nansum, sv::nansum_into},
          {"mean", sv::mean, sv::mean, sv::bins_mean, nullptr},
          {"nanmean", sv::nanmean, sv::nanmean, sv::bins_nanmean, nullptr},
          {"min", sv::min, sv::min, sv::bins_min, sv::min_into},
          {"max", sv::max, sv::max, sv::bins_max, sv::max_into},
          {"nanmin", sv::nanmin, sv::nanmin, sv::bins_nanmin, sv::nanmin_into},
          {"nanmax", sv::nanmax, sv::nanmax, sv::bins_nanmax, sv::nanmax_into},
          {"all", sv::all, sv::all, sv::bins_all, sv::all_into},
          {"any", sv::any, sv::any, sv::bins_any, sv::any_into}};
}
bool is_nan_variant(const std::string &n) { return n.substr(0, 3) == "nan"; }
/// Result type, N if not supported.
DType result_type(const std::string &n, DType t) {
  if (n == "all" || n == "any")
    return t == B ? B : N;
  if (n == "sum" || n == "nansum")
    return t == B ? L : num(t) || (t == V && n == "sum") ? t : N;
  if (n == "mean" || n == "nanmean")
    return t == V ? (n == "mean" ? V : N) : num(t) || (t == B && n == "mean") ? (t == F ? F : D) : N;
  return num(t) || t == B || t == T ? t : N;
}
LD limit(DType t, bool max) {
  const auto of = [&](auto x) -> LD {
    using X = decltype(x);
    return max ? std::numeric_limits<X>::max() : std::numeric_limits<X>::lowest();
  };
  return t == D ? of(double{}) : t == F ? of(float{}) : t == I ? of(int32_t{}) : t == B ? of(bool{}) : of(int64_t{});
}
struct Folded {
  Cell c;
  std::vector<LD> variances; ///< acceptable ones
};
Folded fold(const std::string &n, const Cells &in, DType t) {
  Folded f;
  const bool nan = is_nan_variant(n);
  if (n == "all" || n == "any") {
    f.c.x = n == "all";
    for (const auto &c : in)
      f.c.x = n == "all" ? f.c.x && c.x : f.c.x || c.x;
    return f;
  }
  if (n.find("sum") != std::string::npos || n.find("mean") != std::string::npos) {
    ix count = 0;
    for (const auto &c : in) {
      if (nan && std::isnan(c.x))
        continue;
      ++count;
      f.c.x += c.x;
      f.c.y += c.y;
      f.c.z += c.z;
      f.c.var += c.var;
    }
    if (n.find("mean") != std::string::npos) {
      const LD k = count;
      f.c.x /= k;
      f.c.y /= k;
      f.c.z /= k;
      f.c.var /= k * k;
    }
    f.variances = {f.c.var};
    return f;
  }
  const bool max = n.find("max") != std::string::npos;
  bool first = true, isnan = false;
  for (const auto &c : in) {
    if (std::isnan(c.x)) {
      if (nan)
        continue;
      if (!isnan)
        f.variances.clear();
      isnan = true;
      f.c.x = c.x;
      f.variances.push_back(c.var);
      continue;
    }
    if (isnan)
      continue;
    if (first || (max ? c.x > f.c.x : c.x < f.c.x)) {
      f.c.x = c.x;
      f.variances.clear();
    }
    if (c.x == f.c.x)
      f.variances.push_back(c.var);
    first = false;
  }
  if (first && !isnan) {
    f.c.x = limit(t, !max);
    f.variances = {0};
  }
  return f;
}
/// Whether a result element is the folded value.
void compare(vh::Explorer &E, const Cell &got, bool var, const std::string &n, const Cells &in, DType t, const std::function<std::string()> &what) {
  const auto want = fold(n, in, t);
  const auto rt = result_type(n, t);
  LD scale = 0;
  for (const auto &c : in)
    if (std::isfinite(c.x))
      scale = std::max(scale, std::max({std::abs(c.x), std::abs(c.y), std::abs(c.z)}));
  const LD tol = n.find("sum") != std::string::npos || n.find("mean") != std::string::npos ? (rt == F ? 3e-7L : 1e-14L) * scale * std::max<LD>(1, in.size()) : 0;
  const auto eq = [&](LD g, LD w) {
    if (std::isnan(w) || std::isnan(g))
      return std::isnan(w) && std::isnan(g);
    return g == w || std::abs(g - w) <= tol;
  };
  ++E.transitions;
  const bool value = eq(got.x, want.c.x) && (rt != V || (eq(got.y, want.c.y) && eq(got.z, want.c.z)));
  const auto describe = [&](const Cell &c) { return str(c, rt, var); };
  if (!value && is_float(t) && std::isinf(want.c.x) && !in.empty() && (n.find("max") != std::string::npos || n.find("min") != std::string::npos) &&
      got.x == limit(t, n.find("max") == std::string::npos))
    return E.note("only-infinite", what() + " is " + describe(got) + ", not " + describe(want.c));
  if (!value && (n == "nansum" || n == "nanmean")) {
    bool pos = false, neg = false;
    for (const auto &c : in)
      pos |= c.x == INF, neg |= c.x == -INF;
    if (pos && neg)
      return E.note("opposite-infinities", what() + " is " + describe(got) + ", not " + describe(want.c));
  }
  E.check_lazy(value, "value", [&] { return what() + " is " + describe(got) + ", not " + describe(want.c); });
  if (!var || !std::isfinite(want.c.x))
    return;
  bool ok = false;
  for (const auto w : want.variances)
    ok |= close(got.var, w, rt == F ? 1e-6L : 1e-13L);
  E.check_lazy(ok, "variance", [&] { return what() + " is " + describe(got) + ", which has the wrong variance"; });
}
std::string text(const Cells &c, DType t, bool var) {
  std::string s;
  for (size_t i = 0; i < c.size() && i < 16; ++i)
    s += (i ? "," : "") + str(c[i], t, var);
  return "(" + s + (c.size() > 16 ? ",...)" : ")");
}

/// All reductions of an array and of its views.
void reduce_all(vh::Explorer &E, const Arr &a, const Variable &v, const std::string &how) {
  for (const auto &r : reductions()) {
    const DType rt = result_type(r.name, a.t);
    const bool mean = r.name == "mean" || r.name == "nanmean";
    for (int d = -1; d < int(a.dims.size()); ++d) {
      const auto what = [&](ix i = -1) {
        return r.name + " over " + (d < 0 ? "all" : to_string(a.dims[d])) + " of " + str(a) + ", " + how + (i < 0 ? "" : ", element " + std::to_string(i));
      };
      if (d < 0 && a.dims.empty())
        continue;
      if (a.t == V && r.name[0] == 'n') {
        continue; // undocumented, and elements are NaN by component
      }
      if (rt == N) {
        const auto e = raised([&] { (void)(d < 0 ? r.all(v) : r.dim(v, a.dims[d])); });
        E.check_lazy(!e.empty(), "not-rejected", [&] { return what(); });
        continue;
      }
      const auto g = read(d < 0 ? r.all(v) : r.dim(v, a.dims[d]));
      Arr want;
      want.dims = a.dims;
      want.shape = a.shape;
      if (d < 0)
        want.dims.clear(), want.shape.clear();
      else
        want.dims.erase(want.dims.begin() + d), want.shape.erase(want.shape.begin() + d);
      E.check_lazy(g.dims == want.dims && g.shape == want.shape, "shape", [&] { return what() + " is " + str(g); });
      E.check_lazy(g.t == rt, "type", [&] { return what() + " is " + str(g); });
      E.check_lazy(rt == B && r.name[0] == 'a' ? g.u == units::none || g.u == a.u : g.u == a.u, "unit", [&] { return what() + " is " + str(g); });
      E.check_lazy(g.var == (a.var && rt != B), "presence", [&] { return what() + " is " + str(g); });
      std::vector<Cells> groups(g.volume());
      for (ix i = 0; i < a.volume(); ++i)
        groups[d < 0 ? 0 : g.index_of(a, i)].push_back(a.v[i]);
      for (ix i = 0; i < g.volume(); ++i) {
        if (mean && d < 0 && a.volume() == 0)
          continue;
        // the mean over all dimensions
        compare(E, g.v[i], g.var, r.name, groups[i], a.t, [&] { return what(i); });
      }
    }
  }
}

// (a) all value sequences ---------------------------------------------------
void values_sweep(vh::Explorer &E) {
  for (const DType t : {D, F, L, I, B, T, V, S})
    for (const bool var : {false, true}) {
      if (var && !is_float(t))
        continue;
      Cells alpha;
      if (is_float(t))
        alpha = {Cell(-2.5L, 0.5L), Cell(0, 1), Cell(1, 4), Cell(INF, 2), Cell(-INF, 3), Cell(std::nan(""), 8), Cell(1, 16)};
      else if (t == V) {
        for (const auto &c : values_of(V, false))
          alpha.push_back(c);
      } else if (t == S) {
        Cell c;
        c.s = "x";
        alpha = {c};
      } else
        alpha = values_of(t);
      if (!var && is_float(t))
        alpha.pop_back();
      const int n = alpha.size();
      const int maxlen = E.thorough ? 5 : 4;
      for (int len = 0; len <= maxlen; ++len) {
        long total = 1;
        for (int i = 0; i < len; ++i)
          total *= n;
        const long block = 60;
        for (long from = 0; from < total; from += block)
          E.run([&] { return std::string(tname(t)) + (var ? " with variances" : "") + ", sequences of " + std::to_string(len) + " from " + std::to_string(from); }, [&] {
            if (len > 1)
              E.nontrivial();
            for (long k = from; k < std::min(total, from + block); ++k) {
              Arr a = array_of(t, t == B ? units::one : t == T ? units::ns : units::m, {Dim::X}, {len}, {});
              a.var = var;
              long x = k;
              for (int i = 0; i < len; ++i) {
                a.v.push_back(alpha[x % n]);
                x /= n;
                if (!var)
                  a.v.back().var = 0;
              }
              if (t == T)
                for (auto &c : a.v)
                  c.var = 0;
              reduce_all(E, a, make_plain(a), "contiguous");
            }
          });
      }
    }
}

// (b) shapes and layouts ----------------------------------------------------
Arr pattern(DType t, const std::vector<ix> &shape, bool var) {
  static const Dim all[] = {Dim::X, Dim::Y, Dim::Z, Dim::Time};
  Arr a = array_of(t, t == B ? units::one : t == T ? units::ns : units::m, {}, shape, {});
  for (size_t i = 0; i < shape.size(); ++i)
    a.dims.push_back(all[i]);
  a.var = var;
  const ix n = a.volume();
  for (ix i = 0; i < n; ++i) {
    // no two positions alike, neither sorted nor symmetric
    const ix k = (i * 7 + 3) % 11 - 4 + (i % 3) * 13;
    Cell c(t == B ? LD(i % 3 != 1) : is_float(t) ? k * 0.25L : LD(k));
    c.y = i;
    c.z = -2 * i;
    if (var)
      c.var = 0.125L * (i % 17 + 1);
    a.v.push_back(c);
  }
  return a;
}
void layout_sweep(vh::Explorer &E) {
  std::vector<std::vector<ix>> shapes{{}};
  for (ix i = 0; i <= 3; ++i) {
    shapes.push_back({i});
    for (ix j = 0; j <= 3; ++j) {
      shapes.push_back({i, j});
      for (ix k = 0; k <= 3; ++k)
        shapes.push_back({i, j, k});
    }
  }
  shapes.push_back({2, 3, 2, 2});
  shapes.push_back({2, 1, 3, 2});
  for (const auto &shape : shapes)
    for (const DType t : {D, F, L, I, B, T, V})
      for (const bool var : {false, true}) {
        if (var && !is_float(t))
          continue;
        E.run([&] {
          std::string s = "layouts of " + std::string(tname(t)) + " of shape";
          for (const auto x : shape)
            s += " " + std::to_string(x);
          return s;
        }, [&] {
          const auto a = pattern(t, shape, var);
          if (a.volume() > 1)
            E.nontrivial();
          for (int l = 0; l <= broadcast_layout; ++l) {
            const auto m = make(a, l);
            const auto before = read(m.base);
            reduce_all(E, a, m.view, layout_name(l));
            E.check_lazy(difference(read(m.base), before).empty(), "operand-modified", [&] { return str(a); });
          }
          // every permutation of the dimensions
          if (shape.size() > 1) {
            std::vector<int> p(shape.size());
            for (size_t i = 0; i < p.size(); ++i)
              p[i] = i;
            const auto v = make_plain(a);
            do {
              std::vector<Dim> order;
              for (const auto i : p)
                order.push_back(a.dims[i]);
              reduce_all(E, transposed(a, order), v.transpose(order), "transposed");
            } while (std::next_permutation(p.begin(), p.end()));
          }
        });
      }
  // broadcasts
  for (const DType t : {D, L})
    for (const ix n : {1, 2, 3})
      for (const ix m : {0, 1, 3})
        E.run([&] { return "reductions of broadcasts"; }, [&] {
          E.nontrivial();
          const auto a = pattern(t, {n}, false);
          for (const bool outer : {false, true}) {
            const auto v = make_plain(a).broadcast(outer ? scipp::Dimensions({Dim::Y, Dim::X}, {m, n}) : scipp::Dimensions({Dim::X, Dim::Y}, {n, m}));
            reduce_all(E, read(v), v, "broadcast");
          }
        });
}

// (c) sizes that are split ---------------------------------------------------
void big_sweep(vh::Explorer &E) {
  const std::vector<std::vector<ix>> shapes{{16383}, {16384}, {16385}, {20001}, {70000}, {2, 8192}, {8192, 2}, {23, 800}, {24, 700}, {25, 700}, {47, 400}, {49, 400}, {800, 23}, {130, 130}, {1, 16400}, {16400, 1},
                                            {3, 5, 1100}, {1100, 5, 3}, {5, 1100, 3}, {26, 26, 26}, {2, 2, 2, 2100}, {66000, 2}, {2, 66000}};
  for (const auto &shape : shapes)
    for (const DType t : {D, F, L, B})
      for (const bool var : {false, true}) {
        if (var && t != D)
          continue;
        E.run([&] {
          std::string s = "large " + std::string(tname(t)) + " of shape";
          for (const auto x : shape)
            s += " " + std::to_string(x);
          return s;
        }, [&] {
          E.nontrivial();
          const auto a = pattern(t, shape, var);
          for (const int l : {0, 1, 2})
            if (l != 1 || shape.size() > 1)
              reduce_all(E, a, make(a, l).view, layout_name(l));
        });
      }
  // accumulation into something that is not the identity
  for (const auto &shape : std::vector<std::vector<ix>>{{5}, {3, 4}, {16384}, {4, 5000}, {5000, 4}, {130, 130}, {200, 200}})
    for (const auto &r : reductions()) {
      if (!r.into)
        continue;
      for (const DType t : {D, F, L, B})
        for (int d = 0; d < int(shape.size()); ++d)
          E.run([&] { return r.name + " of " + tname(t) + " into a variable with content, size " + std::to_string(shape[0]); }, [&] {
            if (result_type(r.name, t) != t || (t == B && r.name[0] != 'a'))
              return;
            E.nontrivial();
            const auto a = pattern(t, shape, false);
            Arr out = array_of(t, r.name[0] == 'a' ? units::none : a.u, {}, {}, {});
            auto in = a;
            if (r.name[0] == 'a')
              in.u = units::none;
            for (int i = 0; i < int(shape.size()); ++i)
              if (i != d)
                out.dims.push_back(a.dims[i]), out.shape.push_back(shape[i]);
            for (const LD init : {0.L, 1.L, 7.L, -1000.L, 1000.L}) {
              out.v.clear();
              for (ix i = 0; i < out.volume(); ++i)
                out.v.push_back(Cell(t == B ? LD(init == 1) : init + (i % 5)));
              for (const int l : {0, 2}) {
                auto m = make(out, l);
                r.into(m.view, make_plain(in));
                r.into(m.view, make_plain(in)); // again, as for several slices of a group
                std::vector<Cells> groups(out.volume());
                for (ix i = 0; i < out.volume(); ++i)
                  groups[i].push_back(out.v[i]);
                for (int k = 0; k < 2; ++k)
                  for (ix i = 0; i < a.volume(); ++i)
                    groups[out.index_of(a, i)].push_back(a.v[i]);
                const auto g = read(m.view);
                for (ix i = 0; i < out.volume(); ++i)
                  compare(E, g.v[i], false, r.name, groups[i], t, [&] { return r.name + " into " + arr::num(init); });
              }
            }
          });
    }
}

// (d) cumulative sums ---------------------------------------------------------
void cumulative_sweep(vh::Explorer &E) {
  const auto verify = [&](const Arr &a, const Variable &v, const std::string &how) {
    for (const bool incl : {true, false})
      for (int d = -1; d < int(a.dims.size()); ++d) {
        const auto mode = incl ? sv::CumSumMode::Inclusive : sv::CumSumMode::Exclusive;
        const auto what = [&] { return std::string(incl ? "inclusive" : "exclusive") + " cumulative sum over " + (d < 0 ? "all" : to_string(a.dims[d])) + " of " + str(a) + ", " + how; };
        Arr want = a;
        // running sums per line; over all dimensions in the order of the elements
        std::map<ix, LD> sums;
        for (ix i = 0; i < a.volume(); ++i) {
          auto m = a.unravel(i);
          if (d >= 0)
            m[d] = 0;
          auto &s = sums[d < 0 ? 0 : a.ravel(m)];
          if (!incl)
            want.v[i].x = s;
          s += a.v[i].x;
          if (incl)
            want.v[i].x = s;
        }
        const auto diff = difference(read(d < 0 ? sv::cumsum(v, mode) : sv::cumsum(v, a.dims[d], mode)), want, a.t == F ? 1e-6L : 1e-13L);
        ++E.transitions;
        E.check_lazy(diff.empty(), "cumulative", [&] { return what() + ": " + diff; });
        E.check_lazy(difference(read(v), a).empty(), "operand-modified", what);
      }
  };
  for (const DType t : {D, F, L, I}) {
    for (ix i = 0; i <= 4; ++i)
      for (ix j = -1; j <= 3; ++j)
        for (ix k = -1; k <= 2; ++k) {
          if (k >= 0 && j < 0)
            continue;
          E.run([&] { return "cumulative sums of " + std::string(tname(t)); }, [&] {
            std::vector<ix> shape{i};
            if (j >= 0)
              shape.push_back(j);
            if (k >= 0)
              shape.push_back(k);
            const auto a = pattern(t, shape, false);
            if (a.volume() > 1)
              E.nontrivial();
            for (int l = 0; l <= broadcast_layout; ++l)
              verify(a, make(a, l).view, layout_name(l));
          });
        }
    if (is_float(t))
      E.run([&] { return "cumulative sums with special values"; }, [&] {
        E.nontrivial();
        const Cells alpha{Cell(1), Cell(INF), Cell(-INF), Cell(std::nan("")), Cell(0.5L)};
        for (int k = 0; k < 625; ++k) {
          int x = k;
          Arr a = array_of(t, units::m, {Dim::X}, {4}, {});
          for (int i = 0; i < 4; ++i, x /= 5)
            a.v.push_back(alpha[x % 5]);
          verify(a, make_plain(a), "contiguous");
        }
      });
    for (const ix n : {17000, 40000})
      E.run([&] { return "long cumulative sums"; }, [&] {
        E.nontrivial();
        auto a = pattern(t, {n}, false);
        for (auto &c : a.v)
          c.x = ix(c.x);
        verify(a, make_plain(a), "contiguous");
      });
  }
}

// (e) binned -----------------------------------------------------------------
void binned_sweep(vh::Explorer &E) {
  const Dim ev("event");
  for (const DType t : {D, F, L, I, B, T})
    for (const bool var : {false, true}) {
      if (var && !is_float(t))
        continue;
      for (int form = 0; form < 4; ++form) { // dimensions of the bins
        const std::vector<std::vector<ix>> forms{{}, {3}, {2, 2}, {4}};
        const auto shape = forms[form];
        ix nb = 1;
        for (const auto s : shape)
          nb *= s;
        long combos = 1;
        for (ix i = 0; i < nb; ++i)
          combos *= 3;
        for (int order = 0; order < 4; ++order)
          for (long c = 0; c < combos; ++c)
            E.run([&] { return "binned " + std::string(tname(t)) + ", form " + std::to_string(form) + ", sizes number " + std::to_string(c) + ", order " + std::to_string(order); }, [&] {
              E.nontrivial();
              std::vector<ix> sizes(nb);
              long x = c;
              ix total = 0;
              for (auto &s : sizes) {
                s = x % 3;
                x /= 3;
                total += s;
              }
              Arr idx = array_of(dtype<scipp::index_pair>, units::none, {}, shape, Cells(nb));
              const Dim dims[] = {Dim::X, Dim::Y};
              for (size_t i = 0; i < shape.size(); ++i)
                idx.dims.push_back(dims[i]);
              const Cells alpha = is_float(t) ? Cells{Cell(-2.5L, 0.5L), Cell(3, 1), Cell(std::nan(""), 1), Cell(0, 2), Cell(7, 0.25L)} : values_of(t);
              const ix gap = order & 1;
              Arr buf = array_of(t, t == B ? units::one : t == T ? units::ns : units::m, {ev}, {total + (nb + 1) * gap}, {});
              buf.v.assign(buf.shape[0], Cell(t == B ? 0 : 99, 99));
              std::vector<Cells> bins(nb);
              ix at = gap;
              for (ix k = 0; k < nb; ++k) {
                const ix i = order & 2 ? nb - 1 - k : k;
                idx.v[i].x = at;
                for (ix e = 0; e < sizes[i]; ++e, ++at) {
                  auto cell = alpha[(i * 2 + e + c) % alpha.size()];
                  if (!var)
                    cell.var = 0;
                  buf.v[at] = cell;
                  bins[i].push_back(cell);
                }
                idx.v[i].y = at;
                at += gap;
              }
              buf.var = var;
              const auto v = sv::make_bins(make_plain(idx), ev, make_plain(buf));
              for (const auto &r : reductions()) {
                const auto rt = result_type(r.name, t);
                if (rt == N)
                  continue;
                const auto group = [&](const Variable &res, const Arr &which, const std::string &how) {
                  const auto g = read(res);
                  const auto what = [&] { return r.name + " " + how + " of bins"; };
                  E.check_lazy(g.t == rt && g.dims == which.dims && g.shape == which.shape && g.var == (var && rt != B), "binned-shape", [&] { return what() + " is " + str(g); });
                  E.check_lazy(r.name[0] == 'a' ? g.u == units::none || g.u == buf.u : g.u == buf.u, "binned-unit", [&] { return what() + " is " + str(g); });
                  std::vector<Cells> groups(g.volume());
                  for (ix i = 0; i < nb; ++i)
                    for (const auto &cell : bins[i])
                      groups[which.index_of(idx, i)].push_back(cell);
                  for (ix i = 0; i < g.volume(); ++i)
                    compare(E, g.v[i], g.var, r.name, groups[i], t, [&] { return what() + " " + text(groups[i], t, var); });
                };
                group(r.bins(v), idx, "per bin");
                if (r.name == "nanmean")
                  continue; // along dimensions: of the events
                Arr scalar;
                group(r.all(v), scalar, "over all");
                for (size_t d = 0; d < shape.size(); ++d) {
                  Arr rest;
                  for (size_t k = 0; k < shape.size(); ++k)
                    if (k != d)
                      rest.dims.push_back(idx.dims[k]), rest.shape.push_back(shape[k]);
                  group(r.dim(v, idx.dims[d]), rest, "over a dimension");
                }
                // slices and transposes
                if (shape.size() == 2) {
                  const auto tr = v.transpose(std::vector<Dim>{Dim::Y, Dim::X});
                  const auto itr = transposed(idx, {Dim::Y, Dim::X});
                  group(r.bins(tr), itr, "per bin (transposed)");
                  Arr rest;
                  rest.dims = {Dim::Y};
                  rest.shape = {2};
                  group(r.dim(tr, Dim::X), rest, "over a dimension (transposed)");
                }
                if (!shape.empty()) {
                  const auto s = read(r.bins(v.slice({Dim::X, 1, shape[0]})));
                  const ix inner = nb / shape[0];
                  for (ix i = 0; i < s.volume(); ++i)
                    compare(E, s.v[i], s.var, r.name, bins[i + inner], t, [&] { return r.name + " per bin of a slice"; });
                }
              }
              // cumulative sums within bins
              if (num(t) && !var)
                for (const bool incl : {true, false}) {
                  const auto res = sv::cumsum_bins(v, incl ? sv::CumSumMode::Inclusive : sv::CumSumMode::Exclusive);
                  const auto &[ind, dim, buffer] = res.constituents<Variable>();
                  const auto b = read(buffer), ii = read(ind);
                  for (ix i = 0; i < nb; ++i) {
                    LD s = 0;
                    E.check_lazy(ii.v[i].y - ii.v[i].x == sizes[i], "cumulative-bins", [] { return "sizes differ"; });
                    for (ix e = 0; e < sizes[i]; ++e) {
                      const auto w = incl ? s + bins[i][e].x : s;
                      s += bins[i][e].x;
                      ++E.transitions;
                      E.check_lazy(close(b.v[ii.v[i].x + e].x, w, 1e-6L), "cumulative-bins", [&] { return "cumulative sum of " + text(bins[i], t, false); });
                    }
                  }
                }
              E.check_lazy(difference(read(v.bin_buffer<Variable>()), buf).empty(), "operand-modified", [] { return "buffer"; });
            });
      }
    }
}
} // namespace

VH_EXPLORE(O06) {
  values_sweep(E);
  layout_sweep(E);
  big_sweep(E);
  cumulative_sweep(E);
  binned_sweep(E);
}
VH_MAIN
