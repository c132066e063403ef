// O02: variances are propagated by first-order error propagation.
#include "ops.h"
#include "scipp/variable/reduction.h"

using namespace ops;

namespace {
constexpr long double INF = std::numeric_limits<long double>::infinity();
bool finite(long double x) { return std::isfinite(x); }

/// How an operation treats variances.
enum class Kind { Propagate, Ignore, Select, Reject };
Kind kind_of(const std::string &n) {
  static const std::map<std::string, Kind> m = [] {
    std::map<std::string, Kind> r;
    for (const char *s : {"add", "subtract", "multiply", "divide", "negative", "abs", "sqrt", "reciprocal", "exp", "log", "log10", "pow"})
      r[s] = Kind::Propagate;
    for (const char *s : {"equal", "not_equal", "less", "greater", "less_equal", "greater_equal", "isnan", "isfinite", "isinf", "isposinf", "isneginf"})
      r[s] = Kind::Ignore;
    for (const char *s : {"where", "nan_to_num", "pos_inf_to_num", "neg_inf_to_num"})
      r[s] = Kind::Select;
    return r;
  }();
  const auto it = m.find(n);
  return it == m.end() ? Kind::Reject : it->second;
}
/// Partial derivatives.
std::vector<long double> partials(const std::string &n, const Cells &c) {
  const auto a = c[0].x, b = c.size() > 1 ? c[1].x : 0;
  if (n == "add") return {1, 1};
  if (n == "subtract") return {1, -1};
  if (n == "multiply") return {b, a};
  if (n == "divide") return {1 / b, -a / (b * b)};
  if (n == "negative") return {-1};
  if (n == "abs") return {1};
  if (n == "sqrt") return {0.5L / std::sqrt(a)};
  if (n == "reciprocal") return {-1 / (a * a)};
  if (n == "exp") return {std::exp(a)};
  if (n == "log") return {1 / a};
  if (n == "log10") return {1 / (a * std::log(10.L))};
  if (n == "pow") return {b * std::pow(a, b - 1), 0};
  throw vh::Fail{"harness", n};
}
/// Variance of the result, NaN if a derivative does not exist.
long double propagated(const std::string &n, const Cells &c) {
  const auto d = partials(n, c);
  long double v = 0;
  for (size_t i = 0; i < c.size(); ++i)
    if (d[i] != 0 || !finite(c[i].var))
      v += d[i] * d[i] * c[i].var;
  return v;
}
bool settled(const std::string &n, const Cells &c) {
  for (const auto &x : c)
    if (!finite(x.x))
      return false;
  for (const auto d : partials(n, c))
    if (!finite(d))
      return false;
  if (n == "pow" && c[0].x == 0 && c[1].x < 1)
    return false;
  return true;
}
long double eps_var(DType t, bool has_float) { return t == F || has_float ? 2e-6L : 1e-13L; }
bool any_float(const Types &t) {
  for (const auto x : t)
    if (x == F)
      return true;
  return false;
}

Cells with_variances(const Cells &v, bool var) {
  Cells r;
  for (auto c : v)
    if (var)
      for (const long double s : {0.L, 0.5L, 4.L}) {
        c.var = s;
        r.push_back(c);
      }
    else
      r.push_back(c);
  return r;
}
std::string tuple_name(const Types &t, int pres) {
  std::string s;
  for (size_t i = 0; i < t.size(); ++i)
    s += std::string(i ? "," : "") + tname(t[i]) + (pres >> i & 1 ? "+-" : "");
  return s;
}
std::vector<Types> tuples(int n) {
  const Types all{D, F, L, I, B};
  std::vector<Types> r{{}};
  for (int i = 0; i < n; ++i) {
    std::vector<Types> next;
    for (const auto &x : r)
      for (const auto t : all) {
        auto y = x;
        y.push_back(t);
        next.push_back(y);
      }
    r = next;
  }
  return r;
}
Arr without(Arr a) {
  a.var = false;
  for (auto &c : a.v)
    c.var = 0;
  return a;
}

// (a) every operation with all combinations of values and variances ---------
void values_sweep(vh::Explorer &E, const std::vector<Op> &table) {
  for (const auto &op : table) {
    const auto kind = kind_of(op.name);
    for (const auto &types : tuples(op.arity)) {
      const DType rt = op.type(types);
      if (rt == N)
        continue;
      for (int pres = 1; pres < (1 << op.arity); ++pres) {
        bool possible = true;
        for (int i = 0; i < op.arity; ++i)
          possible &= !(pres >> i & 1) || is_float(types[i]);
        if (!possible)
          continue;
        E.run([&] { return op.name + " of " + tuple_name(types, pres); }, [&] {
          E.nontrivial();
          std::vector<Cells> alpha;
          for (int i = 0; i < op.arity; ++i) {
            auto v = values_of(types[i]);
            if (op.name == "pow" && i == 1 && is_int(types[0]) && is_int(types[1]))
              v = {Cell(0), Cell(1), Cell(2), Cell(3)};
            else if (op.name == "pow" && i == 1)
              v = is_float(types[1]) ? Cells{Cell(0), Cell(0.5L), Cell(1), Cell(2), Cell(3), Cell(-1), Cell(-2), Cell(-0.5L)} : Cells{Cell(0), Cell(1), Cell(2), Cell(3), Cell(-1), Cell(-2)};
            alpha.push_back(with_variances(v, pres >> i & 1));
          }
          std::vector<Cells> rows{{}};
          for (const auto &al : alpha) {
            std::vector<Cells> next;
            for (const auto &r : rows)
              for (const auto &c : al) {
                auto x = r;
                x.push_back(c);
                next.push_back(x);
              }
            rows = next;
          }
          const ix n = rows.size();
          std::vector<Arr> in, in0;
          for (int i = 0; i < op.arity; ++i) {
            Cells c;
            for (const auto &r : rows)
              c.push_back(r[i]);
            in.push_back(array_of(types[i], op.units.empty() ? Unit(units::one) : op.units[i], {Dim::X}, {n}, c));
            in.back().var = pres >> i & 1;
            in0.push_back(without(in.back()));
          }
          for (const int layout : {0, 2}) {
            Vars v, v0;
            for (int i = 0; i < op.arity; ++i) {
              v.push_back(make(in[i], layout).view);
              v0.push_back(make_plain(in0[i]));
            }
            const bool reject = kind == Kind::Reject || (op.name == "pow" && (pres & 2)) || (op.name == "where" && (pres & 1)) ||
                                ((op.name == "nan_to_num" || op.name == "pos_inf_to_num" || op.name == "neg_inf_to_num") && pres != 3);
            const auto unchanged = [&] {
              for (int i = 0; i < op.arity; ++i)
                E.check_lazy(difference(read(v[i]), in[i]).empty(), "operand-modified", [&] { return op.name; });
            };
            const auto verify = [&](const Variable &r, const Variable &r0, const char *how, bool target_first = false) {
              const auto got = read(r), plain = read(r0);
              const auto where_ = [&](ix i) {
                std::string s = std::string(how) + " " + op.name + "(";
                for (int k = 0; k < op.arity; ++k)
                  s += (k ? ", " : "") + str(in[k].v[i], types[k], in[k].var);
                return s + ")";
              };
              E.check_lazy(got.t == plain.t && got.u == plain.u, "type-or-unit", [&] { return std::string(how) + " " + op.name + " with variances has another type or unit"; });
              const bool want_var = kind != Kind::Ignore && is_float(plain.t);
              E.check_lazy(got.var == want_var, "presence", [&] { return std::string(how) + " " + op.name + (want_var ? " has no variances" : " has variances"); });
              for (ix i = 0; i < n; ++i) {
                ++E.transitions;
                const long double ev = plain.t == F ? 1e-6L : is_float(plain.t) ? 1e-14L : 0;
                const bool skip_value = op.name == "pow" && rows[i][1].x == 0 && !finite(rows[i][0].x);
                if (!skip_value)
                  E.check_lazy(close(got.v[i].x, plain.v[i].x, ev), "value", [&] {
                    return where_(i) + " is " + arr::num(got.v[i].x) + ", without variances " + arr::num(plain.v[i].x);
                  });
                if (!got.var)
                  continue;
                if (kind == Kind::Select) {
                  const auto want = op.ref(rows[i], types);
                  E.check_lazy(close(got.v[i].var, want.var, 0), "variance", [&] { return where_(i) + " has variance " + arr::num(got.v[i].var) + ", not " + arr::num(want.var); });
                  continue;
                }
                const auto want = propagated(op.name, rows[i]);
                if (settled(op.name, rows[i])) {
                  if (finite(want) && std::abs(want) < 1e30L)
                    E.check_lazy(close(got.v[i].var, want, eps_var(plain.t, any_float(types))), "variance", [&] {
                      return where_(i) + " has variance " + arr::num(got.v[i].var) + ", not " + arr::num(want);
                    });
                } else
                  E.check_lazy(!(got.v[i].var < 0) || std::isnan(got.v[i].x), "variance", [&] { return where_(i) + " has a negative variance"; });
              }
              (void)target_first;
            };
            if (reject) {
              const auto e = raised([&] { op.f(v); });
              ++E.transitions;
              E.check_lazy(!e.empty(), "not-rejected", [&] { return op.name + " of " + tuple_name(types, pres) + " is not rejected"; });
              unchanged();
            } else {
              const auto r0 = op.f(v0);
              verify(op.f(v), r0, "plain");
              unchanged();
              if (op.out) {
                auto o = read(r0);
                const auto o0 = o;
                o.var = kind != Kind::Ignore && is_float(o.t);
                auto vo = make(o, layout).view;
                op.out(v, vo);
                verify(vo, r0, "output");
                unchanged();
                if (o.var) { // an output without variances
                  auto bad = make_plain(o0);
                  const auto e = raised([&] { op.out(v, bad); });
                  E.check_lazy(!e.empty(), "not-rejected", [&] { return op.name + " of " + tuple_name(types, pres) + " into an output without variances"; });
                  unchanged();
                }
              }
            }
            if (op.in_place && op.in_place_types(types)) {
              const bool bad = reject || (!(pres & 1) && kind == Kind::Propagate);
              Vars w = v;
              auto m = make(in[0], layout);
              w[0] = m.view;
              const auto base0 = read(m.base);
              if (bad) {
                const auto e = raised([&] { op.in_place(m.view, w); });
                ++E.transitions;
                E.check_lazy(!e.empty(), "not-rejected", [&] { return "in-place " + op.name + " of " + tuple_name(types, pres) + " is not rejected"; });
                E.check_lazy(difference(read(m.base), base0).empty(), "operand-modified", [&] { return op.name; });
              } else {
                auto x = copy(v[0]), x0 = copy(v0[0]);
                op.in_place(x, v);
                op.in_place(x0, v0);
                verify(x, x0, "in-place");
              }
            }
          }
        });
      }
    }
  }
}

// (b) layouts, broadcasts ---------------------------------------------------
void layout_sweep(vh::Explorer &E, const std::vector<Op> &table) {
  const std::vector<std::vector<Dim>> selections{{}, {Dim::X}, {Dim::Y}, {Dim::X, Dim::Y}, {Dim::Y, Dim::X}};
  const auto ext = [](Dim d, ix nx, ix ny) { return d == Dim::X ? nx : ny; };
  for (const auto &op : table) {
    if (kind_of(op.name) == Kind::Reject || op.arity != 2)
      continue;
    const auto kind = kind_of(op.name);
    for (const auto &[nx, ny] : {std::pair<ix, ix>{2, 3}, {1, 2}, {2, 1}, {1, 1}, {0, 2}, {2, 0}})
      for (const auto &sa : selections)
        for (const auto &sb : selections)
          for (int pres = 0; pres < 4; ++pres) {
            if (op.name == "pow" && (pres & 2))
              continue;
            E.run([&] { return op.name + ", dimensions " + std::to_string(sa.size()) + " and " + std::to_string(sb.size()) + ", variances " + std::to_string(pres); }, [&] {
              E.nontrivial();
              const auto build = [&](const std::vector<Dim> &s, int first, bool var) {
                Arr a = array_of(D, op.units[0], s, {}, {});
                for (const auto d : s)
                  a.shape.push_back(ext(d, nx, ny));
                for (ix i = 0; i < a.volume(); ++i)
                  a.v.push_back(Cell(first + i, 0.25L * (i + 1)));
                a.var = var;
                return var ? a : without(a);
              };
              auto a = build(sa, 2, pres & 1), b = build(sb, op.name == "pow" ? 1 : 5, pres & 2);
              a.u = op.units[0];
              b.u = op.units[1];
              // result
              Arr want;
              want.dims = sa;
              for (const auto d : sb)
                if (a.axis(d) < 0)
                  want.dims.push_back(d);
              // order of the dimensions is the concern of O01
              for (int la = 0; la < num_layouts; ++la)
                for (int lb = 0; lb < num_layouts; ++lb) {
                  const auto va = make(a, la).view, vb = make(b, lb).view;
                  ++E.transitions;
                  const auto what = [&] { return op.name + " of " + str(a) + " (" + layout_name(la) + ") and " + str(b) + " (" + layout_name(lb) + ")"; };
                  const auto dims_of = [&](const Arr &x) { return x.dims.size(); };
                  const size_t nr = want.dims.size();
                  const bool bad = kind == Kind::Propagate ? (a.var && dims_of(a) < nr) || (b.var && dims_of(b) < nr)
                                                        : false;
                  Variable r;
                  const auto e = raised([&] { r = op.f({va, vb}); });
                  if (kind == Kind::Select)
                    continue;
                  if (op.name == "pow" && nx * ny == 0 && nr == 2)
                    continue; // no elements that could be correlated
                  if (op.name == "pow" && nr == 1 && (want.dims[0] == Dim::X ? nx : ny) == 0)
                    continue;
                  E.check_lazy(e.empty() == !bad, "broadcast", [&] { return what() + ": '" + e + "'"; });
                  E.check_lazy(!bad || e == "VariancesError", "broadcast", [&] { return what() + ": '" + e + "'"; });
                  E.check_lazy(difference(read(va), a).empty() && difference(read(vb), b).empty(), "operand-modified", what);
                  if (bad)
                    continue;
                  const auto got = read(r);
                  for (ix i = 0; i < got.volume(); ++i) {
                    const Cells c{a.v[a.index_of(got, i)], b.v[b.index_of(got, i)]};
                    E.check_lazy(close(got.v[i].x, op.ref(c, {D, D}).x, 1e-14L), "value", what);
                    if (got.var)
                      E.check_lazy(close(got.v[i].var, propagated(op.name, c), 1e-13L), "variance", what);
                  }
                  E.check_lazy(got.var == (kind == Kind::Propagate && (a.var || b.var)), "presence", what);
                  // explicit broadcasts
                  if (nr == 2 && dims_of(b) < 2 && nx * ny > 0) {
                    const auto bb = vb.broadcast(r.dims());
                    const auto e2 = raised([&] { op.f({va, bb}); });
                    E.check_lazy(e2.empty() == (!b.var || kind == Kind::Ignore), "broadcast", [&] { return "explicit broadcast, " + what() + ": '" + e2 + "'"; });
                  }
                  // in place
                  if (op.in_place && a.var && dims_of(a) == nr) {
                    auto m = make(a, la);
                    const auto before = read(m.base);
                    const auto e3 = raised([&] { op.in_place(m.view, {m.view, vb}); });
                    if (!e3.empty()) // the unit of a part cannot change
                      E.check_lazy(got.u != a.u && m.view.is_slice() && difference(read(m.base), before).empty(), "in-place", what);
                    else
                    E.check_lazy(difference(read(m.view), transposed(got, a.dims), 1e-14L, 1e-13L).empty(), "in-place", what);
                  }
                  // float with double
                  if (op.in_place && lb == 0) {
                    auto af = a;
                    af.t = F;
                    const auto gf = read(op.f({make(af, la).view, vb}));
                    E.check_lazy(difference(gf, got, 1e-6L, 2e-6L).empty() || op.name == "pow", "float", what);
                  }
                }
              // rejected in place: a broadcast of variances, or nowhere to put them
              if (op.in_place && b.var && (sb.size() < sa.size() || !a.var))
                for (int la = 0; la < num_layouts; ++la) {
                  auto m = make(a, la);
                  const auto before = read(m.base);
                  const auto vb = make_plain(b);
                  const auto e = raised([&] { op.in_place(m.view, {m.view, vb}); });
                  E.check_lazy(!e.empty() && difference(read(m.base), before).empty(), "broadcast", [&] { return "in-place " + op.name + " of " + str(a) + " and " + str(b) + ": '" + e + "'"; });
                }
            });
          }
  }
}

// (c) correlations ----------------------------------------------------------
void correlation_sweep(vh::Explorer &E, const std::vector<Op> &table) {
  const std::vector<std::string> names{"add", "subtract", "multiply", "divide"};
  for (const auto &op : table) {
    const auto it = std::find(names.begin(), names.end(), op.name);
    if (it == names.end())
      continue;
    for (const auto t : {D, F})
      for (const auto &unit : {units::one, units::m, units::none, units::counts})
        for (int layout = 0; layout < num_layouts; ++layout)
          for (int nd = 0; nd <= 2; ++nd)
            E.run([&] { return op.name + " of a variable with itself, " + tname(t) + ", unit " + to_string(unit) + ", " + layout_name(layout); }, [&] {
              E.nontrivial();
              Arr a = array_of(t, unit, {}, {}, {});
              if (nd > 0) {
                a.dims.push_back(Dim::X);
                a.shape.push_back(2);
              }
              if (nd > 1) {
                a.dims.push_back(Dim::Y);
                a.shape.push_back(3);
              }
              const Cells vals{Cell(-2.5L, 0.5L), Cell(-1, 4), Cell(0.25L, 0), Cell(1, 1), Cell(3, 0.125L), Cell(8, 3)};
              for (ix i = 0; i < a.volume(); ++i)
                a.v.push_back(vals[nd == 0 ? 4 : i]);
              a.var = true;
              const auto what = [&] { return op.name + " of " + str(a) + " with itself"; };
              Arr corr = a, un = a;
              corr.u = un.u = *op.unit({unit, unit});
              for (ix i = 0; i < a.volume(); ++i) {
                const auto x = a.v[i].x, s = a.v[i].var;
                const Cells c{a.v[i], a.v[i]};
                corr.v[i].x = un.v[i].x = op.ref(c, {t, t}).x;
                un.v[i].var = propagated(op.name, c);
                corr.v[i].var = op.name == "add" ? 4 * s : op.name == "multiply" ? 4 * x * x * s : 0;
              }
              const long double e = t == F ? 1e-6L : 1e-14L, ev = t == F ? 3e-6L : 1e-13L;
              const auto agree = [&](const Variable &r, const Arr &w, const char *how) {
                ++E.transitions;
                const auto d = difference(read(r), w, e, ev);
                E.check_lazy(d.empty(), "correlation", [&] { return what() + ", " + how + ": " + d; });
              };
              const auto m = make(a, layout);
              const auto v = m.view;
              const Variable alias(v), deep = copy(v);
              agree(op.f({v, v}), corr, "same object");
              agree(op.f({v, alias}), corr, "second handle");
              agree(op.f({v, v.as_const()}), corr, "read-only handle");
              agree(op.f({v, deep}), un, "copy");
              if (nd > 0)
                agree(op.f({v, v.slice({Dim::X, 0, 2})}), corr, "complete slice");
              if (nd == 2) {
                // the other half of the data is uncorrelated, the same half is not
                const auto lo = v.slice({Dim::X, 0, 1}), lo2 = v.slice({Dim::X, 0, 1}), hi = v.slice({Dim::X, 1, 2});
                for (const auto &[p, q, same] : {std::tuple<Variable, Variable, bool>{lo, lo2, true}, {lo, hi, false}}) {
                  const auto ra = read(p), rb = read(q);
                  auto w = ra;
                  w.u = corr.u;
                  for (ix i = 0; i < 3; ++i) {
                    const Cells c{ra.v[i], rb.v[i]};
                    w.v[i].x = op.ref(c, {t, t}).x;
                    w.v[i].var = same ? (op.name == "add" ? 4 * ra.v[i].var : op.name == "multiply" ? 4 * ra.v[i].x * ra.v[i].x * ra.v[i].var : 0) : propagated(op.name, c);
                  }
                  agree(op.f({p, q}), w, same ? "same slices" : "different slices");
                }
              }
              E.check_lazy(difference(read(v), a).empty(), "operand-modified", what);
              // in place
              const bool can_set = layout == 0 || corr.u == unit;
              const auto in_place = [&](auto &&get, const Arr &w, const char *how) {
                auto m2 = make(a, layout);
                const auto before = read(m2.base);
                if (!can_set && !m2.view.is_slice())
                  return;
                const Variable other = get(m2.view);
                const auto ex = raised([&] { op.in_place(m2.view, {m2.view, other}); });
                ++E.transitions;
                if (!ex.empty()) {
                  E.check_lazy((corr.u != unit || unit == units::none) && layout != 0 && difference(read(m2.base), before).empty(), "correlation", [&] { return what() + " in place, " + how + ": " + ex; });
                  return;
                }
                const auto d = difference(read(m2.view), w, e, ev);
                E.check_lazy(d.empty(), "correlation", [&] { return what() + " in place, " + how + ": " + d; });
                if (layout == 0)
                  return;
                const auto after = read(m2.base);
                std::vector<char> in(after.v.size());
                for (const auto p : m2.pos)
                  in[p] = 1;
                for (size_t i = 0; i < in.size(); ++i)
                  if (!in[i])
                    E.check_lazy(same_cell(after.v[i], before.v[i], t, true), "out-of-selection", what);
              };
              in_place([](const Variable &x) { return x; }, corr, "same object");
              in_place([](const Variable &x) { return copy(x); }, un, "copy");
              if (nd > 0)
                in_place([](const Variable &x) { return x.slice({Dim::X, 0, 2}); }, corr, "complete slice");
            });
  }
}

// (d) other functions -------------------------------------------------------
void misc_sweep(vh::Explorer &E) {
  for (const auto t : {D, F})
    for (int layout = 0; layout < num_layouts; ++layout)
      E.run([&] { return std::string("components of ") + tname(t) + ", " + layout_name(layout); }, [&] {
        E.nontrivial();
        Arr a = array_of(t, units::m, {Dim::X, Dim::Y}, {2, 3}, {});
        for (int i = 0; i < 6; ++i)
          a.v.push_back(Cell(i - 2, i * i * 0.25L));
        a.var = true;
        const auto v = make(a, layout).view;
        const auto agree = [&](const Variable &r, const Arr &w, const char *how) {
          ++E.transitions;
          const auto d = difference(read(r), w, t == F ? 1e-6L : 1e-14L);
          E.check_lazy(d.empty(), "components", [&] { return std::string(how) + " of " + str(a) + ": " + d; });
        };
        auto w = without(a);
        agree(sv::values(v), w, "values");
        for (int i = 0; i < 6; ++i)
          w.v[i].x = a.v[i].var;
        w.u = units::m * units::m;
        agree(sv::variances(v), w, "variances");
        w.u = units::m;
        for (int i = 0; i < 6; ++i)
          w.v[i].x = std::sqrt(a.v[i].var);
        agree(sv::stddevs(v), w, "stddevs");
        const auto plain = make(without(a), layout).view;
        agree(sv::values(plain), without(a), "values without variances");
        E.check(raised([&] { sv::variances(plain); }) == "VariancesError", "components", "variances of data without");
        E.check(raised([&] { sv::stddevs(plain); }) == "VariancesError", "components", "stddevs of data without");
        // conversion of type and unit
        for (const auto to : {D, F}) {
          auto c = a;
          c.t = to;
          agree(sv::astype(v, to), c, "astype");
        }
        for (const auto to : {L, I, B}) {
          const auto e = raised([&] { sv::astype(v, to); });
          E.check_lazy(!e.empty(), "not-rejected", [&] { return std::string("conversion to ") + tname(to) + " of data with variances"; });
        }
        // setting
        auto target = make(without(a), layout);
        const auto before = read(target.base);
        E.check(!raised([&] { copy(v, target.view); }).empty() && difference(read(target.base), before).empty(), "not-rejected", "assigning data with variances to data without");
        // broadcasts
        const auto s = v.slice({Dim::X, 0});
        auto bc = s.broadcast(scipp::Dimensions({Dim::X, Dim::Y}, {4, 3}));
        auto ws = read(bc);
        for (int i = 0; i < 12; ++i)
          ws.v[i].x = a.v[i % 3].x, ws.v[i].var = a.v[i % 3].var;
        agree(bc, ws, "broadcast");
        agree(sv::values(bc), without(ws), "values of a broadcast");
        agree(copy(bc), ws, "copy of a broadcast");
        agree(sv::where(makeVariable<bool>(scipp::Dimensions({Dim::X, Dim::Y}, {4, 3}), units::none), s, s), ws, "where");
        auto arg = raised([&] { (void)-bc; });
        E.check(arg == "VariancesError", "broadcast", "negative of an explicit broadcast: '" + arg + "'");
      });
  // isclose compares standard deviations too
  for (const auto t : {D, F})
    E.run([&] { return std::string("isclose of ") + tname(t); }, [&] {
      E.nontrivial();
      for (const long double x : {0.L, 1.L, 2.L})
        for (const long double y : {0.L, 1.L, 2.L})
          for (const long double vx : {0.L, 1.L, 4.L, 9.L})
            for (const long double vy : {0.L, 1.L, 4.L, 9.L})
              for (const long double at : {0.L, 1.L, 2.L})
                for (const long double rt : {0.L, 0.5L})
                  for (const bool eq : {false, true}) {
                    auto a = array_of(t, units::m, {Dim::X}, {1}, {Cell(x, vx)}), b = array_of(t, units::m, {Dim::X}, {1}, {Cell(y, vy)});
                    a.var = b.var = true;
                    const auto r = sv::isclose(make_plain(a), make_plain(b), makeVariable<double>(units::one, Values{double(rt)}), makeVariable<double>(units::m, Values{double(at)}),
                                               eq ? sv::NanComparisons::Equal : sv::NanComparisons::NotEqual);
                    const auto sx = std::sqrt(vx), sy = std::sqrt(vy);
                    const bool want = std::abs(x - y) <= at + rt * std::abs(y) && std::abs(sx - sy) <= at + rt * sy;
                    ++E.transitions;
                    E.check_lazy(r.values<bool>()[0] == want, "isclose", [&] { return "isclose of " + str(a) + " and " + str(b); });
                  }
    });
}

// (e) binned ----------------------------------------------------------------
void binned_sweep(vh::Explorer &E, const std::vector<Op> &table) {
  for (const auto &op : table) {
    const auto kind = kind_of(op.name);
    if (op.arity != 2 || kind == Kind::Reject || kind == Kind::Select || op.name == "pow")
      continue;
    for (int sizes = 0; sizes < 27; ++sizes)
      for (int pres = 0; pres < 4; ++pres)
        E.run([&] { return op.name + " of binned data, sizes " + std::to_string(sizes) + ", variances " + std::to_string(pres); }, [&] {
          E.nontrivial();
          const ix sz[3] = {sizes % 3, sizes / 3 % 3, sizes / 9};
          std::vector<Cell> ea, eb; // events
          std::vector<int> bin;
          Cells pairs;
          ix at = 0;
          for (int i = 0; i < 3; ++i) {
            for (ix k = 0; k < sz[i]; ++k, ++at) {
              ea.push_back(Cell(at + 2, 0.5L * at + 1));
              eb.push_back(Cell(3 - 0.5L * at, 0.25L));
              bin.push_back(i);
            }
            pairs.push_back(Cell());
            pairs.back().x = at - sz[i];
            pairs.back().y = at;
          }
          const auto mk = [&](const Cells &c, bool var, Unit u) {
            auto b = array_of(D, u, {Dim::Event}, {at}, c);
            b.var = var;
            const auto idx = make_plain(array_of(dtype<scipp::index_pair>, units::none, {Dim::X}, {3}, pairs));
            return sv::make_bins(idx, Dim::Event, make_plain(var ? b : without(b)));
          };
          const auto ua = op.units[0], ub = op.units[1];
          auto a = mk(ea, pres & 1, ua), b = mk(eb, pres & 2, ub);
          auto dense = array_of(D, ub, {Dim::X}, {3}, {Cell(2, 0.5L), Cell(-3, 1), Cell(5, 2)});
          dense.var = pres & 2;
          if (!dense.var)
            dense = without(dense);
          const auto vd = make_plain(dense);
          const auto buffer = [](const Variable &v) { return read(std::get<2>(v.constituents<Variable>())); };
          const auto verify = [&](const Variable &r, const std::function<Cells(ix)> &operands, bool var, const char *how) {
            ++E.transitions;
            const auto got = buffer(r);
            const auto what = [&] { return op.name + " " + how; };
            E.check_lazy(got.volume() == at && got.var == (var && kind == Kind::Propagate), "binned", what);
            for (ix i = 0; i < at; ++i) {
              auto c = operands(i);
              E.check_lazy(close(got.v[i].x, op.ref(c, {D, D}).x, 1e-14L), "binned-value", what);
              if (got.var)
                E.check_lazy(close(got.v[i].var, propagated(op.name, c), 1e-13L), "binned-variance", what);
            }
          };
          const auto ev = [&](ix i) {
            auto c = ea[i];
            if (!(pres & 1))
              c.var = 0;
            return c;
          };
          const auto ev2 = [&](ix i) {
            auto c = eb[i];
            if (!(pres & 2))
              c.var = 0;
            return c;
          };
          verify(op.f({a, b}), [&](ix i) { return Cells{ev(i), ev2(i)}; }, pres != 0, "of two binned operands");
          // data with variances is not broadcast to events
          Variable r;
          auto e = raised([&] { r = op.f({a, vd}); });
          E.check_lazy(e == (dense.var && kind == Kind::Propagate ? "VariancesError" : ""), "binned-broadcast", [&] { return op.name + " of binned and dense operand: '" + e + "'"; });
          if (e.empty())
            verify(r, [&](ix i) { return Cells{ev(i), dense.v[bin[i]]}; }, pres != 0, "of binned and dense operand");
          const auto a2 = mk(ea, pres & 1, ub);
          auto d2 = dense;
          d2.u = ua;
          const auto vd2 = make_plain(d2);
          e = raised([&] { r = op.f({vd2, a2}); });
          E.check_lazy(e == (dense.var && kind == Kind::Propagate ? "VariancesError" : ""), "binned-broadcast", [&] { return op.name + " of dense and binned operand: '" + e + "'"; });
          if (e.empty())
            verify(r, [&](ix i) { return Cells{dense.v[bin[i]], ev(i)}; }, pres != 0, "of dense and binned operand");
          if (!op.in_place)
            return;
          for (const bool with_dense : {false, true}) {
            auto t = mk(ea, pres & 1, ua);
            const auto before = buffer(t);
            const auto &o = with_dense ? vd : b;
            e = raised([&] { op.in_place(t, {t, o}); });
            const bool bad = (with_dense && dense.var) || ((pres & 2) && !(pres & 1));
            E.check_lazy(bad ? e == "VariancesError" : e.empty(), "binned-broadcast", [&] { return op.name + " in place: '" + e + "'"; });
            if (bad)
              E.check_lazy(difference(buffer(t), before).empty(), "operand-modified", [&] { return op.name; });
            else
              verify(t, [&](ix i) { return Cells{ev(i), with_dense ? dense.v[bin[i]] : ev2(i)}; }, pres != 0, "in place");
          }
          // correlated
          if (pres & 1) {
            for (const bool ip : {false, true}) {
              auto t = mk(ea, true, ua);
              const Variable alias(t);
              if (ip)
                op.in_place(t, {t, alias});
              else
                t = op.f({t, alias});
              const auto got = buffer(t);
              for (ix i = 0; i < at; ++i) {
                const auto x = ea[i].x, s = ea[i].var;
                const auto w = op.name == "add" ? 4 * s : op.name == "multiply" ? 4 * x * x * s : 0;
                ++E.transitions;
                E.check_lazy(close(got.v[i].x, op.ref({ea[i], ea[i]}, {D, D}).x, 1e-14L) && close(got.v[i].var, w, 1e-13L), "binned-correlation", [&] { return op.name + (ip ? " in place" : ""); });
              }
              const auto x = mk(ea, true, ua);
              verify(op.f({x, copy(x)}), [&](ix i) { return Cells{ea[i], ea[i]}; }, true, "with a copy");
            }
          }
        });
  }
}
} // namespace

VH_EXPLORE(O02) {
  const auto table = ops::table();
  values_sweep(E, table);
  layout_sweep(E, table);
  correlation_sweep(E, table);
  misc_sweep(E);
  binned_sweep(E, table);
}
VH_MAIN
