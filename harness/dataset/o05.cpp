// O05: operations that raise leave everything as it was. All targets x all
// modifying operations x all operands with up to three deviations (data, coords,
// masks), and datasets with the odd item in every position.
#include "text.h"
#include "scipp/dataset/bins_view.h"
#include "scipp/dataset/histogram.h"
#include "scipp/dataset/shape.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/variable_factory.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/math.h"
#include "scipp/variable/pow.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/structures.h"
#include "scipp/variable/trigonometry.h"
#include "scipp/variable/util.h"
#include <algorithm>
#include <map>
#include <memory>
#include <optional>

using namespace ds;

namespace {
using Ex = vh::Explorer;
const Dim Q("q");

// --- variables -------------------------------------------------------------
/// A view and the object it is a view of.
template <class T> struct Made2 {
  T root, view;
  bool whole = false; // same object
};
template <class T> struct Kind {
  std::string name;
  std::function<Made2<T>()> make;
};
using Dims = std::vector<std::pair<Dim, ix>>;
Variable var(Dims d, core::DType t = D, units::Unit u = units::one, bool var = false, long double start = 1) {
  std::vector<Dim> dims;
  std::vector<ix> shape;
  for (const auto &[k, n] : d)
    dims.push_back(k), shape.push_back(n);
  return make_plain(iota(dims, shape, start, u, t, var));
}
Variable indices(const std::vector<std::pair<ix, ix>> &p, Dims d) {
  Arr a = A(dtype<scipp::index_pair>, units::none, {}, {}, {});
  for (const auto &[k, n] : d)
    a.dims.push_back(k), a.shape.push_back(n);
  for (const auto &[b, e] : p) {
    Cell c(b);
    c.y = e;
    a.v.push_back(c);
  }
  return make_plain(a);
}
DataArray table(core::DType t = D, units::Unit u = units::counts, bool variances = false, bool mask = false) {
  DataArray r(var({{EV, 5}}, t, u, variances));
  r.coords().set(X, make_plain(A(D, units::m, {EV}, {5}, {0.5, 1.5, 2.5, 0.5, 1.5})));
  if (mask)
    r.masks().set("e", make_plain(A(B, units::none, {EV}, {5}, {0, 1, 0, 0, 0})));
  return r;
}
Variable bins_var(core::DType t = D, units::Unit u = units::counts, ix n = 3) {
  return sv::make_bins(n == 3 ? indices({{0, 2}, {3, 5}, {2, 2}}, {{X, 3}}) : indices({{0, 2}, {3, 5}}, {{X, 2}}), EV, var({{EV, 5}}, t, u));
}
Variable bins_table(core::DType t = D, units::Unit u = units::counts, bool variances = false, bool mask = false, int how = 0) {
  const std::vector<std::vector<std::pair<ix, ix>>> h{{{0, 2}, {3, 5}, {2, 2}}, {{0, 1}, {2, 5}, {1, 1}}};
  return sd::make_bins(indices(h[how], {{X, 3}}), EV, table(t, u, variances, mask));
}

std::vector<Kind<Variable>> variables() {
  std::vector<Kind<Variable>> r;
  const auto add = [&](const std::string &n, auto f) {
    r.push_back({n, [f] {
                   const auto v = f();
                   return Made2<Variable>{v, v, true};
                 }});
  };
  const auto view = [&](const std::string &n, auto f, auto g) {
    r.push_back({n, [f, g] {
                   const auto v = f();
                   return Made2<Variable>{v, g(v)};
                 }});
  };
  for (const auto &t : {D, F, L, I, B, S, T, V})
    add(to_string(t) + " x3", [t] { return var({{X, 3}}, t, t == T ? units::s : t == B || t == S ? units::none : units::m); });
  add("float64 x3 dimensionless", [] { return var({{X, 3}}); });
  add("float64 x3 no unit", [] { return var({{X, 3}}, D, units::none); });
  add("float64 x3 with variances", [] { return var({{X, 3}}, D, units::m, true); });
  add("float32 x3 with variances", [] { return var({{X, 3}}, F, units::one, true); });
  add("float64 xy", [] { return var({{X, 3}, {Y, 2}}, D, units::m); });
  add("float64 xy with variances", [] { return var({{X, 3}, {Y, 2}}, D, units::one, true); });
  add("float64 scalar", [] { return var({}, D, units::m); });
  add("float64 x0", [] { return var({{X, 0}}, D, units::m); });
  add("int64 xy", [] { return var({{X, 3}, {Y, 2}}, L, units::one); });
  view("float64 yx transposed", [] { return var({{Y, 2}, {X, 3}}, D, units::m, true); }, [](auto &v) { return v.transpose(std::vector<Dim>{X, Y}); });
  view("slice of float64", [] { return var({{X, 5}}, D, units::m); }, [](auto &v) { return v.slice({X, 1, 4}); });
  view("slice of float64 with variances", [] { return var({{X, 5}}, D, units::one, true); }, [](auto &v) { return v.slice({X, 1, 4}); });
  view("point of float64", [] { return var({{X, 3}, {Y, 2}}, D, units::m); }, [](auto &v) { return v.slice({Y, 1}); });
  view("slice of bool", [] { return var({{X, 5}}, B, units::none); }, [](auto &v) { return v.slice({X, 1, 4}); });
  view("slice of int64", [] { return var({{X, 5}}, L, units::one); }, [](auto &v) { return v.slice({X, 1, 4}); });
  view("read-only float64", [] { return var({{X, 3}}, D, units::m); }, [](auto &v) { return v.as_const(); });
  view("read-only bool", [] { return var({{X, 3}}, B, units::none); }, [](auto &v) { return v.as_const(); });
  view("broadcast float64", [] { return var({}, D, units::m); }, [](auto &v) { return v.broadcast(Dimensions(X, 3)); });
  view("component of vectors", [] { return var({{X, 3}}, V, units::m); }, [](auto &v) { return v.template elements<Eigen::Vector3d>("y"); });
  add("bins of float64", [] { return bins_var(); });
  add("bins of int64", [] { return bins_var(L); });
  view("slice of bins", [] { return bins_var(); }, [](auto &v) { return v.slice({X, 0, 2}); });
  add("bins of tables", [] { return bins_table(); });
  add("bins of tables with masks", [] { return bins_table(D, units::counts, true, true); });
  view("slice of bins of tables", [] { return bins_table(); }, [](auto &v) { return v.slice({X, 1, 3}); });
  view("read-only bins of tables", [] { return bins_table(); }, [](auto &v) { return v.as_const(); });
  return r;
}
std::vector<Kind<Variable>> operands() {
  std::vector<Kind<Variable>> r;
  const auto add = [&](const std::string &n, auto f) {
    r.push_back({n, [f] {
                   const auto v = f();
                   return Made2<Variable>{v, v, true};
                 }});
  };
  const std::vector<std::pair<std::string, Dims>> shapes{{"scalar", {}}, {"x3", {{X, 3}}}, {"x2", {{X, 2}}}, {"y2", {{Y, 2}}}, {"xy", {{X, 3}, {Y, 2}}}, {"yx", {{Y, 2}, {X, 3}}}, {"x0", {{X, 0}}}, {"z", {{Z, 3}}}};
  const std::vector<units::Unit> us{units::one, units::m, units::none, units::s};
  for (const auto &[n, s] : shapes)
    for (const auto &u : us)
      for (const auto &t : {D, F, L, I, B, S, T, V})
        for (int variances = 0; variances < (floating(t) ? 2 : 1); ++variances) {
          if ((t == B || t == S) != (u == units::none) && !(t == D || (t == L && n == "x3")) && !(t == B && n == "x3"))
            continue;
          if (t == F && n != "x3" && n != "scalar")
            continue;
          const auto s_ = s;
          add(to_string(t) + " " + n + (variances ? " with variances [" : " [") + to_string(u) + "]", [s_, u, t, variances] { return var(s_, t, u, variances, 2); });
        }
  add("bins of float64", [] { return bins_var(); });
  add("bins of float64 m", [] { return bins_var(D, units::m); });
  add("bins of strings", [] { return bins_var(S, units::none); });
  add("2 bins", [] { return bins_var(D, units::counts, 2); });
  add("bins of tables", [] { return bins_table(); });
  add("other bins of tables", [] { return bins_table(D, units::counts, false, false, 1); });
  add("bins of tables with masks", [] { return bins_table(D, units::counts, true, true); });
  add("bins of tables with variances", [] { return bins_table(D, units::counts, true); });
  add("bins of tables of int64 m", [] { return bins_table(L, units::m); });
  add("invalid", [] { return Variable(); });
  return r;
}
template <class A, class O> struct Op {
  std::string name;
  std::function<void(A &, const O &)> f;
  bool needs_operand = true;
};
const std::vector<Op<Variable, Variable>> &variable_ops() {
  using V_ = Variable;
  static const std::vector<Op<V_, V_>> r = [] {
    std::vector<Op<V_, V_>> q{
        {"+=", [](V_ &a, const V_ &b) { a += b; }},
        {"-=", [](V_ &a, const V_ &b) { a -= b; }},
        {"*=", [](V_ &a, const V_ &b) { a *= b; }},
        {"/=", [](V_ &a, const V_ &b) { a /= b; }},
        {"%=", [](V_ &a, const V_ &b) { a %= b; }},
        {"//=", [](V_ &a, const V_ &b) { floor_divide_equals(a, b); }},
        {"|=", [](V_ &a, const V_ &b) { a |= b; }},
        {"&=", [](V_ &a, const V_ &b) { a &= b; }},
        {"^=", [](V_ &a, const V_ &b) { a ^= b; }},
        {"setVariances", [](V_ &a, const V_ &b) { a.setVariances(b); }},
        {"copy to", [](V_ &a, const V_ &b) { if (a.dtype() == b.dtype() || !(scipp::variable::is_bins(a) || scipp::variable::is_bins(b))) copy(b, a); }},
        {"fill", [](V_ &a, const V_ &b) { fill(a, b); }},
        {"sin to", [](V_ &a, const V_ &b) { sin(b, a); }},
        {"sqrt to", [](V_ &a, const V_ &b) { sqrt(b, a); }},
        {"abs to", [](V_ &a, const V_ &b) { abs(b, a); }},
        {"reciprocal to", [](V_ &a, const V_ &b) { reciprocal(b, a); }},
        {"exp to", [](V_ &a, const V_ &b) { exp(b, a); }},
        {"floor to", [](V_ &a, const V_ &b) { floor(b, a); }},
        {"nan_to_num to", [](V_ &a, const V_ &b) { nan_to_num(b, V_(var({}, D, units::m)), a); }},
        {"nan_to_num with", [](V_ &a, const V_ &b) { nan_to_num(a, b, a); }},
        {"atan2 to", [](V_ &a, const V_ &b) { atan2(b, b, a); }},
        {"pow to", [](V_ &a, const V_ &b) { if (a.dtype() == b.dtype() || !(scipp::variable::is_bins(a) || scipp::variable::is_bins(b))) pow(b, var({}, D, units::one, false, 2), a); }},
        {"pow by", [](V_ &a, const V_ &b) { pow(a, b, a); }},
        {"fill_zeros", [](V_ &a, const V_ &) { fill_zeros(a); }, false},
        {"events +=", [](V_ &a, const V_ &b) { auto e = sd::bins_view<DataArray>(a).data(); e += b; }},
        {"setting events", [](V_ &a, const V_ &b) { sd::bins_view<DataArray>(a).setData(b); }},
        {"setting a coord of events", [](V_ &a, const V_ &b) { auto c = sd::bins_view<DataArray>(a).coords(); c.set(Y, b); }},
        {"setting a mask of events", [](V_ &a, const V_ &b) { auto c = sd::bins_view<DataArray>(a).masks(); c.set("z", b); }},
        {"replacing a coord of events", [](V_ &a, const V_ &b) { auto c = sd::bins_view<DataArray>(a).coords(); c.set(X, b); }},
        {"append", [](V_ &a, const V_ &b) { sd::buckets::append(a, b); }},
    };
    for (const auto &u : {units::Unit(units::s), units::Unit(units::one), units::Unit(units::none), units::Unit(units::counts)})
      q.push_back({"setUnit " + to_string(u), [u](V_ &a, const V_ &) { a.setUnit(u); }, false});
    const std::vector<std::pair<std::string, scipp::Slice>> sl{{"x0", {X, 0}}, {"x3", {X, 3}}, {"x1:3", {X, 1, 3}}, {"x0:3", {X, 0, 3}}, {"x0:4", {X, 0, 4}}, {"x0:3:2", {X, 0, 3, 2}}, {"y1", {Y, 1}}, {"y0:2", {Y, 0, 2}}, {"nothing", {}}};
    for (const auto &[n, s] : sl) {
      const auto s_ = s;
      q.push_back({"setSlice " + n, [s_](V_ &a, const V_ &b) { a.setSlice(s_, b); }});
    }
    const std::vector<std::vector<std::pair<Dim, Dim>>> ren{{{X, Y}}, {{Q, Z}}, {{X, Z}, {Y, Z}}, {{X, Q}, {Q, X}}};
    for (size_t i = 0; i < ren.size(); ++i) {
      const auto n = ren[i];
      q.push_back({"rename " + std::to_string(i), [n](V_ &a, const V_ &) { a = a.rename_dims(n); }, false});
    }
    return q;
  }();
  return r;
}

/// An object of some kind and what it looks like; used again as long as nothing changed it.
template <class T> struct Held {
  std::function<Made2<T>()> make;
  std::optional<Made2<T>> m = {};
  std::string root = {}, view = {};
  void get() {
    if (m)
      return;
    m = make();
    if (!root.empty())
      return; // deterministic
    root = text(m->root);
    if (!m->whole)
      view = text(m->view);
  }
  static std::string diff(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
      ++i;
    const auto from = i > 60 ? i - 60 : 0;
    return "..." + a.substr(from, 160) + "... became ..." + b.substr(from, 160) + "...";
  }
  std::string changed(const std::string &what) const {
    if (const auto now = text(m->root); now != root)
      return what + ": " + diff(root, now);
    if (!m->whole)
      if (const auto now = text(m->view); now != view)
        return "view of " + what + ": " + diff(view, now);
    return {};
  }
};
template <class T> std::vector<Held<T>> hold(const std::vector<Kind<T>> &k) {
  std::vector<Held<T>> r;
  for (const auto &x : k)
    r.push_back({x.make});
  return r;
}
template <class A, class O> void attempt(Ex &E, const std::string &group, const std::string &target, const std::string &operand, const Op<A, O> &op, Held<A> &t, Held<O> &o) {
  t.get();
  o.get();
  if constexpr (std::is_same_v<O, Variable>)
    if (!o.m->view.is_valid() && op.name != "setVariances" && op.needs_operand)
      return;
  const auto err = raised([&] { op.f(t.m->view, o.m->view); });
  ++E.transitions;
  ++E.checks;
  if (err.empty()) {
    ++E.tally["succeeded"];
    t.m.reset();
    o.m.reset();
    return;
  }
  ++E.tally["raised " + err];
  auto d = t.changed("the target");
  if (d.empty())
    d = o.changed("the operand");
  if (!d.empty()) {
    E.note(group + " " + op.name + " " + err, target + " " + op.name + " " + operand + " raised " + err + " but changed " + d);
    t.m.reset();
    o.m.reset();
  }
  E.state(vh::hash_str(target + op.name + operand));
}

void explore_variables(Ex &E) {
  const auto ts = variables();
  const auto os = operands();
  for (const auto &t : ts)
    for (const auto &op : variable_ops())
      E.run([&] { return op.name + " on " + t.name + " with all operands"; },
            [&] {
              E.nontrivial();
              auto held = hold(os);
              Held<Variable> target{t.make};
              for (size_t i = 0; i < os.size() && (op.needs_operand || i == 0); ++i)
                attempt(E, "variable", t.name, os[i].name, op, target, held[i]);
            });
}

// --- data arrays -----------------------------------------------------------
struct Part {
  std::string name;
  std::function<void(DataArray &)> f;
};
Kind<DataArray> whole(const std::string &n, std::function<DataArray()> f) {
  return {n, [f] {
            const auto a = f();
            return Made2<DataArray>{a.view(), a.view(), true};
          }};
}
DataArray base(core::DType t = D, units::Unit u = units::m, bool variances = false, Dims dims = {{X, 3}, {Y, 2}}, long double start = 1) {
  DataArray a(var(dims, t, u, variances, start));
  const auto d = a.dims();
  if (d.contains(X)) {
    a.coords().set(X, var({{X, d[X]}}, D, units::m, false, 5));
    a.masks().set("m", var({{X, d[X]}}, B, units::none));
    a.attrs().set(Dim("t"), var({{X, d[X]}}, D, units::m, false, 8));
  }
  if (d.contains(Y)) {
    a.coords().set(Y, var({{Y, d[Y] + 1}}, D, units::m, false, 5));
    a.masks().set("n", var({{Y, d[Y]}}, B, units::none, false, 2));
  }
  a.coords().set(Dim("s"), var({}, D, units::s));
  return a;
}
DataArray binned(core::DType t = D, units::Unit u = units::counts, bool variances = false, int how = 0) {
  DataArray a(bins_table(t, u, variances, false, how));
  a.coords().set(Dim("s"), var({}, D, units::s));
  a.coords().set(X, make_plain(A(D, units::m, {X}, {4}, {0, 1, 2, 3})));
  a.masks().set("m", var({{X, 3}}, B, units::none));
  return a;
}
std::vector<Kind<DataArray>> arrays() {
  std::vector<Kind<DataArray>> r;
  const auto add = [&](const std::string &n, auto f) { r.push_back(whole(n, f)); };
  const auto view = [&](const std::string &n, auto f, auto g) {
    r.push_back({n, [f, g] {
                   DataArray v = f();
                   return Made2<DataArray>{v.view(), g(v)};
                 }});
  };
  add("float64 xy", [] { return base(); });
  add("float64 x", [] { return base(D, units::m, false, {{X, 3}}); });
  add("float64 x with variances", [] { return base(D, units::one, true, {{X, 3}}); });
  add("int64 xy", [] { return base(L, units::one); });
  add("bool x", [] { return base(B, units::none, false, {{X, 3}}); });
  add("float64 y", [] { return base(D, units::m, false, {{Y, 2}}); });
  add("float64 without metadata", [] { return DataArray(var({{X, 3}}, D, units::m)); });
  add("odd masks", [] {
    auto a = base();
    a.masks().set("a", var({{X, 3}}, L, units::one));
    a.masks().set("z", var({{X, 3}}, B, units::m));
    return a;
  });
  add("read-only masks", [] {
    auto a = base();
    a.masks().set("a", var({{X, 3}}, B, units::none).as_const());
    a.masks().set("z", var({{X, 3}}, B, units::none, false, 2));
    return a;
  });
  add("read-only data", [] {
    auto a = base();
    a.setData(a.data().as_const());
    return a;
  });
  view("slice x", [] { return base(D, units::m, false, {{X, 5}, {Y, 2}}, 1); }, [](DataArray &a) { return a.slice({X, 2, 5}); });
  view("point y", [] { return base(); }, [](DataArray &a) { return a.slice({Y, 1}); });
  view("slice of variances", [] { return base(D, units::one, true, {{X, 5}}); }, [](DataArray &a) { return a.slice({X, 0, 3}); });
  view("item", [] { return base(); }, [](DataArray &a) {
    Dataset d({}, {});
    Dataset e(a);
    return DataArray(e[a.name()]);
  });
  add("binned", [] { return binned(); });
  add("binned with variances", [] { return binned(D, units::one, true); });
  add("binned int64", [] { return binned(L); });
  add("binned without metadata", [] { return DataArray(bins_table()); });
  view("slice of binned", [] { return binned(); }, [](DataArray &a) { return a.slice({X, 0, 2}); });
  view("range of binned", [] { return binned(); }, [](DataArray &a) { return a.slice({X, 1, 3}); });
  return r;
}
struct Datum {
  std::string name;
  std::function<DataArray()> make;
};
std::vector<Datum> data_of_operands() {
  std::vector<Datum> r;
  const auto add = [&](const std::string &n, auto f) { r.push_back({n, [f] { return DataArray(f()); }}); };
  add("scalar", [] { return var({}, D, units::m); });
  add("x3", [] { return var({{X, 3}}, D, units::m); });
  add("x3 one", [] { return var({{X, 3}}, D, units::one); });
  add("x3 variances", [] { return var({{X, 3}}, D, units::m, true); });
  add("x3 int64", [] { return var({{X, 3}}, L, units::m); });
  add("x3 bool", [] { return var({{X, 3}}, B, units::none); });
  add("x3 string", [] { return var({{X, 3}}, S, units::none); });
  add("x2", [] { return var({{X, 2}}, D, units::m); });
  add("y2", [] { return var({{Y, 2}}, D, units::m); });
  add("y2 variances", [] { return var({{Y, 2}}, D, units::m, true); });
  add("xy", [] { return var({{X, 3}, {Y, 2}}, D, units::m); });
  add("xy s", [] { return var({{X, 3}, {Y, 2}}, D, units::s); });
  add("x2y", [] { return var({{X, 2}, {Y, 2}}, D, units::m); });
  add("xyz", [] { return var({{X, 3}, {Y, 2}, {Z, 2}}, D, units::m); });
  add("bins", [] { return bins_table(); });
  add("other bins", [] { return bins_table(D, units::counts, false, false, 1); });
  add("2 bins", [] { return bins_table().slice({X, 0, 2}); });
  add("bins of int64 m", [] { return bins_table(L, units::m); });
  add("bins of variables", [] { return bins_var(); });
  add("histogram", [] { return var({{Z, 2}}, D, units::one); });
  return r;
}
template <class Dict, class K> void try_set(Dict &&d, const K &k, const Variable &v) {
  try {
    d.set(k, v);
  } catch (const std::exception &) {
  }
}
std::vector<Part> coords_of_operands() {
  return {{"none", [](DataArray &) {}},
          {"matching x", [](DataArray &a) { try_set(a.coords(), X, var({{X, 3}}, D, units::m, false, 5)); }},
          {"different x", [](DataArray &a) { try_set(a.coords(), X, var({{X, 3}}, D, units::m, false, 6)); }},
          {"matching s, edges y", [](DataArray &a) {
             try_set(a.coords(), Dim("s"), var({}, D, units::s));
             try_set(a.coords(), Y, var({{Y, 3}}, D, units::m, false, 5));
           }},
          {"another", [](DataArray &a) { try_set(a.coords(), Q, var({}, D, units::s)); }},
          {"unaligned different x", [](DataArray &a) {
             try_set(a.coords(), X, var({{X, 3}}, D, units::m, false, 6));
             if (a.coords().contains(X))
               a.coords().set_aligned(X, false);
           }},
          {"edges z", [](DataArray &a) {
             try_set(a.coords(), X, make_plain(A(D, units::m, {Z}, {3}, {0, 1, 3})));
             try_set(a.coords(), Z, make_plain(A(D, units::m, {Z}, {3}, {0, 1, 3})));
           }}};
}
/// Masks in order; the order of insertion is that of processing.
std::vector<Part> masks_of_operands(bool thorough) {
  const auto mask = [](Dims d, core::DType t = B, units::Unit u = units::none) { return var(d, t, u, false, 2); };
  struct One {
    std::string name, key;
    std::function<Variable()> v;
  };
  const std::vector<One> singles{{"m x", "m", [=] { return mask({{X, 3}}); }},
                                 {"m x2", "m", [=] { return mask({{X, 2}}); }},
                                 {"m y", "m", [=] { return mask({{Y, 2}}); }},
                                 {"m xy", "m", [=] { return mask({{X, 3}, {Y, 2}}); }},
                                 {"m int64", "m", [=] { return mask({{X, 3}}, L); }},
                                 {"m unit", "m", [=] { return mask({{X, 3}}, B, units::m); }},
                                 {"n y", "n", [=] { return mask({{Y, 2}}); }},
                                 {"a x", "a", [=] { return mask({{X, 3}}); }},
                                 {"z x", "z", [=] { return mask({{X, 3}}); }},
                                 {"z scalar", "z", [=] { return mask({}); }},
                                 {"new x", "new", [=] { return mask({{X, 3}}); }},
                                 {"new xy", "new", [=] { return mask({{X, 3}, {Y, 2}}); }},
                                 {"new z", "new", [=] { return mask({{Z, 2}}); }},
                                 {"new edges", "new", [=] { return mask({{X, 4}}); }},
                                 {"new int64", "new", [=] { return mask({{X, 3}}, L); }}};
  const auto common = [](const std::string &n) { return n == "m x" || n == "m xy" || n == "m int64" || n == "z x" || n == "new x" || n == "new z" || n == "n y"; };
  std::vector<Part> r{{"none", [](DataArray &) {}}};
  for (size_t i = 0; i < singles.size(); ++i) {
    const auto a = singles[i];
    r.push_back({a.name, [a](DataArray &d) { try_set(d.masks(), a.key, a.v()); }});
    for (size_t k = 0; k < singles.size(); ++k) {
      const auto b = singles[k];
      if (b.key == a.key || (!thorough && (!common(a.name) || !common(b.name))))
        continue;
      r.push_back({a.name + ", " + b.name, [a, b](DataArray &d) {
                     try_set(d.masks(), a.key, a.v());
                     try_set(d.masks(), b.key, b.v());
                   }});
    }
  }
  return r;
}
const std::vector<std::pair<std::string, scipp::Slice>> slices{{"x0", {X, 0}}, {"x3", {X, 3}}, {"x0:2", {X, 0, 2}}, {"x0:3", {X, 0, 3}}, {"y1", {Y, 1}}};
const std::vector<Op<DataArray, DataArray>> &array_ops() {
  using A_ = DataArray;
  static const std::vector<Op<A_, A_>> r = [] {
    std::vector<Op<A_, A_>> q{
        {"+=", [](A_ &a, const A_ &b) { a += b; }},
        {"-=", [](A_ &a, const A_ &b) { a -= b; }},
        {"*=", [](A_ &a, const A_ &b) { a *= b; }},
        {"/=", [](A_ &a, const A_ &b) { a /= b; }},
        {"+= (of a temporary)", [](A_ &a, const A_ &b) { static_cast<void>(a.view() += b); }},
        {"*= (of a temporary)", [](A_ &a, const A_ &b) { static_cast<void>(a.view() *= b); }},
        {"append", [](A_ &a, const A_ &b) { sd::buckets::append(a, b); }},
        {"scale", [](A_ &a, const A_ &b) { sd::buckets::scale(a, b); }},
        {"scale z", [](A_ &a, const A_ &b) { sd::buckets::scale(a, b, Z); }},
        {"masks |=", [](A_ &a, const A_ &b) { sd::union_or_in_place(a.masks(), b.masks()); }},
        {"+= data", [](A_ &a, const A_ &b) { a += b.data(); }},
        {"setData", [](A_ &a, const A_ &b) { a.setData(b.data()); }},
    };
    for (const auto &[n, s] : slices) {
      const auto s_ = s;
      q.push_back({"setSlice " + n, [s_](A_ &a, const A_ &b) { a.setSlice(s_, b); }});
      q.push_back({"setSlice with a slice " + n, [s_](A_ &a, const A_ &b) { a.setSlice(s_, b.slice(s_)); }});
      q.push_back({"setSlice of masks " + n, [s_](A_ &a, const A_ &b) { a.masks().setSlice(s_, b.masks().slice(s_)); }});
      q.push_back({"setSlice of masks to whole " + n, [s_](A_ &a, const A_ &b) { a.masks().setSlice(s_, b.masks()); }});
      q.push_back({"setSlice of coords " + n, [s_](A_ &a, const A_ &b) { a.coords().setSlice(s_, b.coords()); }});
      q.push_back({"setSlice with data " + n, [s_](A_ &a, const A_ &b) { a.setSlice(s_, b.data()); }});
    }
    return q;
  }();
  return r;
}
/// Changes of one data array without another one.
void metadata_ops(std::vector<Op<DataArray, Variable>> &q) {
  using A_ = DataArray;
  for (const auto &k : {X, Y, Q}) {
    const auto n = to_string(k);
    q.push_back({"set coord " + n, [k](A_ &a, const Variable &v) { a.coords().set(k, v); }});
    q.push_back({"set attr " + n, [k](A_ &a, const Variable &v) { a.attrs().set(k, v); }});
    q.push_back({"erase coord " + n, [k](A_ &a, const Variable &) { a.coords().erase(k); }, false});
    q.push_back({"extract coord " + n, [k](A_ &a, const Variable &) { static_cast<void>(a.coords().extract(k)); }, false});
    q.push_back({"align coord " + n, [k](A_ &a, const Variable &) { a.coords().set_aligned(k, false); }, false});
    q.push_back({"coord += " + n, [k](A_ &a, const Variable &v) { a.coords()[k] += v; }});
    q.push_back({"unit of coord " + n, [k](A_ &a, const Variable &) { a.coords()[k].setUnit(units::s); }, false});
  }
  for (const std::string k : {"m", "n", "q"}) {
    q.push_back({"set mask " + k, [k](A_ &a, const Variable &v) { a.masks().set(k, v); }});
    q.push_back({"erase mask " + k, [k](A_ &a, const Variable &) { a.masks().erase(k); }, false});
    q.push_back({"mask |= " + k, [k](A_ &a, const Variable &v) { a.masks()[k] |= v; }});
  }
  q.push_back({"setData", [](A_ &a, const Variable &v) { a.setData(v); }});
  q.push_back({"+=", [](A_ &a, const Variable &v) { a += v; }});
  q.push_back({"*=", [](A_ &a, const Variable &v) { a *= v; }});
  q.push_back({"setUnit", [](A_ &a, const Variable &) { a.setUnit(units::s); }, false});
  const std::vector<std::vector<std::pair<Dim, Dim>>> ren{{{X, Y}}, {{Q, Z}}, {{X, Z}, {Y, Z}}, {{X, Q}, {Q, X}}};
  for (size_t i = 0; i < ren.size(); ++i) {
    const auto n = ren[i];
    q.push_back({"rename " + std::to_string(i), [n](A_ &a, const Variable &) { a = a.rename_dims(n); }, false});
  }
  for (const auto &[n, s] : slices) {
    const auto s_ = s;
    q.push_back({"setSlice " + n, [s_](A_ &a, const Variable &v) { a.setSlice(s_, v); }});
  }
}
const std::vector<std::string> with_pairs{"scalar", "x3", "xy", "xy s", "x3 string", "bins", "histogram"};
void explore_arrays(Ex &E) {
  const auto ds_ = data_of_operands();
  const auto cs = coords_of_operands();
  const auto ms = masks_of_operands(E.thorough);
  const auto os = operands();
  std::map<std::string, Held<DataArray>> held; // operands
  for (const auto &t : arrays()) {
    for (const auto &op : array_ops())
      E.run([&] { return op.name + " on " + t.name + " with all data arrays"; },
            [&] {
              E.nontrivial();
              Held<DataArray> target{t.make};
              for (const auto &d : ds_)
                for (const auto &c : cs)
                  for (const auto &m : ms) {
                    const bool pair = m.name.find(", ") != std::string::npos;
                    if (!E.thorough && pair && (c.name != "none" || std::find(with_pairs.begin(), with_pairs.end(), d.name) == with_pairs.end()))
                      continue;
                    if (!E.thorough && c.name != "none" && m.name != "none" && m.name != "m x" && m.name != "m int64" && m.name != "new x" && m.name != "new z")
                      continue;
                    auto &o = held[d.name + ", coords " + c.name + ", masks " + m.name];
                    if (!o.make)
                      o.make = [&] {
                        auto a = d.make();
                        c.f(a);
                        m.f(a);
                        return Made2<DataArray>{a.view(), a.view(), true};
                      };
                    attempt(E, "array", t.name, d.name + ", coords " + c.name + ", masks " + m.name, op, target, o);
                  }
            });
    std::vector<Op<DataArray, Variable>> q;
    metadata_ops(q);
    for (const auto &op : q)
      E.run([&] { return op.name + " on " + t.name + " with all variables"; },
            [&] {
              E.nontrivial();
              auto held_vars = hold(os);
              Held<DataArray> target{t.make};
              for (size_t i = 0; i < os.size() && (op.needs_operand || i == 0); ++i)
                attempt(E, "array", t.name, os[i].name, op, target, held_vars[i]);
            });
  }
}

// --- datasets --------------------------------------------------------------
/// What an item looks like.
std::vector<Datum> items() {
  std::vector<Datum> r;
  const auto x = [](DataArray a) { return a; };
  static_cast<void>(x);
  r.push_back({"float64", [] { return DataArray(var({{X, 3}, {Y, 2}}, D, units::m)); }});
  r.push_back({"with a mask", [] {
                 DataArray a(var({{X, 3}, {Y, 2}}, D, units::m));
                 a.masks().set("m", var({{X, 3}}, B, units::none));
                 return a;
               }});
  r.push_back({"int64", [] { return DataArray(var({{X, 3}, {Y, 2}}, L, units::m)); }});
  r.push_back({"seconds", [] { return DataArray(var({{X, 3}, {Y, 2}}, D, units::s)); }});
  r.push_back({"with variances", [] { return DataArray(var({{X, 3}, {Y, 2}}, D, units::m, true)); }});
  r.push_back({"string", [] { return DataArray(var({{X, 3}, {Y, 2}}, S, units::none)); }});
  r.push_back({"read-only", [] { return DataArray(var({{X, 3}, {Y, 2}}, D, units::m).as_const()); }});
  r.push_back({"with a non-boolean mask", [] {
                 DataArray a(var({{X, 3}, {Y, 2}}, D, units::m));
                 a.masks().set("m", var({{X, 3}}, L, units::none));
                 return a;
               }});
  r.push_back({"with a read-only mask", [] {
                 DataArray a(var({{X, 3}, {Y, 2}}, D, units::m));
                 a.masks().set("m", var({{X, 3}}, B, units::none).as_const());
                 return a;
               }});
  r.push_back({"with a mask of y", [] {
                 DataArray a(var({{X, 3}, {Y, 2}}, D, units::m));
                 a.masks().set("m", var({{Y, 2}}, B, units::none, false, 2));
                 return a;
               }});
  r.push_back({"with two masks", [] {
                 DataArray a(var({{X, 3}, {Y, 2}}, D, units::m));
                 a.masks().set("k", var({{X, 3}}, B, units::none, false, 2));
                 a.masks().set("m", var({{X, 3}, {Y, 2}}, B, units::none, false, 2));
                 return a;
               }});
  r.push_back({"missing", [] { return DataArray(); }});
  return r;
}
struct Row {
  std::string name;
  std::vector<int> kinds; // of items a, b, c
};
/// All items the same, or one odd one in each position.
std::vector<Row> rows(const std::vector<Datum> &k) {
  std::vector<Row> r;
  for (const int usual : {0, 1})
    for (size_t odd = 0; odd < k.size(); ++odd)
      for (int pos = 0; pos < 3; ++pos) {
        std::vector<int> v(3, usual);
        v[pos] = odd;
        if ((int(odd) == usual && pos != 0))
          continue;
        if (usual == 1 && pos != 2)
          continue;
        r.push_back({k[usual].name + ", item " + std::string(1, 'a' + pos) + " " + k[odd].name, v});
      }
  return r;
}
Dataset make_set(const std::vector<Datum> &k, const Row &row, int coords, bool shared) {
  auto sizes = Dimensions();
  sizes.addInner(X, 3);
  sizes.addInner(Y, 2);
  Dataset d(sd::Dataset({}, sd::Coords(scipp::Sizes(sizes), {})));
  if (coords == 1)
    d.coords().set(X, var({{X, 3}}, D, units::m, false, 5));
  if (coords == 2)
    d.coords().set(X, var({{X, 3}}, D, units::m, false, 6));
  if (coords == 3)
    d.coords().set(Q, var({}, D, units::m, false, 6));
  Variable first;
  for (int i = 0; i < 3; ++i) {
    auto a = k[row.kinds[i]].make();
    if (!a.is_valid())
      continue;
    if (shared && first.is_valid() && first.dtype() == a.dtype() && first.unit() == a.unit() && first.has_variances() == a.has_variances())
      a.setData(first);
    if (!first.is_valid())
      first = a.data();
    d.setData(std::string(1, 'a' + i), a);
  }
  return d;
}
template <class O> std::vector<Op<Dataset, O>> set_ops() {
  using S_ = Dataset;
  std::vector<Op<S_, O>> q{
      {"+=", [](S_ &a, const O &b) { a += b; }},
      {"-=", [](S_ &a, const O &b) { a -= b; }},
      {"*=", [](S_ &a, const O &b) { a *= b; }},
      {"/=", [](S_ &a, const O &b) { a /= b; }},
  };
  for (const auto &[n, s] : slices) {
    const auto s_ = s;
    q.push_back({"setSlice " + n, [s_](S_ &a, const O &b) { a.setSlice(s_, b); }});
    q.push_back({"setSlice with a slice " + n, [s_](S_ &a, const O &b) { a.setSlice(s_, b.slice(s_)); }});
  }
  if constexpr (!std::is_same_v<O, Dataset>) {
    for (const std::string k : {"b", "new"})
      q.push_back({"setData " + k, [k](S_ &a, const O &b) { a.setData(k, b); }});
    q.push_back({"item +=", [](S_ &a, const O &b) { a["b"] += b; }});
  }
  if constexpr (std::is_same_v<O, Variable>) {
    for (const auto &k : {X, Q}) {
      q.push_back({"setCoord " + to_string(k), [k](S_ &a, const O &b) { a.setCoord(k, b); }});
      q.push_back({"erase coord " + to_string(k), [k](S_ &a, const O &) { a.coords().erase(k); }, false});
    }
    q.push_back({"erase c", [](S_ &a, const O &) { a.erase("c"); }, false});
    q.push_back({"extract c", [](S_ &a, const O &) { static_cast<void>(a.extract("c")); }, false});
    const std::vector<std::vector<std::pair<Dim, Dim>>> ren{{{X, Y}}, {{Q, Z}}, {{X, Z}, {Y, Z}}, {{X, Q}, {Q, X}}};
    for (size_t i = 0; i < ren.size(); ++i) {
      const auto n = ren[i];
      q.push_back({"rename " + std::to_string(i), [n](S_ &a, const O &) { a = a.rename_dims(n); }, false});
    }
  }
  if constexpr (std::is_same_v<O, Dataset>) {
    q.push_back({"setCoords", [](S_ &a, const O &b) { a.setCoords(b.coords()); }});
    q.push_back({"merge", [](S_ &a, const O &b) { a = merge(a, b); }});
  }
  return q;
}
void explore_datasets(Ex &E) {
  const auto ks = items();
  const auto rs = rows(ks);
  const auto cs = coords_of_operands();
  const auto ms = masks_of_operands(false);
  const std::vector<std::pair<std::string, std::function<Dataset(const Dataset &)>>> views{
      {"", [](const Dataset &d) { return d; }}, {"slice of ", [](const Dataset &d) { return d.slice({X, 0, 3}); }}, {"range of ", [](const Dataset &d) { return d.slice({X, 0, 2}); }}};
  // one operand for all items
  for (const auto &r : rs)
    for (int shared = 0; shared < 2; ++shared)
      for (const auto &view : views) {
        const auto name = view.first + r.name + (shared ? " (sharing)" : "");
        const auto make = [&] {
          auto d = make_set(ks, r, 1, shared);
          auto v = view.second(d);
          return Made2<Dataset>{d, v, view.first.empty()};
        };
        // For a whole dataset, the root is what items share
        if (shared && !view.first.empty())
          continue;
        E.run([&] { return "datasets: " + name + " with all variables"; },
              [&] {
                E.nontrivial();
                static const auto os = operands();
                static auto held = hold(os);
                Held<Dataset> target{make};
                for (const auto &op : set_ops<Variable>())
                  for (size_t i = 0; i < os.size(); ++i) {
                    const auto &o = os[i];
                    if (!E.thorough && (o.name.find("float64") != 0 || o.name.find(" x0 ") != std::string::npos || o.name.find(" z ") != std::string::npos || o.name.find("[s]") != std::string::npos) &&
                        o.name != "string x3 []" && o.name != "int64 x3 [m]")
                      continue;
                    attempt(E, "dataset", name, o.name, op, target, held[i]);
                    if (!op.needs_operand)
                      break;
                  }
              });
        E.run([&] { return "datasets: " + name + " with all data arrays"; },
              [&] {
                E.nontrivial();
                static const auto dd = data_of_operands();
                static std::map<std::string, Held<DataArray>> held;
                Held<Dataset> target{make};
                for (const auto &op : set_ops<DataArray>())
                  for (const auto &d : dd) {
                    if (d.name.find("bins") != std::string::npos)
                      continue;
                    for (size_t ci = 0; ci < cs.size(); ++ci)
                      for (size_t mi = 0; mi < ms.size(); ++mi) {
                        if (!E.thorough && ((ci != 1 && mi != 0) || ms[mi].name.find(", ") != std::string::npos))
                          continue;
                        const auto on = d.name + ", coords " + cs[ci].name + ", masks " + ms[mi].name;
                        auto &o = held[on];
                        if (!o.make)
                          o.make = [&, ci, mi] {
                            auto a = d.make();
                            cs[ci].f(a);
                            ms[mi].f(a);
                            return Made2<DataArray>{a.view(), a.view(), true};
                          };
                        attempt(E, "dataset", name, on, op, target, o);
                      }
                  }
              });
        E.run([&] { return "datasets: " + name + " with all datasets"; },
              [&] {
                E.nontrivial();
                Held<Dataset> target{make};
                static std::map<std::string, Held<Dataset>> held;
                for (const auto &op : set_ops<Dataset>())
                  for (const auto &o : rs)
                    for (int oc = 0; oc < 4; ++oc) {
                      if (!E.thorough && oc != 1 && o.kinds != std::vector<int>{0, 0, 0})
                        continue;
                      for (const bool sliced : {false, true}) {
                        const auto on = (sliced ? "slice of " : "") + o.name + " coords " + std::to_string(oc);
                        auto &h = held[on];
                        if (!h.make)
                          h.make = [&, oc, sliced] {
                            const auto b = make_set(ks, o, oc, false);
                            return Made2<Dataset>{b, sliced ? b.slice({X, 0, 2}) : b, !sliced};
                          };
                        attempt(E, "dataset", name, on, op, target, h);
                      }
                    }
              });
      }
}
} // namespace
VH_EXPLORE(O05) {
  explore_variables(E);
  explore_arrays(E);
  explore_datasets(E);
}
VH_MAIN
