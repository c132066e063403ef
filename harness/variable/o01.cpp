// O01: elementwise operations match by label and ignore memory layout.
//
// (a) every operation with every combination of element types and all pairs or
//     triples of a set of values, as arrays of several layouts, mixed with
//     scalars, in place and into given outputs;
// (b) 1 to 5 operands of every selection and order of up to 3 dimensions, in
//     every combination of memory layouts;
// (c) binned operands in several bin layouts;
// (d) units; extents that do not match.
#include "ops.h"
#include "scipp/core/element/arg_list.h"
#include "scipp/variable/transform.h"

using namespace ops;

namespace {
const Types all_types{D, F, L, I, B, S, T, V};

Cell rounded(const Cell &c, DType t) {
  Cell r = c;
  r.x = round_to(t, r.x);
  r.y = round_to(t, r.y);
  r.z = round_to(t, r.z);
  return r;
}
bool skip_value(const Op &op, const Cells &c, const Types &) {
  // implementation-defined or beyond what is specified
  if (op.name == "mod" || op.name == "floor_divide")
    for (const auto &x : c)
      if (!std::isfinite(x.x))
        return true;
  if (op.name == "pow" || op.name == "atan2")
    for (const auto &x : c)
      if (!std::isfinite(x.x))
        return true;
  return false;
}

/// All tuples of values of the operands, one row per operand.
std::vector<Cells> tuples(const Op &op, const Types &types) {
  std::vector<Cells> cols(types.size());
  std::vector<Cells> vals;
  for (size_t i = 0; i < types.size(); ++i) {
    vals.push_back(values_of(types[i]));
    if (op.name == "where" && i > 0 && vals.back().size() > 4)
      vals.back().resize(4);
    if (op.name == "pow" && i == 1 && is_int(types[0]) && is_int(types[1])) {
      Cells pos;
      for (const auto &c : vals.back())
        if (c.x >= 0)
          pos.push_back(c);
      vals.back() = pos;
    }
  }
  size_t n = 1;
  for (const auto &v : vals)
    n *= v.size();
  for (size_t i = 0; i < n; ++i) {
    Cells row;
    size_t k = i;
    for (const auto &v : vals) {
      row.push_back(v[k % v.size()]);
      k /= v.size();
    }
    if (skip_value(op, row, types))
      continue;
    for (size_t j = 0; j < row.size(); ++j)
      cols[j].push_back(row[j]);
  }
  return cols;
}
Arr expected(const Op &op, const std::vector<Arr> &in, const Types &types, DType out) {
  Arr r;
  r.t = out;
  for (const auto &a : in)
    for (size_t i = 0; i < a.dims.size(); ++i)
      if (r.axis(a.dims[i]) < 0) {
        r.dims.push_back(a.dims[i]);
        r.shape.push_back(a.shape[i]);
      }
  r.v.resize(r.volume());
  Cells c(in.size());
  for (ix i = 0; i < r.volume(); ++i) {
    for (size_t k = 0; k < in.size(); ++k)
      c[k] = in[k].v[in[k].index_of(r, i)];
    r.v[i] = rounded(op.ref(c, types), out == V ? D : out);
  }
  return r;
}
/// Compares by label: the order of dimensions of the result may differ.
void compare(vh::Explorer &E, const Variable &got, Arr want, const char *sig, long double eps, const std::function<std::string()> &what) {
  ++E.transitions;
  Arr g = read(got);
  std::vector<Dim> a = g.dims, b = want.dims;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  if (a != b)
    throw vh::Fail{sig, what() + ": result has dimensions " + str(g)};
  want = transposed(want, g.dims);
  const auto d = difference(g, want, eps);
  E.check_lazy(d.empty(), sig, [&] { return what() + ": " + d; });
}
void compare_base(vh::Explorer &E, const Made &m, const Arr &before, const Arr &after_view, const char *sig, long double eps,
                  const std::function<std::string()> &what) {
  Arr want = before;
  for (size_t i = 0; i < m.pos.size(); ++i)
    want.v[m.pos[i]] = after_view.v[i];
  const Arr g = read(m.base);
  want.u = g.u;
  const auto d = difference(g, want, eps);
  E.check_lazy(d.empty(), sig, [&] { return what() + ", in the underlying buffer: " + d; });
}
std::vector<Types> type_tuples(int arity) {
  std::vector<Types> r;
  size_t n = 1;
  for (int i = 0; i < arity; ++i)
    n *= all_types.size();
  for (size_t i = 0; i < n; ++i) {
    Types t;
    size_t k = i;
    for (int j = 0; j < arity; ++j) {
      t.push_back(all_types[k % all_types.size()]);
      k /= all_types.size();
    }
    r.push_back(t);
  }
  return r;
}
std::string names(const Types &t) {
  std::string r;
  for (const auto x : t)
    r += std::string(r.empty() ? "" : ",") + tname(x);
  return r;
}
const Dim dimx() { return Dim::X; }

void values_sweep(vh::Explorer &E, const std::vector<Op> &table) {
  for (const auto &op : table)
    for (const auto &types : type_tuples(op.arity))
      E.run([&] { return op.name + " of " + names(types); }, [&] {
        E.nontrivial();
        const auto out = op.type(types);
        const auto what = [&] { return op.name + "(" + names(types) + ")"; };
        if (out == N) {
          // not supported: rejected, operands unchanged
          Vars v;
          std::vector<Arr> before;
          for (size_t i = 0; i < types.size(); ++i) {
            before.push_back(array_of(types[i], op.units[i], {Dim::X}, {2}, {values_of(types[i])[0], values_of(types[i])[1]}));
            v.push_back(make_plain(before.back()));
          }
          const auto e = raised([&] { op.f(v); });
          ++E.transitions;
          const bool mixed_string = e == "TypeError";
          E.check_lazy(mixed_string || (op.name == "pow" && !e.empty()), "unsupported-type", [&] { return what() + " ended with '" + e + "'"; });
          for (size_t i = 0; i < types.size(); ++i)
            E.check(difference(read(v[i]), before[i]).empty(), "operand-modified");
        } else {
          const auto cols = tuples(op, types);
          const ix n = cols[0].size();
          std::vector<Arr> in;
          for (size_t k = 0; k < types.size(); ++k)
            in.push_back(array_of(types[k], op.units[k], {Dim::X}, {n}, cols[k]));
          const auto eps = op.exact && !is_float(out) ? 0 : out == V ? eps_of(D) : eps_of(out);
          OptUnit u = op.unit ? op.unit(op.units) : OptUnit(units::one);
          // layouts: every operand contiguous or strided
          for (int bits = 0; bits < (1 << op.arity); ++bits) {
            Vars v;
            for (int k = 0; k < op.arity; ++k)
              v.push_back(make(in[k], bits >> k & 1 ? 2 : 0).view);
            auto want = expected(op, in, types, out);
            want.u = *u;
            const auto r = op.f(v);
            compare(E, r, want, "value", eps, what);
            for (int k = 0; k < op.arity; ++k)
              E.check_lazy(difference(read(v[k]), in[k]).empty(), "operand-modified", what);
            if (op.out)
              for (int l : {0, 2}) {
                auto o = in[0];
                o.t = out;
                o.u = units::kg;
                auto m = make(o, l);
                if (l == 2)
                  m.base.setUnit(*u); // of a slice the unit cannot be changed
                const auto before = read(m.base);
                if (l == 2)
                  m = {m.base, m.base.slice({Dim::X, 1, 2 * n + 1, 2}), m.pos};
                op.out(v, m.view);
                compare(E, m.view, want, "value-out", eps, what);
                compare_base(E, m, before, want, "out-of-selection", eps, what);
              }
          }
          // scalars: each operand in turn (and for three, each pair) one value
          for (int bits = 1; bits < (1 << op.arity) - 1; ++bits) {
            for (size_t i = 0; i < std::min<size_t>(n, 12); ++i) {
              Vars v;
              std::vector<Arr> in2;
              for (int k = 0; k < op.arity; ++k) {
                in2.push_back(in[k]);
                if (bits >> k & 1) {
                  in2[k].dims.clear();
                  in2[k].shape.clear();
                  in2[k].v = {in[k].v[i * n / std::min<size_t>(n, 12)]};
                }
                v.push_back(make(in2[k], 0).view);
              }
              bool skip = false;
              if (skip)
                continue;
              auto want = expected(op, in2, types, out);
              want.u = *u;
              compare(E, op.f(v), want, "value", eps, [&] { return what() + " with scalars"; });
              if (op.out) {
                auto o = in[0];
                o.t = out;
                auto m = make(o, 0);
                op.out(v, m.view);
                compare(E, m.view, want, "value-out", eps, [&] { return what() + " with scalars"; });
              }
            }
          }
        }
        if (!op.in_place)
          return;
        // in place
        if (!op.in_place_types(types) || (out == N && types[1] != B)) {
          auto a = make_plain(array_of(types[0], op.units[0], {Dim::X}, {2}, {values_of(types[0])[0], values_of(types[0])[1]}));
          auto b = make_plain(array_of(types[1], op.units[1], {Dim::X}, {2}, {values_of(types[1])[0], values_of(types[1])[1]}));
          const auto a0 = copy(a), b0 = copy(b);
          const auto e = raised([&] { op.in_place(a, {a, b}); });
          E.check_lazy(!e.empty(), "unsupported-type", [&] { return what() + " in place is not rejected"; });
          E.check(difference(read(a), read(a0)).empty() && difference(read(b), read(b0)).empty(), "operand-modified");
          return;
        }
        const DType t0 = types[0];
        auto cols = tuples(op, types);
        if (is_int(t0) || t0 == T) // results representable
          for (auto &c : cols)
            for (auto &x : c)
              if (!std::isfinite(x.x) && t0 != V)
                x.x = 1;
        const ix n = cols[0].size();
        std::vector<Arr> in;
        for (size_t k = 0; k < types.size(); ++k)
          in.push_back(array_of(types[k], op.units[k], {Dim::X}, {n}, cols[k]));
        const auto u = *op.unit(op.units);
        const auto eps = eps_of(t0 == V ? D : t0);
        for (int form = 0; form < 6; ++form) {
          // target contiguous or strided, operand contiguous, strided or scalar
          auto in2 = in;
          const bool strided_target = form & 1;
          if (form / 2 == 2) {
            in2[1].dims.clear();
            in2[1].shape.clear();
            in2[1].v = {in[1].v[n / 2]};
          }
          if (strided_target && op.unit(op.units) != OptUnit(op.units[0])) // the unit of a slice cannot change
            in2[1].u = op.units[0] == units::none ? units::none : units::one;
          const auto m = make(in2[0], strided_target ? 2 : 0);
          const auto b = make(in2[1], form / 2 == 1 ? 2 : 0).view;
          const auto before = read(m.base);
          auto want = expected(op, in2, types, t0);
          if (is_float(t0) == false && t0 != V && is_float(types[1]))
            for (auto &c : want.v)
              c.x = std::trunc(c.x);
          want.u = strided_target ? in2[0].u : u;
          Variable a = m.view;
          op.in_place(a, {a, b});
          compare(E, a, want, "value-in-place", eps, [&] { return what() + " in place, form " + std::to_string(form); });
          compare_base(E, m, before, want, "out-of-selection", eps, what);
          E.check_lazy(difference(read(b), in2[1]).empty(), "operand-modified", what);
        }
      });
}

// (b) layouts ---------------------------------------------------------------
struct Sel { // dimensions of an operand, as positions among the result's
  std::vector<int> dims;
};
std::vector<std::vector<int>> selections(int nd) {
  std::vector<std::vector<int>> r;
  for (int bits = 0; bits < (1 << nd); ++bits) {
    std::vector<int> d;
    for (int i = 0; i < nd; ++i)
      if (bits >> i & 1)
        d.push_back(i);
    do
      r.push_back(d);
    while (std::next_permutation(d.begin(), d.end()));
  }
  return r;
}
constexpr auto mix4 = scipp::overloaded{scipp::core::element::arg_list<double>, [](const auto &a, const auto &b, const auto &c, const auto &d) { return a + 100.0 * b + 10000.0 * c + 1000000.0 * d; },
                                        [](const Unit &a, const Unit &, const Unit &, const Unit &) { return a; }};
constexpr auto mix3 = scipp::overloaded{scipp::core::element::arg_list<double>, [](const auto &a, const auto &b, const auto &c) { return a + 100.0 * b + 10000.0 * c; },
                                        [](const Unit &a, const Unit &, const Unit &) { return a; }};
constexpr auto mix2_ip = scipp::overloaded{scipp::core::element::arg_list<double>, [](auto &o, const auto &a, const auto &b) { o += 100.0 * a + 10000.0 * b; },
                                           [](Unit &, const Unit &, const Unit &) {}};
constexpr auto mix3_ip = scipp::overloaded{scipp::core::element::arg_list<double>, [](auto &o, const auto &a, const auto &b, const auto &c) { o += 100.0 * a + 10000.0 * b + 1000000.0 * c; },
                                           [](Unit &, const Unit &, const Unit &, const Unit &) {}};

Arr numbered(const std::vector<Dim> &dims, const std::vector<ix> &shape, const std::vector<int> &sel, int first) {
  Arr a;
  for (const int d : sel) {
    a.dims.push_back(dims[d]);
    a.shape.push_back(shape[d]);
  }
  a.v.resize(a.volume());
  for (ix i = 0; i < a.volume(); ++i)
    a.v[i].x = first + i;
  return a;
}
void layout_sweep(vh::Explorer &E) {
  const std::vector<Dim> dims{Dim::X, Dim::Y, Dim::Z};
  for (int arity = 1; arity <= 4; ++arity)
    for (int nd = 0; nd <= (arity <= 2 ? 3 : 2); ++nd) {
      std::vector<std::vector<ix>> shapes{{}};
      const ix top = nd <= 1 ? 4 : arity <= 2 && nd == 2 ? 3 : 2;
      for (int i = 0; i < nd; ++i) {
        std::vector<std::vector<ix>> more;
        for (const auto &s : shapes)
          for (ix e = 0; e <= top; ++e) {
            if (nd > 1 && arity > 2 && e < 2 && !(e == 0 && i == 0))
              continue;
            auto x = s;
            x.push_back(e);
            more.push_back(x);
          }
        shapes = more;
      }
      const auto sels = selections(nd);
      size_t combos = 1;
      for (int i = 0; i < arity; ++i)
        combos *= sels.size();
      for (const auto &shape : shapes)
        for (size_t combo = 0; combo < combos; ++combo)
          E.run([&](std::ostream &o) {
            o << arity << " operands over shape";
            for (auto s : shape)
              o << " " << s;
            o << ", selection " << combo;
          },
                [&] {
                  std::vector<std::vector<int>> sel;
                  std::set<int> used;
                  size_t k = combo;
                  for (int i = 0; i < arity; ++i) {
                    sel.push_back(sels[k % sels.size()]);
                    used.insert(sel.back().begin(), sel.back().end());
                    k /= sels.size();
                  }
                  if (ix(used.size()) != nd)
                    return;
                  if (nd > 0)
                    E.nontrivial();
                  std::vector<Arr> in;
                  for (int i = 0; i < arity; ++i)
                    in.push_back(numbered(dims, shape, sel[i], 1 + 7 * i));
                  Arr want;
                  for (const auto &a : in)
                    for (size_t i = 0; i < a.dims.size(); ++i)
                      if (want.axis(a.dims[i]) < 0) {
                        want.dims.push_back(a.dims[i]);
                        want.shape.push_back(a.shape[i]);
                      }
                  want.v.resize(want.volume());
                  for (ix i = 0; i < want.volume(); ++i) {
                    long double f = 1;
                    for (const auto &a : in) {
                      want.v[i].x += f * a.v[a.index_of(want, i)].x;
                      f *= 100;
                    }
                  }
                  // all layouts, for many operands a selection with every pair
                  std::vector<std::vector<int>> lays{{}};
                  for (int i = 0; i < arity; ++i) {
                    std::vector<std::vector<int>> more;
                    for (const auto &l : lays)
                      for (int x = 0; x < num_layouts; ++x) {
                        if (arity == 3 && x > 2 && i > 0)
                          continue;
                        if (arity == 4 && x > 1)
                          continue;
                        if (nd == 3 && x >= 3)
                          continue;
                        auto y = l;
                        y.push_back(arity == 4 && x == 1 ? 2 : x);
                        more.push_back(y);
                      }
                    lays = more;
                  }
                  const auto desc = [&](const std::vector<int> &l) {
                    std::string r;
                    for (int i = 0; i < arity; ++i)
                      r += str(in[i]) + " " + layout_name(l[i]) + "; ";
                    return r;
                  };
                  for (const auto &l : lays) {
                    Vars v;
                    for (int i = 0; i < arity; ++i)
                      v.push_back(make(in[i], l[i]).view);
                    Variable r;
                    if (arity == 1)
                      r = -(-v[0]);
                    else if (arity == 2)
                      r = v[0] + makeVariable<double>(Values{100.0}, units::one) * v[1];
                    else if (arity == 3)
                      r = sv::transform(v[0], v[1], v[2], mix3, "mix");
                    else
                      r = sv::transform(v[0], v[1], v[2], v[3], mix4, "mix");
                    compare(E, r, want, "matching-by-label", 0, [&] { return desc(l); });
                    if (arity == 2) {
                      // the operation itself, not via a temporary
                      auto w = want;
                      for (ix i = 0; i < w.volume(); ++i)
                        w.v[i].x = in[0].v[in[0].index_of(w, i)].x * in[1].v[in[1].index_of(w, i)].x;
                      compare(E, v[0] * v[1], w, "matching-by-label", 0, [&] { return desc(l); });
                    }
                    // in place, if all dimensions are in the first operand
                    if (arity >= 2 && ix(sel[0].size()) == nd) {
                      const auto m = make(in[0], l[0]);
                      const auto before = read(m.base);
                      const auto w = transposed(want, in[0].dims);
                      auto a = m.view;
                      if (arity == 2)
                        a += make_plain([&] { auto x = in[1]; for (auto &c : x.v) c.x *= 100; return x; }());
                      else if (arity == 3)
                        sv::transform_in_place(a, v[1], v[2], mix2_ip, "mix");
                      else
                        sv::transform_in_place(a, v[1], v[2], v[3], mix3_ip, "mix");
                      compare(E, a, w, "matching-by-label-in-place", 0, [&] { return desc(l); });
                      compare_base(E, m, before, w, "out-of-selection", 0, [&] { return desc(l); });
                      if (arity == 2) {
                        const auto m2 = make(in[0], l[0]);
                        auto a2 = m2.view;
                        a2 *= v[1];
                        auto w2 = in[0];
                        for (ix i = 0; i < w2.volume(); ++i)
                          w2.v[i].x *= in[1].v[in[1].index_of(w2, i)].x;
                        compare(E, a2, w2, "matching-by-label-in-place", 0, [&] { return desc(l); });
                      }
                    } else if (arity == 2) {
                      auto m = make(in[0], l[0]);
                      const auto e = raised([&] { m.view += v[1]; });
                      E.check_lazy(!e.empty(), "in-place-new-dimension", [&] { return desc(l); });
                      E.check_lazy(difference(read(m.view), in[0]).empty(), "operand-modified", [&] { return desc(l); });
                    }
                    for (int i = 0; i < arity; ++i)
                      E.check_lazy(difference(read(v[i]), in[i]).empty(), "operand-modified", [&] { return desc(l); });
                  }
                  // explicit broadcasts of the operands (stride zero)
                  if (arity == 2) {
                    scipp::Dimensions target;
                    for (size_t i = 0; i < want.dims.size(); ++i)
                      target.addInner(want.dims[i], want.shape[i]);
                    const auto a = sv::broadcast(make_plain(in[0]), target), b = sv::broadcast(make_plain(in[1]), target);
                    auto w = want;
                    for (ix i = 0; i < w.volume(); ++i)
                      w.v[i].x = in[0].v[in[0].index_of(w, i)].x * in[1].v[in[1].index_of(w, i)].x;
                    compare(E, a * b, w, "matching-by-label", 0, [] { return "broadcast operands"; });
                    compare(E, -a, [&] { auto x = w; for (ix i = 0; i < x.volume(); ++i) x.v[i].x = -in[0].v[in[0].index_of(x, i)].x; return x; }(),
                            "matching-by-label", 0, [] { return "broadcast operand"; });
                    auto c = copy(b);
                    c += a;
                    for (ix i = 0; i < w.volume(); ++i)
                      w.v[i].x = in[0].v[in[0].index_of(w, i)].x + in[1].v[in[1].index_of(w, i)].x;
                    compare(E, c, w, "matching-by-label-in-place", 0, [] { return "broadcast operand"; });
                  }
                  // one operand with another extent
                  if (arity >= 2)
                    for (int i = 1; i < arity; ++i)
                      for (size_t d = 0; d < sel[i].size(); ++d)
                        for (const ix delta : {-1, 1}) {
                          auto shape2 = shape;
                          shape2[sel[i][d]] += delta;
                          if (shape2[sel[i][d]] < 0)
                            continue;
                          bool shared = false;
                          for (int j = 0; j < arity; ++j)
                            if (j != i && std::count(sel[j].begin(), sel[j].end(), sel[i][d]))
                              shared = true;
                          if (!shared)
                            continue;
                          Vars v;
                          for (int j = 0; j < arity; ++j)
                            v.push_back(make_plain(numbered(dims, j == i ? shape2 : shape, sel[j], 1)));
                          const auto e = raised([&] {
                            if (arity == 2)
                              (void)(v[0] + v[1]);
                            else if (arity == 3)
                              (void)sv::transform(v[0], v[1], v[2], mix3, "mix");
                            else
                              (void)sv::transform(v[0], v[1], v[2], v[3], mix4, "mix");
                          });
                          E.check_lazy(e == "DimensionError", "extent-mismatch", [&] { return "operand " + std::to_string(i) + " has extent off by " + std::to_string(delta) + ": '" + e + "'"; });
                          if (arity == 2) {
                            const auto a0 = copy(v[0]);
                            const auto e2 = raised([&] { v[0] += v[1]; });
                            E.check(!e2.empty() && difference(read(v[0]), read(a0)).empty(), "extent-mismatch", "in place");
                          }
                        }
                });
    }
}

// (c) binned ----------------------------------------------------------------
struct Binned {
  std::vector<ix> sizes;
  Variable var;              // bins
  Variable buffer;           // the buffer
  std::vector<std::vector<ix>> pos; // buffer positions of each bin
};
/// order: 0 bins in order without gaps, 1 gaps, 2 reversed, 3 gaps and reversed
Binned make_binned(const std::vector<ix> &sizes, const Dimensions &dims, int order, const std::function<Cell(ix bin, ix k)> &f, DType t, Unit u) {
  Binned b;
  b.sizes = sizes;
  const ix n = sizes.size();
  std::vector<scipp::index_pair> idx(n);
  b.pos.resize(n);
  ix at = order & 1 ? 2 : 0;
  std::vector<ix> perm(n);
  for (ix i = 0; i < n; ++i)
    perm[i] = order & 2 ? n - 1 - i : i;
  for (const auto i : perm) {
    idx[i] = {at, at + sizes[i]};
    for (ix k = 0; k < sizes[i]; ++k)
      b.pos[i].push_back(at + k);
    at += sizes[i] + (order & 1 ? 1 : 0);
  }
  Arr buf = array_of(t, u, {Dim("event")}, {at}, Cells(at, Cell(77)));
  for (ix i = 0; i < n; ++i)
    for (ix k = 0; k < sizes[i]; ++k)
      buf.v[b.pos[i][k]] = f(i, k);
  b.buffer = make_plain(buf);
  core::element_array<scipp::index_pair> ia(n);
  std::copy(idx.begin(), idx.end(), ia.data());
  b.var = sv::make_bins(makeVariable<scipp::index_pair>(dims, units::none, Values(std::move(ia))), Dim("event"), b.buffer);
  return b;
}
/// Content of the bins, read bin by bin.
std::vector<Cells> content(const Variable &v) {
  std::vector<Cells> r;
  const auto &[indices, dim, buffer] = v.constituents<Variable>();
  const auto b = read(buffer);
  for (const auto &p : indices.values<scipp::index_pair>()) {
    r.emplace_back();
    for (ix i = p.first; i < p.second; ++i)
      r.back().push_back(b.v.at(i));
  }
  return r;
}
void binned_sweep(vh::Explorer &E) {
  // all sizes of up to 3 bins of up to 2 (3) events
  const ix top = E.thorough ? 3 : 2;
  for (int form = 0; form < 3; ++form) // x:n ; x:2,y:n ; scalar
    for (ix n = form == 2 ? 1 : 0; n <= (form == 2 ? 1 : form == 1 ? 2 : 3); ++n) {
      const ix nb = form == 1 ? 2 * n : n;
      ix combos = 1;
      for (ix i = 0; i < nb; ++i)
        combos *= top + 1;
      for (ix c = 0; c < combos; ++c)
        E.run([&] { return "binned operands, form " + std::to_string(form) + ", bin sizes number " + std::to_string(c) + " of " + std::to_string(nb) + " bins"; }, [&] {
          std::vector<ix> sizes;
          ix k = c;
          for (ix i = 0; i < nb; ++i) {
            sizes.push_back(k % (top + 1));
            k /= top + 1;
          }
          if (c > 0)
            E.nontrivial();
          const auto dims = form == 0 ? Dimensions(Dim::X, n) : form == 1 ? Dimensions({Dim::X, Dim::Y}, {2, n}) : Dimensions{};
          const auto ev = [](ix bin, ix e) { return Cell(1 + 10 * bin + e); };
          const auto ev2 = [](ix bin, ix e) { return Cell(100 + 10 * bin + e); };
          for (int o1 = 0; o1 < 4; ++o1) {
            const auto what = [&] { return "bin order " + std::to_string(o1); };
            const auto a = make_binned(sizes, dims, o1, ev, D, units::m);
            const auto check = [&](const Variable &got, auto f, Unit u, DType t, const char *sig) {
              ++E.transitions;
              E.check(got.dims() == dims && is_bins(got), sig, "not bins of the same shape");
              const auto g = content(got);
              for (ix i = 0; i < nb; ++i) {
                E.check_lazy(ix(g[i].size()) == sizes[i], sig, [&] { return what() + ", bin " + std::to_string(i) + " has " + std::to_string(g[i].size()) + " events"; });
                for (ix e = 0; e < sizes[i]; ++e)
                  E.check_lazy(g[i][e].x == f(i, e), sig, [&] {
                    return what() + ", event " + std::to_string(e) + " of bin " + std::to_string(i) + " is " + arr::num(g[i][e].x) + ", not " + arr::num(f(i, e));
                  });
              }
              const auto &[in, dm, buf] = got.template constituents<Variable>();
              E.check(buf.unit() == u && buf.dtype() == t, sig, "unit or type of the events");
            };
            check(-a.var, [&](ix i, ix e) { return -ev(i, e).x; }, units::m, D, "binned");
            check(sv::isnan(a.var), [&](ix, ix) { return 0; }, units::none, B, "binned");
            // with a dense operand: scalar, or per bin
            Cells per;
            for (ix i = 0; i < nb; ++i)
              per.push_back(Cell(2 + i));
            Arr pa = array_of(D, units::s, {}, {}, per);
            for (const auto &d : dims.labels()) {
              pa.dims.push_back(d);
              pa.shape.push_back(dims[d]);
            }
            for (int l = 0; l < num_layouts; ++l) {
              const auto dense = make(pa, l).view;
              check(a.var * dense, [&](ix i, ix e) { return ev(i, e).x * per[i].x; }, units::m * units::s, D, "binned-dense");
              check(dense * a.var, [&](ix i, ix e) { return ev(i, e).x * per[i].x; }, units::m * units::s, D, "binned-dense");
              // in place: exactly the events in the bins change
              auto t = make_binned(sizes, dims, o1, ev, D, units::m);
              auto want = read(t.buffer);
              for (ix i = 0; i < nb; ++i)
                for (const auto p : t.pos[i])
                  want.v[p].x *= per[i].x;
              want.u = units::m * units::s;
              t.var *= dense;
              const auto d = difference(read(t.buffer), want);
              E.check_lazy(d.empty(), "binned-in-place", [&] { return what() + ", dense operand " + layout_name(l) + ": " + d; });
            }
            {
              auto t = make_binned(sizes, dims, o1, ev, D, units::m);
              t.var += makeVariable<double>(Values{5.0}, Unit(units::m));
              auto want = read(a.buffer);
              for (ix i = 0; i < nb; ++i)
                for (const auto p : t.pos[i])
                  want.v[p].x += 5;
              E.check_lazy(difference(read(t.buffer), want).empty(), "binned-in-place", what);
            }
            // two binned operands
            for (int o2 = 0; o2 < 4; ++o2) {
              const auto b = make_binned(sizes, dims, o2, ev2, D, units::m);
              check(a.var + b.var, [&](ix i, ix e) { return ev(i, e).x + ev2(i, e).x; }, units::m, D, "binned-binned");
              check(sv::less(a.var, b.var), [&](ix, ix) { return 1; }, units::none, B, "binned-binned");
              auto t = make_binned(sizes, dims, o1, ev, D, units::m);
              auto want = read(t.buffer);
              for (ix i = 0; i < nb; ++i)
                for (ix e = 0; e < sizes[i]; ++e)
                  want.v[t.pos[i][e]].x += ev2(i, e).x;
              t.var += b.var;
              E.check_lazy(difference(read(t.buffer), want).empty(), "binned-in-place", what);
              // bins of other sizes
              for (ix i = 0; i < nb; ++i) {
                auto other = sizes;
                other[i] += 1;
                const auto x = make_binned(other, dims, o2, ev2, D, units::m);
                E.check_lazy(!raised([&] { (void)(a.var + x.var); }).empty(), "bin-size-mismatch", what);
                auto t2 = make_binned(sizes, dims, o1, ev, D, units::m);
                const auto b0 = read(t2.buffer);
                E.check_lazy(!raised([&] { t2.var += x.var; }).empty(), "bin-size-mismatch", what);
                E.check_lazy(difference(read(t2.buffer), b0).empty(), "operand-modified", what);
              }
            }
            // dense target, binned operand
            if (nb > 0) {
              auto t = make_plain(pa);
              E.check_lazy(!raised([&] { t += a.var; }).empty() && difference(read(t), pa).empty(), "dense-target", what);
            }
            // slices and transposes of bins
            if (form == 1 && n > 0) {
              const auto tr = a.var.transpose(std::vector<Dim>{Dim::Y, Dim::X});
              const auto g = content(tr + tr.transpose(std::vector<Dim>{Dim::X, Dim::Y}));
              ++E.transitions;
              for (ix y = 0; y < n; ++y)
                for (ix x = 0; x < 2; ++x)
                  for (ix e = 0; e < sizes[x * n + y]; ++e)
                    E.check_lazy(g[y * 2 + x].at(e).x == 2 * ev(x * n + y, e).x, "binned-transposed", what);
              const auto sl = a.var.slice({Dim::Y, n - 1});
              const auto h = content(sl * make_plain(pa).slice({Dim::Y, n - 1}));
              for (ix x = 0; x < 2; ++x) {
                E.check_lazy(ix(h[x].size()) == sizes[x * n + n - 1], "binned-sliced", what);
                for (ix e = 0; e < ix(h[x].size()); ++e)
                  E.check_lazy(h[x][e].x == ev(x * n + n - 1, e).x * per[x * n + n - 1].x, "binned-sliced", what);
              }
              auto t = make_binned(sizes, dims, o1, ev, D, units::m);
              auto want = read(t.buffer);
              for (ix x = 0; x < 2; ++x)
                for (const auto p : t.pos[x * n + n - 1])
                  want.v[p].x += 1;
              auto part = t.var.slice({Dim::Y, n - 1});
              part += makeVariable<double>(Values{1.0}, Unit(units::m));
              E.check_lazy(difference(read(t.buffer), want).empty(), "binned-sliced", what);
            }
          }
        });
    }
}

// (d) units -----------------------------------------------------------------
void unit_sweep(vh::Explorer &E, const std::vector<Op> &table) {
  const std::vector<Unit> us{units::none, units::one, units::m, units::mm, units::s, units::counts, units::rad, units::deg, units::m * units::m, units::K};
  for (const auto &op : table)
    E.run([&] { return "units of " + op.name; }, [&] {
      E.nontrivial();
      if (!op.unit)
        return;
      Types types;
      for (const auto &cand : type_tuples(op.arity))
        if (op.type(cand) != N && types.empty())
          types = cand;
      // operands of type double if possible
      for (const auto &cand : {Types(op.arity, D), Types(op.arity, B), Types{B, D, D}})
        if (ix(cand.size()) == op.arity && op.type(cand) != N) {
          types = cand;
          break;
        }
      size_t n = 1;
      for (int i = 0; i < op.arity; ++i)
        n *= us.size();
      for (size_t i = 0; i < n; ++i) {
        std::vector<Unit> u;
        size_t k = i;
        for (int j = 0; j < op.arity; ++j) {
          u.push_back(us[k % us.size()]);
          k /= us.size();
        }
        if ((op.name == "sqrt") && !(u[0] == units::none || u[0] == units::one || u[0] == units::m * units::m))
          continue; // fractional powers are the concern of U01
        Vars v;
        std::vector<Arr> in;
        std::string what = op.name;
        for (int j = 0; j < op.arity; ++j) {
          in.push_back(array_of(types[j], u[j], {Dim::X}, {1}, {types[j] == V ? values_of(V)[1] : Cell(types[j] == B ? 1 : 0.25)}));
          v.push_back(make_plain(in.back()));
          what += " " + to_string(u[j]);
        }
        const auto want = op.unit(u);
        ++E.transitions;
        if (!want) {
          const auto e = raised([&] { op.f(v); });
          E.check_lazy(e == "UnitError", "unit-not-rejected", [&] { return what + " ended with '" + e + "'"; });
          for (int j = 0; j < op.arity; ++j)
            E.check_lazy(difference(read(v[j]), in[j]).empty(), "operand-modified", [&] { return what; });
          if (op.in_place) {
            const auto e2 = raised([&] { op.in_place(v[0], v); });
            E.check_lazy(e2 == "UnitError" && difference(read(v[0]), in[0]).empty(), "unit-not-rejected", [&] { return what + " in place: " + e2; });
          }
          continue;
        }
        E.check_lazy(op.f(v).unit() == *want, "result-unit", [&] { return what + " has unit " + to_string(op.f(v).unit()); });
        if (op.name == "sin" || op.name == "cos" || op.name == "tan") {
          const auto x = op.f(v).values<double>()[0];
          const long double rad = u[0] == units::deg ? 0.25L * 3.14159265358979323846L / 180 : 0.25L;
          const auto w = op.name == "sin" ? std::sin(rad) : op.name == "cos" ? std::cos(rad) : std::tan(rad);
          E.check_lazy(close(x, w, 1e-14L), "value", [&] { return what; });
        }
        if (op.in_place) {
          op.in_place(v[0], v);
          E.check_lazy(v[0].unit() == *want, "result-unit", [&] { return what + " in place has unit " + to_string(v[0].unit()); });
          // of a slice the unit cannot change
          if (*want != u[0]) {
            auto base = make_plain(array_of(types[0], u[0], {Dim::X}, {3}, Cells(3, Cell(types[0] == B ? 1 : 0.25))));
            const auto b0 = read(base);
            auto s = base.slice({Dim::X, 1, 2});
            const auto e = raised([&] { op.in_place(s, {s, v[1]}); });
            E.check_lazy(!e.empty() && difference(read(base), b0).empty(), "unit-of-slice", [&] { return what + ": " + e; });
          }
        }
        if (op.out) {
          auto o = make_plain(array_of(op.type(types), units::kg, {Dim::X}, {1}, {Cell(5)}));
          op.out(v, o);
          E.check_lazy(o.unit() == *want, "result-unit", [&] { return what + " into an output has unit " + to_string(o.unit()); });
        }
      }
    });
}

void misc_sweep(vh::Explorer &E) {
  // powers: units
  for (const auto &u : {units::m, units::one, units::none, units::counts})
    for (const DType tb : {D, F, L})
      for (const DType te : {D, F, L, I})
        E.run([&] { return std::string("powers of ") + tname(tb) + " with unit " + to_string(u) + ", exponent " + tname(te); }, [&] {
          E.nontrivial();
          for (int e = -3; e <= 3; ++e)
            for (const auto &ue : {units::one, units::m, units::none})
              for (int form = 0; form < 3; ++form) {
                Cells base{Cell(1), Cell(-2), Cell(3)};
                const auto a = array_of(tb, u, {Dim::X}, {3}, base);
                auto b = array_of(te, ue, {}, {}, {Cell(e)});
                if (form == 2)
                  b = array_of(te, ue, {Dim::X}, {3}, {Cell(e), Cell(e), Cell(e)});
                auto va = make_plain(a);
                const auto vb = make_plain(b);
                const auto what = [&] { return str(a) + " to the power of " + str(b); };
                auto out = make_plain(array_of(is_int(tb) && is_float(te) ? te : tb, u, {Dim::X}, {3}, base));
                Variable r;
                const auto ex = raised([&] { r = form == 1 ? sv::pow(va, vb, out) : sv::pow(va, vb); });
                ++E.transitions;
                const bool ok = ue == units::one && !(is_int(tb) && is_int(te) && e < 0) && !(form == 2 && u != units::one);
                E.check_lazy(ex.empty() == ok, "pow-rejection", [&] { return what() + ": '" + ex + "'"; });
                E.check_lazy(difference(read(va), a).empty() && difference(read(vb), b).empty(), "operand-modified", what);
                if (!ok)
                  continue;
                Arr want = a;
                want.t = is_int(tb) && is_float(te) ? te : tb;
                if (tb == F && te == D && u == units::one && form != 1)
                  want.t = D;
                want.u = u == units::none ? units::none : pow(u, e);
                for (auto &c : want.v)
                  c.x = std::pow(c.x, (long double)e);
                compare(E, r, want, "pow", eps_of(want.t), what);
              }
          // fractional exponents need a base without dimension
          if (is_float(te)) {
            const auto a = array_of(tb, u, {Dim::X}, {2}, {Cell(1), Cell(4)});
            const auto va = make_plain(a), vb = make_plain(array_of(te, units::one, {}, {}, {Cell(0.5L)}));
            const auto ex = raised([&] { (void)sv::pow(va, vb); });
            E.check_lazy(ex.empty() == (u == units::one), "pow-rejection", [&] { return "fractional power with unit " + to_string(u) + ": '" + ex + "'"; });
          }
          { // exponents of one element
            const auto a = array_of(tb, u, {Dim::X}, {2}, {Cell(1), Cell(4)});
            const auto b = array_of(te, units::one, {Dim::Y}, {1}, {Cell(2)});
            Variable r;
            const auto ex = raised([&] { r = sv::pow(make_plain(a), make_plain(b)); });
            ++E.transitions;
            E.check_lazy(ex.empty() == (u == units::one), "pow-rejection", [&] { return "power with one exponent along y, unit " + to_string(u) + ": '" + ex + "'"; });
            if (ex.empty() && u == units::one)
              E.check_lazy(r.dims() == Dimensions({Dim::X, Dim::Y}, {2, 1}), "pow", [] { return "dimensions of a power with one exponent along y"; });
          }
          if (tb == L && te == L && u == units::one) // beyond the range of shorter integers
            for (const ix e : {ix(-4294967296), ix(-2147483649), ix(-2147483648), ix(2147483648), ix(2147483649), ix(4294967296), ix(9223372036854775807), -ix(9223372036854775807) - 1}) {
              const auto va = make_plain(array_of(tb, u, {Dim::X}, {3}, {Cell(1), Cell(-1), Cell(0)}));
              for (const bool array : {false, true}) {
                const auto vb = array ? make_plain(array_of(te, units::one, {Dim::X}, {3}, {Cell(0), Cell(e), Cell(2)})) : make_plain(array_of(te, units::one, {}, {}, {Cell(e)}));
                Variable r;
                const auto ex = raised([&] { r = sv::pow(va, vb); });
                ++E.transitions;
                E.check_lazy(ex.empty() == (e > 0), "pow-rejection", [&] { return "exponent " + std::to_string(e) + ": '" + ex + "'"; });
                if (e > 0 && ex.empty())
                  compare(E, r, array_of(L, u, {Dim::X}, {3}, {Cell(1), Cell(e % 2 ? -1 : 1), Cell(0)}), "pow", 0, [&] { return "exponent " + std::to_string(e); });
              }
            }
          // exponents that differ
          if (u == units::one && !is_int(tb)) {
            const auto a = array_of(tb, u, {Dim::X}, {3}, {Cell(0.5L), Cell(2), Cell(-3)});
            const auto b = array_of(te, units::one, {Dim::Y}, {4}, {Cell(0), Cell(1), Cell(2), Cell(-1)});
            Arr want = array_of(tb == F && te == D ? D : tb, units::one, {Dim::X, Dim::Y}, {3, 4}, Cells(12));
            for (ix i = 0; i < 12; ++i)
              want.v[i].x = std::pow(a.v[i / 4].x, b.v[i % 4].x);
            compare(E, sv::pow(make_plain(a), make_plain(b)), want, "pow", eps_of(tb), [&] { return str(a) + " to the power of " + str(b); });
          }
        });
  // isclose
  for (const DType t : {D, F, L, I})
    for (const bool nan_equal : {false, true})
      E.run([&] { return std::string("isclose of ") + tname(t); }, [&] {
        E.nontrivial();
        for (const auto &x : values_of(t))
          for (const auto &y : values_of(t))
            for (const long double at : {0.L, 0.5L, 1.L, 4.L})
              for (const long double rt : {0.L, 0.5L, 1.L}) {
                const auto mk = [&](const Cell &c, Unit u, DType tt) { return make_plain(array_of(tt, u, {Dim::X}, {1}, {c})); };
                const DType tt = t == F ? F : D;
                const bool inf = std::isinf(x.x) && std::isinf(y.x);
                bool want = std::abs(x.x - y.x) <= at + rt * std::abs(y.x);
                if (nan_equal)
                  want = want || (std::isnan(x.x) && std::isnan(y.x)) || (inf && x.x == y.x);
                if ((std::isinf(x.x) || std::isinf(y.x)) && !inf && rt > 0 && std::isinf(y.x))
                  continue; // an infinite tolerance
                if (inf && !nan_equal)
                  continue;
                if (inf && rt > 0)
                  continue;
                const auto r = sv::isclose(mk(x, units::m, t), mk(y, units::m, t), makeVariable<double>(Values{double(rt)}, units::one),
                                           mk(Cell(at), units::m, tt == F ? D : D), nan_equal ? sv::NanComparisons::Equal : sv::NanComparisons::NotEqual);
                ++E.transitions;
                E.check_lazy(r.dtype() == B && r.unit() == units::none && r.values<bool>()[0] == want, "isclose", [&] {
                  return "isclose(" + arr::num(x.x) + ", " + arr::num(y.x) + ", rtol " + arr::num(rt) + ", atol " + arr::num(at) + ") is not " + (want ? "true" : "false");
                });
              }
      });
  // conversion of element types
  for (const DType from : {D, F, L, I, B})
    for (const DType to : {D, F, L, I, B})
      E.run([&] { return std::string("astype from ") + tname(from) + " to " + tname(to); }, [&] {
        E.nontrivial();
        auto vals = values_of(from, false);
        vals.push_back(is_float(from) ? Cell(-0.75L) : Cell(1));
        for (int l = 0; l < num_layouts; ++l) {
          const auto a = array_of(from, units::m, {Dim::X}, {ix(vals.size())}, vals);
          auto want = a;
          want.t = to;
          for (auto &c : want.v)
            if (to == B)
              c.x = c.x != 0;
            else if (is_int(to))
              c.x = std::trunc(c.x);
          const auto m = make(a, l);
          const auto r = sv::astype(m.view, to), r2 = sv::astype(m.view, to, CopyPolicy::TryAvoid);
          compare(E, r, want, "astype", 0, [&] { return str(a); });
          compare(E, r2, want, "astype", 0, [&] { return str(a); });
          E.check(!r.is_same(m.view), "astype", "does not copy");
          E.check(r2.is_same(m.view) == (from == to), "astype", "copies though that can be avoided");
        }
      });
  // midpoints
  for (const DType t : {D, F, L, I, T})
    E.run([&] { return std::string("midpoints of ") + tname(t); }, [&] {
      E.nontrivial();
      auto vals = values_of(t, false);
      if (t == L) {
        vals.push_back(Cell(9223372036854775807.0L));
        vals.push_back(Cell(-9223372036854775808.0L));
      }
      if (t == D) {
        vals.push_back(Cell(1.5e308L));
        vals.push_back(Cell(1.25e308L));
      }
      for (const auto &a : vals)
        for (const auto &b : vals)
          for (int l = 0; l < 3; ++l) {
            const auto in = array_of(t, units::s, {Dim::X}, {3}, {a, b, a});
            auto want = array_of(t, units::s, {Dim::X}, {2}, {Cell(), Cell()});
            // integers round towards the first
            for (int i = 0; i < 2; ++i) {
              const auto x = in.v[i].x, y = in.v[i + 1].x;
              want.v[i].x = is_float(t) ? x / 2 + y / 2 : x + std::trunc((y - x) / 2);
            }
            compare(E, sv::midpoints(make(in, l).view), want, "midpoints", eps_of(t), [&] { return str(in); });
          }
    });
  E.run([] { return "midpoints along a dimension"; }, [&] {
    E.nontrivial();
    for (ix nx = 0; nx <= 3; ++nx)
      for (ix ny = 0; ny <= 3; ++ny)
        for (int l = 0; l < num_layouts; ++l) {
          auto a = array_of(D, units::m, {Dim::X, Dim::Y}, {nx, ny}, Cells(nx * ny));
          for (ix i = 0; i < nx * ny; ++i)
            a.v[i].x = i * i;
          for (int d = 0; d < 2; ++d) {
            const auto v = make(a, l).view;
            Variable r;
            const auto e = raised([&] { r = sv::midpoints(v, a.dims[d]); });
            ++E.transitions;
            if (a.shape[d] < 2) {
              if (a.shape[d] == 1)
                E.check(!e.empty(), "midpoints", "of one element");
              continue;
            }
            auto want = a;
            want.shape[d] -= 1;
            want.v.resize(want.volume());
            for (ix i = 0; i < want.volume(); ++i) {
              auto m = want.unravel(i);
              const auto lo = a.v[a.ravel(m)].x;
              m[d] += 1;
              want.v[i].x = (lo + a.v[a.ravel(m)].x) / 2;
            }
            compare(E, r, want, "midpoints", 0, [&] { return str(a); });
          }
        }
  });
  // fill, zip
  for (const DType t : {D, F})
    E.run([&] { return std::string("fill of ") + tname(t); }, [&] {
      E.nontrivial();
      for (int l = 0; l < num_layouts; ++l) {
        const auto a = array_of(t, units::m, {Dim::X, Dim::Y}, {2, 3}, {Cell(1), Cell(2), Cell(3), Cell(4), Cell(5), Cell(6)});
        auto m = make(a, l);
        auto before = read(m.base);
        auto want = a;
        for (auto &c : want.v)
          c.x = 9;
        sv::fill(m.view, make_plain(array_of(t, units::m, {}, {}, {Cell(9)})));
        compare(E, m.view, want, "fill", 0, [&] { return std::string(layout_name(l)); });
        compare_base(E, m, before, want, "out-of-selection", 0, [&] { return std::string(layout_name(l)); });
        m = make(a, l);
        before = read(m.base);
        for (auto &c : want.v)
          c.x = 0;
        sv::fill_zeros(m.view);
        compare(E, m.view, want, "fill", 0, [&] { return std::string(layout_name(l)); });
        compare_base(E, m, before, want, "out-of-selection", 0, [&] { return std::string(layout_name(l)); });
      }
    });
  E.run([] { return "zip and unzip"; }, [&] {
    E.nontrivial();
    for (const DType t1 : {L, I})
      for (const DType t2 : {L, I})
        for (int l1 = 0; l1 < num_layouts; ++l1)
          for (int l2 = 0; l2 < num_layouts; ++l2) {
            Cells c1, c2;
            for (int i = 0; i < 6; ++i) {
              c1.push_back(Cell(i));
              c2.push_back(Cell(10 + i * i));
            }
            const auto a = array_of(t1, units::none, {Dim::X, Dim::Y}, {2, 3}, c1), b = array_of(t2, units::none, {Dim::X, Dim::Y}, {2, 3}, c2);
            const auto z = sv::zip(make(a, l1).view, make(b, l2).view);
            auto want = array_of(dtype<scipp::index_pair>, units::none, a.dims, a.shape, c1);
            for (int i = 0; i < 6; ++i)
              want.v[i].y = c2[i].x;
            compare(E, z, want, "zip", 0, [] { return "zip"; });
            const auto [x, y] = sv::unzip(z);
            compare(E, x, array_of(L, units::none, a.dims, a.shape, c1), "zip", 0, [] { return "unzip"; });
            compare(E, y, array_of(L, units::none, a.dims, a.shape, c2), "zip", 0, [] { return "unzip"; });
          }
  });
}
} // namespace

VH_EXPLORE(O01) {
  const auto table = ops::table();
  values_sweep(E, table);
  unit_sweep(E, table);
  misc_sweep(E);
  layout_sweep(E);
  binned_sweep(E);
}
VH_MAIN
