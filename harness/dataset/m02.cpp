// M02: how coordinates, masks, attributes and items of operands are combined:
// all combinations per name in both operands.
#include "../common/ds.h"
#include "scipp/dataset/generated_arithmetic.h"
#include "scipp/dataset/generated_comparison.h"
#include "scipp/dataset/generated_logical.h"
#include "scipp/dataset/generated_math.h"
#include "scipp/dataset/generated_special_values.h"
#include "scipp/dataset/generated_trigonometry.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/math.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/trigonometry.h"
#include <optional>

using namespace ds;
namespace {
using scipp::dataset::Masks;
const Arr NOTHING;
template <class M> const typename M::value_type::second_type *get(const M &m, const typename M::value_type::first_type &k) {
  for (const auto &[n, x] : m)
    if (n == k)
      return &x;
  return nullptr;
}
bool same(const Arr &a, const Arr &b) { return arr::difference(a, b).empty(); }

/// Logical or of two masks, the second one broadcast or both.
std::optional<Arr> mask_or(const Arr &a, const Arr &b, bool in_place) {
  if (a.t != B || b.t != B || a.u != units::none || b.u != units::none)
    return {};
  Arr out = a;
  for (size_t k = 0; k < b.dims.size(); ++k) {
    const int j = out.axis(b.dims[k]);
    if (j < 0) {
      if (in_place)
        return {};
      out.dims.push_back(b.dims[k]);
      out.shape.push_back(b.shape[k]);
    } else if (out.shape[j] != b.shape[k])
      return {};
  }
  out.v.assign(out.volume(), Cell());
  for (ix i = 0; i < out.volume(); ++i) {
    const auto m = out.unravel(i);
    const auto at = [&](const Arr &x) {
      std::vector<ix> n(x.dims.size());
      for (size_t k = 0; k < x.dims.size(); ++k)
        n[k] = m[out.axis(x.dims[k])];
      return x.v[x.ravel(n)].x != 0;
    };
    out.v[i].x = at(a) || at(b);
  }
  return out;
}
using CoordList = decltype(DA::coords);
/// The documented rule for coordinates of operands.
std::optional<CoordList> combine(const CoordList &a, const CoordList &b) {
  CoordList out;
  for (const auto &[k, x] : a) {
    const auto *y = get(b, k);
    if (x.aligned) {
      if (y && y->aligned && !same(x.a, y->a))
        return {};
      out.push_back({k, x});
    } else if (y && !y->aligned && same(x.a, y->a))
      out.push_back({k, x});
  }
  for (const auto &[k, y] : b) {
    const auto *x = get(a, k);
    if (y.aligned && !(x && x->aligned))
      out.push_back({k, y});
  }
  return out;
}
std::optional<DA> binary(const DA &a, const DA &b) {
  DA out;
  const auto c = combine(a.coords, b.coords);
  if (!c)
    return {};
  out.coords = *c;
  out.masks = a.masks;
  for (const auto &[k, y] : b.masks) {
    bool found = false;
    for (auto &[n, x] : out.masks)
      if (n == k) {
        found = true;
        const auto m = mask_or(x, y, false);
        if (!m)
          return {};
        x = *m;
      }
    if (!found)
      out.masks.push_back({k, y});
  }
  for (const auto &[k, x] : a.attrs)
    if (const auto *y = b.attr(k); y && same(x, *y))
      out.attrs.push_back({k, x});
  return out;
}
bool superset(const CoordList &a, const CoordList &b) {
  for (const auto &[k, y] : b)
    if (y.aligned) {
      const auto *x = get(a, k);
      if (!x || (x->aligned && !same(x->a, y.a)))
        return false;
    }
  return true;
}
std::optional<DA> in_place(const DA &a, const DA &b, bool readonly = false, const std::vector<std::string> &fixed = {}) {
  DA out = a;
  if (!superset(a.coords, b.coords))
    return {};
  for (const auto &[k, y] : b.masks) {
    bool found = false;
    for (auto &[n, x] : out.masks)
      if (n == k) {
        found = true;
        const auto m = mask_or(x, y, true);
        if (!m)
          return {};
        if (std::find(fixed.begin(), fixed.end(), k) != fixed.end() && !same(*m, x))
          return {};
        x = *m;
      }
    if (!found) {
      if (readonly)
        return {};
      out.masks.push_back({k, y});
    }
  }
  return out;
}

// --- operations ------------------------------------------------------------
template <class R> struct Bin {
  const char *name;
  R f;
};
using DD = std::function<DataArray(const DataArray &, const DataArray &)>;
using DV = std::function<DataArray(const DataArray &, const Variable &)>;
using VD = std::function<DataArray(const Variable &, const DataArray &)>;
using VV = std::function<Variable(const Variable &, const Variable &)>;
struct BinOp {
  const char *name;
  DD dd;
  DV dv;
  VD vd;
  VV vv;
  bool logical = false;
};
struct InOp {
  const char *name;
  std::function<void(DataArray &, const DataArray &)> dd;
  std::function<DataArray(DataArray &&, const DataArray &)> move;
  std::function<void(DataArray &, const Variable &)> dv;
  std::function<DataArray(DataArray &&, const Variable &)> move_dv;
  std::function<void(Variable &, const Variable &)> vv;
  std::function<void(Dataset &, const Dataset &)> ss;
  std::function<void(Dataset &, const DataArray &)> sd_;
  std::function<void(Dataset &, const Variable &)> sv_;
};
#define BIN(N, EXPR, ...) \
  BinOp{N, [](const DataArray &x, const DataArray &y) { return EXPR; }, [](const DataArray &x, const Variable &y) { return EXPR; }, \
        [](const Variable &x, const DataArray &y) { return EXPR; }, [](const Variable &x, const Variable &y) { return EXPR; }, ##__VA_ARGS__}
const std::vector<BinOp> &bin_ops() {
  static const std::vector<BinOp> o{BIN("+", x + y),
                                    BIN("-", x - y),
                                    BIN("*", x *y),
                                    BIN("/", x / y),
                                    BIN("%", x % y),
                                    BIN("floor_divide", floor_divide(x, y)),
                                    BIN("equal", equal(x, y)),
                                    BIN("not_equal", not_equal(x, y)),
                                    BIN("less", less(x, y)),
                                    BIN("greater", greater(x, y)),
                                    BIN("less_equal", less_equal(x, y)),
                                    BIN("greater_equal", greater_equal(x, y)),
                                    BIN("atan2", atan2(x, y)),
                                    BIN("|", x | y, true),
                                    BIN("&", x &y, true),
                                    BIN("^", x ^ y, true)};
  return o;
}
#define INP(N, OP) \
  InOp{N, [](DataArray &x, const DataArray &y) { x OP y; }, [](DataArray &&x, const DataArray &y) { return std::move(x) OP y; }, \
       [](DataArray &x, const Variable &y) { x OP y; }, [](DataArray &&x, const Variable &y) { return std::move(x) OP y; }, \
       [](Variable &x, const Variable &y) { x OP y; }, [](Dataset &x, const Dataset &y) { x OP y; }, \
       [](Dataset &x, const DataArray &y) { x OP y; }, [](Dataset &x, const Variable &y) { x OP y; }}
const std::vector<InOp> &in_ops() {
  static const std::vector<InOp> o{INP("+=", +=), INP("-=", -=), INP("*=", *=), INP("/=", /=)};
  return o;
}
using SS = std::function<Dataset(const Dataset &, const Dataset &)>;
struct SetOp {
  const char *name;
  SS ss;
  std::function<Dataset(const Dataset &, const DataArray &)> sd_;
  std::function<Dataset(const DataArray &, const Dataset &)> ds_;
  std::function<Dataset(const Dataset &, const Variable &)> sv_;
  std::function<Dataset(const Variable &, const Dataset &)> vs_;
  VV vv;
};
#define SETOP(N, OP) \
  SetOp{N, [](const Dataset &x, const Dataset &y) { return x OP y; }, [](const Dataset &x, const DataArray &y) { return x OP y; }, \
        [](const DataArray &x, const Dataset &y) { return x OP y; }, [](const Dataset &x, const Variable &y) { return x OP y; }, \
        [](const Variable &x, const Dataset &y) { return x OP y; }, [](const Variable &x, const Variable &y) { return x OP y; }}
const std::vector<SetOp> &set_ops() {
  static const std::vector<SetOp> o{SETOP("+", +), SETOP("-", -), SETOP("*", *), SETOP("/", /)};
  return o;
}

/// The order of dimensions of combined masks is not specified.
DA sorted_masks(DA a) {
  for (auto &[k, m] : a.masks) {
    auto order = m.dims;
    std::sort(order.begin(), order.end());
    m = transposed(m, order);
  }
  return a;
}
std::string diff_result(const DA &got, const DA &want) { return difference(sorted_masks(got), sorted_masks(want)); }

// --- checks ----------------------------------------------------------------
void unchanged(const DataArray &a, const DA &before, const std::string &what) {
  Cmp c;
  c.name = true;
  c.order = true;
  if (const auto d = difference(read_da(a), before, c); !d.empty())
    throw vh::Fail{"operand", what + " was modified: " + d};
}
void poke_masks(DataArray &r) {
  for (const auto &[k, m] : r.masks()) {
    auto v = m;
    if (v.dtype() == B) {
      for (auto &x : v.values<bool>())
        x = !x;
    } else
      v += v;
  }
}
/// One binary operation of two data arrays.
void check_binary(vh::Explorer &E, const DataArray &a, const DataArray &b, const BinOp &op) {
  const DA ma = read_da(a), mb = read_da(b);
  Variable data;
  const auto bad_data = raised([&] { data = op.vv(a.data(), b.data()); });
  auto want = bad_data.empty() ? binary(ma, mb) : std::nullopt;
  DataArray got;
  const auto err = raised([&] { got = op.dd(a, b); });
  ++E.transitions;
  E.check_lazy(err.empty() == want.has_value(), "raise", [&] { return std::string(op.name) + (want ? " raised " + err : " did not raise") + " for " + str(ma) + " and " + str(mb); });
  if (want) {
    read_data(data, *want);
    const auto d = diff_result(read_da(got), *want);
    E.check_lazy(d.empty(), "result", [&] { return std::string(op.name) + ": " + d + " for " + str(ma) + " and " + str(mb); });
    poke_masks(got);
  }
  unchanged(a, ma, std::string("left operand of ") + op.name);
  unchanged(b, mb, std::string("right operand of ") + op.name);
}
/// In place; the target must be independent of anything else.
void check_in_place(vh::Explorer &E, const DataArray &a0, const DataArray &b, const InOp &op, int how = 0) {
  const DA mb = read_da(b);
  auto a = copy(a0);
  const DA ma = read_da(a);
  auto data = copy(a.data());
  const auto bad_data = raised([&] { op.vv(data, b.data()); });
  auto want = bad_data.empty() ? in_place(ma, mb) : std::nullopt;
  DataArray ret;
  const auto err = raised([&] {
    if (how == 0)
      op.dd(a, b);
    else {
      ret = op.move(std::move(a), b);
    }
  });
  ++E.transitions;
  E.check_lazy(err.empty() == want.has_value(), "raise", [&] { return std::string(op.name) + (want ? " raised " + err : " did not raise") + " for " + str(ma) + " and " + str(mb); });
  if (want) {
    auto &r = how == 0 ? a : ret;
    read_data(data, *want);
    const auto d = diff_result(read_da(r), *want);
    E.check_lazy(d.empty(), "result", [&] { return std::string(op.name) + ": " + d + " for " + str(ma) + " and " + str(mb); });
    poke_masks(r);
  }
  unchanged(b, mb, std::string("right operand of ") + op.name);
}

// --- alphabets -------------------------------------------------------------
struct Opt {
  std::string name;
  std::optional<Coord> c;
};
Arr vec(std::vector<long double> v, Dim d = X, units::Unit u = units::m, DType t = D) {
  Arr a = A(t, u, {d}, {ix(v.size())}, {});
  for (const auto x : v)
    a.v.push_back(Cell(x));
  return a;
}
std::vector<Opt> coords_all() {
  std::vector<Opt> r{{"absent", {}}};
  const auto add = [&](const std::string &n, Arr a) {
    r.push_back({n, Coord{a, true}});
    r.push_back({n + " (unaligned)", Coord{a, false}});
  };
  add("[1 2]", vec({1, 2}));
  add("[1 3]", vec({1, 3}));
  add("[1 nan]", vec({1, NAN_}));
  add("[2 nan]", vec({2, NAN_}));
  add("[1 2]s", vec({1, 2}, X, units::s));
  add("[1 2]f", vec({1, 2}, X, units::m, F));
  add("edges", vec({1, 2, 3}));
  add("edges2", vec({1, 2, 4}));
  add("y", vec({1, 2, 3}, Y));
  add("scalar", A(D, units::m, {}, {}, {Cell(1)}));
  auto var = vec({1, 2});
  var.var = true;
  var.v[0].y = 1;
  var.v[1].y = 2;
  add("variances", var);
  add("xy", iota({X, Y}, {2, 3}, 1, units::m));
  add("yx", iota({Y, X}, {3, 2}, 1, units::m));
  return r;
}
std::vector<Opt> coords_few() {
  std::vector<Opt> r{{"absent", {}}};
  for (const bool al : {true, false})
    for (const long double x : {2., 3.})
      r.push_back({std::string(x == 2 ? "[1 2]" : "[1 3]") + (al ? "" : " (unaligned)"), Coord{vec({1, x}), al}});
  return r;
}
Arr bools(std::vector<Dim> d, std::vector<ix> s, unsigned bits) {
  Arr a = A(B, units::none, d, s, {});
  for (ix i = 0; i < a.volume(); ++i)
    a.v.push_back(Cell((bits >> i) & 1));
  return a;
}
struct MaskOpt {
  std::string name;
  std::optional<Arr> m;
};
std::vector<MaskOpt> masks_all(bool with_y) {
  std::vector<MaskOpt> r{{"absent", {}}, {"[10]", bools({X}, {2}, 1)}, {"[01]", bools({X}, {2}, 2)}, {"[00]", bools({X}, {2}, 0)}, {"0", bools({}, {}, 0)}, {"1", bools({}, {}, 1)}};
  auto dimless = bools({X}, {2}, 1);
  dimless.u = units::one;
  r.push_back({"[10] dimensionless", dimless});
  r.push_back({"int64", vec({1, 0}, X, units::none, L)});
  r.push_back({"edges", bools({X}, {3}, 5)});
  if (with_y) {
    r.push_back({"y", bools({Y}, {3}, 5)});
    r.push_back({"xy", bools({X, Y}, {2, 3}, 18)});
    r.push_back({"yx", bools({Y, X}, {3, 2}, 9)});
  }
  return r;
}
DA base(int dims) {
  DA a;
  a.name = "n" + std::to_string(dims);
  a.data = dims == 0 ? iota({X, Y}, {2, 3}, 1) : dims == 1 ? iota({X}, {2}, 3) : dims == 2 ? iota({Y, X}, {3, 2}, 4) : A(D, units::one, {}, {}, {Cell(7)});
  return a;
}
DA logical_base(int dims) {
  auto a = base(dims);
  a.data.t = B;
  a.data.u = units::none;
  for (auto &c : a.data.v)
    c.x = ix(c.x) % 2;
  return a;
}
bool fits(const DA &o, const Arr &x) {
  int edges = 0;
  for (size_t i = 0; i < x.dims.size(); ++i) {
    const int k = o.data.axis(x.dims[i]);
    if (k >= 0 && o.data.shape[k] == x.shape[i])
      continue;
    if (k < 0 ? x.shape[i] == 2 : x.shape[i] == o.data.shape[k] + 1)
      ++edges;
    else
      return false;
  }
  return edges <= 1;
}
void run_all(vh::Explorer &E, const DA &a, const DA &b, const std::vector<int> &ops, bool in = true) {
  const auto x = make_da(a), y = make_da(b);
  E.nontrivial();
  for (const int o : ops)
    check_binary(E, x, y, bin_ops()[o]);
  if (in) {
    check_in_place(E, x, y, in_ops()[0], 0);
    check_in_place(E, x, y, in_ops()[1], 1);
  }
}
const char *dims_name[] = {"(x,y)", "(x)", "(y,x)", "()"};

// --- datasets --------------------------------------------------------------
struct MDS {
  CoordList coords;
  std::vector<std::pair<std::string, DA>> items; ///< coords of the items are those of the dataset
};
MDS read_ds(const Dataset &d) {
  MDS r;
  for (const auto &[k, c] : d.coords())
    r.coords.push_back({k, {read(c), c.is_aligned()}});
  for (const auto &i : d)
    r.items.push_back({i.name(), read_da(i)});
  return r;
}
std::string diff_ds(const MDS &got, const MDS &want, bool coords = true) {
  DA g, w;
  if (coords) {
    g.coords = got.coords;
    w.coords = want.coords;
  }
  if (const auto d = difference(g, w); !d.empty())
    return d;
  return diff_map("items", got.items, want.items, Cmp{}, [](const DA &x, const DA &y) { return diff_result(x, y); });
}
std::string str(const MDS &d) {
  std::string s;
  for (const auto &[k, i] : d.items)
    s += " item " + k + ": " + ds::str(i);
  if (d.items.empty()) {
    DA x;
    x.coords = d.coords;
    s += " coords" + ds::str(x);
  }
  return s;
}
/// Dataset whose items have the given masks.
Dataset make_ds(const std::vector<std::pair<std::string, int>> &items, const CoordList &coords, long double start) {
  core::Dict<std::string, DataArray> data;
  core::Dict<Dim, Variable> cs;
  for (const auto &[n, mask] : items) {
    DA a;
    a.data = iota({X, Y}, {2, 2}, start);
    start += 10;
    if (mask & 1)
      a.masks.push_back({"m", bools({X}, {2}, 1)});
    if (mask & 2)
      a.masks.push_back({"m", bools({X}, {2}, 2)});
    if (mask & 4)
      a.masks.push_back({"k", bools({Y}, {2}, 2)});
    data.insert_or_assign(n, make_da(a));
  }
  for (const auto &[k, c] : coords) {
    auto v = make_plain(c.a);
    v.set_aligned(c.aligned);
    cs.insert_or_assign(k, v);
  }
  auto r = Dataset(std::move(data), std::move(cs));
  for (const auto &[k, c] : coords)
    r.coords().set_aligned(k, c.aligned);
  return r;
}
Variable op_data(const VV &f, const Variable &a, const Variable &b) { return f(copy(a), copy(b)); }
template <class Get> std::optional<MDS> combine_items(const std::vector<std::string> &names, Get &&get) {
  MDS r;
  bool first = true;
  for (const auto &n : names) {
    auto i = get(n);
    if (!i)
      return {};
    if (first)
      r.coords = i->coords;
    first = false;
    r.items.push_back({n, *i});
  }
  return r;
}
DA with_var(const DA &a) {
  DA r;
  r.coords = a.coords;
  r.masks = a.masks;
  r.attrs = a.attrs;
  return r;
}
void check_sets(vh::Explorer &E, const Dataset &a, const Dataset &b, const DataArray &da, const Variable &v, bool in) {
  const auto ma = read_ds(a), mb = read_ds(b);
  const DA mda = read_da(da);
  const auto expect = [&](const std::string &what, const std::optional<MDS> &want, const auto &f) {
    Dataset got;
    const auto err = raised([&] { got = f(); });
    ++E.transitions;
    const auto where = [&] { return " for" + str(ma) + " and" + str(mb) + " and " + ds::str(mda); };
    E.check_lazy(err.empty() == want.has_value(), "raise", [&] { return what + (want ? " raised " + err : " did not raise") + where(); });
    if (want) {
      const auto d = diff_ds(read_ds(got), *want, !want->items.empty());
      E.check_lazy(d.empty(), "result", [&] { return what + ": " + d + where(); });
      for (auto item : got)
        poke_masks(item);
    }
  };
  const auto same_as_before = [&](const std::string &what) {
    const auto d1 = diff_ds(read_ds(a), ma), d2 = diff_ds(read_ds(b), mb);
    E.check_lazy(d1.empty() && d2.empty(), "operand", [&] { return what + " modified an operand: " + d1 + d2; });
    unchanged(da, mda, "operand of " + what);
  };
  std::vector<std::string> common, all;
  for (const auto &[n, i] : ma.items) {
    all.push_back(n);
    if (get(mb.items, n))
      common.push_back(n);
  }
  for (const auto &op : set_ops()) {
    const std::string n = op.name;
    expect("dataset " + n + " dataset", combine_items(common, [&](const std::string &k) {
             auto r = binary(*get(ma.items, k), *get(mb.items, k));
             if (r)
               read_data(op_data(op.vv, a[k].data(), b[k].data()), *r);
             return r;
           }),
           [&] { return op.ss(a, b); });
    expect("dataset " + n + " data array", combine_items(all, [&](const std::string &k) {
             auto r = binary(*get(ma.items, k), mda);
             if (r)
               read_data(op_data(op.vv, a[k].data(), da.data()), *r);
             return r;
           }),
           [&] { return op.sd_(a, da); });
    expect("data array " + n + " dataset", combine_items(all, [&](const std::string &k) {
             auto r = binary(mda, *get(ma.items, k));
             if (r)
               read_data(op_data(op.vv, da.data(), a[k].data()), *r);
             return r;
           }),
           [&] { return op.ds_(da, a); });
    expect("dataset " + n + " variable", combine_items(all, [&](const std::string &k) {
             std::optional<DA> r = with_var(*get(ma.items, k));
             read_data(op_data(op.vv, a[k].data(), v), *r);
             return r;
           }),
           [&] { return op.sv_(a, v); });
    expect("variable " + n + " dataset", combine_items(all, [&](const std::string &k) {
             std::optional<DA> r = with_var(*get(ma.items, k));
             read_data(op_data(op.vv, v, a[k].data()), *r);
             return r;
           }),
           [&] { return op.vs_(v, a); });
    same_as_before(n);
  }
  if (!in)
    return;
  const auto in_data = [&](const InOp &op, const Variable &x, const Variable &y, DA &out) {
    auto c = copy(x);
    op.vv(c, copy(y));
    read_data(c, out);
  };
  for (const auto &op : in_ops()) {
    const std::string n = op.name;
    // dataset and dataset
    std::optional<MDS> want = ma;
    for (const auto &[k, y] : mb.items)
      if (want) {
        const auto *x = get(ma.items, k);
        const auto r = x ? in_place(*x, y) : std::nullopt;
        if (!r)
          want.reset();
        else
          for (auto &[m, i] : want->items)
            if (m == k) {
              i = *r;
              in_data(op, a[k].data(), b[k].data(), i);
            }
      }
    expect("dataset " + n + " dataset", want, [&] {
      auto c = copy(a);
      op.ss(c, b);
      return c;
    });
    want = ma;
    for (auto &[k, x] : ma.items)
      if (want) {
        const auto r = in_place(x, mda);
        if (!r)
          want.reset();
        else
          for (auto &[m, i] : want->items)
            if (m == k) {
              i = *r;
              in_data(op, a[k].data(), da.data(), i);
            }
      }
    expect("dataset " + n + " data array", want, [&] {
      auto c = copy(a);
      op.sd_(c, da);
      return c;
    });
    want = ma;
    for (auto &[k, i] : want->items)
      in_data(op, a[k].data(), v, i);
    expect("dataset " + n + " variable", want, [&] {
      auto c = copy(a);
      op.sv_(c, v);
      return c;
    });
    // own items and their slices as operands
    for (const auto &[k, x] : ma.items)
      for (int s = 0; s < 3; ++s) {
        const auto sub = [&, key = k](const Dataset &d) { return s == 0 ? d[key] : s == 1 ? DataArray(d[key].slice({X, 1})) : DataArray(d[key].slice({Y, 0})); };
        const auto operand = copy(sub(a));
        const auto mo = read_da(operand);
        want = ma;
        for (const auto &[m, y] : ma.items)
          if (want) {
            const auto r = in_place(y, mo);
            if (!r)
              want.reset();
            else
              for (auto &[q, i] : want->items)
                if (q == m) {
                  i = *r;
                  in_data(op, a[m].data(), operand.data(), i);
                }
          }
        expect("dataset " + n + " own item " + k + (s == 0 ? "" : s == 1 ? " x=1" : " y=0"), want, [&] {
          auto c = copy(a);
          op.sd_(c, sub(c));
          return c;
        });
      }
    same_as_before(n);
  }
}
} // namespace

VH_EXPLORE(M02) {
  const std::vector<int> few{0, 8};
  // one coordinate in all states, as dimension-coordinate and otherwise
  const auto all = coords_all();
  for (const auto key : {X, Dim("lab")})
    for (int ia = 0; ia < 4; ++ia)
      for (int ib = 0; ib < 4; ++ib)
        for (const auto &ca : all) {
          DA a = base(ia);
          if (ca.c && !fits(a, ca.c->a))
            continue;
          if (ca.c)
            a.coords.push_back({key, *ca.c});
          E.run([&] { return "coord " + to_string(key) + ": " + ca.name + " of " + dims_name[ia] + " with all of " + dims_name[ib]; },
                [&] {
                  for (const auto &cb : all) {
                    DA b = base(ib);
                    if (cb.c && !fits(b, cb.c->a))
                      continue;
                    if (cb.c)
                      b.coords.push_back({key, *cb.c});
                    // what does not fit the result is an error not due to the operands
                    DA both = base(0);
                    if (ia == 1 && (ib == 1 || ib == 3))
                      both = base(1);
                    if (ia == 3)
                      both = base(ib);
                    if ((ca.c && !fits(both, ca.c->a)) || (cb.c && !fits(both, cb.c->a)))
                      continue;
                    run_all(E, a, b, few);
                  }
                });
        }
  // several coordinates at once, in two orders
  const auto fewc = coords_few();
  const int n = fewc.size();
  for (int i = 0; i < n * n * n; ++i)
    E.run([&] { return "coords x, lab and z: " + fewc[i % n].name + ", " + fewc[i / n % n].name + ", " + fewc[i / n / n].name + " with all"; },
          [&] {
            const Dim keys[] = {X, Dim("lab"), Z};
            const int ka[] = {i % n, i / n % n, i / n / n};
            for (int j = 0; j < n * n * n; ++j) {
              const int kb[] = {j % n, j / n % n, j / n / n};
              DA a = base(0), b = base(1);
              for (int k = 0; k < 3; ++k) {
                if (fewc[ka[k]].c)
                  a.coords.push_back({keys[k], *fewc[ka[k]].c});
                const int q = 2 - k;
                if (fewc[kb[q]].c)
                  b.coords.push_back({keys[q], *fewc[kb[q]].c});
              }
              run_all(E, a, b, {0});
            }
          });
  // masks
  for (int ia = 0; ia < 4; ++ia)
    for (int ib = 0; ib < 4; ++ib)
      for (const auto &m1 : masks_all(true))
        for (const auto &m2 : masks_all(true)) {
          DA a = base(ia);
          if (m1.m && !fits(a, *m1.m))
            continue;
          if (m2.m && !fits(a, *m2.m))
            continue;
          if (ia > 1 && m2.m && m1.m)
            continue;
          if (m1.m)
            a.masks.push_back({"m", *m1.m});
          if (m2.m)
            a.masks.push_back({"k", *m2.m});
          E.run([&] { return "masks m: " + m1.name + ", k: " + m2.name + " of " + dims_name[ia] + " with all of " + dims_name[ib]; },
                [&] {
                  for (const auto &n1 : masks_all(true))
                    for (const auto &n2 : masks_all(true)) {
                      DA b = base(ib);
                      if ((n1.m && !fits(b, *n1.m)) || (n2.m && !fits(b, *n2.m)))
                        continue;
                      if (n2.m && n1.m && !E.thorough && &m1 != &m2 && m1.m && m2.m && n1.name != "[10]" && n2.name != "[01]")
                        continue;
                      DA both = base(0);
                      if (ia == 1 && (ib == 1 || ib == 3))
                        both = base(1);
                      if (ia == 3)
                        both = base(ib);
                      bool ok = true;
                      for (const auto *m : {&m1, &m2, &n1, &n2})
                        ok &= !m->m || fits(both, *m->m);
                      if (!ok)
                        continue;
                      if (n2.m)
                        b.masks.push_back({"k", *n2.m});
                      if (n1.m)
                        b.masks.push_back({"m", *n1.m});
                      run_all(E, a, b, {0});
                    }
                });
        }
  // masks of slices as targets
  for (const auto &m1 : masks_all(true))
    for (const auto &n1 : masks_all(true))
      for (int s = 0; s < 4; ++s)
        E.run([&] { return "mask " + m1.name + " of slice " + std::to_string(s) + " with " + n1.name; },
              [&] {
                E.nontrivial();
                DA a = base(0);
                if (m1.m)
                  a.masks.push_back({"m", *m1.m});
                auto parent = make_da(a);
                const auto sl = s == 0 ? scipp::Slice{X, 1} : s == 1 ? scipp::Slice{Y, 2} : s == 2 ? scipp::Slice{Y, 0, 3} : scipp::Slice{X, 0, 2};
                auto target = parent.slice(sl);
                const DA mt = read_da(target);
                DA b;
                b.data = mt.data;
                b.name = "b";
                if (n1.m) {
                  if (!fits(b, *n1.m))
                    return;
                  b.masks.push_back({"m", *n1.m});
                }
                const auto y = make_da(b);
                std::vector<std::string> fixed;
                if (m1.m && m1.m->axis(sl.dim()) < 0)
                  fixed.push_back("m");
                auto want = in_place(mt, read_da(y), true, fixed);
                const DA before = read_da(parent);
                auto data = copy(target.data());
                if (want) {
                  data += y.data();
                  read_data(data, *want);
                }
                const auto err = raised([&] { target += y; });
                ++E.transitions;
                E.check(err.empty() == want.has_value(), "raise", want ? "raised " + err : "did not raise");
                if (want) {
                  const auto d = difference(read_da(target), *want);
                  E.check(d.empty(), "result", d);
                  // the slice still shows the parent
                  const auto p = difference(read_da(parent.slice(sl)), *want);
                  E.check(p.empty(), "parent", p);
                } else {
                  const auto d = difference(read_da(parent), before);
                  E.check(d.empty(), "parent", d);
                }
              });
  // attributes
  for (const auto &ca : all)
    for (const auto &cb : all)
      E.run([&] { return "attrs " + ca.name + " and " + cb.name; },
            [&] {
              if ((ca.c && !ca.c->aligned) || (cb.c && !cb.c->aligned))
                return;
              for (const auto &second : {false, true}) {
                DA a = base(0), b = base(2);
                if (ca.c)
                  a.attrs.push_back({Dim("att"), ca.c->a});
                if (second) {
                  a.attrs.push_back({Dim("att2"), vec({5, 6})});
                  b.attrs.push_back({Dim("att2"), vec({5, 6})});
                }
                if (cb.c)
                  b.attrs.push_back({Dim("att"), cb.c->a});
                run_all(E, a, b, few);
              }
            });
  // every operation
  for (int o = 0; o < int(bin_ops().size()); ++o)
    for (int ia = 0; ia < 4; ++ia)
      for (int ib = 0; ib < 4; ++ib)
        E.run([&] { return std::string("operation ") + bin_ops()[o].name + " of " + dims_name[ia] + " and " + dims_name[ib]; },
              [&] {
                const auto &op = bin_ops()[o];
                const auto fill = [&](int i, bool second, int variant) {
                  DA a = op.logical ? logical_base(i) : base(i);
                  const auto add = [&](Dim k, const Arr &c, bool al) {
                    if (fits(a, c))
                      a.coords.push_back({k, {c, al}});
                  };
                  if (i != 3) {
                    add(X, vec({1, variant == 1 && second ? 3.L : 2.L}), true);
                    add(Dim("lab"), vec({4, second ? 5.L : 6.L}), false);
                    add(Dim("e"), vec({4, 5, 6}), variant != 2 || second);
                    a.masks.push_back({"m", bools({X}, {2}, second ? 1 : 2)});
                  }
                  add(Dim("s"), iota({}, {}, 1, units::none, S), true);
                  if (second)
                    a.masks.push_back({"k", bools({}, {}, 1)});
                  a.attrs.push_back({Dim("att"), A(D, units::one, {}, {}, {Cell(1)})});
                  a.attrs.push_back({Dim("att2"), A(D, units::one, {}, {}, {Cell(second ? 1 : 2)})});
                  return a;
                };
                for (int variant = 0; variant < 3; ++variant)
                  for (const int layout : {0, 1, 2, 3}) {
                    const DA a = fill(ia, false, variant), b = fill(ib, true, variant);
                    const auto x = make_da(a, 0, layout), y = make_da(b, 0, layout);
                    E.nontrivial();
                    check_binary(E, x, y, op);
                    check_binary(E, x, x, op);
                    // with variables
                    const auto with = [&](const char *what, const DataArray &d, const auto &f, const auto &g) {
                      DA want = with_var(read_da(d));
                      const auto before = read_da(d);
                      Variable data;
                      const auto bad = raised([&] { data = g(); });
                      DataArray got;
                      const auto err = raised([&] { got = f(); });
                      ++E.transitions;
                      E.check(err.empty() == bad.empty(), "raise", std::string(what) + ": " + err + " and " + bad);
                      if (!err.empty())
                        return;
                      read_data(data, want);
                      const auto diff = difference(read_da(got), want);
                      E.check(diff.empty(), "result", std::string(what) + ": " + diff);
                      poke_masks(got);
                      unchanged(d, before, "operand");
                    };
                    with("data array, variable", x, [&] { return op.dv(x, y.data()); }, [&] { return op.vv(x.data(), y.data()); });
                    with("variable, data array", y, [&] { return op.vd(x.data(), y); }, [&] { return op.vv(x.data(), y.data()); });
                    // points of the same array
                    if (ia != 3) {
                      for (int p = 0; p < 2; ++p) {
                        check_binary(E, x, x.slice({X, p}), op);
                        check_binary(E, x.slice({X, p}), x, op);
                        check_binary(E, x.slice({X, p}), x.slice({X, 1 - p}), op);
                        check_binary(E, x.slice({X, p, p + 1}), x.slice({X, 0, 1}), op);
                      }
                    }
                    if (!op.logical)
                      for (const auto &in : in_ops()) {
                        check_in_place(E, x, y, in, 0);
                        check_in_place(E, x, y, in, 1);
                        for (const bool move : {false, true}) {
                          auto t = copy(x);
                          DA want = read_da(t);
                          auto data = copy(t.data());
                          const auto bad = raised([&] { in.vv(data, y.data()); });
                          DataArray ret;
                          const auto err = raised([&] {
                            if (move)
                              ret = in.move_dv(std::move(t), y.data());
                            else
                              in.dv(t, y.data());
                          });
                          E.check(err.empty() == bad.empty(), "raise", std::string(in.name) + " variable: " + err + " and " + bad);
                          if (err.empty()) {
                            read_data(data, want);
                            const auto d = difference(read_da(move ? ret : t), want);
                            E.check(d.empty(), "result", std::string(in.name) + " variable: " + d);
                          }
                        }
                      }
                  }
              });
  // operations with one operand keep everything
  for (int layout = 0; layout < 4; ++layout)
    E.run([&] { return "one operand, layout " + std::to_string(layout); },
          [&] {
            E.nontrivial();
            DA a = base(0);
            a.coords.push_back({X, {vec({1, 2, 3}), true}});
            a.coords.push_back({Dim("lab"), {vec({1, 2}), false}});
            a.coords.push_back({Z, {iota({Y, X}, {3, 2}, 1), true}});
            a.masks.push_back({"m", bools({X}, {2}, 1)});
            a.masks.push_back({"k", bools({}, {}, 1)});
            a.attrs.push_back({Dim("att"), vec({1, 2}, X)});
            const auto x = make_da(a, 0, layout);
            const auto set = Dataset(core::Dict<std::string, DataArray>({{"p", x}, {"q", copy(x)}}));
            struct U {
              const char *n;
              std::function<DataArray(const DataArray &)> f;
              std::function<Dataset(const Dataset &)> s;
              std::function<Variable(const Variable &)> v;
            };
#define UN(N) \
  U { #N, [](const DataArray &q) { return N(q); }, [](const Dataset &q) { return N(q); }, [](const Variable &q) { return N(q); } }
            for (const auto &u : {UN(abs), UN(sqrt), UN(exp), UN(log), UN(log10), UN(reciprocal), UN(floor), UN(ceil), UN(rint), UN(erf), UN(erfc), UN(isnan), UN(isinf),
                                  UN(isfinite), UN(isposinf), UN(isneginf), UN(operator-)}) {
              DA want = a;
              read_data(u.v(x.data()), want);
              auto got = u.f(x);
              ++E.transitions;
              Cmp c;
              c.name = true;
              const auto d = difference(read_da(got), want, c);
              E.check(d.empty(), "result", std::string(u.n) + ": " + d);
              poke_masks(got);
              unchanged(x, a, u.n);
              const auto gs = u.s(set);
              const auto before = read_ds(set);
              const auto ms = read_ds(gs);
              MDS ws;
              ws.coords = before.coords;
              for (const auto &[k, i] : before.items) {
                auto w = i;
                read_data(u.v(set[k].data()), w);
                ws.items.push_back({k, w});
              }
              const auto e = diff_ds(ms, ws);
              E.check(e.empty(), "result", std::string(u.n) + " of a dataset: " + e);
              for (auto i : gs)
                poke_masks(i);
              const auto f = diff_ds(read_ds(set), before);
              E.check(f.empty(), "operand", std::string(u.n) + " of a dataset: " + f);
            }
          });
  // datasets
  const std::vector<std::vector<std::pair<std::string, int>>> contents{
      {{"p", 0}}, {{"p", 1}, {"q", 0}}, {{"q", 2}, {"p", 4}}, {{"q", 5}}, {{"r", 1}, {"p", 6}, {"q", 2}}};
  const auto coord_list = [&](int k, int l) {
    CoordList c;
    if (fewc[k].c)
      c.push_back({X, *fewc[k].c});
    if (fewc[l].c)
      c.push_back({Dim("lab"), *fewc[l].c});
    return c;
  };
  for (const auto &ia : contents)
    for (const auto &ib : contents)
      for (int k = 0; k < n; ++k)
        for (int l = 0; l < n; ++l)
          E.run([&] {
            std::string s = "datasets";
            for (const auto &[m, b] : ia)
              s += " " + m + std::to_string(b);
            s += " and";
            for (const auto &[m, b] : ib)
              s += " " + m + std::to_string(b);
            return s + " with x " + fewc[k].name + " and " + fewc[l].name;
          },
                [&] {
                  E.nontrivial();
                  for (int other = 0; other < (E.thorough ? n : 3); ++other) {
                    const int o2 = E.thorough ? other : other * 2;
                    const auto a = make_ds(ia, coord_list(k, o2), 1);
                    const auto b = make_ds(ib, coord_list(l, (o2 + 1) % n), 50);
                    const auto da = copy(make_ds({{"p", ib[0].second}}, coord_list(l, 0), 70)["p"]);
                    check_sets(E, a, b, da, make_plain(iota({X}, {2}, 4)), true);
                  }
                });
  // merging
  for (const auto &ia : contents)
    for (const auto &ib : contents)
      for (int k = 0; k < n; ++k)
        for (int l = 0; l < n; ++l)
          for (const bool equal : {true, false})
            E.run([&] {
              std::string s = "merge";
              for (const auto &[m, b] : ia)
                s += " " + m + std::to_string(b);
              s += " and";
              for (const auto &[m, b] : ib)
                s += " " + m + std::to_string(b);
              return s + " with x " + fewc[k].name + " and " + fewc[l].name + (equal ? ", same data" : "");
            },
                  [&] {
                    const auto sets = [&](const std::vector<std::pair<std::string, int>> &items, int c, long double start) {
                      core::Dict<std::string, DataArray> data;
                      core::Dict<Dim, Variable> cs;
                      for (const auto &[m, mask] : items) {
                        DA a;
                        a.data = iota({X, Y}, {2, 2}, start + m[0]);
                        a.masks.push_back({"m", bools({X}, {2}, m[0] % 3)});
                        data.insert_or_assign(m, make_da(a));
                      }
                      for (const auto &[key, x] : coord_list(c, 0)) {
                        auto v = make_plain(x.a);
                        v.set_aligned(x.aligned);
                        cs.insert_or_assign(key, v);
                      }
                      return Dataset(std::move(data), std::move(cs));
                    };
                    const auto a = sets(ia, k, 0), b = sets(ib, l, equal ? 0 : 1);
                    const auto ma = read_ds(a), mb = read_ds(b);
                    bool common = false;
                    for (const auto &[m, x] : ma.items)
                      common |= get(mb.items, m) != nullptr;
                    const auto coords = combine(ma.coords, mb.coords);
                    const bool same_coords = k == l;
                    std::optional<bool> ok;
                    if (common && (!equal || !same_coords))
                      ok = false;
                    else if (!coords)
                      ok = false;
                    else if ((!fewc[k].c || fewc[k].c->aligned) && (!fewc[l].c || fewc[l].c->aligned))
                      ok = true;
                    else if (same_coords)
                      ok = true;
                    E.nontrivial();
                    Dataset got;
                    const auto err = raised([&] { got = merge(a, b); });
                    ++E.transitions;
                    if (ok)
                      E.check(err.empty() == *ok, "raise", "merge " + (err.empty() ? std::string("did not raise") : "raised " + err));
                    if (err.empty()) {
                      MDS want = ma;
                      want.coords = *coords;
                      for (const auto &[m, x] : mb.items)
                        if (!get(ma.items, m))
                          want.items.push_back({m, x});
                      auto r = read_ds(got);
                      if (!ok) // unaligned ones may stay or not
                        for (auto *d : {&r, &want}) {
                          CoordList keep;
                          for (const auto &[key, c] : d->coords)
                            if (c.aligned)
                              keep.push_back({key, c});
                          d->coords = keep;
                        }
                      for (auto *d : {&r, &want})
                        for (auto &[m, x] : d->items)
                          x.coords.clear();
                      const auto d = diff_ds(r, want);
                      E.check(d.empty(), "result", "merge: " + d);
                    }
                    const auto d = diff_ds(read_ds(a), ma) + diff_ds(read_ds(b), mb);
                    E.check(d.empty(), "operand", "merge modified an operand: " + d);
                  });
}
VH_MAIN
