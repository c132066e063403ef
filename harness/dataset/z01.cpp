// Z01: objects created from a description or from a prototype are as
// requested, do not share memory with it, and reported sizes add up. All
// element types, shapes, memory layouts, fill values and bin sizes within
// small bounds, against plain arrays.
#include "../common/ds.h"
#include "scipp/core/flags.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/util.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/shape.h"

using namespace ds;
using scipp::FillValue;
using scipp::units::Unit;
namespace {
using scipp::variable::empty, scipp::variable::ones, scipp::variable::special_like, scipp::variable::empty_like, scipp::variable::dense_special_like, scipp::variable::zero_like, scipp::variable::resize;

bool thorough() { return vh::E->thorough; }

const std::vector<FillValue> fills{FillValue::Default, FillValue::ZeroNotBool, FillValue::True, FillValue::False, FillValue::Max, FillValue::Lowest};
const char *fill_name(FillValue f) {
  switch (f) {
  case FillValue::Default: return "default";
  case FillValue::ZeroNotBool: return "zero-not-bool";
  case FillValue::True: return "true";
  case FillValue::False: return "false";
  case FillValue::Max: return "max";
  default: return "lowest";
  }
}
struct Shape_ {
  std::vector<Dim> dims;
  std::vector<ix> shape;
};
std::vector<Shape_> shapes() {
  std::vector<Shape_> r{{{}, {}}};
  for (ix n : {0, 1, 2, 3})
    r.push_back({{X}, {n}});
  for (ix n : {0, 1, 2, 3})
    for (ix m : {0, 1, 2}) {
      r.push_back({{X, Y}, {n, m}});
      if (m == 2)
        r.push_back({{Y, X}, {n, m}});
    }
  r.push_back({{Z, Y, X}, {2, 3, 2}});
  if (thorough()) {
    r.push_back({{X, Y, Z}, {1, 3, 2}});
    r.push_back({{X, Y, Z}, {2, 0, 2}});
    r.push_back({{Z, X, Y}, {3, 2, 2}});
    r.push_back({{X}, {17}});
    r.push_back({{X, Y}, {7, 5}});
  }
  return r;
}
Arr content(DType t, Unit u, const Shape_ &s, bool var) {
  Arr a;
  a.t = t;
  a.u = u;
  a.dims = s.dims;
  a.shape = s.shape;
  a.var = var;
  for (ix i = 0; i < a.volume(); ++i) {
    Cell c(t == B ? (i % 2) : 3 + i, var ? 0.5L + i : 0);
    c.y = 4 + i;
    c.z = -i;
    c.s = (i % 3 == 1 ? "a long string, not stored inside of the object " : "s") + std::to_string(i);
    a.v.push_back(c);
  }
  return a;
}
Arr filled(Arr a, DType t, const Cell &c) {
  a.t = t;
  a.v.assign(a.volume(), c);
  return a;
}
std::string describe(const Arr &a, int layout) { return str(a) + " " + layout_name(layout); }

void expect_array(const char *sig, const std::string &what, const Variable &got, const Arr &want) {
  const auto d = difference(read(got), want);
  if (!d.empty())
    throw vh::Fail{sig, what + ": " + d};
}
/// All but the elements, which may be uninitialized.
Arr kind_of(const Variable &v) {
  Arr a;
  a.t = v.dtype();
  a.u = v.unit();
  a.var = v.has_variances();
  for (const auto &d : v.dims().labels())
    a.dims.push_back(d);
  for (const auto &n : v.dims().shape())
    a.shape.push_back(n);
  return a;
}
/// Every element of a created variable can be set on its own.
void expect_own_memory(const std::string &what, Variable out, const Variable &prototype, const Arr &content_of_prototype) {
  if (out.is_readonly())
    throw vh::Fail{"readonly", what + ": read-only"};
  Arr before;
  before.t = out.dtype();
  before.shape = {out.dims().volume()};
  before.var = out.has_variances();
  with_type(before.t, [&](auto x) {
    using T_ = decltype(x);
    // may be uninitialized
    for (auto &y : out.template values<T_>())
      y = from_cell<T_>(Cell());
    if constexpr (scipp::core::canHaveVariances<T_>())
      if (before.var)
        for (auto &y : out.template variances<T_>())
          y = 0;
    for (ix i = 0; i < before.volume(); ++i) {
      Arr want = read(out);
      Cell c(before.t == B ? 1 - want.v[i].x : 41 + i, before.var ? 42 + i : 0);
      c.y = 43;
      c.z = 44;
      c.s = "new";
      auto vals = out.template values<T_>();
      *(vals.begin() + i) = from_cell<T_>(c);
      if (before.var)
        if constexpr (scipp::core::canHaveVariances<T_>())
          *(out.template variances<T_>().begin() + i) = static_cast<T_>(c.var);
      want.v[i] = c;
      if constexpr (!std::is_same_v<T_, scipp::index_pair>)
        if (const auto d = difference(read(out), want); !d.empty())
          throw vh::Fail{"shared-elements", what + ": setting element " + std::to_string(i) + ": " + d};
    }
    return 0;
  });
  expect_array("shared-with-prototype", what + ": the prototype after setting all elements", prototype, content_of_prototype);
}

// --- dense -------------------------------------------------------------------
struct Type {
  DType t;
  bool var;
};
std::vector<Type> types() { return {{D, false}, {D, true}, {F, false}, {F, true}, {L, false}, {I, false}, {B, false}, {S, false}, {T, false}, {V, false}}; }
std::vector<Unit> units_() { return {units::m, units::one, units::none}; }

Cell zero_cell(bool) { return Cell(); }

struct Want {
  bool raises = false;
  DType t;
  Cell c;
};
Want want_fill(DType t, FillValue f) {
  if (f == FillValue::Default)
    return {false, t, Cell()};
  if (t == S)
    return {true, t, Cell()};
  if (f == FillValue::ZeroNotBool)
    return {false, t == B ? L : t, Cell()};
  if (f == FillValue::True)
    return {false, B, Cell(1)};
  if (f == FillValue::False)
    return {false, B, Cell(0)};
  const bool max = f == FillValue::Max;
  const auto lim = [&](auto x) {
    using L_ = std::numeric_limits<decltype(x)>;
    return Cell(static_cast<long double>(max ? L_::max() : L_::lowest()));
  };
  if (t == D)
    return {false, t, lim(double{})};
  if (t == F)
    return {false, t, lim(float{})};
  if (t == I)
    return {false, t, lim(int32_t{})};
  if (t == B)
    return {false, t, Cell(max ? 1 : 0)};
  return {false, t, lim(int64_t{})};
}
void check_fill(const std::string &what, const Variable &got, const Arr &proto, const Shape_ &s, FillValue f) {
  const auto w = want_fill(proto.t, f);
  Arr want = proto;
  want.dims = s.dims;
  want.shape = s.shape;
  if (w.t != proto.t && w.t == B)
    want.var = false;
  expect_array(fill_name(f), what, got, filled(want, w.t, w.c));
}

void dense_prototype(const Type &ty, Unit u, const Shape_ &s, int layout) {
  const Arr a = content(ty.t, u, s, ty.var);
  const auto made = make(a, layout);
  const auto &v = made.view;
  const auto what = [&](const std::string &op) { return op + " of " + describe(a, layout); };
  for (const auto f : fills) {
    if (ty.t == V && f != FillValue::Default && f != FillValue::ZeroNotBool)
      continue; // no limits of vectors
    const auto w = want_fill(ty.t, f);
    if (w.raises) {
      if (a.volume() > 0 && raised([&] { (void)special_like(v, f); }).empty())
        throw vh::Fail{"special_like-accepts", what(std::string("special_like(") + fill_name(f) + ")")};
      continue;
    }
    const auto name = what(std::string("special_like(") + fill_name(f) + ")");
    const auto out = special_like(v, f);
    check_fill(name, out, a, s, f);
    expect_own_memory(name, out, v, a);
    ++vh::E->transitions;
    vh::E->nontrivial();
    // any target shape
    for (const auto &target : std::vector<Shape_>{{{}, {}}, {{X}, {2}}, {{Z}, {3}}, {{Z, Y}, {2, 1}}, {{Y}, {0}}}) {
      const auto name2 = what(std::string("dense_special_like(") + fill_name(f) + ") with " + std::to_string(target.dims.size()) + " dimensions");
      Dimensions td;
      for (size_t i = 0; i < target.dims.size(); ++i)
        td.addInner(target.dims[i], target.shape[i]);
      const auto o = dense_special_like(v, td, f);
      Arr p = a;
      if (ty.t == S || f == FillValue::Default) {
        // the content is unspecified
        const auto got = kind_of(o);
        if (got.t != a.t || got.u != a.u || got.var != a.var || got.dims != target.dims || got.shape != target.shape)
          throw vh::Fail{"dense_special_like", name2 + ": " + to_string(o.dtype()) + " " + to_string(o.dims())};
      } else
        check_fill(name2, o, p, target, f);
      expect_own_memory(name2, o, v, a);
      ++vh::E->transitions;
    }
    for (size_t d = 0; d < s.dims.size(); ++d)
      for (ix n : {0, 1, 2, 5}) {
        auto target = s;
        target.shape[d] = n;
        const auto name2 = what("resize(" + s.dims[d].name() + ", " + std::to_string(n) + ", " + fill_name(f) + ")");
        const auto o = resize(v, s.dims[d], n, f);
        check_fill(name2, o, a, target, f);
        expect_own_memory(name2, o, v, a);
        ++vh::E->transitions;
      }
  }
  if (!std::count(s.dims.begin(), s.dims.end(), X))
    if (raised([&] { (void)resize(v, X, 2); }).empty())
      throw vh::Fail{"resize-accepts", what("resize along a dimension it does not have")};
  // default values
  check_fill(what("zero_like"), zero_like(v), a, {{}, {}}, FillValue::Default);
  expect_own_memory(what("zero_like"), zero_like(v), v, a);
  const auto same_kind = [&](const std::string &name, const Variable &o, const Shape_ &t) {
    const auto got = kind_of(o);
    if (got.t != a.t || got.u != a.u || got.var != a.var || got.dims != t.dims || got.shape != t.shape)
      throw vh::Fail{"empty_like", name + ": " + to_string(o.dtype()) + " " + to_string(o.dims())};
    expect_own_memory(name, o, v, a);
    ++vh::E->transitions;
  };
  same_kind(what("empty_like"), empty_like(v), s);
  for (const auto &target : std::vector<Shape_>{{{}, {}}, {{X}, {2}}, {{Z, Y}, {2, 1}}, {{Y}, {0}}}) {
    Arr sh;
    sh.t = L;
    sh.u = units::none;
    sh.dims = target.dims;
    sh.shape = target.shape;
    for (ix i = 0; i < sh.volume(); ++i)
      sh.v.push_back(Cell(5 + i));
    same_kind(what("empty_like with shape"), empty_like(v, sh.dimensions()), target);
    same_kind(what("resize to shape"), resize(v, make_plain(sh)), target);
    if (raised([&] { (void)empty_like(v, {}, make_plain(sh)); }).empty())
      throw vh::Fail{"empty_like-accepts", what("empty_like with bin sizes")};
  }
}

void described(const Type &ty, Unit u, const Shape_ &s) {
  Arr a;
  a.t = ty.t;
  a.u = u;
  a.var = ty.var;
  a.dims = s.dims;
  a.shape = s.shape;
  const auto what = str(a);
  for (bool aligned : {true, false}) {
    const auto v = empty(a.dimensions(), u, ty.t, ty.var, aligned);
    const auto got = kind_of(v);
    if (got.t != a.t || got.u != a.u || got.var != a.var || got.dims != a.dims || got.shape != a.shape || v.is_aligned() != aligned)
      throw vh::Fail{"empty", "empty " + what + ": " + to_string(v.dtype()) + " " + to_string(v.dims())};
    expect_own_memory("empty " + what, v, make_plain(filled(a, ty.t, Cell(1))), filled(a, ty.t, Cell(1)));
  }
  if (!floating(ty.t) && raised([&] { (void)empty(a.dimensions(), u, ty.t, true); }).empty())
    throw vh::Fail{"empty-accepts", "empty " + what + " with variances"};
  if (ty.t == S) {
    if (raised([&] { (void)ones(a.dimensions(), u, ty.t, ty.var); }).empty())
      throw vh::Fail{"ones-accepts", "ones of strings"};
  } else if (ty.t != V) {
    const auto v = ones(a.dimensions(), u, ty.t, ty.var);
    expect_array("ones", "ones " + what, v, filled(a, ty.t, Cell(1, ty.var ? 1 : 0)));
    expect_own_memory("ones " + what, v, make_plain(filled(a, ty.t, Cell(1))), filled(a, ty.t, Cell(1)));
    if (!floating(ty.t) && raised([&] { (void)ones(a.dimensions(), u, ty.t, true); }).empty())
      throw vh::Fail{"ones-accepts", "ones " + what + " with variances"};
  }
  ++vh::E->transitions;
}

// --- binned ------------------------------------------------------------------
struct BinsOf {
  std::string name;
  bool plain; ///< a variable as buffer
  DType t;
  bool var;
  std::vector<std::pair<Dim, DType>> coords;
  int masks;
};
std::vector<BinsOf> bins_of() {
  return {{"variable", true, D, true, {}, 0}, {"int-variable", true, I, false, {}, 0}, {"table", false, F, true, {{X, D}}, 0}, {"table-masks", false, D, false, {{X, D}, {Y, I}}, 1}};
}
DA binned(const BinsOf &k, const Shape_ &s, const std::vector<ix> &sizes) {
  DA d;
  d.binned = true;
  d.plain_bins = k.plain;
  d.data.dims = s.dims;
  d.data.shape = s.shape;
  d.data.v.assign(d.data.volume(), Cell());
  ix next = 0;
  for (const auto n : sizes) {
    DA b;
    b.data = A(k.t, units::counts, {EV}, {n}, {}, k.var);
    for (ix i = 0; i < n; ++i)
      b.data.v.push_back(Cell(next + i, k.var ? 1 + i : 0));
    for (const auto &[c, t] : k.coords) {
      Arr a = A(t, units::m, {EV}, {n}, {});
      for (ix i = 0; i < n; ++i)
        a.v.push_back(Cell(100 + next + i));
      b.coords.push_back({c, {a, true}});
    }
    for (int m = 0; m < k.masks; ++m) {
      Arr a = A(B, units::none, {EV}, {n}, {});
      for (ix i = 0; i < n; ++i)
        a.v.push_back(Cell(i % 2));
      b.masks.push_back({"m" + std::to_string(m), a});
    }
    next += n;
    d.bins.push_back(b);
  }
  return d;
}
/// Whether the buffer of `got` is as that of `want`, with another number of
/// events.
void expect_same_kind(const std::string &what, const Arr &got, const Arr &want) {
  if (got.t != want.t || got.u != want.u || got.var != want.var || got.dims != want.dims)
    throw vh::Fail{"bins-kind", what + ": " + to_string(got.t) + " " + to_string(got.u)};
}
struct Parts {
  std::vector<std::pair<ix, ix>> idx;
  Dim dim;
  ix length;
};
Parts parts(const std::string &what, const Variable &v, const BinsOf &k, const DA &proto) {
  Parts r;
  const auto read_indices = [&](const Variable &i) {
    for (const auto &[b, e] : i.values<scipp::index_pair>())
      r.idx.push_back({b, e});
  };
  if (k.plain) {
    const auto [i, d, b] = v.constituents<Variable>();
    read_indices(i);
    r.dim = d;
    r.length = b.dims()[d];
    expect_same_kind(what, kind_of(b), proto.bins[0].data);
  } else {
    const auto [i, d, b] = v.constituents<DataArray>();
    read_indices(i);
    r.dim = d;
    r.length = b.dims()[d];
    const auto got = read_da(b);
    const auto &want = proto.bins[0];
    expect_same_kind(what, got.data, want.data);
    if (got.coords.size() != want.coords.size() || got.masks.size() != want.masks.size() || got.attrs.size() != want.attrs.size())
      throw vh::Fail{"bins-kind", what + ": other coords or masks"};
    for (const auto &[c, x] : want.coords) {
      if (!got.coord(c))
        throw vh::Fail{"bins-kind", what + ": lost a coord"};
      expect_same_kind(what, got.coord(c)->a, x.a);
      if (got.coord(c)->a.shape != got.data.shape)
        throw vh::Fail{"bins-kind", what + ": length of a coord"};
    }
    for (const auto &[c, x] : want.masks) {
      if (!got.mask(c))
        throw vh::Fail{"bins-kind", what + ": lost a mask"};
      expect_same_kind(what, *got.mask(c), x);
      if (got.mask(c)->shape != got.data.shape)
        throw vh::Fail{"bins-kind", what + ": length of a mask"};
    }
  }
  return r;
}
void expect_bins(const std::string &what, const Variable &out, const BinsOf &k, const DA &proto, const Shape_ &s, const std::vector<ix> &sizes, bool reserve) {
  Arr dims;
  dims.dims = s.dims;
  dims.shape = s.shape;
  if (out.dims() != dims.dimensions())
    throw vh::Fail{"bins-dims", what};
  if (out.is_readonly())
    throw vh::Fail{"readonly", what};
  const auto p = parts(what, out, k, proto);
  ix at = 0;
  if (p.idx.size() != sizes.size())
    throw vh::Fail{"bins-number", what};
  for (size_t i = 0; i < sizes.size(); ++i) {
    if (p.idx[i] != std::pair<ix, ix>(at, at + (reserve ? 0 : sizes[i])))
      throw vh::Fail{"bins-ranges", what + ": bin " + std::to_string(i) + " is " + std::to_string(p.idx[i].first) + ":" + std::to_string(p.idx[i].second) + ", expected to begin at " + std::to_string(at)};
    at += sizes[i];
  }
  if (p.length != at)
    throw vh::Fail{"bins-length", what + ": " + std::to_string(p.length) + " events for " + std::to_string(at)};
  if (p.dim != EV)
    throw vh::Fail{"bins-dim", what};
}
std::string list(const std::vector<ix> &s) {
  std::string r;
  for (const auto x : s)
    r += (r.empty() ? "" : ",") + std::to_string(x);
  return "[" + r + "]";
}
void all_sizes(ix n, ix max, const std::function<void(const std::vector<ix> &)> &f) {
  std::vector<ix> s(n, 0);
  while (true) {
    f(s);
    ix i = 0;
    while (i < n && s[i] == max)
      s[i++] = 0;
    if (i == n)
      break;
    ++s[i];
  }
}
void binned_prototype(const BinsOf &k, const Shape_ &s, int bin_layout, const std::vector<ix> &sizes, bool slice) {
  DA d = binned(k, s, sizes);
  Variable v = make_da(d, bin_layout).data();
  Shape_ ps = s;
  std::vector<ix> psizes = sizes;
  if (slice) { // a part of the bins
    v = v.slice({s.dims[0], 1, s.shape[0]});
    d = take(d, s.dims[0], range(1, s.shape[0]));
    ps.shape[0] -= 1;
    psizes.erase(psizes.begin(), psizes.begin() + ix(sizes.size()) / s.shape[0]);
  }
  DA kind = binned(k, {{X}, {1}}, {1});
  const auto what = k.name + " bins of " + list(psizes) + " bin layout " + std::to_string(bin_layout);
  const auto unchanged = [&](const std::string &op) {
    if (const auto x = difference(read_var(v), d); !x.empty())
      throw vh::Fail{"prototype-changed", op + " of " + what + ": " + x};
  };
  expect_bins("empty_like of " + what, empty_like(v), k, kind, ps, psizes, false);
  {
    auto o = empty_like(v);
    // does not share events
    copy(v, o);
    if (const auto x = difference(read_var(o), d); !x.empty())
      throw vh::Fail{"bins-copy", what + ": " + x};
    if (k.plain)
      o.bin_buffer<Variable>() *= makeVariable<int32_t>(Values{2});
    else {
      auto buf = o.bin_buffer<DataArray>();
      buf.data() *= makeVariable<int32_t>(Values{2});
      for (auto &&[n_, c] : buf.coords()) {
        auto c_ = c;
        c_ *= makeVariable<int32_t>(Values{2});
      }
    }
    unchanged("setting events of empty_like");
  }
  ++vh::E->transitions;
  vh::E->nontrivial();
  for (const auto &[t, new_sizes] : std::vector<std::pair<Shape_, std::vector<ix>>>{{{{}, {}}, {2}}, {{{Z}, {3}}, {1, 0, 2}}, {{{Y, X}, {2, 2}}, {0, 3, 1, 1}}, {{{X}, {0}}, {}}}) {
    Arr a;
    a.t = L;
    a.u = units::none;
    a.dims = t.dims;
    a.shape = t.shape;
    for (const auto n : new_sizes)
      a.v.push_back(Cell(n));
    for (int layout : {0, 1, 2, 4}) {
      const auto sv_ = make(a, layout).view;
      const auto name = " of " + what + " with sizes " + list(new_sizes) + " " + layout_name(layout);
      expect_bins("empty_like" + name, empty_like(v, {}, sv_), k, kind, t, new_sizes, false);
      expect_bins("resize" + name, resize(v, sv_), k, kind, t, new_sizes, true);
      ++vh::E->transitions;
    }
    if (raised([&] { (void)empty_like(v, a.dimensions()); }).empty())
      throw vh::Fail{"empty_like-accepts", "empty_like of bins with a shape"};
  }
  for (size_t i = 0; i < ps.dims.size(); ++i)
    for (ix n : {0, 1, 3}) {
      auto t = ps;
      t.shape[i] = n;
      ix vol = 1;
      for (const auto x : t.shape)
        vol *= x;
      const auto o = resize(v, ps.dims[i], n);
      expect_bins("resize(" + ps.dims[i].name() + ", " + std::to_string(n) + ") of " + what, o, k, kind, t, std::vector<ix>(vol, 0), false);
    }
  // dense output with elements as those of the bins
  for (const auto f : fills) {
    const auto w = want_fill(k.t, f);
    const auto o = dense_special_like(v, v.dims(), f);
    Arr want = A(w.t, units::counts, ps.dims, ps.shape, {}, k.var && w.t != B);
    const auto name = std::string("dense_special_like(") + fill_name(f) + ") of " + what;
    if (f == FillValue::Default) {
      const auto got = kind_of(o);
      expect_same_kind(name, got, want);
    } else
      expect_array("dense_special_like-bins", name, o, filled(want, w.t, w.c));
    ++vh::E->transitions;
  }
  unchanged("creation from prototype");
}

// --- sizes -------------------------------------------------------------------
ix element_size(DType t) {
  if (t == S)
    return sizeof(std::string);
  return with_type(t, [](auto x) { return ix(sizeof(x)); });
}
ix payload(const Arr &a) {
  ix r = a.volume() * element_size(a.t) * (a.var ? 2 : 1);
  if (a.t == S)
    for (const auto &c : a.v)
      if (c.s.size() > 15)
        r += c.s.size();
  return r;
}
/// What does not depend on the number of elements.
std::map<std::string, ix> &overheads() {
  static std::map<std::string, ix> m;
  return m;
}
void expect_size(const std::string &kind, const std::string &what, ix got, ix want, ix slack = 0) {
  const ix over = got - want;
  if (over < 0 || over > 20000)
    throw vh::Fail{"size", what + ": " + std::to_string(got) + " for elements of " + std::to_string(want)};
  auto [it, first] = overheads().emplace(kind, over);
  if (!first && std::abs(it->second - over) > slack)
    throw vh::Fail{"size", what + ": " + std::to_string(got) + " for elements of " + std::to_string(want) + ", but an overhead of " + std::to_string(it->second) + " elsewhere"};
}
void size_of_dense(const Type &ty, const Shape_ &s, int layout) {
  const Arr a = content(ty.t, units::one, s, ty.var);
  const auto made = make(a, layout);
  const auto what = describe(a, layout);
  const auto kind = "variable" + to_string(ty.t);
  expect_size(kind, "size_of " + what, size_of(made.view, SizeofTag::ViewOnly), payload(a));
  expect_size(kind, "underlying size_of " + what, size_of(made.view, SizeofTag::Underlying), payload(read(made.base)));
  ++vh::E->transitions;
  vh::E->nontrivial();
}
void size_of_binned(const BinsOf &k, const Shape_ &s, int bin_layout, const std::vector<ix> &sizes) {
  const DA d = binned(k, s, sizes);
  const auto da = make_da(d, bin_layout);
  const auto v = da.data();
  ix per_event = element_size(k.t) * (k.var ? 2 : 1);
  for (const auto &[c, t] : k.coords)
    per_event += element_size(t);
  per_event += k.masks;
  const auto kind = "bins " + k.name;
  const ix slack = 2 + ix(k.coords.size()) + k.masks; // rounded
  const auto length = [&](const Variable &x) { return k.plain ? x.bin_buffer<Variable>().dims()[EV] : x.bin_buffer<DataArray>().dims()[EV]; };
  const auto check = [&](const Variable &x, const std::vector<ix> &sz, const std::string &what) {
    ix events = 0;
    for (const auto n : sz)
      events += n;
    expect_size(kind, "size_of " + what, size_of(x, SizeofTag::ViewOnly), ix(sz.size()) * 16 + events * per_event, slack);
    expect_size(kind, "underlying size_of " + what, size_of(x, SizeofTag::Underlying), ix(sizes.size()) * 16 + length(x) * per_event, slack);
    ++vh::E->transitions;
  };
  const auto what = k.name + " bins of " + list(sizes) + " bin layout " + std::to_string(bin_layout);
  check(v, sizes, what);
  const ix stride = s.shape.size() == 2 ? s.shape[1] : 1;
  for (ix b = 0; b <= s.shape[0]; ++b)
    for (ix e = b; e <= s.shape[0]; ++e)
      check(v.slice({s.dims[0], b, e}), {sizes.begin() + b * stride, sizes.begin() + e * stride}, what + " slice " + std::to_string(b) + ":" + std::to_string(e));
  vh::E->nontrivial();
}
/// Sizes of data arrays and datasets are sums of those of their parts.
void size_of_parts(int masks, int coords, int attrs, int items, int layout, const Type &ty) {
  const Shape_ s{{X, Y}, {3, 2}};
  Dataset set;
  ix sum_items[2] = {0, 0};
  const SizeofTag tags[2] = {SizeofTag::ViewOnly, SizeofTag::Underlying};
  const auto what = std::to_string(masks) + " masks " + std::to_string(coords) + " coords " + std::to_string(attrs) + " attrs " + to_string(ty.t) + " " + layout_name(layout);
  for (int i = 0; i < items; ++i) {
    DA d;
    d.data = content(ty.t, units::one, s, ty.var);
    for (int c = 0; c < coords; ++c)
      d.coords.push_back({Dim("c" + std::to_string(c)), {content(c % 2 ? L : S, units::none, {{c % 2 ? X : Y}, {c % 2 ? 3 + c / 2 % 2 : 2}}, false), c % 3 != 2}});
    for (int c = 0; c < attrs; ++c)
      d.attrs.push_back({Dim("a" + std::to_string(c)), content(c % 2 ? S : T, units::none, s, false)});
    for (int c = 0; c < masks; ++c)
      d.masks.push_back({"m" + std::to_string(c), content(B, units::none, {{c % 2 ? X : Y}, {c % 2 ? 3 : 2}}, false)});
    const auto da = make_da(d, 0, layout);
    for (int k = 0; k < 2; ++k) {
      ix meta = size_of(da.data(), tags[k]), aligned = 0;
      for (const auto &[n, c] : da.coords())
        aligned += size_of(c, tags[k]);
      for (const auto &[n, c] : da.attrs())
        meta += size_of(c, tags[k]);
      for (const auto &[n, c] : da.masks())
        meta += size_of(c, tags[k]);
      const auto kind = "array " + std::to_string(masks) + std::to_string(coords) + std::to_string(attrs);
      expect_size(kind, "size_of array with " + what, size_of(da, tags[k]), meta + aligned);
      expect_size(kind, "size_of array without coords, with " + what, size_of(da, tags[k], false), meta);
      ++vh::E->transitions;
    }
    DataArray named(da);
    named.setName("i" + std::to_string(i));
    if (i == 0)
      set = Dataset(named);
    else
      set.setData(named.name(), named);
  }
  for (int k = 0; k < 2; ++k) {
    for (const auto &item : set)
      sum_items[k] += size_of(item, tags[k], false);
    ix c = 0;
    for (const auto &[n, x] : set.coords())
      c += size_of(x, tags[k]);
    expect_size("dataset " + std::to_string(items), "size_of dataset of " + std::to_string(items) + " items with " + what, size_of(set, tags[k]), sum_items[k] + c);
    // objects that are elements count with what they contain
    {
      const auto one_ds = makeVariable<Dataset>(Values{set});
      expect_size("variable of dataset", "size_of variable with dataset", size_of(one_ds, tags[k]), size_of(one_ds.value<Dataset>(), tags[k]));
      const auto one_da = makeVariable<DataArray>(Values{set["i0"]});
      expect_size("variable of array", "size_of variable with array", size_of(one_da, tags[k]), size_of(one_da.value<DataArray>(), tags[k]));
      const auto one_var = makeVariable<Variable>(Values{set["i0"].data()});
      expect_size("variable of variable", "size_of variable with variable", size_of(one_var, tags[k]), size_of(one_var.value<Variable>(), tags[k]));
    }
  }
  vh::E->nontrivial();
}
} // namespace

VH_EXPLORE(Z01) {
  const auto ss = shapes();
  for (const auto &ty : types())
    for (const auto &u : units_())
      for (const auto &s : ss) {
        E.run("described " + to_string(ty.t) + (ty.var ? "+var " : " ") + to_string(u), [&] { described(ty, u, s); });
        for (int l = 0; l < num_layouts; ++l) {
          if (!thorough() && u != units::m && l % 3 != 1)
            continue;
          E.run("prototype " + to_string(ty.t) + (ty.var ? "+var " : " ") + to_string(u) + " " + layout_name(l), [&] { dense_prototype(ty, u, s, l); });
        }
      }
  for (const auto &k : bins_of())
    for (const auto &s : std::vector<Shape_>{{{X}, {1}}, {{X}, {3}}, {{X, Y}, {2, 2}}})
      for (int bl = 0; bl < 4; ++bl) {
        ix n = 1;
        for (const auto x : s.shape)
          n *= x;
        all_sizes(n, n == 4 && !thorough() ? 1 : 2, [&](const std::vector<ix> &sizes) {
          E.run("bins " + k.name + " " + list(sizes) + " layout " + std::to_string(bl), [&] { binned_prototype(k, s, bl, sizes, false); });
          if (s.shape[0] > 1)
            E.run("part of bins " + k.name + " " + list(sizes) + " layout " + std::to_string(bl), [&] { binned_prototype(k, s, bl, sizes, true); });
        });
      }
  E.run("sizes of dense variables", [&] {
    overheads().clear();
    for (const auto &ty : types())
      for (const auto &s : ss)
        for (int l = 0; l < num_layouts; ++l)
          size_of_dense(ty, s, l);
  });
  for (const auto &k : bins_of())
    E.run("sizes of bins of " + k.name, [&] {
      overheads().clear();
      for (int bl = 0; bl < 4; ++bl) {
        for (const auto &s : std::vector<Shape_>{{{X}, {1}}, {{X}, {3}}, {{X, Y}, {2, 2}}}) {
          ix n = 1;
          for (const auto x : s.shape)
            n *= x;
          all_sizes(n, thorough() && n < 4 ? 4 : 2, [&](const std::vector<ix> &sizes) { size_of_binned(k, s, bl, sizes); });
        }
      }
    });
  E.run("sizes of arrays and datasets", [&] {
    overheads().clear();
    for (const auto &ty : std::vector<Type>{{D, true}, {S, false}, {I, false}})
      for (int l = 0; l < num_layouts; ++l)
        for (int m = 0; m <= 2; ++m)
          for (int c = 0; c <= 3; ++c)
            for (int a = 0; a <= 2; ++a)
              for (int i = 1; i <= 3; ++i)
                size_of_parts(m, c, a, i, l, ty);
  });
}
VH_MAIN
