// V03: who shares memory with whom, and what is read-only. All programs of a few
// steps (views, copies, modifications) run against a model of shared buffers.
#include "ds.h"
#include "scipp/dataset/bins_view.h"
#include "scipp/dataset/shape.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/structures.h"
#include <algorithm>
#include <memory>

using namespace ds;

namespace {
using Ex = vh::Explorer;
template <class T> using P = std::shared_ptr<T>;

// --- model -------------------------------------------------------------------
struct MTable;
struct MBuf {
  std::vector<double> v, var;
  bool has_var = false;
  int unit = 0;
  P<MTable> table; // of bins
  std::vector<std::pair<ix, ix>> idx;
  size_t size() const { return table ? idx.size() : v.size(); }
};
struct MVar {
  P<MBuf> b;
  std::vector<Dim> dims;
  std::vector<ix> shape, pos;
  bool ro = false;
  int axis(Dim d) const {
    for (size_t i = 0; i < dims.size(); ++i)
      if (dims[i] == d)
        return i;
    return -1;
  }
};
/// Events: data and coordinates. Just data if they are a plain variable.
struct MTable {
  bool plain = false;
  MVar data;
  std::map<std::string, MVar> coords;
};
using Items = std::map<std::string, MVar>;
struct MDict {
  Items items;
  bool ro = false;
};
struct MArr {
  P<MVar> data;
  P<MDict> coords, masks, attrs;
  bool ro = false;
};
struct MSet {
  MDict coords;
  std::map<std::string, MArr> items;
  bool ro = false;
};

ix volume(const std::vector<ix> &s) {
  ix n = 1;
  for (const auto x : s)
    n *= x;
  return n;
}
std::vector<ix> unravel(const std::vector<ix> &shape, ix i) {
  std::vector<ix> r(shape.size());
  for (int k = int(shape.size()) - 1; k >= 0; --k)
    r[k] = i % shape[k], i /= shape[k];
  return r;
}
ix ravel(const std::vector<ix> &shape, const std::vector<ix> &m) {
  ix r = 0;
  for (size_t k = 0; k < shape.size(); ++k)
    r = r * shape[k] + m[k];
  return r;
}
MVar gather(const MVar &v, Dim d, const std::vector<ix> &which, bool drop) {
  MVar r = v;
  const int k = v.axis(d);
  r.shape[k] = which.size();
  r.pos.clear();
  for (ix i = 0; i < volume(r.shape); ++i) {
    auto m = unravel(r.shape, i);
    m[k] = which[m[k]];
    r.pos.push_back(v.pos[ravel(v.shape, m)]);
  }
  if (drop) {
    r.dims.erase(r.dims.begin() + k);
    r.shape.erase(r.shape.begin() + k);
  }
  return r;
}
struct Sl {
  Dim d;
  ix b, e, stride = 1; // e == -1: point
  Slice slice() const { return e == -1 ? Slice{d, b} : Slice{d, b, e, stride}; }
};
MVar slice(const MVar &v, const Sl &s) {
  std::vector<ix> w;
  if (s.e == -1)
    w = {s.b};
  else
    for (ix i = s.b; i < s.e; i += s.stride)
      w.push_back(i);
  return gather(v, s.d, w, s.e == -1);
}
MVar constant(MVar v) {
  v.ro = true;
  return v;
}
/// Metadata or an item of an object, one dimension of which is sliced.
MVar slice_item(const MVar &v, const Sl &s, ix extent) {
  const int k = v.axis(s.d);
  if (k < 0)
    return constant(v);
  if (v.shape[k] == extent)
    return slice(v, s);
  return slice(v, {s.d, s.b, s.e == -1 ? s.b + 2 : s.e + 1});
}
MDict slice_dict(const MDict &d, const Sl &s, ix extent) {
  MDict r;
  for (const auto &[k, v] : d.items)
    r.items[k] = slice_item(v, s, extent);
  r.ro = true;
  return r;
}
MVar deep(const MVar &v);
MTable deep(const MTable &t) {
  MTable r = t;
  r.data = deep(t.data);
  for (auto &[k, c] : r.coords)
    c = deep(c);
  return r;
}
/// Only the rows of the events that are in bins.
MTable rows_of(const MTable &t, const std::vector<ix> &rows) {
  MTable r = t;
  r.data = deep(gather(t.data, EV, rows, false));
  for (auto &[k, c] : r.coords)
    c = deep(gather(c, EV, rows, false));
  return r;
}
MVar deep(const MVar &v) {
  MVar r = v;
  r.ro = false;
  r.b = std::make_shared<MBuf>(*v.b);
  r.b->v.clear(), r.b->var.clear(), r.b->idx.clear();
  r.pos.clear();
  std::vector<ix> rows;
  for (const auto p : v.pos) {
    r.pos.push_back(r.pos.size());
    if (v.b->table) {
      const ix n = rows.size();
      for (ix i = v.b->idx[p].first; i < v.b->idx[p].second; ++i)
        rows.push_back(i);
      r.b->idx.emplace_back(n, rows.size());
    } else {
      r.b->v.push_back(v.b->v[p]);
      if (v.b->has_var)
        r.b->var.push_back(v.b->var[p]);
    }
  }
  if (v.b->table)
    r.b->table = std::make_shared<MTable>(rows_of(*v.b->table, rows));
  return r;
}
MDict deep(const MDict &d) {
  MDict r;
  for (const auto &[k, v] : d.items)
    r.items[k] = deep(v);
  return r;
}
MDict shallow(const MDict &d) {
  MDict r = d;
  r.ro = false;
  return r;
}
template <class T> P<T> ptr(T x) { return std::make_shared<T>(std::move(x)); }
MArr deep(const MArr &a) { return {ptr(deep(*a.data)), ptr(deep(*a.coords)), ptr(deep(*a.masks)), ptr(deep(*a.attrs)), false}; }
MArr shallow(const MArr &a) { return {ptr(*a.data), ptr(shallow(*a.coords)), ptr(shallow(*a.masks)), ptr(shallow(*a.attrs)), false}; }
MSet shallow(const MSet &s) {
  MSet r;
  r.coords = shallow(s.coords);
  for (const auto &[k, a] : s.items)
    r.items[k] = shallow(a);
  return r;
}
MSet deep(const MSet &s) {
  MSet r;
  r.coords = deep(s.coords);
  for (const auto &[k, a] : s.items)
    r.items[k] = deep(a);
  return r;
}
MDict constant(const MDict &d) {
  MDict r;
  for (const auto &[k, v] : d.items)
    r.items[k] = constant(v);
  r.ro = true;
  return r;
}
ix extent(const MVar &v, Dim d) { return v.axis(d) < 0 ? -1 : v.shape[v.axis(d)]; }
MArr slice(const MArr &a, const Sl &s) {
  const auto n = extent(*a.data, s.d);
  return {ptr(slice(*a.data, s)), ptr(slice_dict(*a.coords, s, n)), ptr(slice_dict(*a.masks, s, n)), ptr(slice_dict(*a.attrs, s, n)), true};
}
bool applies(const MVar &c, const MVar &data) {
  return std::all_of(c.dims.begin(), c.dims.end(), [&](Dim d) { return data.axis(d) >= 0; });
}
/// Item of a dataset: the coordinates are those of the dataset and read-only,
/// everything else is that of the dataset.
MArr item(const MSet &s, const std::string &name) {
  const auto &a = s.items.at(name);
  MDict c;
  for (const auto &[k, v] : s.coords.items)
    if (applies(v, *a.data))
      c.items[k] = constant(v);
  c.ro = true;
  return {a.data, ptr(c), a.masks, a.attrs, s.ro};
}
void rename(MVar &v, Dim from, Dim to) {
  for (auto &d : v.dims)
    if (d == from)
      d = to;
}
void rename(MDict &m, Dim from, Dim to) {
  m.ro = false;
  for (auto &[k, v] : m.items)
    rename(v, from, to);
}

// --- objects -------------------------------------------------------------------
struct Obj {
  std::string name;
  P<Variable> v;
  P<DataArray> a;
  P<Dataset> s;
  P<MVar> mv;
  P<MArr> ma;
  P<MSet> ms;
};
Obj make_obj(const std::string &n, Variable v, MVar m) { return {n, ptr(std::move(v)), nullptr, nullptr, ptr(std::move(m)), nullptr, nullptr}; }
Obj make_obj(const std::string &n, DataArray &&v, MArr m) { return {n, nullptr, std::make_shared<DataArray>(std::move(v)), nullptr, nullptr, ptr(std::move(m)), nullptr}; }
Obj make_obj(const std::string &n, Dataset &&v, MSet m) { return {n, nullptr, nullptr, std::make_shared<Dataset>(std::move(v)), nullptr, nullptr, ptr(std::move(m))}; }

units::Unit unit_of(int i) { return i == 0 ? units::m : i == 1 ? units::s : units::K; }
/// Content of a model variable.
DA content(const MVar &v) {
  DA r;
  r.data.t = D;
  r.data.dims = v.dims, r.data.shape = v.shape;
  if (v.b->table) {
    const auto &t = *v.b->table;
    r.binned = true;
    r.plain_bins = t.plain;
    r.data.u = units::none;
    for (const auto p : v.pos) {
      const auto w = range(v.b->idx[p].first, v.b->idx[p].second);
      DA bin;
      bin.data = content(gather(t.data, EV, w, false)).data;
      for (const auto &[k, c] : t.coords)
        bin.coords.push_back({Dim(k), {content(gather(c, EV, w, false)).data}});
      r.bins.push_back(bin);
    }
    return r;
  }
  r.data.u = unit_of(v.b->unit);
  r.data.var = v.b->has_var;
  for (const auto p : v.pos)
    r.data.v.push_back(v.b->has_var ? Cell(v.b->v[p], v.b->var[p]) : Cell(v.b->v[p]));
  return r;
}
const Cmp &cmp() {
  static const Cmp c = [] {
    Cmp x;
    x.alignment = false;
    return x;
  }();
  return c;
}
DA content(const MArr &a) {
  DA r = content(*a.data);
  for (const auto &[k, v] : a.coords->items)
    r.coords.push_back({Dim(k), {content(v).data}});
  for (const auto &[k, v] : a.masks->items)
    r.masks.push_back({k, content(v).data});
  for (const auto &[k, v] : a.attrs->items)
    r.attrs.push_back({Dim(k), content(v).data});
  return r;
}
std::string compare(const Obj &o) {
  if (o.v)
    return difference(read_var(*o.v), content(*o.mv), cmp());
  if (o.a)
    return difference(read_da(*o.a), content(*o.ma), cmp());
  if (size_t(o.s->size()) != o.ms->items.size())
    return "number of items is " + std::to_string(o.s->size());
  DA g, w;
  for (const auto &[k, c] : o.s->coords())
    g.coords.push_back({k, {read(c)}});
  for (const auto &[k, v] : o.ms->coords.items)
    w.coords.push_back({Dim(k), {content(v).data}});
  if (const auto d = difference(g, w, cmp()); !d.empty())
    return d;
  for (const auto &[k, a] : o.ms->items) {
    if (!o.s->contains(k))
      return "item " + k + " is missing";
    if (const auto d = difference(read_da((*o.s)[k]), content(item(*o.ms, k)), cmp()); !d.empty())
      return "item " + k + ": " + d;
  }
  return {};
}

// --- roots -----------------------------------------------------------------------
struct Maker {
  double next = 1;
  /// New variable with numbers that occur nowhere else.
  std::pair<Variable, MVar> fresh(const std::vector<Dim> &dims, const std::vector<ix> &shape, bool var = false) {
    Arr a;
    a.t = D, a.u = unit_of(0), a.dims = dims, a.shape = shape, a.var = var;
    MVar m;
    m.b = std::make_shared<MBuf>();
    m.dims = dims, m.shape = shape;
    m.b->has_var = var;
    for (ix i = 0; i < volume(shape); ++i) {
      a.v.push_back(Cell(next, var ? next + 0.5 : 0));
      m.b->v.push_back(next);
      if (var)
        m.b->var.push_back(next + 0.5);
      m.pos.push_back(i);
      next += 1;
    }
    return {make_plain(a), m};
  }
};
constexpr int num_roots = 8;
const char *root_name(int r) {
  static const char *n[] = {"variable", "data array", "dataset", "binned variable", "binned data array", "dataset of items that share data", "data array that shares data and coord", "binned dataset"};
  return n[r];
}
std::pair<Variable, MVar> bins(Maker &mk, bool plain, const std::vector<Dim> &dims, const std::vector<ix> &shape) {
  const ix n = volume(shape);
  auto [ev, mev] = mk.fresh({EV}, {2 * n + 2}, true);
  MVar m;
  m.b = std::make_shared<MBuf>();
  m.b->table = std::make_shared<MTable>();
  m.b->table->plain = plain;
  m.b->table->data = mev;
  m.dims = dims, m.shape = shape;
  std::vector<scipp::index_pair> idx;
  for (ix i = 0; i < n; ++i) { // not in order
    const ix b = 2 * ((i + 1) % n) + 1;
    idx.emplace_back(b, b + 1 + i % 2);
    m.pos.push_back(i);
  }
  m.b->idx = {idx.begin(), idx.end()};
  Arr shape_only;
  shape_only.dims = dims, shape_only.shape = shape;
  const auto ind = makeVariable<scipp::index_pair>(shape_only.dimensions(), Values(idx));
  if (plain)
    return {sv::make_bins(ind, EV, ev), m};
  auto [c, mc] = mk.fresh({EV}, {2 * n + 2});
  m.b->table->coords["ec"] = mc;
  return {sd::make_bins(ind, EV, DataArray(ev, {{Dim("ec"), c}})), m};
}
using Pair = std::pair<Variable, MVar>;
Obj make_root(Maker &mk, int r) {
  const std::vector<Dim> yx{Y, X};
  const std::vector<ix> shape{2, 4};
  if (r == 0) {
    auto [v, m] = mk.fresh(yx, shape, true);
    return make_obj("v", v, m);
  }
  if (r == 3) {
    auto [v, m] = bins(mk, true, yx, {2, 2});
    return make_obj("v", v, m);
  }
  std::map<std::string, Pair> meta;
  const ix nx = r == 4 || r == 7 ? 2 : 4;
  meta["x"] = mk.fresh({X}, {nx});
  meta["e"] = mk.fresh({X}, {nx + 1});
  meta["yx"] = mk.fresh(yx, {2, nx});
  meta["0"] = mk.fresh({}, {});
  meta["mx"] = mk.fresh({X}, {nx});
  meta["my"] = mk.fresh({Y}, {2});
  meta["ax"] = mk.fresh({X}, {nx});
  meta["ay"] = mk.fresh({Y}, {2});
  auto [v, m] = r == 4 || r == 7 ? bins(mk, r == 7, yx, {2, 2}) : mk.fresh(yx, shape, r == 1);
  if (r == 6)
    meta["yx"] = {v, m};
  const auto array = [&](const Variable &dv, const MVar &dm, const std::vector<std::string> &cs, const std::vector<std::string> &ms, const std::vector<std::string> &as) {
    DataArray a(dv);
    MArr ma{ptr(dm), ptr(MDict{}), ptr(MDict{}), ptr(MDict{}), false};
    for (const auto &k : cs)
      a.coords().set(Dim(k), meta.at(k).first), ma.coords->items[k] = meta.at(k).second;
    for (const auto &k : ms)
      a.masks().set(k, meta.at(k).first), ma.masks->items[k] = meta.at(k).second;
    for (const auto &k : as)
      a.attrs().set(Dim(k), meta.at(k).first), ma.attrs->items[k] = meta.at(k).second;
    return std::pair{std::make_shared<DataArray>(std::move(a)), ma};
  };
  if (r == 1 || r == 4 || r == 6) {
    auto [a, ma] = r == 6 ? array(v, m, {"yx"}, {}, {}) : array(v, m, {"x", "e", "yx", "0"}, {"mx"}, {"ay"});
    return make_obj("a", std::move(*a), ma);
  }
  auto [v2, m2] = r == 5 ? Pair{v, m} : mk.fresh(yx, {2, nx});
  auto [a, ma] = array(v, m, {}, {"mx"}, {"ay"});
  auto [b, mb] = array(v2, m2, {}, {"my"}, {});
  Dataset d(core::Dict<std::string, DataArray>({{"a", *a}, {"b", *b}}));
  MSet md;
  md.items["a"] = ma;
  md.items["b"] = mb;
  for (const auto &k : {"x", "yx", "0"})
    d.setCoord(Dim(k), meta.at(k).first), md.coords.items[k] = meta.at(k).second;
  return make_obj("d", std::move(d), md);
}

// --- steps -------------------------------------------------------------------------
struct World {
  Maker mk;
  std::vector<Obj> objs;
};
/// Ways to get another object from one.
using Step = std::function<Obj(World &, const Obj &)>;
/// Modifications. What is returned is whether it must fail.
struct Act {
  std::string name;
  std::function<bool(const Obj &)> applicable;
  std::function<bool(World &, Obj &, std::string &err)> run;
};
std::vector<std::pair<std::string, std::function<bool(const Obj &)>>> dummy;

struct NamedStep {
  std::string name;
  std::function<bool(const Obj &)> applicable;
  Step run;
};
const MVar &shape_of(const Obj &o) { return o.mv ? *o.mv : o.ma ? *o.ma->data : *o.ms->items.begin()->second.data; }
bool has_shape(const Obj &o) { return !o.ms || !o.ms->items.empty(); }
void add_slices(std::vector<NamedStep> &r) {
  for (const auto d : {X, Y})
    for (int kind = 0; kind < 3; ++kind) {
      const auto of = [d, kind](const Obj &o) {
        const auto n = extent(shape_of(o), d);
        return kind == 0 ? Sl{d, 1, -1} : kind == 1 ? Sl{d, 0, std::min<ix>(2, n), 1} : Sl{d, 0, n, 2};
      };
      const auto ok = [d, kind](const Obj &o) {
        if (!has_shape(o))
          return false;
        const auto n = extent(shape_of(o), d);
        if (n < 2)
          return false;
        if (kind == 2) { // strides are not possible with edges
          if (n < 4)
            return false;
          const auto edges = [&](const MDict &m) { return std::any_of(m.items.begin(), m.items.end(), [&](const auto &i) { return extent(i.second, d) == n + 1; }); };
          if (o.ma && (edges(*o.ma->coords) || edges(*o.ma->attrs) || edges(*o.ma->masks)))
            return false;
          if (o.ms && edges(o.ms->coords))
            return false;
        }
        return true;
      };
      const std::string name = std::string("[") + d.name() + (kind == 0 ? ",1]" : kind == 1 ? ",:2]" : ",::2]");
      r.push_back({name, ok, [of, name](World &, const Obj &o) -> Obj {
                     const auto s = of(o);
                     if (o.v)
                       return make_obj(o.name + name, o.v->slice(s.slice()), slice(*o.mv, s));
                     if (o.a)
                       return make_obj(o.name + name, o.a->slice(s.slice()), slice(*o.ma, s));
                     MSet m;
                     const auto n = extent(shape_of(o), s.d);
                     m.coords = slice_dict(o.ms->coords, s, n);
                     for (const auto &[k, a] : o.ms->items)
                       m.items[k] = slice(a, s);
                     m.ro = true;
                     return make_obj(o.name + name, o.s->slice(s.slice()), m);
                   }});
    }
}
std::vector<NamedStep> all_steps() {
  std::vector<NamedStep> r;
  const auto is_v = [](const Obj &o) { return bool(o.v); };
  const auto is_a = [](const Obj &o) { return bool(o.a); };
  const auto is_s = [](const Obj &o) { return bool(o.s); };
  add_slices(r);
  r.push_back({".copy()", has_shape, [](World &, const Obj &o) -> Obj {
                 const auto n = o.name + ".copy()";
                 if (o.v)
                   return make_obj(n, copy(*o.v), deep(*o.mv));
                 if (o.a)
                   return make_obj(n, copy(*o.a), deep(*o.ma));
                 return make_obj(n, copy(*o.s), deep(*o.ms));
               }});
  r.push_back({".shallow()", has_shape, [](World &, const Obj &o) -> Obj {
                 const auto n = o.name + ".shallow()";
                 if (o.v)
                   return make_obj(n, Variable(*o.v), *o.mv);
                 if (o.a)
                   return make_obj(n, DataArray(*o.a), shallow(*o.ma));
                 return make_obj(n, Dataset(*o.s), shallow(*o.ms));
               }});
  r.push_back({".rename(y,z)", [](const Obj &o) { return has_shape(o) && extent(shape_of(o), Y) >= 0 && extent(shape_of(o), Z) < 0; }, [](World &, const Obj &o) -> Obj {
                 const auto n = o.name + ".rename(y,z)";
                 const std::vector<std::pair<Dim, Dim>> names{{Y, Z}};
                 if (o.v) {
                   auto m = *o.mv;
                   rename(m, Y, Z);
                   return make_obj(n, o.v->rename_dims(names), m);
                 }
                 const auto array = [](const MArr &x) {
                   auto m = shallow(x);
                   rename(*m.data, Y, Z);
                   for (auto *d : {&*m.coords, &*m.masks, &*m.attrs})
                     rename(*d, Y, Z);
                   return m;
                 };
                 if (o.a)
                   return make_obj(n, o.a->rename_dims(names), array(*o.ma));
                 auto m = shallow(*o.ms);
                 rename(m.coords, Y, Z);
                 for (auto &[k, a] : m.items)
                   a = array(a);
                 return make_obj(n, o.s->rename_dims(names), m);
               }});
  // variables
  r.push_back({".transpose()", [](const Obj &o) { return (o.v && o.mv->dims.size() == 2) || (o.a && o.ma->data->dims.size() == 2); }, [](World &, const Obj &o) -> Obj {
                 const auto n = o.name + ".transpose()";
                 const auto t = [](const MVar &v) {
                   MVar r = v;
                   std::reverse(r.dims.begin(), r.dims.end());
                   std::reverse(r.shape.begin(), r.shape.end());
                   for (ix i = 0; i < volume(r.shape); ++i) {
                     auto m = unravel(r.shape, i);
                     std::reverse(m.begin(), m.end());
                     r.pos[i] = v.pos[ravel(v.shape, m)];
                   }
                   return r;
                 };
                 if (o.v) {
                   const auto m = t(*o.mv);
                   return make_obj(n, o.v->transpose(m.dims), m);
                 }
                 auto m = shallow(*o.ma);
                 m.data = ptr(t(*o.ma->data));
                 return make_obj(n, sd::transpose(*o.a, m.data->dims), m);
               }});
  r.push_back({".fold(x)", [is_v](const Obj &o) { return is_v(o) && extent(*o.mv, X) == 4 && extent(*o.mv, Dim("p")) < 0; }, [](World &, const Obj &o) -> Obj {
                 auto m = *o.mv;
                 const int k = m.axis(X);
                 m.dims[k] = Dim("p"), m.shape[k] = 2;
                 m.dims.insert(m.dims.begin() + k + 1, Dim("q"));
                 m.shape.insert(m.shape.begin() + k + 1, 2);
                 return make_obj(o.name + ".fold(x)", o.v->fold(X, scipp::Dimensions({Dim("p"), Dim("q")}, {2, 2})), m);
               }});
  r.push_back({".broadcast(b)", [is_v](const Obj &o) { return is_v(o) && extent(*o.mv, Dim("b")) < 0 && o.mv->dims.size() < 3; }, [](World &, const Obj &o) -> Obj {
                 auto m = *o.mv;
                 m.dims.insert(m.dims.begin(), Dim("b"));
                 m.shape.insert(m.shape.begin(), 2);
                 const auto p = m.pos;
                 m.pos.insert(m.pos.end(), p.begin(), p.end());
                 m.ro = true;
                 Arr a;
                 a.dims = m.dims, a.shape = m.shape;
                 return make_obj(o.name + ".broadcast(b)", o.v->broadcast(a.dimensions()), m);
               }});
  r.push_back({".as_const()", [is_v, is_a](const Obj &o) { return is_v(o) || is_a(o); }, [](World &, const Obj &o) -> Obj {
                 const auto n = o.name + ".as_const()";
                 if (o.v)
                   return make_obj(n, o.v->as_const(), constant(*o.mv));
                 return make_obj(n, o.a->as_const(), MArr{ptr(constant(*o.ma->data)), ptr(constant(*o.ma->coords)), ptr(constant(*o.ma->masks)), ptr(constant(*o.ma->attrs)), true});
               }});
  const auto binned_v = [is_v](const Obj &o) { return is_v(o) && o.mv->b->table && !o.mv->b->table->plain; };
  const auto part = [](const MVar &v, const MVar &p) {
    MVar r = v;
    r.b = std::make_shared<MBuf>();
    r.b->idx = v.b->idx;
    r.b->table = std::make_shared<MTable>();
    r.b->table->plain = true;
    r.b->table->data = p;
    return r;
  };
  r.push_back({".bins.data", binned_v, [part](World &, const Obj &o) -> Obj { return make_obj(o.name + ".bins.data", sd::bins_view<DataArray>(*o.v).data(), part(*o.mv, o.mv->b->table->data)); }});
  r.push_back({".bins.coords[ec]", binned_v, [part](World &, const Obj &o) -> Obj { return make_obj(o.name + ".bins.coords[ec]", sd::bins_view<DataArray>(*o.v).coords()[Dim("ec")], part(*o.mv, o.mv->b->table->coords.at("ec"))); }});
  // parts of data arrays
  r.push_back({".data", is_a, [](World &, const Obj &o) -> Obj { return make_obj(o.name + ".data", o.a->data(), *o.ma->data); }});
  for (const std::string k : {"x", "yx", "0", "e"})
    r.push_back({".coords[" + k + "]", [is_a, is_s, k](const Obj &o) { return (is_a(o) && o.ma->coords->items.count(k)) || (is_s(o) && o.ms->coords.items.count(k)); }, [k](World &, const Obj &o) -> Obj {
                   if (o.a)
                     return make_obj(o.name + ".coords[" + k + "]", o.a->coords()[Dim(k)], o.ma->coords->items.at(k));
                   return make_obj(o.name + ".coords[" + k + "]", o.s->coords()[Dim(k)], o.ms->coords.items.at(k));
                 }});
  for (const std::string k : {"mx", "my"})
    r.push_back({".masks[" + k + "]", [is_a, k](const Obj &o) { return is_a(o) && o.ma->masks->items.count(k); }, [k](World &, const Obj &o) -> Obj { return make_obj(o.name + ".masks[" + k + "]", o.a->masks()[k], o.ma->masks->items.at(k)); }});
  r.push_back({".attrs[ay]", [is_a](const Obj &o) { return is_a(o) && o.ma->attrs->items.count("ay"); }, [](World &, const Obj &o) -> Obj { return make_obj(o.name + ".attrs[ay]", o.a->attrs()[Dim("ay")], o.ma->attrs->items.at("ay")); }});
  r.push_back({".meta[x]", [is_a](const Obj &o) {
                 if (!is_a(o) || !o.ma->coords->items.count("x"))
                   return false;
                 for (const auto &[k, v] : o.ma->attrs->items)
                   if (o.ma->coords->items.count(k))
                     return false;
                 return true;
               },
               [](World &, const Obj &o) -> Obj { return make_obj(o.name + ".meta[x]", o.a->meta()[Dim("x")], o.ma->coords->items.at("x")); }});
  r.push_back({".drop_coords(x)", [is_a, is_s](const Obj &o) { return (is_a(o) && o.ma->coords->items.count("x")) || (is_s(o) && o.ms->coords.items.count("x")); }, [](World &, const Obj &o) -> Obj {
                 const std::vector<Dim> names{Dim("x")};
                 if (o.a) {
                   auto m = shallow(*o.ma);
                   m.coords->items.erase("x");
                   return make_obj(o.name + ".drop_coords(x)", o.a->drop_coords(names), m);
                 }
                 auto m = shallow(*o.ms);
                 m.coords.items.erase("x");
                 return make_obj(o.name + ".drop_coords(x)", o.s->drop_coords(names), m);
               }});
  for (const std::string k : {"a", "b"})
    r.push_back({"[" + k + "]", [is_s, k](const Obj &o) { return is_s(o) && o.ms->items.count(k); }, [k](World &, const Obj &o) -> Obj { return make_obj(o.name + "[" + k + "]", (*o.s)[k], item(*o.ms, k)); }});
  return r;
}

// --- modifications -------------------------------------------------------------------
bool whole(const MVar &v) {
  auto p = v.pos;
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
  return p.size() == v.b->size() && v.pos.size() == p.size();
}
/// Adds to everything a variable refers to.
void add_to(MVar &v, double x) {
  if (v.b->table) {
    for (const auto p : v.pos)
      for (ix i = v.b->idx[p].first; i < v.b->idx[p].second; ++i) {
        auto &d = v.b->table->data;
        d.b->v[d.pos[i]] += x;
      }
  } else
    for (const auto p : v.pos)
      v.b->v[p] += x;
}
units::Unit elem_unit(const MVar &v) { return unit_of(v.b->table ? v.b->table->data.b->unit : v.b->unit); }
bool binned(const MVar &v) { return bool(v.b->table); }
std::vector<Act> all_acts() {
  std::vector<Act> r;
  const auto dense_v = [](const Obj &o) { return o.v && !binned(*o.mv); };
  const auto run = [](std::string &err, auto &&f) { err = raised(f); };
  r.push_back({".values[0] = ", [dense_v](const Obj &o) { return dense_v(o); }, [run](World &w, Obj &o, std::string &err) {
                 const auto x = w.mk.next++;
                 run(err, [&] { o.v->values<double>()[0] = x; });
                 if (o.mv->ro)
                   return true;
                 o.mv->b->v[o.mv->pos[0]] = x;
                 return false;
               }});
  r.push_back({" += ", [](const Obj &o) { return bool(o.v); }, [run](World &, Obj &o, std::string &err) {
                 run(err, [&] { *o.v += makeVariable<double>(elem_unit(*o.mv), Values{1000.0}); });
                 if (o.mv->ro)
                   return true;
                 add_to(*o.mv, 1000);
                 return false;
               }});
  r.push_back({".setSlice", [dense_v](const Obj &o) { return dense_v(o) && o.mv->dims.size() > 0; }, [run](World &w, Obj &o, std::string &err) {
                 const Sl s{o.mv->dims[0], 0, -1};
                 auto target = slice(*o.mv, s);
                 auto [x, mx] = w.mk.fresh(target.dims, target.shape, target.b->has_var);
                 x.setUnit(unit_of(target.b->unit));
                 run(err, [&, x = x] { o.v->setSlice(s.slice(), x); });
                 if (o.mv->ro)
                   return true;
                 for (size_t i = 0; i < target.pos.size(); ++i) {
                   target.b->v[target.pos[i]] = mx.b->v[i];
                   if (target.b->has_var)
                     target.b->var[target.pos[i]] = mx.b->var[i];
                 }
                 return false;
               }});
  r.push_back({".setUnit", [dense_v](const Obj &o) { return dense_v(o); }, [run](World &, Obj &o, std::string &err) {
                 const int u = (o.mv->b->unit + 1) % 3;
                 run(err, [&] { o.v->setUnit(unit_of(u)); });
                 if (o.mv->ro || !whole(*o.mv))
                   return true;
                 o.mv->b->unit = u;
                 return false;
               }});
  for (int how = 0; how < 4; ++how) // of contiguous variances, transposed, sliced, none
    r.push_back({how == 3 ? ".setVariances(none)" : how == 2 ? ".setVariances(sliced)" : how ? ".setVariances(transposed)" : ".setVariances", [dense_v, how](const Obj &o) { return dense_v(o) && (how != 1 || o.mv->dims.size() == 2); }, [run, how](World &w, Obj &o, std::string &err) {
                   auto dims = o.mv->dims;
                   auto shape = o.mv->shape;
                   if (how == 1)
                     std::reverse(dims.begin(), dims.end()), std::reverse(shape.begin(), shape.end());
                   if (how == 2)
                     dims.insert(dims.begin(), Dim("other")), shape.insert(shape.begin(), 3);
                   auto x = w.mk.fresh(dims, shape).first;
                   x.setUnit(unit_of(o.mv->b->unit));
                   if (how == 1)
                     x = x.transpose(o.mv->dims);
                   if (how == 2)
                     x = x.slice({Dim("other"), 1});
                   const auto vals = read(x);
                   run(err, [&] { o.v->setVariances(how == 3 ? Variable{} : x); });
                   if (o.mv->ro || !whole(*o.mv))
                     return true;
                   auto &b = *o.mv->b;
                   b.has_var = how != 3;
                   b.var.assign(how == 3 ? 0 : b.v.size(), 0);
                   if (how != 3)
                     for (size_t i = 0; i < o.mv->pos.size(); ++i)
                       b.var[o.mv->pos[i]] = vals.v[i].x;
                   return false;
                 }});
  r.push_back({".copy_from", [dense_v](const Obj &o) { return dense_v(o); }, [run](World &w, Obj &o, std::string &err) {
                 auto [x, mx] = w.mk.fresh(o.mv->dims, o.mv->shape, o.mv->b->has_var);
                 x.setUnit(unit_of(o.mv->b->unit));
                 run(err, [&, x = x] { copy(x, *o.v); });
                 if (o.mv->ro)
                   return true;
                 for (size_t i = 0; i < o.mv->pos.size(); ++i) {
                   o.mv->b->v[o.mv->pos[i]] = mx.b->v[i];
                   if (mx.b->has_var)
                     o.mv->b->var[o.mv->pos[i]] = mx.b->var[i];
                 }
                 return false;
               }});
  r.push_back({" = ", dense_v, [run](World &w, Obj &o, std::string &err) { // another variable
                 auto [x, mx] = w.mk.fresh({X}, {2});
                 run(err, [&, x = x] { *o.v = x; });
                 *o.mv = mx;
                 return false;
               }});
  // data arrays
  const auto is_a = [](const Obj &o) { return bool(o.a); };
  r.push_back({".setData", is_a, [run](World &w, Obj &o, std::string &err) {
                 auto [x, mx] = w.mk.fresh(o.ma->data->dims, o.ma->data->shape);
                 run(err, [&, x = x] { o.a->setData(x); });
                 if (o.ma->ro)
                   return true;
                 *o.ma->data = mx;
                 return false;
               }});
  r.push_back({".data += ", is_a, [run](World &, Obj &o, std::string &err) {
                 run(err, [&] { *o.a += makeVariable<double>(elem_unit(*o.ma->data), Values{1000.0}); });
                 if (o.ma->data->ro)
                   return true;
                 add_to(*o.ma->data, 1000);
                 return false;
               }});
  r.push_back({".setUnit", [](const Obj &o) { return o.a && !binned(*o.ma->data); }, [run](World &, Obj &o, std::string &err) {
                 const int u = (o.ma->data->b->unit + 1) % 3;
                 run(err, [&] { o.a->setUnit(unit_of(u)); });
                 if (o.ma->data->ro || !whole(*o.ma->data))
                   return true;
                 o.ma->data->b->unit = u;
                 return false;
               }});
  for (int masks = 0; masks < 2; ++masks)
    r.push_back({masks ? ".setSlice(array)" : ".setSlice(variable)", [](const Obj &o) { return o.a && !binned(*o.ma->data) && !o.ma->data->dims.empty(); }, [run, masks](World &w, Obj &o, std::string &err) {
                   const Sl s{o.ma->data->dims[0], 0, -1};
                   auto target = slice(*o.ma->data, s);
                   auto [x, mx] = w.mk.fresh(target.dims, target.shape, target.b->has_var);
                   x.setUnit(unit_of(target.b->unit));
                   bool fails = o.ma->data->ro;
                   DataArray y(x);
                   std::vector<std::pair<MVar, MVar>> todo{{target, mx}};
                   if (masks)
                     for (const auto &[k, m] : o.ma->masks->items) {
                       if (m.axis(s.d) < 0) { // applies to all slices: only possible if equal
                         fails = true;
                         y.masks().set(k, w.mk.fresh(m.dims, m.shape).first);
                         continue;
                       }
                       fails = fails || m.ro;
                       const auto t = slice(m, s);
                       auto [n, mn] = w.mk.fresh(t.dims, t.shape, m.b->has_var);
                       n.setUnit(unit_of(m.b->unit));
                       y.masks().set(k, n);
                       todo.push_back({t, mn});
                     }
                   run(err, [&] {
                     if (masks)
                       o.a->setSlice(s.slice(), y);
                     else
                       o.a->setSlice(s.slice(), y.data());
                   });
                   if (fails)
                     return true;
                   for (auto &[t, n] : todo)
                     for (size_t i = 0; i < t.pos.size(); ++i) {
                       t.b->v[t.pos[i]] = n.b->v[i];
                       if (t.b->has_var)
                         t.b->var[t.pos[i]] = n.b->var[i];
                     }
                   return false;
                 }});
  struct DictOf {
    std::string name;
    std::function<P<MDict>(Obj &)> m;
    std::function<void(Obj &, const std::string &, const Variable &)> set;
    std::function<void(Obj &, const std::string &)> erase;
    std::string existing;
  };
  const std::vector<DictOf> dicts{{"coords", [](Obj &o) { return o.ma->coords; }, [](Obj &o, const std::string &k, const Variable &v) { o.a->coords().set(Dim(k), v); }, [](Obj &o, const std::string &k) { o.a->coords().erase(Dim(k)); }, "x"},
                                  {"masks", [](Obj &o) { return o.ma->masks; }, [](Obj &o, const std::string &k, const Variable &v) { o.a->masks().set(k, v); }, [](Obj &o, const std::string &k) { o.a->masks().erase(k); }, "mx"},
                                  {"attrs", [](Obj &o) { return o.ma->attrs; }, [](Obj &o, const std::string &k, const Variable &v) { o.a->attrs().set(Dim(k), v); }, [](Obj &o, const std::string &k) { o.a->attrs().erase(Dim(k)); }, "ay"}};
  for (const auto &d : dicts) {
    for (const auto &k : {d.existing, std::string("new")})
      r.push_back({"." + d.name + "[" + k + "] = ", is_a, [run, d, k](World &w, Obj &o, std::string &err) {
                     auto [x, mx] = o.ma->data->dims.empty() ? w.mk.fresh({}, {}) : w.mk.fresh({o.ma->data->dims[0]}, {o.ma->data->shape[0]});
                     run(err, [&, x = x] { d.set(o, k, x); });
                     const auto m = d.m(o);
                     if (m->ro)
                       return true;
                     m->items[k] = mx;
                     return false;
                   }});
    r.push_back({".del " + d.name + "[" + d.existing + "]", [d, is_a](const Obj &o) { return is_a(o) && d.m(const_cast<Obj &>(o))->items.count(d.existing); }, [run, d](World &, Obj &o, std::string &err) {
                   run(err, [&] { d.erase(o, d.existing); });
                   const auto m = d.m(o);
                   if (m->ro)
                     return true;
                   m->items.erase(d.existing);
                   return false;
                 }});
  }
  r.push_back({".meta[new] = ", [](const Obj &o) {
                 if (!o.a)
                   return false;
                 for (const auto &[k, v] : o.ma->attrs->items)
                   if (o.ma->coords->items.count(k))
                     return false;
                 return true;
               },
               [run](World &w, Obj &o, std::string &err) {
                 auto x = w.mk.fresh({}, {}).first;
                 run(err, [&] { o.a->meta().set(Dim("new"), x); });
                 return true;
               }});
  // datasets
  const auto is_s = [](const Obj &o) { return bool(o.s); };
  for (const std::string k : {"a", "new"})
    r.push_back({"[" + k + "] = ", [](const Obj &o) { return o.s && has_shape(o); }, [run, k](World &w, Obj &o, std::string &err) {
                   const auto &d = shape_of(o);
                   auto [x, mx] = w.mk.fresh(d.dims, d.shape);
                   run(err, [&, x = x] { o.s->setData(k, x); });
                   if (o.ms->ro)
                     return true;
                   o.ms->items[k] = MArr{ptr(mx), ptr(MDict{}), ptr(MDict{}), ptr(MDict{}), false};
                   return false;
                 }});
  for (const std::string k : {"x", "new"})
    r.push_back({".coords[" + k + "] = ", [](const Obj &o) { return o.s && has_shape(o); }, [run, k](World &w, Obj &o, std::string &err) {
                   const auto &d = shape_of(o);
                   auto [x, mx] = d.dims.empty() ? w.mk.fresh({}, {}) : w.mk.fresh({d.dims[0]}, {d.shape[0]});
                   run(err, [&, x = x] { o.s->coords().set(Dim(k), x); });
                   if (o.ms->coords.ro)
                     return true;
                   o.ms->coords.items[k] = mx;
                   return false;
                 }});
  r.push_back({".setCoord(x)", [](const Obj &o) { return o.s && has_shape(o); }, [run](World &w, Obj &o, std::string &err) {
                 const auto &d = shape_of(o);
                 auto [x, mx] = d.dims.empty() ? w.mk.fresh({}, {}) : w.mk.fresh({d.dims[0]}, {d.shape[0]});
                 run(err, [&, x = x] { o.s->setCoord(Dim("x"), x); });
                 if (o.ms->coords.ro || o.ms->ro)
                   return true;
                 o.ms->coords.items["x"] = mx;
                 return false;
               }});
  r.push_back({".del coords[x]", [](const Obj &o) { return o.s && o.ms->coords.items.count("x"); }, [run](World &, Obj &o, std::string &err) {
                 run(err, [&] { o.s->coords().erase(Dim("x")); });
                 if (o.ms->coords.ro)
                   return true;
                 o.ms->coords.items.erase("x");
                 return false;
               }});
  r.push_back({".del [a]", [](const Obj &o) { return o.s && o.ms->items.count("a"); }, [run](World &, Obj &o, std::string &err) {
                 run(err, [&] { o.s->erase("a"); });
                 if (o.ms->ro)
                   return true;
                 o.ms->items.erase("a");
                 return false;
               }});
  r.push_back({".clear()", is_s, [run](World &, Obj &o, std::string &err) {
                 run(err, [&] { o.s->clear(); });
                 if (o.ms->ro)
                   return true;
                 o.ms->items.clear();
                 return false;
               }});
  r.push_back({" += ", [](const Obj &o) {
                 if (!o.s || o.ms->items.empty())
                   return false;
                 for (const auto &[k, a] : o.ms->items)
                   if (elem_unit(*a.data) != elem_unit(shape_of(o)))
                     return false;
                 return true;
               },
               [run](World &, Obj &o, std::string &err) {
                 run(err, [&] { *o.s += makeVariable<double>(elem_unit(shape_of(o)), Values{1000.0}); });
                 for (const auto &[k, a] : o.ms->items)
                   if (a.data->ro)
                     return true;
                 for (auto &[k, a] : o.ms->items)
                   add_to(*a.data, 1000);
                 return false;
               }});
  r.push_back({".setSlice", [](const Obj &o) {
                 if (!o.s || o.ms->items.empty() || shape_of(o).dims.empty())
                   return false;
                 for (const auto &[k, a] : o.ms->items)
                   if (binned(*a.data) || a.data->b->unit != shape_of(o).b->unit || a.data->b->has_var)
                     return false;
                 return true;
               },
               [run](World &w, Obj &o, std::string &err) {
                 const Sl s{shape_of(o).dims[0], 0, -1};
                 const auto t0 = slice(shape_of(o), s);
                 auto [x, mx] = w.mk.fresh(t0.dims, t0.shape);
                 x.setUnit(unit_of(t0.b->unit));
                 run(err, [&, x = x] { o.s->setSlice(s.slice(), x); });
                 for (const auto &[k, a] : o.ms->items)
                   if (a.data->ro)
                     return true;
                 for (auto &[k, a] : o.ms->items) {
                   auto t = slice(*a.data, s);
                   for (const auto &d : t.dims) // same labels
                     if (t.axis(d) != t0.axis(d))
                       throw vh::Fail{"harness", "order of dimensions"};
                   for (size_t i = 0; i < t.pos.size(); ++i)
                     t.b->v[t.pos[i]] = mx.b->v[i];
                 }
                 return false;
               }});
  return r;
}

/// An operation of a program: what is done to which object.
struct Op {
  int obj, what;
  bool act;
};
struct Explore {
  Ex &E;
  std::vector<NamedStep> steps = all_steps();
  std::vector<Act> acts = all_acts();

  World replay(int root, const std::vector<Op> &prog) {
    World w;
    w.objs.push_back(make_root(w.mk, root));
    for (const auto &op : prog)
      apply(w, op);
    return w;
  }
  std::string text(const World &w, const Op &op) const { return w.objs[op.obj].name + (op.act ? acts[op.what].name : steps[op.what].name); }
  /// Returns an error of a modification, unless it must fail.
  void apply(World &w, const Op &op) {
    ++E.transitions;
    if (!op.act) {
      w.objs.push_back(steps[op.what].run(w, w.objs[op.obj]));
      return;
    }
    std::string err;
    const bool fails = acts[op.what].run(w, w.objs[op.obj], err);
    E.check_lazy(fails == !err.empty(), fails ? "modifiable" : "not-modifiable", [&] { return text(w, op) + (fails ? " does not fail" : " fails: " + err); });
  }
  std::string program(int root, const std::vector<Op> &prog) {
    std::string s = root_name(root);
    World w;
    w.objs.push_back(make_root(w.mk, root));
    for (const auto &op : prog) {
      s += "; " + text(w, op);
      try {
        apply(w, op);
      } catch (const vh::Fail &) {
      }
    }
    return s;
  }
  void check(const World &w, const std::function<std::string()> &what) {
    for (const auto &o : w.objs) {
      const auto d = compare(o);
      E.check_lazy(d.empty(), "content", [&] { return what() + ": " + o.name + ": " + d; });
    }
  }
  /// All continuations of a program.
  void descend(int root, std::vector<Op> &prog, int steps_left, int acts_left, bool act_last_object_only) {
    const auto before = replay(root, prog);
    for (int k = 0; k < int(before.objs.size()); ++k) {
      if (acts_left > 0)
        for (int i = 0; i < int(acts.size()); ++i) {
          if (!acts[i].applicable(before.objs[k]))
            continue;
          auto w = replay(root, prog);
          prog.push_back({k, i, true});
          try {
            apply(w, prog.back());
          } catch (const vh::Fail &f) {
            throw vh::Fail{f.sig, program(root, prog) + ": " + f.msg};
          }
          check(w, [&] { return program(root, prog); });
          if (acts_left > 1 || steps_left > 0)
            if (prog.size() < 2 || acts_left > 1)
              descend(root, prog, steps_left, acts_left - 1, act_last_object_only);
          prog.pop_back();
        }
      if (steps_left > 0)
        for (int i = 0; i < int(steps.size()); ++i)
          if (steps[i].applicable(before.objs[k])) {
            prog.push_back({k, i, false});
            descend(root, prog, steps_left - 1, acts_left, act_last_object_only);
            prog.pop_back();
          }
    }
  }
  /// Chains in which every step is applied to the last object.
  void chains(int root, std::vector<Op> &prog, int left) {
    const auto w = replay(root, prog);
    check(w, [&] { return program(root, prog); });
    E.state(vh::hash_str(w.objs.back().name, root));
    for (int k = 0; k < int(w.objs.size()); ++k)
      for (int i = 0; i < int(acts.size()); ++i) {
        if (!acts[i].applicable(w.objs[k]))
          continue;
        auto v = replay(root, prog);
        prog.push_back({k, i, true});
        try {
          apply(v, prog.back());
        } catch (const vh::Fail &f) {
          throw vh::Fail{f.sig, program(root, prog) + ": " + f.msg};
        }
        check(v, [&] { return program(root, prog); });
        prog.pop_back();
      }
    if (left > 0)
      for (int i = 0; i < int(steps.size()); ++i)
        if (steps[i].applicable(w.objs.back())) {
          prog.push_back({int(w.objs.size()) - 1, i, false});
          chains(root, prog, left - 1);
          prog.pop_back();
        }
  }
  void run() {
    const int depth = E.thorough ? 4 : 3;
    for (int root = 0; root < num_roots; ++root) {
      const auto w = replay(root, {});
      std::vector<Op> first;
      for (int i = 0; i < int(steps.size()); ++i)
        if (steps[i].applicable(w.objs[0]))
          first.push_back({0, i, false});
      // chains of steps, one modification of any of the objects
      for (const auto &a : first) {
        const auto w1 = replay(root, {a});
        for (int i = 0; i < int(steps.size()); ++i)
          if (steps[i].applicable(w1.objs[1]))
            E.run([&] { return "chains of " + program(root, {a, {1, i, false}}); }, [&, i] {
              std::vector<Op> prog{a, {1, i, false}};
              chains(root, prog, depth - 2);
              E.nontrivial();
            });
      }
      // programs of any steps and modifications
      for (const auto &a : first)
        E.run([&] { return "programs of " + program(root, {a}); }, [&] {
          std::vector<Op> prog{a};
          descend(root, prog, 1, E.thorough ? 2 : 1, false);
          E.nontrivial();
        });
      for (int i = 0; i < int(acts.size()); ++i)
        if (acts[i].applicable(w.objs[0]))
          E.run([&] { return "programs of " + program(root, {{0, i, true}}); }, [&, i] {
            std::vector<Op> prog{{0, i, true}};
            descend(root, prog, 1, 2, false);
            E.nontrivial();
          });
    }
  }
};
} // namespace

VH_EXPLORE(V03) {
  Explore x{E};
  x.run();
}
VH_MAIN
