// M01: all histories of a bounded number of operations on data arrays and
// datasets, in lock step with a plain model.
#include "../common/ds.h"
#include "scipp/dataset/dataset.h"
#include <optional>
#include <sstream>
#include <unordered_map>

using namespace ds;
using scipp::dataset::Coords;
using scipp::dataset::Masks;

namespace {
/// Entry of a dictionary. The identity tells which variable it is as long as
/// it was not transformed.
struct MV {
  Arr a;
  bool aligned = true;
  std::string id;
};
struct MDict {
  std::vector<std::pair<std::string, MV>> v;
  bool ro = false;
  MV *find(const std::string &k) {
    for (auto &[n, x] : v)
      if (n == k)
        return &x;
    return nullptr;
  }
  const MV *find(const std::string &k) const { return const_cast<MDict *>(this)->find(k); }
  bool erase(const std::string &k) {
    for (auto it = v.begin(); it != v.end(); ++it)
      if (it->first == k) {
        v.erase(it);
        return true;
      }
    return false;
  }
};
struct MItem {
  MV data;
  MDict masks, attrs;
  bool ro = false;
};
struct MDA : MItem {
  MDict coords;
};

bool fits(const Arr &owner, const Arr &x) {
  int edges = 0;
  for (size_t i = 0; i < x.dims.size(); ++i) {
    const int k = owner.axis(x.dims[i]);
    if (k >= 0 && owner.shape[k] == x.shape[i])
      continue;
    if (k < 0 ? x.shape[i] == 2 : x.shape[i] == owner.shape[k] + 1)
      ++edges;
    else
      return false;
  }
  return edges <= 1;
}
bool same_sizes(const Arr &a, const Arr &b) {
  if (a.dims.size() != b.dims.size())
    return false;
  for (size_t i = 0; i < a.dims.size(); ++i)
    if (b.axis(a.dims[i]) < 0 || b.shape[b.axis(a.dims[i])] != a.shape[i])
      return false;
  return true;
}
/// The dimension a coordinate is for.
std::optional<Dim> dim_of(const Arr &owner, const std::string &key, const Arr &x) {
  if (x.dims.empty())
    return {};
  if (x.dims.size() == 1)
    return x.dims[0];
  for (const auto d : x.dims) {
    const int k = owner.axis(d), i = x.axis(d);
    if (k < 0 || x.shape[i] == owner.shape[k] + 1)
      return d;
  }
  for (const auto d : x.dims)
    if (to_string(d) == key)
      return d;
  return {};
}

struct Value {
  std::string id;
  MV m;
  Variable v;
};
Value val(const std::string &id, const Arr &a, bool aligned = true) {
  Value r{id, {a, aligned, id}, make_plain(a)};
  r.v.set_aligned(aligned);
  return r;
}
const DType BIN = dtype<core::bin<Variable>>;
Value binned() {
  Value r;
  r.id = "binned";
  Arr idx = A(dtype<scipp::index_pair>, units::none, {}, {}, {Cell(0)});
  idx.v[0].y = 2;
  r.v = sv::make_bins(make_plain(idx), EV, make_plain(iota({EV}, {2}, 1)));
  r.m.id = "binned";
  return r;
}

/// Results of set in the model: false if it has to raise.
bool set(const Arr &owner, MDict &d, const std::string &key, const Value &x) {
  if (auto *old = d.find(key); old && old->id == x.m.id && !x.m.id.empty() && old->aligned == x.m.aligned)
    return true;
  if (d.ro || x.id == "binned" || !fits(owner, x.m.a))
    return false;
  if (auto *old = d.find(key))
    *old = x.m;
  else
    d.v.push_back({key, x.m});
  return true;
}
/// One after the other.
bool rename(Arr &a, const std::vector<std::pair<Dim, Dim>> &names, bool all = false) {
  for (const auto &[f, t] : names) {
    const int k = a.axis(f);
    if (k < 0) {
      if (all)
        return false;
      continue;
    }
    if (f != t && a.axis(t) >= 0)
      return false;
    a.dims[k] = t;
  }
  return true;
}
bool rename(const Arr &owner, MDict &d, const std::vector<std::pair<Dim, Dim>> &names) {
  d.ro = false;
  for (auto &[k, x] : d.v) {
    for (const auto &[f, t] : names)
      if (owner.axis(t) < 0 && x.a.axis(t) >= 0)
        return false;
    const auto before = x.a.dims;
    if (!rename(x.a, names))
      return false;
    if (x.a.dims != before)
      x.id.clear();
  }
  return true;
}
struct Sl {
  Dim d;
  ix b, e, s;
  std::string str() const { return to_string(d) + "," + std::to_string(b) + (e == -1 ? "" : ":" + std::to_string(e) + (s == 1 ? "" : ":" + std::to_string(s))); }
  scipp::Slice real() const { return e == -1 ? scipp::Slice{d, b} : s == 1 ? scipp::Slice{d, b, e} : scipp::Slice{d, b, e, s}; }
};
bool valid(const Arr &owner, const Sl &s) {
  const int k = owner.axis(s.d);
  if (k < 0)
    return false;
  const auto n = owner.shape[k];
  return s.e == -1 ? s.b >= 0 && s.b < n : s.b >= 0 && s.b <= s.e && s.e <= n;
}
bool slice(MV &x, ix n, const Sl &s) {
  const int k = x.a.axis(s.d);
  if (k < 0)
    return true;
  const bool edges = x.a.shape[k] != n;
  const auto before = x.a.shape;
  if (edges) {
    if (s.s != 1)
      return false;
    const ix end = s.e == -1 ? s.b + 2 : s.b == s.e ? s.e : s.e + 1;
    x.a = take(x.a, s.d, range(s.b, end));
  } else if (s.e == -1)
    x.a = point(x.a, s.d, s.b);
  else {
    std::vector<ix> w;
    for (ix i = s.b; i < s.e; i += s.s)
      w.push_back(i);
    x.a = take(x.a, s.d, w);
  }
  if (x.a.shape != before || s.s != 1)
    x.id.clear();
  return true;
}
bool slice(const Arr &owner, MDict &d, const Sl &s, bool coords) {
  const auto n = owner.shape[owner.axis(s.d)];
  for (auto &[k, x] : d.v) {
    const auto of = dim_of(owner, k, x.a);
    const bool unalign = coords && s.e == -1 && of && *of == s.d;
    if (!slice(x, n, s))
      return false;
    if (unalign)
      x.aligned = false;
  }
  d.ro = true;
  return true;
}
bool slice(MDA &m, const Sl &s) {
  if (!valid(m.data.a, s))
    return false;
  const Arr owner = m.data.a;
  if (!slice(owner, m.coords, s, true) || !slice(owner, m.masks, s, false) || !slice(owner, m.attrs, s, false))
    return false;
  slice(m.data, owner.shape[owner.axis(s.d)], s);
  m.ro = true;
  return true;
}
void writable(MDA &m) { m.ro = m.coords.ro = m.masks.ro = m.attrs.ro = false; }

// --- state as text ---------------------------------------------------------
void put(std::ostream &o, const Arr &a) {
  for (size_t i = 0; i < a.dims.size(); ++i)
    o << a.dims[i] << a.shape[i];
  for (const auto &c : a.v)
    o << ' ' << double(c.x);
}
void put(std::ostream &o, const MV &x) {
  put(o, x.a);
  o << x.aligned << x.id;
}
void put(std::ostream &o, const MDict &d) {
  o << '{' << d.ro;
  for (const auto &[k, x] : d.v) {
    o << k << '=';
    put(o, x);
    o << ';';
  }
  o << '}';
}
void put(std::ostream &o, const MItem &m) {
  put(o, m.data);
  put(o, m.masks);
  put(o, m.attrs);
  o << m.ro;
}
void put(std::ostream &o, const MDA &m) {
  put(o, static_cast<const MItem &>(m));
  put(o, m.coords);
}

// --- comparing with the real objects ---------------------------------------
template <class Dict> std::string diff(const Dict &got, const MDict &want, const Arr &owner, bool alignment, const char *what) {
  const auto name = [&](const auto &k) {
    if constexpr (std::is_same_v<std::decay_t<decltype(k)>, Dim>)
      return to_string(k);
    else
      return k;
  };
  const auto list = [&] {
    std::string s = std::string(what) + " are";
    for (const auto &[k, x] : got)
      s += " " + name(k);
    s += " instead of";
    for (const auto &[k, x] : want.v)
      s += " " + k;
    return s;
  };
  if (got.size() != ix(want.v.size()))
    return list();
  size_t i = 0;
  for (const auto &[k, x] : got) {
    const auto &[wk, w] = want.v[i++];
    if (name(k) != wk)
      return list();
    const auto r = read(x);
    if (const auto d = arr::difference(r, w.a); !d.empty())
      return std::string(what) + " " + wk + ": " + d;
    if (alignment && x.is_aligned() != w.aligned)
      return std::string(what) + " " + wk + (w.aligned ? " is not aligned" : " is aligned");
    if (!fits(owner, r))
      return std::string(what) + " " + wk + " does not fit";
    if constexpr (std::is_same_v<std::decay_t<decltype(k)>, Dim>) {
      const auto of = dim_of(owner, wk, w.a);
      const auto g = got.dim_of(k);
      if (g != (of ? *of : Dim(Dim::Invalid)))
        return std::string(what) + " " + wk + " is said to be of dimension " + to_string(g);
    }
    if (!got.contains(k) || !(got[k].dims() == x.dims()))
      return std::string(what) + " " + wk + " is not found";
  }
  return {};
}
template <class Dict> std::string diff_dict(const Dict &got, const MDict &want, const Arr &owner, bool alignment, const char *what) {
  if (got.is_readonly() != want.ro)
    return std::string(what) + (want.ro ? " are not read-only" : " are read-only");
  Arr s;
  for (const auto &d : got.sizes()) {
    s.dims.push_back(d);
    s.shape.push_back(got.sizes()[d]);
  }
  if (!same_sizes(s, owner))
    return std::string("sizes of ") + what + " differ from those of the data";
  return diff(got, want, owner, alignment, what);
}
std::string diff(const DataArray &got, const MDA &want) {
  if (const auto d = arr::difference(read(got.data()), want.data.a); !d.empty())
    return "data: " + d;
  if (got.is_readonly() != want.ro)
    return want.ro ? "is not read-only" : "is read-only";
  const auto &o = want.data.a;
  auto d = diff_dict(got.coords(), want.coords, o, true, "coords");
  if (d.empty())
    d = diff_dict(got.masks(), want.masks, o, false, "masks");
  if (d.empty())
    d = diff_dict(got.attrs(), want.attrs, o, false, "attrs");
  if (!d.empty())
    return d;
  bool shadow = false;
  MDict meta;
  for (const auto &[k, x] : want.attrs.v)
    meta.v.push_back({k, x});
  for (const auto &[k, x] : want.coords.v) {
    shadow |= meta.find(k) != nullptr;
    meta.v.push_back({k, x});
  }
  const auto err = raised([&] {
    const auto m = got.meta();
    d = diff(m, meta, o, false, "meta");
  });
  if (shadow == err.empty())
    return shadow ? "a coord and an attr of the same name are merged" : "meta() raised " + err;
  return d;
}

// --- data arrays -----------------------------------------------------------
struct Sys {
  DataArray da;
  std::optional<DataArray> saved;
};
struct MSys {
  MDA da;
  std::optional<MDA> saved;
};
std::string text(const MSys &m) {
  std::ostringstream o;
  put(o, m.da);
  if (m.saved) {
    o << '|';
    put(o, *m.saved);
  }
  return o.str();
}
std::string diff(const Sys &s, const MSys &m) {
  auto d = diff(s.da, m.da);
  if (d.empty() && m.saved) {
    d = diff(*s.saved, *m.saved);
    if (!d.empty())
      d = "another object: " + d;
  }
  return d;
}
template <class S, class M> struct Op {
  std::string name;
  std::function<bool(M &)> model; ///< false if the step has to be rejected
  std::function<void(S &)> real;
};

const Arr x3 = iota({X}, {3}, 10, units::m), x3b = iota({X}, {3}, 20, units::m), x4 = iota({X}, {4}, 30, units::m), x2 = iota({X}, {2}, 90, units::m), y2 = iota({Y}, {2}, 40),
          y3 = iota({Y}, {3}, 50), yx = iota({Y, X}, {2, 3}, 60), xy = iota({X, Y}, {3, 2}, 70), yx4 = iota({Y, X}, {2, 4}, 80), z2 = iota({Z}, {2}, 100), z3 = iota({Z}, {3}, 110),
          y3x4 = iota({Y, X}, {3, 4}, 120), z2x3 = iota({Z, X}, {2, 3}, 140), z2x4 = iota({Z, X}, {2, 4}, 150), x5 = iota({X}, {5}, 160), x1 = iota({X}, {1}, 170), s0 = iota({}, {}, 180),
          y0 = iota({Y}, {0}, 0), w2 = iota({Dim("w")}, {2}, 190);
Arr bools(Arr a, int k = 0) {
  a.t = B;
  a.u = units::none;
  for (size_t i = 0; i < a.v.size(); ++i)
    a.v[i].x = (i + k) % 2;
  return a;
}
struct Alphabet {
  std::vector<Value> coords, masks, attrs, data;
  Alphabet() {
    coords = {val("s0", s0), val("x3", x3), val("x3b", x3b), val("x4", x4), val("x2", x2), val("y2", y2), val("y3", y3), val("yx", yx), val("xy", xy),
              val("yx4", yx4), val("z2", z2), val("z3", z3), val("y3x4", y3x4), val("z2x3", z2x3), val("z2x4", z2x4), val("x5", x5), val("x1", x1), binned()};
    auto same = coords[1]; // the same variable, but not aligned
    same.m.aligned = false;
    same.v.set_aligned(false);
    coords.push_back(same);
    coords.push_back(val("x4u", x4, false));
    for (const auto &[n, a] : std::vector<std::pair<std::string, Arr>>{{"ms0", s0}, {"mx3", x3}, {"mx4", x4}, {"mx2", x2}, {"myx", yx}, {"mz2", z2}, {"mz2x4", z2x4}})
      masks.push_back(val(n, bools(a)));
    masks.push_back(val("mx3b", bools(x3, 1)));
    attrs = {val("as0", s0), val("ax3", x3), val("ax4", x4), val("ax2", x2), val("ax5", x5), val("az2", z2)};
    data = {val("d0", iota({Y, X}, {2, 3}, 200, units::counts)), val("d1", iota({Y, X}, {2, 3}, 210, units::K)), val("d2", iota({X, Y}, {3, 2}, 220)), val("d3", iota({X}, {3}, 230)),
            val("d4", iota({Y, X}, {2, 4}, 240)), val("d5", iota({Z, X}, {2, 3}, 250)), val("d6", iota({X}, {2}, 260)), val("d7", iota({}, {}, 270))};
  }
};
const Alphabet &alphabet() {
  static const Alphabet a;
  return a;
}
std::vector<Sl> slices() { return {{X, 0, -1, 1}, {X, 2, -1, 1}, {X, 3, -1, 1}, {Y, 1, -1, 1}, {Z, 0, -1, 1}, {X, 1, 3, 1}, {X, 0, 3, 1}, {X, 0, 1, 1}, {X, 1, 1, 1}, {X, 0, 3, 2}, {Y, 0, 1, 1}, {X, 2, 4, 1}}; }
using Names = std::vector<std::pair<Dim, Dim>>;
std::vector<Names> renames() { return {{{X, Z}}, {{X, Y}}, {{X, Y}, {Y, X}}, {{Y, X}, {X, Z}}, {{X, X}}, {{Z, Y}}, {{Y, Dim("w")}}}; }
std::string str(const Names &n) {
  std::string s;
  for (const auto &[f, t] : n)
    s += to_string(f) + ">" + to_string(t) + " ";
  return s;
}
bool few(const Value &v) { return v.id == "s0" || v.id == "x3" || v.id == "x4" || v.id == "yx" || v.id == "z2" || v.id == "z2x4" || v.id == "x2"; }
using DOp = Op<Sys, MSys>;
std::vector<DOp> array_ops() {
  std::vector<DOp> ops;
  const auto &al = alphabet();
  for (const auto &key : {"x", "c"})
    for (const auto &v : al.coords)
      if (*key == 'x' || few(v))
      ops.push_back({"coords.set(" + std::string(key) + ", " + v.id + (v.m.aligned ? "" : " unaligned") + ")", [&v, key](MSys &m) { return set(m.da.data.a, m.da.coords, key, v); },
                     [&v, key](Sys &s) { s.da.coords().set(Dim(key), v.v); }});
  for (const auto &v : al.masks)
    ops.push_back({"masks.set(m, " + v.id + ")", [&v](MSys &m) { return set(m.da.data.a, m.da.masks, "m", v); }, [&v](Sys &s) { s.da.masks().set("m", v.v); }});
  ops.push_back({"masks.set(n, mx3)", [&al](MSys &m) { return set(m.da.data.a, m.da.masks, "n", al.masks[1]); }, [&al](Sys &s) { s.da.masks().set("n", al.masks[1].v); }});
  for (const auto &v : al.attrs)
    ops.push_back({"attrs.set(c, " + v.id + ")", [&v](MSys &m) { return set(m.da.data.a, m.da.attrs, "c", v); }, [&v](Sys &s) { s.da.attrs().set(Dim("c"), v.v); }});
  for (const auto &key : {"x", "c", "none"}) {
    ops.push_back({"coords.erase(" + std::string(key) + ")", [key](MSys &m) { return !m.da.coords.ro && m.da.coords.erase(key); }, [key](Sys &s) { s.da.coords().erase(Dim(key)); }});
    for (const bool a : {false, true})
      ops.push_back({"coords.set_aligned(" + std::string(key) + ", " + std::to_string(a) + ")",
                     [key, a](MSys &m) {
                       auto *c = m.da.coords.find(key);
                       if (!c || m.da.coords.ro)
                         return false;
                       c->aligned = a;
                       return true;
                     },
                     [key, a](Sys &s) { s.da.coords().set_aligned(Dim(key), a); }});
  }
  ops.push_back({"coords.extract(x, default)",
                 [](MSys &m) {
                   if (!m.da.coords.find("x"))
                     return true;
                   return !m.da.coords.ro && m.da.coords.erase("x");
                 },
                 [&al](Sys &s) {
                   const bool has = s.da.coords().contains(X);
                   const auto want = has ? s.da.coords()[X] : al.coords[0].v;
                   const auto got = s.da.coords().extract(X, al.coords[0].v);
                   if (!got.is_same(want))
                     throw vh::Fail{"extract", "extract returns something else"};
                 }});
  ops.push_back({"masks.erase(m)", [](MSys &m) { return !m.da.masks.ro && m.da.masks.erase("m"); }, [](Sys &s) { s.da.masks().erase("m"); }});
  ops.push_back({"attrs.erase(c)", [](MSys &m) { return !m.da.attrs.ro && m.da.attrs.erase("c"); }, [](Sys &s) { s.da.attrs().erase(Dim("c")); }});
  for (const auto &v : al.data)
    ops.push_back({"setData(" + v.id + ")",
                   [&v](MSys &m) {
                     if (m.da.data.id == v.id)
                       return true;
                     if (m.da.ro || !same_sizes(m.da.data.a, v.m.a))
                       return false;
                     m.da.data = v.m;
                     return true;
                   },
                   [&v](Sys &s) { s.da.setData(v.v); }});
  for (const auto &sl : slices()) {
    ops.push_back({"slice(" + sl.str() + ")", [sl](MSys &m) { return slice(m.da, sl); }, [sl](Sys &s) { s.da = s.da.slice(sl.real()); }});
    ops.push_back({"copy of slice(" + sl.str() + ")",
                   [sl](MSys &m) {
                     if (!slice(m.da, sl))
                       return false;
                     writable(m.da);
                     return true;
                   },
                   [sl](Sys &s) {
                     const auto t = s.da.slice(sl.real());
                     s.da = t;
                   }});
  }
  for (const auto &n : renames())
    ops.push_back({"rename_dims(" + str(n) + ")",
                   [n](MSys &m) {
                     const Arr owner = m.da.data.a;
                     if (!rename(m.da.data.a, n, true) || !rename(owner, m.da.coords, n) || !rename(owner, m.da.masks, n) || !rename(owner, m.da.attrs, n))
                       return false;
                     if (m.da.data.a.dims != owner.dims)
                       m.da.data.id.clear();
                     m.da.ro = false;
                     return true;
                   },
                   [n](Sys &s) { s.da = s.da.rename_dims(n); }});
  for (const std::vector<std::string> &l : std::vector<std::vector<std::string>>{{"x"}, {"c", "x"}, {"x", "none"}, {}})
    ops.push_back({"drop_coords(" + std::to_string(l.size()) + (l.size() ? l.back() : "") + ")",
                   [l](MSys &m) {
                     writable(m.da);
                     for (const auto &k : l)
                       if (!m.da.coords.erase(k))
                         return false;
                     return true;
                   },
                   [l](Sys &s) {
                     std::vector<Dim> n;
                     for (const auto &k : l)
                       n.emplace_back(k);
                     s.da = s.da.drop_coords(n);
                   }});
  ops.push_back({"drop_masks(m)", [](MSys &m) { writable(m.da); return m.da.masks.erase("m"); }, [](Sys &s) { s.da = s.da.drop_masks(std::vector<std::string>{"m"}); }});
  ops.push_back({"drop_attrs(c)", [](MSys &m) { writable(m.da); return m.da.attrs.erase("c"); }, [](Sys &s) { s.da = s.da.drop_attrs(std::vector{Dim("c")}); }});
  // two objects
  ops.push_back({"save a shallow copy", [](MSys &m) { m.saved = m.da; writable(*m.saved); return true; }, [](Sys &s) { s.saved.reset(); s.saved.emplace(s.da); }});
  ops.push_back({"save a slice", [](MSys &m) { auto t = m.da; if (!slice(t, {X, 0, 2, 1})) return false; m.saved = t; return true; }, [](Sys &s) { auto t = s.da.slice({X, 0, 2}); s.saved.reset(); s.saved.emplace(std::move(t)); }});
  ops.push_back({"swap with the saved", [](MSys &m) { if (!m.saved) return true; std::swap(m.da, *m.saved); return true; }, [](Sys &s) { if (s.saved) { auto t = std::move(s.da); s.da = std::move(*s.saved); s.saved.reset(); s.saved.emplace(std::move(t)); } }});
  ops.push_back({"assign the saved", [](MSys &m) { if (!m.saved) return true; m.da = *m.saved; writable(m.da); return true; }, [](Sys &s) { if (s.saved) s.da = *s.saved; }});
  ops.push_back({"deep copy",
                 [](MSys &m) {
                   writable(m.da);
                   m.da.data.id.clear();
                   for (auto *d : {&m.da.coords, &m.da.masks, &m.da.attrs})
                     for (auto &[k, x] : d->v)
                       x.id.clear();
                   return true;
                 },
                 [](Sys &s) { s.da = copy(s.da); }});
  ops.push_back({"copy without attrs", [](MSys &m) { writable(m.da); m.da.attrs.v.clear(); return true; }, [](Sys &s) { s.da = DataArray(s.da, scipp::dataset::AttrPolicy::Drop); }});
  ops.push_back({"deep copy without attrs",
                 [](MSys &m) {
                   writable(m.da);
                   m.da.data.id.clear();
                   m.da.attrs.v.clear();
                   for (auto *d : {&m.da.coords, &m.da.masks})
                     for (auto &[k, x] : d->v)
                       x.id.clear();
                   return true;
                 },
                 [](Sys &s) { s.da = copy(s.da, scipp::dataset::AttrPolicy::Drop); }});
  ops.push_back({"as_const", [](MSys &m) { m.da.ro = m.da.coords.ro = m.da.masks.ro = m.da.attrs.ro = true; return true; }, [](Sys &s) { s.da = s.da.as_const(); }});
  ops.push_back({"from parts", [](MSys &m) { writable(m.da); return true; },
                 [](Sys &s) { s.da = DataArray(s.da.data(), s.da.coords().items(), s.da.masks().items(), s.da.attrs().items(), "n"); }});
  ops.push_back({"from dicts", [](MSys &m) { writable(m.da); return true; }, [](Sys &s) { s.da = DataArray(s.da.data(), Coords(s.da.coords()), Masks(s.da.masks()), scipp::dataset::Attrs(s.da.attrs()), "n"); }});
  // a view shares everything
  ops.push_back({"through a view: coords.set(c, x3)", [&al](MSys &m) { return set(m.da.data.a, m.da.coords, "c", al.coords[1]); }, [&al](Sys &s) { s.da.view().coords().set(Dim("c"), al.coords[1].v); }});
  ops.push_back({"through a view: masks.set(m, mx4)", [&al](MSys &m) { return set(m.da.data.a, m.da.masks, "m", al.masks[2]); }, [&al](Sys &s) { s.da.view().masks().set("m", al.masks[2].v); }});
  return ops;
}

/// All histories up to a depth from a state; states seen before with as much
/// depth left are not expanded again.
template <class S, class M> struct Search {
  vh::Explorer &E;
  const std::vector<Op<S, M>> &ops;
  std::function<S()> make;
  std::unordered_map<uint64_t, int> seen;
  std::vector<int> path;

  std::string history() const {
    std::string s;
    for (const auto i : path)
      s += (s.empty() ? "" : "; ") + ops[i].name;
    return s;
  }
  S replay(size_t n) {
    S s = make();
    for (size_t i = 0; i < n; ++i)
      static_cast<void>(raised([&] { ops[path[i]].real(s); }));
    return s;
  }
  /// Execute the last operation of the path.
  bool step(M &m) {
    ++E.transitions;
    S s = replay(path.size() - 1);
    M after = m;
    const auto &op = ops[path.back()];
    const bool ok = op.model(after);
    if (!ok)
      after = m;
    const auto err = raised([&] { op.real(s); });
    const auto d = diff(s, after);
    if (ok != err.empty()) {
      E.note(ok ? "rejected" : "accepted", history() + (ok ? " raised " + err : " is accepted"));
      return false;
    }
    if (!d.empty()) {
      E.note(ok ? "content" : "changed", history() + (ok ? ": " : " is rejected: ") + d);
      return false;
    }
    ++E.checks;
    m = after;
    return ok;
  }
  void explore(const M &m, int depth) {
    if (depth == 0)
      return;
    for (size_t i = 0; i < ops.size(); ++i) {
      path.push_back(i);
      M next = m;
      if (step(next))
        descend(next, depth - 1);
      path.pop_back();
    }
  }
  void descend(const M &m, int depth) {
    const auto h = vh::hash_str(text(m));
    E.state(h);
    auto &best = seen.emplace(h, -1).first->second;
    if (best >= depth)
      return;
    best = depth;
    explore(m, depth);
  }
};

void arrays(vh::Explorer &E) {
  const auto &al = alphabet();
  static const auto ops = array_ops();
  struct Init {
    std::string name;
    Value data;
    std::vector<std::pair<std::string, Value>> coords, masks, attrs;
  };
  const auto c = [&](const std::string &id) -> const Value & {
    for (const auto *l : {&al.coords, &al.masks, &al.attrs, &al.data})
      for (const auto &v : *l)
        if (v.id == id)
          return v;
    throw vh::Fail{"harness", id};
  };
  const std::vector<Init> inits{
      {"2-d without metadata", c("d0"), {}, {}, {}},
      {"2-d with points", c("d0"), {{"x", c("x3")}, {"y", c("y2")}, {"c", c("yx")}}, {{"m", c("mx3")}, {"n", c("myx")}}, {{"c2", c("ax3")}}},
      {"2-d with edges", c("d2"), {{"x", c("x4")}, {"y", c("y3")}, {"c", c("yx4")}}, {{"m", c("mx4")}}, {{"a", c("ax4")}, {"b", c("as0")}}},
      {"1-d with edges of a former dimension", c("d3"), {{"x", c("x4u")}, {"z", c("z2")}, {"zx", c("z2x3")}, {"s", c("s0")}}, {{"m", c("mz2")}}, {{"a", c("az2")}}},
      {"scalar", c("d7"), {{"x", c("x2")}, {"s", c("s0")}}, {{"m", c("ms0")}}, {}},
  };
  for (const auto &init : inits) {
    MSys m0;
    m0.da.data = init.data.m;
    for (const auto &[k, v] : init.coords)
      m0.da.coords.v.push_back({k, v.m});
    for (const auto &[k, v] : init.masks)
      m0.da.masks.v.push_back({k, v.m});
    for (const auto &[k, v] : init.attrs)
      m0.da.attrs.v.push_back({k, v.m});
    const auto make = [&] {
      Sys s{DataArray(init.data.v), {}};
      for (const auto &[k, v] : init.coords)
        s.da.coords().set(Dim(k), v.v);
      for (const auto &[k, v] : init.masks)
        s.da.masks().set(k, v.v);
      for (const auto &[k, v] : init.attrs)
        s.da.attrs().set(Dim(k), v.v);
      return s;
    };
    for (size_t first = 0; first < ops.size(); ++first)
      E.run([&] { return init.name + ": histories of data arrays starting with " + ops[first].name; }, [&] {
        Search<Sys, MSys> search{E, ops, make, {}, {}};
        const auto d = diff(make(), m0);
        E.check(d.empty(), "initial", d);
        search.path = {int(first)};
        auto m = m0;
        if (search.step(m)) {
          E.nontrivial();
          search.descend(m, E.thorough ? 3 : 2);
        }
      });
  }
}

// --- datasets --------------------------------------------------------------
struct MDS {
  Arr sizes; ///< without elements
  MDict coords;
  std::vector<std::pair<std::string, MItem>> items;
  bool ro = false;
  MItem *find(const std::string &k) {
    for (auto &[n, x] : items)
      if (n == k)
        return &x;
    return nullptr;
  }
};
struct DSys {
  Dataset ds;
  std::optional<Dataset> saved;
};
struct MDSys {
  MDS ds;
  std::optional<MDS> saved;
};
void put(std::ostream &o, const MDS &m) {
  put(o, m.sizes);
  put(o, m.coords);
  o << m.ro;
  for (const auto &[k, x] : m.items) {
    o << k << ':';
    put(o, x);
  }
}
std::string text(const MDSys &m) {
  std::ostringstream o;
  put(o, m.ds);
  if (m.saved) {
    o << '|';
    put(o, *m.saved);
  }
  return o.str();
}
/// A data array of an item with the coordinates that apply to it.
MDA item(const MDS &m, const MItem &i) {
  MDA r;
  static_cast<MItem &>(r) = i;
  r.ro = m.ro;
  for (const auto &[k, c] : m.coords.v) {
    bool applies = true;
    for (const auto d : c.a.dims)
      applies &= m.sizes.axis(d) >= 0;
    if (applies)
      r.coords.v.push_back({k, c});
  }
  r.coords.ro = true;
  return r;
}
std::string diff(const Dataset &got, const MDS &want) {
  if (got.is_readonly() != want.ro)
    return want.ro ? "is not read-only" : "is read-only";
  if (!got.is_valid())
    return "is not valid";
  auto d = diff_dict(got.coords(), want.coords, want.sizes, true, "coords");
  if (!d.empty())
    return d;
  if (got.size() != ix(want.items.size()))
    return "has " + std::to_string(got.size()) + " items instead of " + std::to_string(want.items.size());
  Arr s;
  for (const auto &dim : got.sizes()) {
    s.dims.push_back(dim);
    s.shape.push_back(got.sizes()[dim]);
  }
  if (!same_sizes(s, want.sizes))
    return "sizes are " + arr::str(s);
  size_t i = 0;
  for (const auto &it : got) {
    const auto &[k, w] = want.items[i++];
    if (it.name() != k)
      return "item " + it.name() + " instead of " + k;
    if (!same_sizes(read(it.data()), want.sizes))
      return "item " + k + " has other dimensions than the dataset";
    d = diff(it, item(want, w));
    if (!d.empty())
      return "item " + k + ": " + d;
    if (!got.contains(k))
      return "item " + k + " is not found";
  }
  return {};
}
std::string diff(const DSys &s, const MDSys &m) {
  auto d = diff(s.ds, m.ds);
  if (d.empty() && m.saved) {
    d = diff(*s.saved, *m.saved);
    if (!d.empty())
      d = "another object: " + d;
  }
  return d;
}
Arr only_dims(Arr a) {
  a.v.clear();
  return a;
}
bool slice(MDS &m, const Sl &s) {
  if (!valid(m.sizes, s))
    return false;
  const Arr owner = m.sizes;
  if (!slice(owner, m.coords, s, true))
    return false;
  const int k = owner.axis(s.d);
  for (auto &[n, i] : m.items) {
    if (!slice(owner, i.masks, s, false) || !slice(owner, i.attrs, s, false))
      return false;
    slice(i.data, owner.shape[k], s);
  }
  if (s.e == -1) {
    m.sizes.dims.erase(m.sizes.dims.begin() + k);
    m.sizes.shape.erase(m.sizes.shape.begin() + k);
  } else
    m.sizes.shape[k] = (s.e - s.b + s.s - 1) / s.s;
  m.ro = true;
  return true;
}
void writable(MDS &m) {
  m.ro = m.coords.ro = false;
  for (auto &[k, i] : m.items)
    i.masks.ro = i.attrs.ro = false;
}
bool set_item(MDS &m, const std::string &name, const MDA &da) {
  if (m.ro || !same_sizes(m.sizes, da.data.a))
    return false;
  for (const auto &[k, c] : da.coords.v)
    if (const auto *old = m.coords.find(k); old && old->aligned == c.aligned && !arr::difference(old->a, c.a).empty())
      return false;
  for (const auto &[k, c] : da.coords.v) {
    auto *old = m.coords.find(k);
    if (!old)
      m.coords.v.push_back({k, c});
    else if (!old->aligned && c.aligned) // aligned coords overwrite unaligned ones
      *old = c;
  }
  MItem i;
  static_cast<MItem &>(i) = da;
  i.ro = false;
  if (auto *old = m.find(name))
    *old = i;
  else
    m.items.push_back({name, i});
  return true;
}

struct Insert {
  std::string id;
  MDA m;
  std::function<DataArray()> make;
};
Insert insertion(const std::string &id, const Arr &data, const std::vector<std::pair<std::string, MV>> &coords, const std::vector<std::pair<std::string, Arr>> &masks = {},
                 const std::vector<std::pair<std::string, Arr>> &attrs = {}) {
  MDA m;
  m.data.a = data;
  m.coords.v = coords;
  for (const auto &[k, a] : masks)
    m.masks.v.push_back({k, {bools(a), true, ""}});
  for (const auto &[k, a] : attrs)
    m.attrs.v.push_back({k, {a, true, ""}});
  for (auto &[k, c] : m.coords.v)
    c.id.clear();
  DataArray da(make_plain(data));
  for (const auto &[k, c] : m.coords.v) {
    auto v = make_plain(c.a);
    v.set_aligned(c.aligned);
    da.coords().set(Dim(k), v);
  }
  for (const auto &[k, c] : m.masks.v)
    da.masks().set(k, make_plain(c.a));
  for (const auto &[k, c] : m.attrs.v)
    da.attrs().set(Dim(k), make_plain(c.a));
  return {id, m, [da] { return copy(da); }};
}
const std::vector<Insert> &insertions() {
  static const Arr d = iota({Y, X}, {2, 3}, 300);
  static const std::vector<Insert> l{
      insertion("P", d, {{"x", {x3, true, ""}}}, {{"m", x3}}, {{"a", x3}}),
      insertion("Q", iota({X, Y}, {3, 2}, 310), {{"x", {x3b, true, ""}}, {"y", {y2, true, ""}}}, {{"m", yx}}),
      insertion("R", d, {{"x", {x3, false, ""}}, {"z", {z2, true, ""}}}),
      insertion("S", iota({Y, X}, {2, 3}, 320), {{"x", {x3b, false, ""}}, {"c", {s0, false, ""}}}, {{"n", x4}}, {{"x", x4}}),
      insertion("T", iota({X}, {3}, 330), {{"x", {x3, true, ""}}}, {{"m", x3}}),
      insertion("U", d, {{"x", {x4, true, ""}}, {"c", {yx, true, ""}}}),
      insertion("W", iota({X}, {2}, 340), {{"x", {x2, true, ""}}}),
      insertion("Y", iota({Y}, {2}, 350), {{"y", {y2, true, ""}}, {"x", {x2, false, ""}}}, {{"m", y2}}),
  };
  return l;
}
using SOp = Op<DSys, MDSys>;
std::vector<SOp> dataset_ops() {
  std::vector<SOp> ops;
  const auto &al = alphabet();
  using scipp::dataset::AttrPolicy;
  for (const auto &name : {"a", "b"}) {
    const std::string n = name;
    for (const auto &v : al.data)
      for (const bool keep : {false, true})
        if (v.id != "d5" && (!keep || v.id < "d2"))
          ops.push_back({"setData(" + n + ", " + v.id + (keep ? ", keep)" : ")"),
                         [&v, n, keep](MDSys &m) {
                           if (m.ds.ro || !same_sizes(m.ds.sizes, v.m.a))
                             return false;
                           MItem i;
                           i.data = v.m;
                           if (auto *old = m.ds.find(n)) {
                             if (keep) {
                               i.masks = old->masks;
                               i.attrs = old->attrs;
                               i.masks.ro = i.attrs.ro = false;
                             }
                             *old = i;
                           } else
                             m.ds.items.push_back({n, i});
                           return true;
                         },
                         [&v, n, keep](DSys &s) { s.ds.setData(n, v.v, keep ? AttrPolicy::Keep : AttrPolicy::Drop); }});
    for (const auto &i : insertions())
      ops.push_back({"setData(" + n + ", array " + i.id + ")", [&i, n](MDSys &m) { return set_item(m.ds, n, i.m); }, [&i, n](DSys &s) { s.ds.setData(n, i.make()); }});
    ops.push_back({"erase(" + n + ")",
                   [n](MDSys &m) {
                     if (m.ds.ro || !m.ds.find(n))
                       return false;
                     auto &l = m.ds.items;
                     l.erase(std::find_if(l.begin(), l.end(), [&](const auto &x) { return x.first == n; }));
                     return true;
                   },
                   [n](DSys &s) { s.ds.erase(n); }});
  }
  ops.push_back({"extract(a)",
                 [](MDSys &m) {
                   if (m.ds.ro || !m.ds.find("a"))
                     return false;
                   auto &l = m.ds.items;
                   l.erase(std::find_if(l.begin(), l.end(), [&](const auto &x) { return x.first == "a"; }));
                   return true;
                 },
                 [](DSys &s) {
                   const bool has = s.ds.contains("a");
                   const auto want = has ? copy(s.ds["a"]) : DataArray(alphabet().data[0].v);
                   const auto got = s.ds.extract("a");
                   if (!(got == want) || got.name() != "a")
                     throw vh::Fail{"extract", "extract returns something else"};
                 }});
  ops.push_back({"setData(b, own item a)",
                 [](MDSys &m) {
                   auto *a = m.ds.find("a");
                   if (!a)
                     return false;
                   if (m.ds.ro && m.ds.find("b"))
                     return true; // not attempted: whether there is something to do is not modelled
                   if (m.ds.ro)
                     return false;
                   const auto copied = *a;
                   if (auto *b = m.ds.find("b"))
                     *b = copied;
                   else
                     m.ds.items.push_back({"b", copied});
                   return true;
                 },
                 [](DSys &s) {
                   if (!s.ds.contains("a") || !s.ds.is_readonly() || !s.ds.contains("b"))
                     s.ds.setData("b", s.ds["a"]);
                 }});
  ops.push_back({"setData(a, own item a)", [](MDSys &m) { return m.ds.find("a") != nullptr; }, [](DSys &s) { s.ds.setData("a", s.ds["a"]); }});
  for (const bool conflict : {false, true}) // the own data, but with a coord that differs
    ops.push_back({std::string("setData(a, own item a with ") + (conflict ? "another x)" : "a new coord)"),
                   [conflict](MDSys &m) {
                     auto *a = m.ds.find("a");
                     if (!a)
                       return false;
                     const std::string key = conflict ? "x" : "c";
                     auto da = item(m.ds, *a);
                     if ((da.coords.find(key) != nullptr) != conflict || (m.ds.coords.find(key) != nullptr) != conflict)
                       return true; // not attempted
                     if (conflict && (da.coords.find(key)->a.dims.empty() || m.ds.coords.find(key)->a.dims.empty()))
                       return true;
                     da.masks.ro = da.attrs.ro = false;
                     const bool al = conflict ? da.coords.find(key)->aligned : true;
                     if (conflict)
                       *da.coords.find(key) = {s0, al, ""};
                     else
                       da.coords.v.push_back({key, {s0, al, ""}});
                     return set_item(m.ds, "a", da);
                   },
                   [conflict](DSys &s) {
                     if (!s.ds.contains("a"))
                       throw std::runtime_error("no item");
                     const Dim key(conflict ? "x" : "c");
                     const DataArray own(s.ds["a"]);
                     if (own.coords().contains(key) != conflict || s.ds.coords().contains(key) != conflict)
                       return;
                     if (conflict && (own.coords()[key].dims().ndim() == 0 || s.ds.coords()[key].dims().ndim() == 0))
                       return;
                     DataArray da(own.data(), {}, {});
                     for (const auto &[k, c] : own.coords())
                       da.coords().set(k, c);
                     for (const auto &[k, c] : own.masks())
                       da.masks().set(k, c);
                     for (const auto &[k, c] : own.attrs())
                       da.attrs().set(k, c);
                     auto v = make_plain(s0);
                     v.set_aligned(conflict ? own.coords()[key].is_aligned() : true);
                     da.coords().set(key, v);
                     s.ds.setData("a", da);
                   }});
  ops.push_back({"clear", [](MDSys &m) { if (m.ds.ro) return false; m.ds.items.clear(); return true; }, [](DSys &s) { s.ds.clear(); }});
  for (const auto &key : {"x", "c"})
    for (const auto &v : al.coords)
      if (v.id != "x5" && v.id != "z3" && v.id != "x1" && (*key == 'x' || few(v)))
        ops.push_back({"setCoord(" + std::string(key) + ", " + v.id + (v.m.aligned ? "" : " unaligned") + ")", [&v, key](MDSys &m) { return !m.ds.ro && set(m.ds.sizes, m.ds.coords, key, v); },
                       [&v, key](DSys &s) { s.ds.setCoord(Dim(key), v.v); }});
  ops.push_back({"coords.set(c, yx)", [&al](MDSys &m) { return set(m.ds.sizes, m.ds.coords, "c", al.coords[7]); }, [&al](DSys &s) { s.ds.coords().set(Dim("c"), al.coords[7].v); }});
  for (const auto &key : {"x", "c"}) {
    ops.push_back({"coords.erase(" + std::string(key) + ")", [key](MDSys &m) { return !m.ds.coords.ro && m.ds.coords.erase(key); }, [key](DSys &s) { s.ds.coords().erase(Dim(key)); }});
    ops.push_back({"coords.set_aligned(" + std::string(key) + ", 0)",
                   [key](MDSys &m) {
                     auto *c = m.ds.coords.find(key);
                     if (!c || m.ds.coords.ro)
                       return false;
                     c->aligned = false;
                     return true;
                   },
                   [key](DSys &s) { s.ds.coords().set_aligned(Dim(key), false); }});
  }
  for (const auto &sl : slices()) {
    ops.push_back({"slice(" + sl.str() + ")", [sl](MDSys &m) { return slice(m.ds, sl); }, [sl](DSys &s) { s.ds = s.ds.slice(sl.real()); }});
    ops.push_back({"copy of slice(" + sl.str() + ")",
                   [sl](MDSys &m) {
                     if (!slice(m.ds, sl))
                       return false;
                     writable(m.ds);
                     return true;
                   },
                   [sl](DSys &s) {
                     const auto t = s.ds.slice(sl.real());
                     s.ds = t;
                   }});
  }
  for (const auto &n : renames())
    ops.push_back({"rename_dims(" + str(n) + ")",
                   [n](MDSys &m) {
                     const Arr owner = m.ds.sizes;
                     if (!rename(m.ds.sizes, n, true) || !rename(owner, m.ds.coords, n))
                       return false;
                     for (auto &[k, i] : m.ds.items) {
                       const auto before = i.data.a.dims;
                       if (!rename(i.data.a, n) || !rename(owner, i.masks, n) || !rename(owner, i.attrs, n))
                         return false;
                       if (i.data.a.dims != before)
                         i.data.id.clear();
                     }
                     m.ds.ro = false;
                     return true;
                   },
                   [n](DSys &s) { s.ds = s.ds.rename_dims(n); }});
  for (const std::vector<std::string> &l : std::vector<std::vector<std::string>>{{"x"}, {"x", "none"}, {}})
    ops.push_back({"drop_coords(" + std::to_string(l.size()) + (l.size() ? l.back() : "") + ")",
                   [l](MDSys &m) {
                     writable(m.ds);
                     for (const auto &k : l)
                       if (!m.ds.coords.erase(k))
                         return false;
                     return true;
                   },
                   [l](DSys &s) {
                     std::vector<Dim> n;
                     for (const auto &k : l)
                       n.emplace_back(k);
                     s.ds = s.ds.drop_coords(n);
                   }});
  // through an item
  for (const auto &v : al.masks)
    ops.push_back({"item a: masks.set(m, " + v.id + ")",
                   [&v](MDSys &m) {
                     auto *a = m.ds.find("a");
                     return a && set(m.ds.sizes, a->masks, "m", v);
                   },
                   [&v](DSys &s) { s.ds["a"].masks().set("m", v.v); }});
  ops.push_back({"item a: masks.erase(m)", [](MDSys &m) { auto *a = m.ds.find("a"); return a && !a->masks.ro && a->masks.erase("m"); }, [](DSys &s) { s.ds["a"].masks().erase("m"); }});
  ops.push_back({"item a: attrs.set(x, ax4)", [&al](MDSys &m) { auto *a = m.ds.find("a"); return a && set(m.ds.sizes, a->attrs, "x", al.attrs[2]); }, [&al](DSys &s) { s.ds["a"].attrs().set(X, al.attrs[2].v); }});
  ops.push_back({"item a: coords.set(c, yx)",
                 [&al](MDSys &m) {
                   auto *a = m.ds.find("a");
                   if (!a)
                     return false;
                   auto i = item(m.ds, *a);
                   return set(m.ds.sizes, i.coords, "c", al.coords[7]);
                 },
                 [&al](DSys &s) { s.ds["a"].coords().set(Dim("c"), al.coords[7].v); }});
  ops.push_back({"item a: coords.erase(x)", [](MDSys &) { return false; }, [](DSys &s) { s.ds["a"].coords().erase(X); }});
  ops.push_back({"item a: coords.set_aligned(x, 0)", [](MDSys &) { return false; }, [](DSys &s) { s.ds["a"].coords().set_aligned(X, false); }});
  for (const auto *id : {"d1", "d2", "d3", "d6"})
    for (const auto &v : al.data)
      if (v.id == id)
        ops.push_back({"item a: setData(" + v.id + ")",
                       [&v](MDSys &m) {
                         auto *a = m.ds.find("a");
                         if (!a)
                           return false;
                         if (a->data.id == v.id)
                           return true;
                         if (m.ds.ro || !same_sizes(m.ds.sizes, v.m.a))
                           return false;
                         a->data = v.m;
                         return true;
                       },
                       [&v](DSys &s) { s.ds["a"].setData(v.v); }});
  ops.push_back({"item a: setName", [](MDSys &m) { return m.ds.find("a") != nullptr; }, [](DSys &s) { s.ds["a"].setName("other"); }});
  // two objects
  ops.push_back({"save a shallow copy", [](MDSys &m) { m.saved = m.ds; writable(*m.saved); return true; }, [](DSys &s) { s.saved.reset(); s.saved.emplace(s.ds); }});
  ops.push_back({"save a slice", [](MDSys &m) { auto t = m.ds; if (!slice(t, {X, 0, 2, 1})) return false; m.saved = t; return true; }, [](DSys &s) { auto t = s.ds.slice({X, 0, 2}); s.saved.reset(); s.saved.emplace(std::move(t)); }});
  ops.push_back({"assign the saved", [](MDSys &m) { if (!m.saved) return true; m.ds = *m.saved; writable(m.ds); return true; }, [](DSys &s) { if (s.saved) s.ds = *s.saved; }});
  ops.push_back({"setData(c, item a of the saved)",
                 [](MDSys &m) {
                   if (!m.saved || !m.saved->find("a"))
                     return false;
                   auto i = item(*m.saved, *m.saved->find("a"));
                   return set_item(m.ds, "c", i);
                 },
                 [](DSys &s) {
                   if (!s.saved)
                     throw std::runtime_error("nothing saved");
                   s.ds.setData("c", (*s.saved)["a"]);
                 }});
  ops.push_back({"setCoords(those of the saved)",
                 [](MDSys &m) {
                   if (!m.saved || !same_sizes(m.saved->sizes, m.ds.sizes))
                     return false;
                   m.ds.coords = m.saved->coords;
                   m.ds.coords.ro = false;
                   return true;
                 },
                 [](DSys &s) {
                   if (!s.saved)
                     throw std::runtime_error("nothing saved");
                   s.ds.setCoords(std::as_const(*s.saved).coords());
                 }});
  ops.push_back({"setCoords(of more dimensions)",
                 [](MDSys &m) {
                   if (!m.ds.items.empty() || m.ds.sizes.axis(Dim("more")) >= 0)
                     return false;
                   m.ds.sizes.dims.push_back(Dim("more"));
                   m.ds.sizes.shape.push_back(2);
                   m.ds.coords = {};
                   return true;
                 },
                 [](DSys &s) {
                   auto sizes = s.ds.sizes();
                   if (sizes.contains(Dim("more")))
                     throw std::runtime_error("once only");
                   sizes.set(Dim("more"), 2);
                   s.ds.setCoords(Coords(sizes, {}));
                 }});
  ops.push_back({"deep copy",
                 [](MDSys &m) {
                   writable(m.ds);
                   const auto clear = [](MDict &d) {
                     for (auto &[k, x] : d.v)
                       x.id.clear();
                   };
                   clear(m.ds.coords);
                   for (auto &[k, i] : m.ds.items) {
                     i.data.id.clear();
                     clear(i.masks);
                     clear(i.attrs);
                   }
                   return true;
                 },
                 [](DSys &s) { s.ds = copy(s.ds); }});
  ops.push_back({"dataset of item a",
                 [](MDSys &m) {
                   auto *a = m.ds.find("a");
                   if (!a)
                     return false;
                   MDS n;
                   n.sizes = only_dims(a->data.a);
                   auto i = item(m.ds, *a);
                   set_item(n, "a", i);
                   m.ds = n;
                   return true;
                 },
                 [](DSys &s) { s.ds = Dataset(DataArray(s.ds["a"])); }});
  return ops;
}
} // namespace

void datasets(vh::Explorer &E) {
  static const auto ops = dataset_ops();
  const auto &al = alphabet();
  const auto &ins = insertions();
  for (int init = 0; init < 3; ++init) {
    MDSys m0;
    m0.ds.sizes = only_dims(al.data[0].m.a);
    const auto make = [&] {
      DSys s{Dataset(scipp::core::Dict<std::string, DataArray>{{"a", init == 0 ? DataArray(al.data[0].v) : ins[init == 1 ? 0 : 5].make()}}), {}};
      if (init == 1)
        s.ds.setData("b", ins[2].make());
      if (init == 2) {
        s.ds.setData("b", ins[3].make());
        s.ds.setData("c", al.data[2].v);
      }
      return s;
    };
    if (init == 0) {
      MItem i;
      i.data = al.data[0].m;
      m0.ds.items.push_back({"a", i});
    } else if (init == 1) {
      set_item(m0.ds, "a", ins[0].m);
      set_item(m0.ds, "b", ins[2].m);
    } else {
      set_item(m0.ds, "a", ins[5].m);
      set_item(m0.ds, "b", ins[3].m);
      MItem i;
      i.data = al.data[2].m;
      m0.ds.items.push_back({"c", i});
    }
    for (size_t first = 0; first < ops.size(); ++first)
      E.run([&] { return "dataset " + std::to_string(init) + ": histories starting with " + ops[first].name; }, [&] {
        Search<DSys, MDSys> search{E, ops, make, {}, {}};
        const auto d = diff(make(), m0);
        E.check(d.empty(), "initial", d);
        search.path = {int(first)};
        auto m = m0;
        if (search.step(m)) {
          E.nontrivial();
          search.descend(m, E.thorough ? 3 : 2);
        }
      });
  }
}

VH_EXPLORE(M01) {
  arrays(E);
  datasets(E);
}
VH_MAIN
