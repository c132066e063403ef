// Reference model of binning and grouping.
#pragma once
#include "ds.h"

namespace ds {
/// The same binned data with the dimensions of the bins in another order.
inline DA permuted(const DA &a, const std::vector<Dim> &order) {
  DA r = a;
  if (!a.binned) {
    r.data = transposed(a.data, order);
    return r;
  }
  r.data.dims = order;
  for (size_t i = 0; i < order.size(); ++i)
    r.data.shape[i] = a.data.shape[a.data.axis(order[i])];
  for (ix i = 0; i < r.data.volume(); ++i) {
    const auto m = r.data.unravel(i);
    std::vector<ix> at(m.size());
    for (size_t k = 0; k < m.size(); ++k)
      at[a.data.axis(order[k])] = m[k];
    r.bins[i] = a.bins[a.data.ravel(at)];
  }
  return r;
}
/// As b has the dimensions, if it has the same ones.
inline DA like(const DA &g, const DA &w) {
  if (g.data.dims.size() != w.data.dims.size())
    return g;
  for (const auto &d : w.data.dims)
    if (g.data.axis(d) < 0)
      return g;
  return permuted(g, w.data.dims);
}
/// Element of an array at a position given for other dimensions.
inline const Cell &at(const Arr &a, const Arr &labels, const std::vector<ix> &m) {
  std::vector<ix> p;
  for (const auto &d : a.dims)
    p.push_back(m[labels.axis(d)]);
  return a.v[a.ravel(p)];
}
inline bool same_key(const Cell &a, const Cell &b, DType t) { return t == S ? a.s == b.s : a.x == b.x; }

struct BinArgs {
  std::vector<Arr> edges, groups;
  std::vector<Dim> erase;
};
inline std::string str(const BinArgs &b) {
  std::string s;
  for (const auto &e : b.edges)
    s += " edges " + arr::str(e);
  for (const auto &e : b.groups)
    s += " groups " + arr::str(e);
  for (const auto &e : b.erase)
    s += " erase " + to_string(e);
  return s;
}
/// Where an event of an output bin comes from.
struct Source {
  ix bin, row;
};
struct Binned {
  DA out;
  std::vector<std::vector<Source>> from; ///< per output bin
  std::vector<char> hidden;              ///< output bins below a mask that is kept
  bool one_dim = true;                   ///< at most one dimension of input bins is joined
};
inline ix find_edge(const Arr &e, const std::vector<ix> &fixed, LD x) {
  // the last interval [e[j], e[j+1]) that holds x
  ix found = -1;
  const int k = e.dims.size() - 1;
  auto m = fixed;
  m.resize(e.dims.size());
  for (ix j = 0; j + 1 < e.shape[k]; ++j) {
    m[k] = j;
    const auto lo = e.v[e.ravel(m)].x;
    m[k] = j + 1;
    if (lo <= x && x < e.v[e.ravel(m)].x)
      found = j;
  }
  return found;
}
/// Reference: puts each event of a table or of bins where it belongs.
inline Binned bin_ref(const DA &in_, const BinArgs &arg) {
  DA in = in_;
  if (!in.binned) { // a table is one bin
    DA t = in_;
    t.name.clear();
    in = DA();
    in.binned = true;
    in.bins = {t};
  }
  const auto inner = [](const Arr &k) { return k.dims.back(); };
  std::vector<const Arr *> keys; // in order of the new dimensions
  Arr builder, out_dims;         // builder: the dimensions within which events move
  std::vector<std::pair<Dim, const Arr *>> axes; // nullptr: existing
  const auto key_of = [&](Dim d) -> std::pair<const Arr *, bool> {
    for (const auto &g : arg.groups)
      if (inner(g) == d)
        return {&g, true};
    for (const auto &e : arg.edges)
      if (inner(e) == d)
        return {&e, false};
    return {nullptr, false};
  };
  const auto has = [](const auto &v, Dim d) {
    for (const auto &x : v)
      if (x == d)
        return true;
    return false;
  };
  std::vector<Dim> moved = arg.erase;
  bool rebin = false;
  for (size_t i = 0; i < in.data.dims.size(); ++i) {
    const Dim d = in.data.dims[i];
    if (key_of(d).first)
      rebin = true;
    if (has(arg.erase, d))
      continue;
    if (key_of(d).first || rebin) {
      axes.push_back({d, key_of(d).first});
      moved.push_back(d);
    } else {
      out_dims.dims.push_back(d);
      out_dims.shape.push_back(in.data.shape[i]);
    }
  }
  for (const auto &g : arg.groups)
    if (in.data.axis(inner(g)) < 0)
      axes.push_back({inner(g), &g});
  for (const auto &e : arg.edges)
    if (in.data.axis(inner(e)) < 0)
      axes.push_back({inner(e), &e});
  for (const auto &[d, k] : axes) {
    if (k == nullptr || key_of(d).second)
      out_dims.shape.push_back(k ? k->shape.back() : in.data.shape[in.data.axis(d)]);
    else
      out_dims.shape.push_back(k->shape.back() - 1);
    out_dims.dims.push_back(d);
    if (k)
      moved.push_back(d);
  }
  Binned r;
  r.out.binned = true;
  r.out.data.u = units::none;
  r.out.data.dims = out_dims.dims;
  r.out.data.shape = out_dims.shape;
  const ix nout = out_dims.volume();
  r.from.resize(nout);
  r.hidden.assign(nout, 0);
  int joined = 0;
  for (size_t i = 0; i < in.data.dims.size(); ++i)
    if (in.data.shape[i] > 1 && (has(arg.erase, in.data.dims[i]) || key_of(in.data.dims[i]).first))
      ++joined;
  r.one_dim = joined < 2;
  const auto masked = [&](const std::vector<ix> &m) {
    for (const auto &[n, k] : in.masks) {
      bool depends = false;
      for (const auto &d : k.dims)
        depends = depends || has(moved, d);
      if (depends && at(k, in.data, m).x != 0)
        return true;
    }
    return false;
  };
  for (ix b = 0; b < in.data.volume(); ++b) {
    const auto m = in.data.unravel(b);
    const bool hide = masked(m);
    const auto &table = in.bins[b];
    const ix nrow = table.data.shape.empty() ? 0 : table.data.shape[0];
    for (ix e = 0; e < nrow; ++e) {
      std::vector<ix> o;
      bool keep = !hide;
      for (const auto &d : out_dims.dims) {
        const auto [key, group] = key_of(d);
        if (!key) {
          o.push_back(m[in.data.axis(d)]);
          continue;
        }
        Cell x;
        DType xt = D;
        if (const auto *c = table.coord(d)) {
          x = c->a.dims.empty() ? c->a.v[0] : c->a.v[e];
          xt = c->a.t;
        } else if (const auto *a = table.attr(d)) {
          x = a->dims.empty() ? a->v[0] : a->v[e];
          xt = a->t;
        } else if (const auto *bc = in.coord(d)) {
          x = at(bc->a, in.data, m);
          xt = bc->a.t;
        } else {
          x = at(*in.attr(d), in.data, m);
          xt = in.attr(d)->t;
        }
        ix j = -1;
        if (group) {
          for (ix q = 0; q < key->shape[0]; ++q)
            if (same_key(x, key->v[q], xt))
              j = q;
        } else {
          std::vector<ix> fixed;
          for (size_t q = 0; q + 1 < key->dims.size(); ++q)
            fixed.push_back(m[in.data.axis(key->dims[q])]);
          j = find_edge(*key, fixed, x.x);
        }
        keep = keep && j >= 0;
        o.push_back(j);
      }
      if (keep)
        r.from[out_dims.ravel(o)].push_back({b, e});
    }
  }
  // tables of the output
  DA empty = in.bins.empty() ? DA() : in.bins[0];
  empty = rows(empty, EV, 0, 0);
  const auto lift = [&](DA &t) {
    DA k = t;
    k.coords.clear();
    k.masks.clear();
    k.attrs.clear();
    for (const auto &[d, c] : t.coords)
      if (c.a.axis(EV) >= 0 && !(key_of(d).first && key_of(d).second))
        k.coords.push_back({d, c});
    for (const auto &[n, c] : t.masks)
      if (c.axis(EV) >= 0)
        k.masks.push_back({n, c});
    for (const auto &[d, c] : t.attrs)
      if (c.axis(EV) >= 0)
        k.attrs.push_back({d, c});
    t = k;
  };
  const DA sample = empty;
  lift(empty);
  for (ix o = 0; o < nout; ++o) {
    DA t = empty;
    const auto push = [](Arr &to, const Arr &f, ix row) {
      to.v.push_back(f.v[row]);
      ++to.shape[0];
    };
    for (const auto &s : r.from[o]) {
      const DA &f = in.bins[s.bin];
      push(t.data, f.data, s.row);
      for (auto &[d, c] : t.coords)
        push(c.a, f.coord(d)->a, s.row);
      for (auto &[n, c] : t.masks)
        push(c, *f.mask(n), s.row);
      for (auto &[d, c] : t.attrs)
        push(c, *f.attr(d), s.row);
    }
    r.out.bins.push_back(t);
  }
  // metadata of the output
  const auto put = [](auto &m, const auto &k, const auto &v) {
    for (auto &[kk, vv] : m)
      if (kk == k) {
        vv = v;
        return;
      }
    m.push_back({k, v});
  };
  const auto depends = [&](const Arr &a) {
    for (const auto &d : a.dims)
      if (d == EV || has(arg.erase, d) || key_of(d).first)
        return true;
    return false;
  };
  for (const auto &[d, c] : sample.coords)
    if (c.a.axis(EV) < 0 && !(key_of(d).first && key_of(d).second))
      put(r.out.coords, d, c);
  for (const auto &[d, c] : sample.attrs)
    if (c.axis(EV) < 0)
      put(r.out.attrs, d, c);
  for (const auto &[n, c] : sample.masks)
    if (c.axis(EV) < 0)
      put(r.out.masks, n, c);
  for (const auto &e : arg.edges)
    put(r.out.coords, inner(e), Coord{e, true});
  for (const auto &g : arg.groups)
    put(r.out.coords, inner(g), Coord{g, true});
  for (const auto &[d, c] : in.coords)
    if (!depends(c.a) && !r.out.coord(d))
      put(r.out.coords, d, c);
  for (const auto &[n, c] : in.masks)
    if (!depends(c))
      put(r.out.masks, n, c);
  for (const auto &[d, c] : in.attrs)
    if (!depends(c) && !r.out.coord(d))
      put(r.out.attrs, d, c);
  for (ix o = 0; o < nout; ++o) {
    const auto m = out_dims.unravel(o);
    for (const auto &[n, c] : r.out.masks)
      if (c.dims.size()) {
        bool moves = false;
        for (const auto &d : c.dims)
          moves = moves || has(moved, d);
        if (moves && at(c, out_dims, m).x != 0)
          r.hidden[o] = 1;
      }
  }
  return r;
}
/// Difference of binned data from the reference. The order of events from
/// different input bins is open if they lie in several dimensions.
inline std::string difference(const DA &got_, const Binned &want) {
  if (!got_.binned)
    return "is not binned";
  DA got = like(got_, want.out), w = want.out;
  if (got.data.dims != w.data.dims || got.data.shape != w.data.shape)
    return ds::difference(got, w);
  for (size_t o = 0; o < w.bins.size(); ++o) {
    auto &g = got.bins[o];
    auto &t = w.bins[o];
    if (want.hidden[o]) {
      t = g;
      continue;
    }
    // whether coordinates of events stay unaligned is open
    for (auto &[d, c] : t.coords)
      if (const auto *k = g.coord(d))
        c.aligned = k->aligned;
    if (g.data.dims != t.data.dims || g.data.v.size() != t.data.v.size())
      continue; // reported below
    if (!want.one_dim) {
      // bring the events in the order of the reference, unless those of one bin are out of order
      std::vector<ix> order;
      std::map<ix, ix> last;
      for (size_t e = 0; e < t.data.v.size(); ++e)
        for (size_t q = 0; q < g.data.v.size(); ++q)
          if (g.data.v[q].x == t.data.v[e].x) {
            const ix b = want.from[o][e].bin;
            if (last.count(b) && last[b] > ix(q))
              return "bin " + std::to_string(o) + ": events of one input bin are out of order";
            last[b] = q;
            order.push_back(q);
            break;
          }
      if (order.size() == t.data.v.size())
        g = take(g, g.data.dims[0], order);
    }
  }
  return ds::difference(got, w);
}
} // namespace ds
