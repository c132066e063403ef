// Reference for reductions of data arrays: the reduction of just the elements
// that contribute to each element of the result.
#pragma once
#include "ds.h"
#include "scipp/dataset/generated_bins.h"
#include "scipp/dataset/generated_reduction.h"
#include "scipp/dataset/groupby.h"
#include "scipp/dataset/mean.h"
#include "scipp/dataset/nanmean.h"
#include "scipp/variable/reduction.h"
#include <optional>
#include <set>

namespace redref {
using namespace ds;
struct Red {
  std::string name;
  std::function<DataArray(const DataArray &, Dim)> dim;
  std::function<DataArray(const DataArray &)> all;
  std::function<Dataset(const Dataset &, Dim)> set_dim;
  std::function<Dataset(const Dataset &)> set_all;
  std::function<DataArray(const DataArray &)> bins;
  std::function<Variable(const Variable &)> ref;
  std::function<DataArray(const DataArray &, Dim, Dim)> group;
};
#define RED0(N) \
  Red{#N, [](const DataArray &a, Dim d) { return sd::N(a, d); }, [](const DataArray &a) { return sd::N(a); }, \
      [](const Dataset &a, Dim d) { return sd::N(a, d); }, [](const Dataset &a) { return sd::N(a); }, \
      [](const DataArray &a) { return sd::bins_##N(a); }, [](const Variable &v) { return sv::N(v, v.dims().inner()); }, {}}
#define GROUP(N) [](const DataArray &a, Dim k, Dim d) { return sd::groupby(a, k).N(d); }
inline const std::vector<Red> &reductions() {
  static const auto r = [] {
    std::vector<Red> o{RED0(sum), RED0(nansum), RED0(mean), RED0(nanmean), RED0(min), RED0(max), RED0(nanmin), RED0(nanmax), RED0(all), RED0(any)};
    o[0].group = GROUP(sum);
    o[1].group = GROUP(nansum);
    o[2].group = GROUP(mean);
    o[4].group = GROUP(min);
    o[5].group = GROUP(max);
    o[6].group = GROUP(nanmin);
    o[7].group = GROUP(nanmax);
    o[8].group = GROUP(all);
    o[9].group = GROUP(any);
    return o;
  }();
  return r;
}
inline bool masked_at(const DA &a, const std::vector<ix> &pos, const std::set<Dim> &reduced) {
  for (const auto &[k, m] : a.masks) {
    bool relevant = false;
    for (const auto &d : m.dims)
      relevant |= reduced.count(d) > 0;
    if (!relevant)
      continue;
    std::vector<ix> p(m.dims.size());
    for (size_t i = 0; i < p.size(); ++i)
      p[i] = pos[a.data.axis(m.dims[i])];
    if (m.v[m.ravel(p)].x != 0)
      return true;
  }
  return false;
}
/// Events that are not masked.
inline Cells events(const DA &bin) {
  Cells r;
  for (ix i = 0; i < bin.data.volume(); ++i) {
    bool masked = false;
    for (const auto &[k, m] : bin.masks)
      masked |= m.v[m.dims.empty() ? 0 : i].x != 0;
    if (!masked)
      r.push_back(bin.data.v[i]);
  }
  return r;
}
inline const Arr &sample(const DA &a) { return a.binned ? a.bins.at(0).data : a.data; }
/// The reduction of just these elements.
inline Arr reduce(const Red &op, const Arr &like, const Cells &in) {
  Arr a = A(like.t, like.u, {Z}, {ix(in.size())}, in, like.var);
  return read(op.ref(make_plain(a)));
}
struct Expected {
  std::optional<DA> da;
  std::string error;
  bool unsure = false; ///< the variance of something that is not finite
};
template <class Elements> void fill(Expected &e, const Red &op, const DA &a, const Arr &out, Elements &&elements) {
  Arr data = out;
  data.v.clear();
  for (ix o = 0; o < out.volume(); ++o) {
    Arr one;
    e.error = raised([&] { one = reduce(op, sample(a), elements(out.unravel(o))); });
    if (!e.error.empty()) {
      e.da.reset();
      return;
    }
    data.t = one.t;
    data.u = one.u;
    data.var = one.var;
    data.v.push_back(one.v.at(0));
  }
  if (out.volume() == 0) {
    Arr one;
    e.error = raised([&] { one = reduce(op, sample(a), {}); });
    if (!e.error.empty()) {
      e.da.reset();
      return;
    }
    data.t = one.t;
    data.u = one.u;
    data.var = one.var;
  }
  e.da->data = data;
  e.da->binned = false;
  e.da->bins.clear();
}
inline Expected reduced(const Red &op, const DA &a, const std::set<Dim> &R, bool only_bins = false) {
  Expected e;
  e.da = DA();
  Arr out;
  for (size_t i = 0; i < a.data.dims.size(); ++i)
    if (!R.count(a.data.dims[i])) {
      out.dims.push_back(a.data.dims[i]);
      out.shape.push_back(a.data.shape[i]);
    }
  const auto keeps = [&](const Arr &x) {
    for (const auto &d : x.dims)
      if (R.count(d))
        return false;
    return true;
  };
  for (const auto &[k, c] : a.coords)
    if (keeps(c.a))
      e.da->coords.push_back({k, c});
  for (const auto &[k, c] : a.masks)
    if (keeps(c))
      e.da->masks.push_back({k, c});
  for (const auto &[k, c] : a.attrs)
    if (keeps(c))
      e.da->attrs.push_back({k, c});
  fill(e, op, a, out, [&](const std::vector<ix> &pos) {
    Cells in;
    for (ix i = 0; i < a.data.volume(); ++i) {
      const auto p = a.data.unravel(i);
      bool here = true;
      for (size_t k = 0; k < out.dims.size(); ++k)
        here &= p[a.data.axis(out.dims[k])] == pos[k];
      if (!here || (!only_bins && masked_at(a, p, R)))
        continue;
      if (!a.binned)
        in.push_back(a.data.v[i]);
      else
        for (const auto &c : events(a.bins[i]))
          in.push_back(c);
    }
    return in;
  });
  return e;
}
/// Groups of positions along a dimension.
inline Expected grouped(const Red &op, const DA &a, Dim d, Dim key, const Arr &labels, const std::vector<std::vector<ix>> &groups) {
  Expected e;
  e.da = DA();
  const int axis = a.data.axis(d);
  Arr out;
  out.dims = a.data.dims;
  out.shape = a.data.shape;
  out.dims[axis] = key;
  out.shape[axis] = groups.size();
  for (const auto &[k, c] : a.coords)
    if (c.a.axis(d) < 0)
      e.da->coords.push_back({k, c});
  e.da->coords.push_back({key, {labels, true}});
  for (const auto &[k, c] : a.masks)
    if (c.axis(d) < 0)
      e.da->masks.push_back({k, c});
  for (const auto &[k, c] : a.attrs)
    if (c.axis(d) < 0)
      e.da->attrs.push_back({k, c});
  fill(e, op, a, out, [&](std::vector<ix> pos) {
    Cells in;
    const ix g = pos[axis];
    for (const auto i : groups[g]) {
      pos[axis] = i;
      if (masked_at(a, pos, {d}))
        continue;
      if (a.binned)
        for (const auto &c : events(a.bins[a.data.ravel(pos)]))
          in.push_back(c);
      else
        in.push_back(a.data.v[a.data.ravel(pos)]);
    }
    return in;
  });
  return e;
}
/// Variances of what is not finite are not specified.
inline void forget(Arr &got, Arr &want) {
  for (size_t i = 0; i < got.v.size() && i < want.v.size(); ++i)
    if (!std::isfinite(want.v[i].x) && !(std::isfinite(got.v[i].x)))
      got.v[i].var = want.v[i].var = 0;
}
inline void unchanged(const DataArray &a, const DA &before) {
  const auto d = difference(read_da(a), before);
  if (!d.empty())
    throw vh::Fail{"operand", "the input was modified: " + d};
}
template <class F> void compare(vh::Explorer &E, const char *what, const std::string &op, const DA &a, const DataArray &x, const Expected &e, F &&f, bool may_raise = false) {
  DataArray got;
  const auto err = raised([&] { got = f(); });
  ++E.transitions;
  unchanged(x, a);
  const auto where = [&] { return " of " + std::string(what) + " for " + str(a); };
  if (err.empty() != e.da.has_value()) {
    if (e.da && may_raise) {
      E.tally["rejected: " + op]++;
      return;
    }
    E.check_lazy(false, "raise", [&] { return op + (e.da ? " raised " + err : std::string(" did not raise ") + e.error) + where(); });
    return;
  }
  if (!err.empty())
    return;
  auto g = read_da(got), w = *e.da;
  forget(g.data, w.data);
  const LD eps = g.data.t == dtype<float> ? 5e-7L : 1e-14L;
  const auto d = difference(g, w, {eps, eps});
  E.check_lazy(d.empty(), "result", [&] { return op + ": " + d + where(); });
}
#undef RED0
#undef GROUP
} // namespace redref
