// M03: masked elements never contribute: every reduction, group-by, rebinning,
// binning and histogramming with all mask patterns gives what it gives without
// the masked elements.
#include "../common/redref.h"
#include "scipp/dataset/bin.h"
#include "scipp/dataset/generated_bins.h"
#include "scipp/dataset/generated_reduction.h"
#include "scipp/dataset/groupby.h"
#include "scipp/dataset/histogram.h"
#include "scipp/dataset/mean.h"
#include "scipp/dataset/nanmean.h"
#include "scipp/dataset/rebin.h"
#include "scipp/variable/reduction.h"
#include <optional>
#include <set>

using namespace redref;
namespace {
using scipp::dataset::Masks;
// --- inputs ----------------------------------------------------------------
Arr mask(std::vector<Dim> d, std::vector<ix> s, unsigned bits) {
  Arr a = A(B, units::none, std::move(d), std::move(s), {});
  for (ix i = 0; i < a.volume(); ++i)
    a.v.push_back(Cell((bits >> i) & 1));
  return a;
}
struct Kind {
  std::string name;
  DType t;
  bool var;
  units::Unit u = units::m;
};
const std::vector<Kind> kinds{{"float64", D, false}, {"float64 with variances", D, true}, {"float32", F, false}, {"int64", L, false, units::counts}, {"int32", I, false}, {"bool", B, false, units::none}, {"datetime", T, false, units::s}, {"vector", V, false}};
Cell value(const Kind &k, ix i) {
  Cell c(k.t == B ? (i * 5 + 1) % 3 == 0 : ((i * 7 + 3) % 11 - 4) * (k.t == D || k.t == F || k.t == V ? 0.5L : 1), k.var ? 0.25L * (i % 4 + 1) : 0);
  if (k.t == V) {
    c.y = c.x + 1;
    c.z = -c.x;
  }
  return c;
}
/// What masked elements hold.
Cell poison(const Kind &k, ix i, Cell c) {
  if (k.t == B)
    c.x = !c.x;
  else if (k.t == D || k.t == F || k.t == V) {
    c.x = i % 3 == 0 ? NAN_ : i % 3 == 1 ? INF : -1e30L; // infinities of one sign only: see the findings of O06
    if (k.t == V)
      c.y = c.x;
    if (k.var)
      c.var = i % 2 ? NAN_ : 1e300L;
  } else if (k.t == I)
    c.x = i % 2 ? 2147483647 : -2147483648.L;
  else
    c.x = i % 2 ? 9223372036854775807.L : -9223372036854775807.L;
  return c;
}
/// how: 0: ordinary values, 1: masked elements are special, 2: and some others too
void set_data(DA &a, const Kind &k, int how) {
  a.data.t = k.t;
  a.data.u = k.u;
  a.data.var = k.var;
  a.data.v.clear();
  std::set<Dim> dims(a.data.dims.begin(), a.data.dims.end());
  for (ix i = 0; i < a.data.volume(); ++i) {
    auto c = value(k, i);
    if (how == 2 && i % 4 == 1 && (k.t == D || k.t == F))
      c.x = NAN_;
    if (how && masked_at(a, a.data.unravel(i), dims))
      c = poison(k, i, c);
    a.data.v.push_back(c);
  }
}
void add_meta(DA &a) {
  const auto n = [&](Dim d) { return a.data.shape[a.data.axis(d)]; };
  for (const auto d : a.data.dims) {
    a.coords.push_back({d, {iota({d}, {n(d) + 1}, 3, units::m), true}});
    a.coords.push_back({Dim("lab_" + to_string(d)), {iota({d}, {n(d)}, 3, units::m), d == X}});
    a.attrs.push_back({Dim("att_" + to_string(d)), iota({d}, {n(d)}, 3, units::m)});
  }
  a.coords.push_back({Dim("scalar"), {iota({}, {}, 3), false}});
}
/// Events: sizes of the bins and the pattern of the event mask.
void set_bins(DA &a, const Kind &k, const std::vector<int> &sizes, std::optional<unsigned> bits, int how) {
  a.binned = true;
  ix e = 0;
  std::set<Dim> dims(a.data.dims.begin(), a.data.dims.end());
  for (ix i = 0; i < a.data.volume(); ++i) {
    DA b;
    b.data = A(k.t, k.u, {EV}, {sizes[i % sizes.size()]}, {}, k.var);
    Arr c = A(D, units::m, {EV}, b.data.shape, {}), m = A(B, units::none, {EV}, b.data.shape, {});
    const bool hidden = masked_at(a, a.data.unravel(i), dims);
    for (ix j = 0; j < b.data.volume(); ++j, ++e) {
      const bool masked = bits && ((*bits >> e) & 1);
      auto v = value(k, e);
      if (how && (masked || hidden))
        v = poison(k, e, v);
      b.data.v.push_back(v);
      c.v.push_back(Cell((e * 3) % 5));
      m.v.push_back(Cell(masked));
    }
    b.coords.push_back({X, {c, true}});
    if (bits)
      b.masks.push_back({"em", m});
    a.bins.push_back(b);
  }
}
void all_reductions(vh::Explorer &E, const DA &a, int layout, int bin_layout, bool sets = false) {
  const auto x = make_da(a, bin_layout, layout);
  const auto before = read_da(x);
  const auto set = Dataset(x);
  for (const auto &op : reductions()) {
    // not specified for vectors
    if (sample(before).t == V && op.name.substr(0, 3) == "nan")
      continue;
    const bool bins_all_any = a.binned;
    for (const auto d : before.data.dims) {
      compare(E, to_string(d).c_str(), op.name, before, x, reduced(op, before, {d}), [&] { return op.dim(x, d); }, bins_all_any && (op.name.find("mean") != op.name.npos));
      if (sets)
        compare(E, (to_string(d) + " (dataset)").c_str(), op.name, before, x, reduced(op, before, {d}), [&] { const auto r = op.set_dim(set, d); return DataArray(*r.begin()); }, bins_all_any && (op.name.find("mean") != op.name.npos));
    }
    compare(E, "everything", op.name, before, x, reduced(op, before, {before.data.dims.begin(), before.data.dims.end()}), [&] { return op.all(x); });
    if (sets)
      compare(E, "everything (dataset)", op.name, before, x, reduced(op, before, {before.data.dims.begin(), before.data.dims.end()}), [&] { const auto r = op.set_all(set); return DataArray(*r.begin()); });
    if (a.binned) {
      auto e = reduced(op, before, {}, true);
      compare(E, "bins", op.name, before, x, e, [&] { return op.bins(x); });
    }
  }
}
/// All ways to group n positions, as keys.
std::vector<std::vector<int>> all_keys(int n, int k) {
  std::vector<std::vector<int>> r{{}};
  for (int i = 0; i < n; ++i) {
    std::vector<std::vector<int>> s;
    for (const auto &x : r)
      for (int j = 0; j < k; ++j) {
        auto y = x;
        y.push_back(j);
        s.push_back(y);
      }
    r = s;
  }
  return r;
}
void all_groups(vh::Explorer &E, DA a, Dim d, const std::vector<int> &keys, int layout, int bin_layout) {
  Arr key = A(L, units::one, {d}, {ix(keys.size())}, {});
  for (const auto k : keys)
    key.v.push_back(Cell(k));
  a.coords.push_back({Dim("key"), {key, true}});
  const auto x = make_da(a, bin_layout, layout);
  const auto before = read_da(x);
  std::map<int, std::vector<ix>> g;
  for (size_t i = 0; i < keys.size(); ++i)
    g[keys[i]].push_back(i);
  Arr labels = A(L, units::one, {Dim("key")}, {ix(g.size())}, {});
  std::vector<std::vector<ix>> groups;
  for (const auto &[k, p] : g) {
    labels.v.push_back(Cell(k));
    groups.push_back(p);
  }
  const bool wide = [&] {
    for (const auto &[k, m] : a.masks)
      if (m.dims.size() > 1)
        return true;
    return false;
  }();
  const bool event_masks = a.binned && !a.bins.empty() && !a.bins[0].masks.empty();
  for (const auto &op : reductions())
    if (op.group && !(sample(before).t == V && op.name.substr(0, 3) == "nan"))
      compare(E, "groups", op.name, before, x, grouped(op, before, d, Dim("key"), labels, groups), [&] { return op.group(x, Dim("key"), d); },
              event_masks || (op.name == "mean" && (wide || a.binned)));
}
DA emptied(const DA &a, const std::set<Dim> &R) {
  DA r = a;
  for (ix i = 0; i < a.data.volume(); ++i)
    if (masked_at(a, a.data.unravel(i), R)) {
      if (a.binned)
        r.bins[i] = rows(a.bins[i], EV, 0, 0);
      else
        r.data.v[i] = Cell(0);
    }
  r.masks.clear();
  for (const auto &[k, m] : a.masks) {
    bool keep = true;
    for (const auto &d : m.dims)
      keep &= !R.count(d);
    if (keep)
      r.masks.push_back({k, m});
  }
  return r;
}
/// The same call for the data and for the data without what is masked.
template <class F> void both(vh::Explorer &E, const std::string &what, const DA &a, const DA &b, int layout, int bin_layout, F &&f) {
  const auto x = make_da(a, bin_layout, layout), y = make_da(b, bin_layout, layout);
  const auto before = read_da(x);
  DataArray got, want;
  const auto e1 = raised([&] { got = f(x); }), e2 = raised([&] { want = f(y); });
  ++E.transitions;
  unchanged(x, before);
  E.check_lazy(e1.empty() == e2.empty(), "raise", [&] { return what + " with masks: " + e1 + ", without: " + e2 + " for " + str(a); });
  if (!e1.empty()) {
    E.tally["rejected: " + what]++;
    return;
  }
  const auto d = difference(read_da(got), read_da(want), {1e-14, 1e-14});
  E.check_lazy(d.empty(), "result", [&] { return what + ": " + d + " for " + str(a); });
}
} // namespace

VH_EXPLORE(M03) {
  // one dimension, two masks and one that does not matter
  for (const auto &k : kinds)
    for (int n = 0; n <= 4; ++n)
      for (unsigned m1 = 0; m1 <= (1u << n); ++m1)
        for (int how = 0; how < 3; ++how)
          E.run([&] { return k.name + " of length " + std::to_string(n) + ", mask " + std::to_string(m1) + ", values " + std::to_string(how); },
                [&] {
                  for (unsigned m2 = 0; m2 <= (1u << n); ++m2) {
                    DA a;
                    a.data = mask({X}, {n}, 0);
                    if (m1 < (1u << n))
                      a.masks.push_back({"m", mask({X}, {n}, m1)});
                    if (m2 < (1u << n))
                      a.masks.push_back({"k", mask({X}, {n}, m2)});
                    set_data(a, k, how);
                    a.masks.push_back({"s", mask({}, {}, 1)});
                    add_meta(a);
                    if (m1 || m2)
                      E.nontrivial();
                    all_reductions(E, a, (m1 + m2) % 3 * 2, 0, how == 1);
                  }
                });
  // two dimensions
  for (const auto &k : kinds)
    for (unsigned mx = 0; mx < 5; ++mx)
      for (unsigned my = 0; my < 9; ++my)
        for (int order = 0; order < 2; ++order)
          E.run([&] { return k.name + " (" + (order ? "y,x" : "x,y") + "), masks " + std::to_string(mx) + " and " + std::to_string(my); },
                [&] {
                  E.nontrivial();
                  for (unsigned mxy = 0; mxy <= 64; ++mxy) {
                    if (!E.thorough && mxy != 64 && mxy % 13 != (mx + my) % 13)
                      continue;
                    for (int how = 1; how < 3; ++how) {
                      if (!E.thorough && how % 2 != ix(mxy) % 2)
                        continue;
                      DA a;
                      a.data = order ? mask({Y, X}, {3, 2}, 0) : mask({X, Y}, {2, 3}, 0);
                      if (mx < 4)
                        a.masks.push_back({"mx", mask({X}, {2}, mx)});
                      if (mxy < 64)
                        a.masks.push_back({"mxy", mxy % 2 ? mask({X, Y}, {2, 3}, mxy) : mask({Y, X}, {3, 2}, mxy)});
                      if (my < 8)
                        a.masks.push_back({"my", mask({Y}, {3}, my)});
                      set_data(a, k, how);
                      add_meta(a);
                      all_reductions(E, a, mxy % 6, 0);
                    }
                  }
                });
  // extents and three dimensions
  for (const auto &k : kinds)
    for (const auto &shape : std::vector<std::vector<ix>>{{0, 2}, {2, 0}, {1, 1}, {2, 1}, {1, 3}, {2, 2, 2}, {3, 1, 2}, {2, 0, 2}})
      E.run([&] { return k.name + " of " + std::to_string(shape.size()) + " dimensions " + std::to_string(shape[0]) + "," + std::to_string(shape[1]); },
            [&] {
              E.nontrivial();
              std::vector<Dim> dims{X, Y, Z};
              dims.resize(shape.size());
              for (unsigned subset = 1; subset < (1u << dims.size()); ++subset)
                for (unsigned bits : {0b10110101u, 0b01010011u, 0xffu})
                  for (unsigned subset2 = 0; subset2 < (1u << dims.size()); ++subset2) {
                    DA a;
                    a.data = mask(dims, shape, 0);
                    const auto add = [&](const char *name, unsigned set, unsigned b) {
                      Arr m = mask({}, {}, 0);
                      for (size_t i = 0; i < dims.size(); ++i)
                        if ((set >> i) & 1) {
                          m.dims.push_back(dims[i]);
                          m.shape.push_back(shape[i]);
                        }
                      a.masks.push_back({name, mask(m.dims, m.shape, b)});
                    };
                    add("m", subset, bits);
                    if (subset2)
                      add("k", subset2, bits >> 3);
                    set_data(a, k, 1);
                    all_reductions(E, a, subset % 6, 0, true);
                  }
            });
  // binned data with masks of bins and of events
  const std::vector<std::vector<int>> sizes{{2, 1, 2}, {0, 3, 1}, {1, 0, 0}, {0, 0, 0}};
  for (const auto &k : kinds)
    for (size_t s = 0; s < sizes.size(); ++s)
      for (int n : {1, 3})
        for (unsigned m1 = 0; m1 <= (1u << n); ++m1)
          E.run([&] { return k.name + " in " + std::to_string(n) + " bins, sizes " + std::to_string(s) + ", mask " + std::to_string(m1); },
                [&] {
                  E.nontrivial();
                  for (unsigned em = 0; em <= 32; ++em) {
                    DA a;
                    a.data = mask({X}, {n}, 0);
                    if (m1 < (1u << n))
                      a.masks.push_back({"m", mask({X}, {n}, m1)});
                    set_bins(a, k, sizes[s], em == 32 ? std::nullopt : std::optional<unsigned>(em), 1);
                    add_meta(a);
                    all_reductions(E, a, 0, em % 4);
                  }
                });
  for (const auto &k : kinds)
    for (unsigned mx = 0; mx < 5; ++mx)
      for (unsigned my = 0; my < 5; ++my)
        E.run([&] { return k.name + " in bins (x,y), masks " + std::to_string(mx) + " and " + std::to_string(my); },
              [&] {
                E.nontrivial();
                for (unsigned mxy = 0; mxy <= 16; ++mxy)
                  for (const auto em : std::vector<std::optional<unsigned>>{std::nullopt, 0u, 21u, 38u, 255u}) {
                    if (!E.thorough && mxy != 16 && mxy % 3 != (mx + my) % 3)
                      continue;
                    DA a;
                    a.data = mask({X, Y}, {2, 2}, 0);
                    if (mx < 4)
                      a.masks.push_back({"mx", mask({X}, {2}, mx)});
                    if (my < 4)
                      a.masks.push_back({"my", mask({Y}, {2}, my)});
                    if (mxy < 16)
                      a.masks.push_back({"mxy", mask({Y, X}, {2, 2}, mxy)});
                    set_bins(a, k, {2, 0, 1, 3}, em, 1);
                    all_reductions(E, a, 0, mxy % 4);
                  }
              });
  // group-by
  for (const auto &k : kinds)
    for (int n = 1; n <= 4; ++n)
      for (const auto &keys : all_keys(n, n < 4 ? n : 2))
        E.run([&] {
          std::string s = k.name + " grouped by";
          for (const auto i : keys)
            s += " " + std::to_string(i);
          return s;
        },
              [&] {
                E.nontrivial();
                for (unsigned m1 = 0; m1 <= (1u << n); ++m1)
                  for (const int second : {-1, 0, 6}) {
                    DA a;
                    a.data = mask({X}, {n}, 0);
                    if (m1 < (1u << n))
                      a.masks.push_back({"m", mask({X}, {n}, m1)});
                    if (second >= 0)
                      a.masks.push_back({"k", mask({X}, {n}, second)});
                    a.masks.push_back({"s", mask({}, {}, 1)});
                    add_meta(a);
                    DA b = a;
                    set_data(a, k, 1);
                    all_groups(E, a, X, keys, m1 % 3 * 2, 0);
                    set_data(a, k, 2);
                    all_groups(E, a, X, keys, m1 % 3 * 2, 0);
                    set_bins(b, k, {2, 1, 0}, second == 0 ? std::optional<unsigned>(5) : std::nullopt, 1);
                    all_groups(E, b, X, keys, 0, m1 % 4);
                  }
              });
  for (const auto &k : kinds)
    for (const auto &keys : all_keys(3, 3))
      for (const Dim d : {X, Y})
        E.run([&] {
          std::string s = k.name + " (x,y) grouped along " + to_string(d) + " by";
          for (const auto i : keys)
            s += " " + std::to_string(i);
          return s;
        },
              [&] {
                E.nontrivial();
                for (unsigned mx : {8u, 2u, 5u})
                  for (unsigned my : {4u, 1u})
                    for (unsigned mxy = 0; mxy <= 64; mxy += E.thorough ? 1 : 16) {
                      if (!E.thorough && (k.t == F || k.t == I || k.t == T) && mxy % 3)
                        continue;
                      DA a;
                      a.data = d == X ? mask({X, Y}, {3, 2}, 0) : mask({X, Y}, {2, 3}, 0);
                      const auto n = a.data.shape;
                      const Dim o = d == X ? Y : X;
                      if (mx < 8)
                        a.masks.push_back({"md", mask({d}, {3}, mx)});
                      if (my < 4)
                        a.masks.push_back({"mo", mask({o}, {2}, my)});
                      if (mxy < 64)
                        a.masks.push_back({"mxy", mxy % 2 ? mask({X, Y}, n, mxy) : mask({Y, X}, {n[1], n[0]}, mxy)});
                      add_meta(a);
                      DA b = a;
                      set_data(a, k, 1);
                      all_groups(E, a, d, keys, mxy % 6, 0);
                      set_bins(b, k, {2, 1, 0, 1}, std::nullopt, 1);
                      all_groups(E, b, d, keys, 0, mxy % 4);
                    }
              });
  // rebinning, histogramming and binning
  const auto edges = [](std::vector<LD> v, Dim d = X) {
    Arr a = A(D, units::m, {d}, {ix(v.size())}, {});
    for (const auto x : v)
      a.v.push_back(Cell(x));
    return make_plain(a);
  };
  const std::vector<std::vector<LD>> grids{{0, 5}, {0, 1, 2, 3, 4, 5}, {0.5, 2.5, 3}, {1, 4, 4.5}};
  for (const auto &k : kinds) {
    if (k.t == T || k.t == V)
      continue;
    for (unsigned mx = 0; mx <= 8; ++mx)
      for (unsigned my = 0; my <= 4; ++my)
        E.run([&] { return k.name + ", rebin, histogram and bin with masks " + std::to_string(mx) + " and " + std::to_string(my); },
              [&] {
                E.nontrivial();
                for (unsigned mxy = 0; mxy <= 64; ++mxy) {
                  if (!E.thorough && mxy != 64 && mxy % 11 != (mx + my) % 11)
                    continue;
                  for (int order = 0; order < 2; ++order) {
                    DA a;
                    a.data = order ? mask({Y, X}, {2, 3}, 0) : mask({X, Y}, {3, 2}, 0);
                    if (mx < 8)
                      a.masks.push_back({"mx", mask({X}, {3}, mx)});
                    if (mxy < 64)
                      a.masks.push_back({"mxy", mask({X, Y}, {3, 2}, mxy)});
                    if (my < 4)
                      a.masks.push_back({"my", mask({Y}, {2}, my)});
                    DA b = a, h = a;
                    set_data(a, k, 1);
                    a.coords.push_back({X, {iota({X}, {4}, 0, units::m), true}});
                    for (const auto &g : grids)
                      both(E, "rebin", a, emptied(a, {X}), mxy % 3 * 2, 0, [&](const DataArray &x) { return rebin(x, X, edges(g)); });
                    if (k.t == D || k.t == F || k.t == L || k.t == I) {
                      set_data(h, k, 1);
                      for (const bool two : {false, true}) {
                        DA p = h;
                        p.coords.push_back({X, {two ? iota({X, Y}, {3, 2}, 0, units::m) : iota({X}, {3}, 0, units::m), true}});
                        if (!two)
                          for (const auto &g : grids)
                            both(E, "histogram", p, emptied(p, {X}), mxy % 3 * 2, 0, [&](const DataArray &x) { return histogram(x, edges(g)); });
                      }
                      set_bins(b, k, {2, 1, 3, 0}, mxy % 2 ? std::optional<unsigned>(mxy * 5) : std::nullopt, 1);
                      // without masked events
                      DA c = emptied(b, {X});
                      DA f = c;
                      for (auto &t : f.bins)
                        if (!t.masks.empty()) {
                          std::vector<ix> keep;
                          for (ix i = 0; i < t.data.volume(); ++i)
                            if (t.masks[0].second.v[i].x == 0)
                              keep.push_back(i);
                          t = take(t, EV, keep);
                          t.masks.clear();
                        }
                      for (const auto &g : grids) {
                        both(E, "histogram of bins", b, f, 0, mxy % 4, [&](const DataArray &x) { return histogram(x, edges(g)); });
                        if (my == 4) {
                          both(E, "bin along the same dimension", b, c, 0, mxy % 4, [&](const DataArray &x) { return bin(x, {edges(g)}); });
                          if (mxy == 64)
                            both(E, "bin and join", b, emptied(b, {X, Y}), 0, mxy % 4, [&](const DataArray &x) { return bin(x, {edges(g)}, {}, {Y}); });
                        }
                      }
                      if (my == 4) {
                        DA q = b, r = c;
                        for (auto *z : {&q, &r})
                          z->coords.push_back({Dim("key"), {A(L, units::one, {X}, {3}, {Cell(2), Cell(1), Cell(2)}), true}});
                        both(E, "groupby.concat", q, r, 0, mxy % 4, [&](const DataArray &x) { return groupby(x, Dim("key")).concat(X); });
                      }
                    }
                  }
                }
              });
  }
}
VH_MAIN
