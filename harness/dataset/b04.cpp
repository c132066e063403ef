// B04: group-by assigns every position to the one group of its key and reduces
// exactly the positions of each group: all sequences of keys up to a length, for
// labels of all types and for bins, compared with reductions of the groups.
#include "../common/redref.h"
#include <bit>

using namespace redref;
namespace {
using sd::GroupBy;
struct GroupOp {
  const Red *red;
  std::function<DataArray(const GroupBy<DataArray> &, Dim)> array;
  std::function<Dataset(const GroupBy<Dataset> &, Dim)> set;
};
const std::vector<GroupOp> &group_ops() {
  static const auto r = [] {
    std::vector<GroupOp> o;
    const auto find = [](const std::string &n) {
      for (const auto &x : reductions())
        if (x.name == n)
          return &x;
      throw std::runtime_error("no such reduction");
    };
#define OP(N) o.push_back({find(#N), [](const GroupBy<DataArray> &g, Dim d) { return g.N(d); }, [](const GroupBy<Dataset> &g, Dim d) { return g.N(d); }})
    OP(sum);
    OP(nansum);
    OP(mean);
    OP(min);
    OP(max);
    OP(nanmin);
    OP(nanmax);
    OP(all);
    OP(any);
#undef OP
    return o;
  }();
  return r;
}
std::vector<std::vector<int>> words(int n, int k) {
  std::vector<std::vector<int>> r{{}};
  for (int i = 0; i < n; ++i) {
    std::vector<std::vector<int>> s;
    for (const auto &x : r)
      for (int j = 0; j < k; ++j) {
        auto y = x;
        y.push_back(j);
        s.push_back(y);
      }
    r = s;
  }
  return r;
}
std::string str(const std::vector<int> &w) {
  std::string s;
  for (const auto i : w)
    s += " " + std::to_string(i);
  return s;
}
/// Keys in ascending order. Some are equal: 0 and -0, NaN with and without sign.
struct Key {
  std::string name;
  DType t;
  units::Unit u;
  std::vector<Cell> values;
  std::vector<int> rank;
};
const LD NNAN = -NAN_;
const std::vector<Key> &key_types() {
  static const auto r = [] {
    std::vector<Key> k;
    const auto num = [&](const char *n, DType t, units::Unit u, std::vector<LD> v, std::vector<int> rank) {
      Key x{n, t, u, {}, rank};
      for (const auto c : v)
        x.values.emplace_back(c);
      k.push_back(x);
    };
    num("float64", D, units::m, {-INF, -1.5, 0.0L, -0.0L, std::nextafter(1.0, 0.0), 1, INF, NAN_, NNAN}, {0, 1, 2, 2, 3, 4, 5, 6, 6});
    num("float32", F, units::none, {-1, 0.0L, -0.0L, std::nextafterf(1.f, 0.f), 1, NAN_, NNAN}, {0, 1, 1, 2, 3, 4, 4});
    num("int64", L, units::one, {-9223372036854775807.L, -1, 0, 9007199254740992.L, 9007199254740993.L}, {0, 1, 2, 3, 4});
    num("int32", I, units::s, {-2147483648.L, -1, 0, 1, 2147483647}, {0, 1, 2, 3, 4});
    num("bool", B, units::none, {0, 1}, {0, 1});
    num("datetime", T, units::ns, {-5, 0, 9007199254740992.L, 9007199254740993.L}, {0, 1, 2, 3});
    Key s{"string", S, units::none, {}, {0, 1, 2, 3, 4}};
    for (const char *c : {"", "B", "a", "aa", "b with a tail that is longer than the short string buffer"}) {
      Cell x;
      x.s = c;
      s.values.push_back(x);
    }
    k.push_back(s);
    return k;
  }();
  return r;
}
struct Kind {
  std::string name;
  DType t;
  bool var;
  units::Unit u = units::m;
};
const std::vector<Kind> kinds{{"float64", D, false}, {"float64 with variances", D, true}, {"float32", F, false}, {"int64", L, false, units::counts}, {"int32", I, false}, {"bool", B, false, units::none}, {"datetime", T, false, units::s}, {"vector", V, false}};
/// Powers of two: a sum tells what was added. With special: some NaN.
Cell value(const Kind &k, ix i, bool special) {
  Cell c(k.t == B ? (i * 5 + 1) % 3 == 0 : LD(ix(1) << (i % 20)) * (i % 3 == 2 && k.t != T ? -1 : 1), k.var ? LD(ix(1) << (i * 3 % 11)) : 0);
  if (k.t == V) {
    c.y = c.x + 1;
    c.z = -c.x;
  }
  if (special && (k.t == D || k.t == F) && i % 3 == 1)
    c.x = NAN_;
  return c;
}
void fill(DA &a, const Kind &k, bool special) {
  a.data.t = k.t;
  a.data.u = k.u;
  a.data.var = k.var;
  a.data.v.clear();
  for (ix i = 0; i < a.data.volume(); ++i)
    a.data.v.push_back(value(k, i, special));
}
void fill_bins(DA &a, const Kind &k, const std::vector<int> &sizes) {
  a.binned = true;
  ix e = 0;
  for (ix i = 0; i < a.data.volume(); ++i) {
    DA b;
    b.data = A(k.t, k.u, {EV}, {sizes[i % sizes.size()]}, {}, k.var);
    Arr c = A(D, units::m, {EV}, b.data.shape, {});
    for (ix j = 0; j < b.data.volume(); ++j, ++e) {
      b.data.v.push_back(value(k, e, false));
      c.v.push_back(Cell((e * 3) % 5));
    }
    b.coords.push_back({Dim("ec"), {c, true}});
    a.bins.push_back(b);
  }
}
DA shaped(std::vector<Dim> d, std::vector<ix> s, bool meta = true) {
  DA a;
  a.data = A(D, units::m, d, s, {});
  if (!meta)
    return a;
  for (size_t i = 0; i < d.size(); ++i) {
    a.coords.push_back({d[i], {iota({d[i]}, {s[i] + 1}, 3, units::m), true}});
    a.coords.push_back({Dim("lab_" + to_string(d[i])), {iota({d[i]}, {s[i]}, 3, units::m), i == 0}});
    a.attrs.push_back({Dim("att_" + to_string(d[i])), iota({d[i]}, {s[i]}, 3, units::m)});
  }
  if (d.size() == 2)
    a.coords.push_back({Dim("lab2"), {iota(d, s, 3, units::m), true}});
  a.coords.push_back({Dim("scalar"), {iota({}, {}, 3), false}});
  return a;
}
struct Groups {
  Arr labels;
  std::vector<std::vector<ix>> members;
};
Groups by_label(const Key &k, const std::vector<int> &w, Dim name) {
  std::map<int, std::vector<ix>> g;
  std::map<int, Cell> first;
  for (size_t i = 0; i < w.size(); ++i) {
    const int r = k.rank[w[i]];
    if (!g.count(r))
      first[r] = k.values[w[i]];
    g[r].push_back(i);
  }
  Groups o;
  o.labels = A(k.t, k.u, {name}, {ix(g.size())}, {});
  for (const auto &[r, m] : g) {
    o.labels.v.push_back(first[r]);
    o.members.push_back(m);
  }
  return o;
}
Groups by_bins(const Arr &edges, const Arr &key) {
  Groups o;
  o.labels = edges;
  for (size_t b = 0; b + 1 < edges.v.size(); ++b) {
    o.members.emplace_back();
    for (size_t i = 0; i < key.v.size(); ++i)
      if (edges.v[b].x <= key.v[i].x && key.v[i].x < edges.v[b + 1].x)
        o.members.back().push_back(i);
  }
  return o;
}
/// All reductions of the groups.
template <class G> void reduce_groups(vh::Explorer &E, const DA &model, const DataArray &x, Dim d, Dim key, const Groups &g, G &&make_groups, const std::string &what, bool sets, int only = -1) {
  const auto before = read_da(x);
  int i = 0;
  for (const auto &op : group_ops()) {
    if (only >= 0 && only != i++)
      continue;
    if (sample(model).t == V && op.red->name.substr(0, 3) == "nan")
      continue;
    const auto want = grouped(*op.red, model, d, key, g.labels, g.members);
    // without members the type of elements may go unnoticed
    if (!want.da && std::all_of(g.members.begin(), g.members.end(), [](const auto &m) { return m.empty(); }))
      continue;
    const bool may = op.red->name == "mean" && model.binned;
    compare(E, what.c_str(), op.red->name, before, x, want, [&] { return op.array(make_groups(x), d); }, may);
    if (sets) {
      Dataset s;
      s.setDataInit("a", x);
      // item with another dtype, in front of the same groups
      compare(E, (what + " (dataset)").c_str(), op.red->name, before, x, want, [&] {
        const auto r = op.set(make_groups(s), d);
        if (r.size() != 1)
          throw std::runtime_error("number of items");
        return DataArray(r["a"]);
      }, may);
    }
  }
}
/// Events of the groups, in order.
DA concatenated(const DA &a, Dim d, Dim key, const Groups &g) {
  DA r;
  r.binned = true;
  r.plain_bins = a.plain_bins;
  const int axis = a.data.axis(d);
  r.data = a.data;
  // the dimension of groups comes last or at the same place: not compared
  r.data.dims[axis] = key;
  r.data.shape[axis] = g.members.size();
  for (ix o = 0; o < r.data.volume(); ++o) {
    auto pos = r.data.unravel(o);
    const auto grp = pos[axis];
    DA bin = rows(a.bins.at(0), EV, 0, 0);
    for (const auto i : g.members[grp]) {
      pos[axis] = i;
      const auto &b = a.bins[a.data.ravel(pos)];
      for (ix e = 0; e < b.data.volume(); ++e) {
        bin.data.v.push_back(b.data.v[e]);
        ++bin.data.shape[0];
        for (size_t c = 0; c < b.coords.size(); ++c) {
          bin.coords[c].second.a.v.push_back(b.coords[c].second.a.v[e]);
          ++bin.coords[c].second.a.shape[0];
        }
      }
    }
    r.bins.push_back(bin);
  }
  for (const auto &[k, c] : a.coords)
    if (c.a.axis(d) < 0)
      r.coords.push_back({k, c});
  r.coords.push_back({key, {g.labels, true}});
  for (const auto &[k, c] : a.attrs)
    if (c.axis(d) < 0)
      r.attrs.push_back({k, c});
  return r;
}
template <class G> void concat_groups(vh::Explorer &E, const DA &model, const DataArray &x, Dim d, Dim key, const Groups &g, G &&make_groups, const std::string &what, bool may_raise) {
  const auto before = read_da(x);
  DataArray got;
  const auto err = raised([&] { got = make_groups(x).concat(d); });
  ++E.transitions;
  unchanged(x, before);
  const auto where = [&] { return " of " + what + " for " + ds::str(model); };
  if (!err.empty()) {
    if (may_raise)
      E.tally["rejected: concat " + to_string(g.labels.t)]++;
    else
      E.check_lazy(false, "raise", [&] { return "concat raised " + err + where(); });
    return;
  }
  auto want = concatenated(model, d, key, g);
  auto have = read_da(got);
  if (have.binned && have.data.dims != want.data.dims && have.data.dims.size() == want.data.dims.size()) {
    // any order of dimensions
    const auto r = read_da(DataArray(got.data().transpose(want.data.dims)));
    have.data = r.data;
    have.bins = r.bins;
  }
  // other metadata: see B01
  have.attrs.clear();
  want.attrs.clear();
  if (floating(g.labels.t) && g.labels.shape[0] == ix(g.members.size()) && !g.members.empty() && std::isnan(g.labels.v.back().x) && have.binned && have.bins.size() == want.bins.size()) {
    // the group of NaN is the last one
    const int axis = want.data.axis(key);
    for (size_t i = 0; i < want.bins.size(); ++i)
      if (want.data.unravel(i)[axis] + 1 == ix(g.members.size())) {
        E.check_lazy(difference(have.bins[i], want.bins[i], {}).empty(), "nan-concat", [&] { return "events of the group of NaN are not as expected" + where(); });
        have.bins[i] = want.bins[i];
      }
  }
  const auto d2 = difference(have, want, {});
  E.check_lazy(d2.empty(), "concat", [&] { return "concat: " + d2 + where(); });
}
Arr key_array(const Key &k, const std::vector<int> &w, Dim d) {
  Arr a = A(k.t, k.u, {d}, {ix(w.size())}, {});
  for (const auto i : w)
    a.v.push_back(k.values[i]);
  return a;
}
const Dim KEY("key");
} // namespace

VH_EXPLORE(B04) {
  const auto label = [](const auto &x) { return sd::groupby(x, KEY); };
  // all sequences of labels of each type
  for (const auto &k : key_types()) {
    const int letters = k.values.size();
    const int longest = E.thorough ? (letters <= 2 ? 12 : letters <= 5 ? 7 : 6) : (letters <= 2 ? 10 : letters <= 5 ? 6 : letters <= 7 ? 5 : 4);
    for (int n = 0; n <= longest; ++n) {
      const int chunks = std::max<int>(1, std::pow(letters, n) / 60);
      for (int c = 0; c < chunks; ++c)
        E.run([&] { return "labels of type " + k.name + ", length " + std::to_string(n) + ", part " + std::to_string(c); },
              [&] {
                if (n > 1)
                  E.nontrivial();
                const auto all = words(n, letters);
                for (size_t i = c; i < all.size(); i += chunks) {
                  const auto &w = all[i];
                  const auto g = by_label(k, w, KEY);
                  const auto what = "labels" + str(w) + " of type " + k.name;
                  auto a = shaped({X}, {n});
                  fill(a, kinds[i % 2], false);
                  a.coords.push_back({KEY, {key_array(k, w, X), i % 3 != 0}});
                  const auto x = make_da(a, 0, i % num_layouts);
                  // what the groups are
                  {
                    const auto q = label(x);
                    E.check_lazy(q.size() == ix(g.members.size()) && q.dim() == KEY, "groups", [&] { return "number of groups of " + what; });
                    const auto d = arr::difference(read(q.key()), g.labels);
                    E.check_lazy(d.empty(), "labels", [&] { return "labels of " + what + ": " + d; });
                    if (d.empty())
                      for (size_t j = 0; j < g.members.size(); ++j) {
                        std::vector<ix> members;
                        for (const auto &s : q.groups()[j])
                          for (ix p = s.begin(); p < s.end(); ++p)
                            members.push_back(p);
                        E.check_lazy(members == g.members[j], "members", [&] { return "positions of group " + std::to_string(j) + " of " + what; });
                      }
                  }
                  reduce_groups(E, a, x, X, KEY, g, label, what, i % 16 == 5, n < 4 ? -1 : int(i % 9));
                  if (n > 0 && (n < 4 || i % 4 == 0)) {
                    auto b = shaped({X}, {n});
                    fill_bins(b, kinds[i % 2], {2, 0, 1, 3});
                    b.coords.push_back({KEY, {key_array(k, w, X), true}});
                    const auto y = make_da(b, i % 4);
                    concat_groups(E, b, y, X, KEY, g, label, what, false);
                    if (i % 3 == 0)
                      reduce_groups(E, b, y, X, KEY, g, label, what, false);
                  }
                }
              });
    }
  }
  // bins of each type
  for (const auto t : {D, F, L, I}) {
    const bool fp = t == D || t == F;
    const auto edge_sets = std::vector<std::vector<LD>>{{0, 1}, {0, 1, 2}, {0, 0, 1}, {0, 1, 1, 2}, {-1, 0, 2}, {0}, {2, 1, 0}, {1, 2, 1}, {0, 1, 2, 3}, {}, {NAN_, 0, 1}, {0, NAN_, 1}, {0, 1, NAN_}};
    for (size_t e = 0; e < edge_sets.size() - (fp ? 0 : 3); ++e) {
      std::vector<LD> values{-1, 0, 1, 2, 3};
      if (fp)
        values = {-1, 0, -0.0L, 0.5, t == D ? LD(std::nextafter(1.0, 0.0)) : LD(std::nextafterf(1.f, 0.f)), 1, 2, NAN_, INF};
      const int longest = fp ? 4 : 5;
      const bool sorted = e < 9 && std::is_sorted(edge_sets[e].begin(), edge_sets[e].end());
      for (int n = 0; n <= (sorted ? longest : 2); ++n) {
        const int chunks = std::max<int>(1, std::pow(values.size(), n) / 60);
        for (int c = 0; c < chunks; ++c)
          E.run([&] { return "bins " + std::to_string(e) + " of type " + to_string(t) + ", length " + std::to_string(n) + ", part " + std::to_string(c); },
                [&] {
                  if (n > 1)
                    E.nontrivial();
                  Arr edges = A(t, units::m, {KEY}, {ix(edge_sets[e].size())}, {});
                  for (const auto v : edge_sets[e])
                    edges.v.push_back(Cell(v));
                  const auto all = words(n, values.size());
                  for (size_t i = c; i < all.size(); i += chunks) {
                    const auto &w = all[i];
                    auto a = shaped({X}, {n});
                    fill(a, kinds[i % 2], false);
                    Arr key = A(t, units::m, {X}, {n}, {});
                    for (const auto j : w)
                      key.v.push_back(Cell(values[j]));
                    const Dim coord("values");
                    a.coords.push_back({coord, {key, true}});
                    const auto g = by_bins(edges, key);
                    const auto what = "bins " + arr::str(edges) + " of " + arr::str(key);
                    const auto x = make_da(a, 0, i % num_layouts);
                    const auto bins = make(edges, i % 2 ? 2 : 0).view;
                    const auto group = [&](const auto &z) { return sd::groupby(z, coord, bins); };
                    const auto by_variable = [&](const auto &z) { return sd::groupby(z, make(key, i % 3 ? 0 : 2).view, bins); };
                    if (!sorted) {
                      E.check_lazy(!raised([&] { group(x); }).empty(), "raise", [&] { return "did not raise for " + what; });
                      continue;
                    }
                    const auto q = group(x);
                    E.check_lazy(q.size() == ix(g.members.size()), "groups", [&] { return "number of groups of " + what; });
                    for (size_t j = 0; j < g.members.size(); ++j) {
                      std::vector<ix> members;
                      for (const auto &s : q.groups()[j])
                        for (ix p = s.begin(); p < s.end(); ++p)
                          members.push_back(p);
                      E.check_lazy(members == g.members[j], "members", [&] { return "positions of group " + std::to_string(j) + " of " + what; });
                    }
                    if (i % 2)
                      reduce_groups(E, a, x, X, KEY, g, group, what, i % 16 == 5, n < 3 ? -1 : int(i % 9));
                    else
                      reduce_groups(E, a, x, X, KEY, g, by_variable, what, i % 16 == 6, n < 3 ? -1 : int(i % 9));
                    if (n > 0 && n < 4) {
                      auto b = shaped({X}, {n});
                      fill_bins(b, kinds[i % 2], {2, 0, 1, 3});
                      b.coords.push_back({coord, {key, true}});
                      const auto y = make_da(b, i % 4);
                      if (edge_sets[e].size() > 1)
                        reduce_groups(E, b, y, X, KEY, g, group, what, false, int(i % 9));
                    }
                  }
                });
      }
    }
  }
  // concatenation within bins: the coordinate has the name of the bins
  for (const auto t : {D, F, L, I})
    for (int n = 1; n <= 4; ++n)
      for (size_t e = 0; e < 3; ++e)
        E.run([&] { return "concatenating bins within bins " + std::to_string(e) + " of type " + to_string(t) + ", length " + std::to_string(n); },
              [&] {
                E.nontrivial();
                const std::vector<LD> values{-1, 0, 1, 2, 3};
                Arr edges = A(t, units::m, {KEY}, {}, {});
                const std::vector<std::vector<LD>> sets{{0, 1}, {0, 1, 2}, {-1, 0, 2, 3}};
                for (const LD v : sets[e])
                  edges.v.push_back(Cell(v));
                edges.shape = {ix(edges.v.size())};
                size_t i = 0;
                for (const auto &w : words(n, 5)) {
                  ++i;
                  Arr key = A(t, units::m, {X}, {n}, {});
                  for (const auto j : w)
                    key.v.push_back(Cell(values[j]));
                  auto b = shaped({X}, {n});
                  fill_bins(b, kinds[i % 2], {2, 0, 1, 3});
                  b.coords.push_back({KEY, {key, true}});
                  const auto y = make_da(b, i % 4);
                  const auto bins = make_plain(edges);
                  concat_groups(E, b, y, X, KEY, by_bins(edges, key), [&](const auto &z) { return sd::groupby(z, KEY, bins); }, "bins " + arr::str(edges) + " of " + arr::str(key), false);
                }
              });
  // all ways to divide longer sequences among two and three groups
  for (int n : {9, 10, 11})
    for (unsigned part = 0; part < 16; ++part)
      E.run([&] { return "two groups of " + std::to_string(n) + ", part " + std::to_string(part); },
            [&] {
              E.nontrivial();
              const auto &k = key_types()[2];
              for (unsigned bits = part; bits < (1u << n); bits += 16) {
                if (!E.thorough && n == 11 && bits % 3)
                  continue;
                std::vector<int> w;
                for (int i = 0; i < n; ++i)
                  w.push_back(1 + ((bits >> i) & 1));
                auto a = shaped({X}, {n}, false);
                fill(a, kinds[1], false);
                a.coords.push_back({KEY, {key_array(k, w, X), true}});
                reduce_groups(E, a, make_da(a), X, KEY, by_label(k, w, KEY), label, "labels" + str(w), false, bits % 8);
              }
            });
  // element types, dimensions and layouts
  for (const auto &k : kinds)
    for (int order = 0; order < 3; ++order)
      for (const Dim d : {X, Y})
        for (const int name : {0, 1})
          for (const bool special : {false, true})
            E.run([&] { return k.name + (order == 0 ? " (x,y)" : order == 1 ? " (y,x)" : " (x,y,z)") + " along " + to_string(d) + (name ? " by the dimension's coordinate" : "") + (special ? " with NaN" : ""); },
                  [&] {
                    E.nontrivial();
                    const auto &kt = key_types()[2];
                    const Dim key = name ? d : KEY;
                    const ix n = 3;
                    int c = 0;
                    for (const auto &w : words(n, 3))
                      for (int layout = 0; layout < num_layouts; ++layout) {
                        if (!E.thorough && c++ % 5 % 3)
                          continue;
                        std::vector<ix> s = order == 0 ? std::vector<ix>{n, 2} : order == 1 ? std::vector<ix>{2, n} : std::vector<ix>{n, 2, 2};
                        std::vector<Dim> dims = order == 0 ? std::vector<Dim>{X, Y} : order == 1 ? std::vector<Dim>{Y, X} : std::vector<Dim>{X, Y, Z};
                        if (d == Y)
                          std::swap(s[0], s[1]);
                        auto a = shaped(dims, s, layout != 5);
                        if (name)
                          a.coords.erase(std::remove_if(a.coords.begin(), a.coords.end(), [&](const auto &q) { return q.first == d; }), a.coords.end());
                        auto b = a;
                        const auto g = by_label(kt, w, key);
                        const auto by = [&](const auto &z) { return sd::groupby(z, key); };
                        fill(a, k, special);
                        for (auto *z : {&a, &b})
                          z->coords.push_back({key, {key_array(kt, w, d), true}});
                        reduce_groups(E, a, make_da(a, 0, layout), d, key, g, by, "labels" + str(w), layout == 0);
                        if (!special) {
                          fill_bins(b, k, {2, 1, 0, 1, 3});
                          const auto y = make_da(b, layout % 4);
                          reduce_groups(E, b, y, d, key, g, by, "labels" + str(w), layout == 0);
                          concat_groups(E, b, y, d, key, g, by, "labels" + str(w), name); // name of an existing dimension
                        }
                      }
                  });
  // by an attribute, and datasets of several items
  E.run([] { return std::string("attributes as labels, several items, transposed items"); },
        [&] {
          E.nontrivial();
          const auto &kt = key_types()[2];
          for (const auto &w : words(4, 3)) {
            auto a = shaped({X}, {4});
            fill(a, kinds[0], false);
            auto b = a, c = shaped({X, Y}, {4, 2});
            a.attrs.push_back({KEY, key_array(kt, w, X)});
            const auto g = by_label(kt, w, KEY);
            reduce_groups(E, a, make_da(a), X, KEY, g, label, "attribute" + str(w), false);
            Dataset s;
            b.coords.push_back({KEY, {key_array(kt, w, X), true}});
            b.masks.push_back({"m", A(B, units::none, {X}, {4}, {Cell(1), Cell(0), Cell(1), Cell(0)})});
            auto b2 = b;
            b2.masks.clear();
            fill(b2, kinds[3], false);
            s.setDataInit("one", make_da(b));
            s.setData("two", make_da(b2));
            const auto before_s = copy(s);
            for (const auto &op : group_ops()) {
              Dataset r;
              const auto want1 = grouped(*op.red, read_da(s["one"]), X, KEY, g.labels, g.members), want2 = grouped(*op.red, read_da(s["two"]), X, KEY, g.labels, g.members);
              const auto err = raised([&] { r = op.set(label(s), X); });
              ++E.transitions;
              E.check_lazy(err.empty() == (want1.da && want2.da), "raise", [&] { return op.red->name + " of a dataset: " + err; });
              E.check(s == before_s, "operand", "the dataset was modified");
              if (!err.empty())
                continue;
              for (const auto &[n, e] : {std::pair{"one", &want1}, std::pair{"two", &want2}}) {
                const auto d = difference(read_da(r[n]), *e->da, {1e-14L, 1e-14L});
                E.check_lazy(d.empty(), "dataset", [&] { return op.red->name + " item " + n + ": " + d + " for labels" + str(w); });
              }
            }
          }
        });
  // keys that cannot be used
  E.run([] { return std::string("keys that are rejected"); },
        [&] {
          E.nontrivial();
          for (const auto &k : key_types()) {
            auto a = shaped({X, Y}, {3, 2});
            fill(a, kinds[0], false);
            const auto w = std::vector<int>{0, 1, 0, 1, 0, 1};
            const auto with = [&](const Arr &key) {
              auto b = a;
              b.coords.push_back({KEY, {key, true}});
              return make_da(b);
            };
            auto two = key_array(k, w, X);
            two.dims = {X, Y};
            two.shape = {3, 2};
            auto zero = key_array(k, {0}, X);
            zero.dims = {};
            zero.shape = {};
            const auto edges = key_array(k, {0, 1, 0, 1}, X);
            for (const Arr *key : std::initializer_list<const Arr *>{&two, &zero, &edges}) {
              const auto x = with(*key);
              const auto before = read_da(x);
              ++E.transitions;
              E.check_lazy(!raised([&] { label(x).sum(X); }).empty(), "raise", [&] { return "grouping did not raise for " + arr::str(*key); });
              unchanged(x, before);
              if (k.t == D || k.t == F || k.t == L || k.t == I) {
                Arr e = A(k.t, k.u, {KEY}, {3}, {Cell(0), Cell(1), Cell(2)});
                E.check_lazy(!raised([&] { sd::groupby(x, KEY, make_plain(e)).sum(X); }).empty(), "raise", [&] { return "grouping with bins did not raise for " + arr::str(*key); });
                E.check_lazy(!raised([&] { sd::groupby(make_da(a), make_plain(*key), make_plain(e)).sum(X); }).empty(), "raise", [&] { return "grouping by variable did not raise for " + arr::str(*key); });
              }
            }
            E.check(!raised([&] { sd::groupby(make_da(a), Dim("missing")); }).empty(), "raise", "a missing key did not raise");
            // bins of another unit, type or number of dimensions
            const auto good = with(key_array(k, {0, 1, 0}, X));
            if (k.t == D || k.t == F || k.t == L || k.t == I) {
              const auto e = [&](DType t, units::Unit u, std::vector<Dim> d, std::vector<ix> s) { return make_plain(iota(d, s, 0, u, t)); };
              E.check(raised([&] { sd::groupby(good, KEY, e(k.t, k.u, {KEY}, {4})).sum(X); }).empty(), "raise", "bins of the same unit and type raised");
              E.check(raised([&] { sd::groupby(good, KEY, e(k.t, units::kg, {KEY}, {4})); }) == "UnitError", "raise", "bins of another unit did not raise");
              E.check(!raised([&] { sd::groupby(good, KEY, e(k.t == D ? F : D, k.u, {KEY}, {4})); }).empty(), "raise", "bins of another type did not raise");
              E.check(!raised([&] { sd::groupby(good, KEY, e(k.t, k.u, {KEY, Y}, {2, 2})); }).empty(), "raise", "bins of 2 dimensions did not raise");
              E.check(!raised([&] { sd::groupby(good, KEY, e(k.t, k.u, {}, {})); }).empty(), "raise", "bins without dimension did not raise");
            } else
              E.check(!raised([&] { sd::groupby(good, KEY, make_plain(key_array(k, {0, 1}, KEY))); }).empty(), "raise", "bins of type " + k.name + " did not raise");
            // data that is not binned cannot be concatenated
            E.check(!raised([&] { label(good).concat(X); }).empty(), "raise", "concatenating dense data did not raise");
          }
        });
}
VH_MAIN
