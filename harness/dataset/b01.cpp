// B01: binning and grouping put every event in exactly the right bin.
#include "../common/binref.h"
#include "scipp/dataset/bin.h"
#include "scipp/dataset/shape.h"

using namespace ds;

namespace {
const Dim U("u");
std::vector<Variable> vars(const std::vector<Arr> &v, int layout = 0) {
  std::vector<Variable> r;
  for (const auto &a : v)
    r.push_back(layout ? make(a, layout).view : make_plain(a));
  return r;
}
template <class T> void set_all(Variable v, T value) {
  for (auto &x : v.values<T>())
    x = value;
}
/// Modify what belongs to the output, i.e. events and masks.
void spoil(DataArray &out) {
  for (const auto &[k, m] : out.masks())
    set_all<bool>(m, true);
  for (const auto &[k, m] : out.masks())
    for (auto &x : Variable(m).values<bool>())
      x = !x;
  auto buffer = out.data().bin_buffer<DataArray>();
  const auto spoil_var = [](const Variable &v) {
    if (v.dtype() == D)
      set_all<double>(v, -77);
    else if (v.dtype() == L)
      set_all<int64_t>(v, -77);
    else if (v.dtype() == B)
      set_all<bool>(v, false);
  };
  spoil_var(buffer.data());
  for (const auto &[k, m] : buffer.masks())
    spoil_var(m);
  for (const auto &[k, m] : buffer.coords())
    spoil_var(m);
}
void compare(vh::Explorer &E, const DataArray &in, const DA &model, const BinArgs &arg, int key_layout = 0) {
  ++E.transitions;
  const auto what = [&] { return "bin(" + ds::str(model) + ";" + ds::str(arg) + ")"; };
  std::optional<DataArray> out;
  std::string err;
  try {
    out = sd::bin(in, vars(arg.edges, key_layout), vars(arg.groups, key_layout), arg.erase);
  } catch (const std::exception &e) {
    err = e.what();
  }
  E.check_lazy(out.has_value(), "rejected", [&] { return what() + " raised " + err.substr(0, 300); });
  const auto w = bin_ref(model, arg);
  const auto g = read_da(*out);
  const auto d = ds::difference(g, w);
  E.check_lazy(d.empty(), "result", [&] { return what() + ": " + d + "; got " + ds::str(g); });
  spoil(*out); // (that the input is as before is checked after this)
}
void unchanged(vh::Explorer &E, const DataArray &in, const DA &model, const char *what) {
  const auto d = ds::difference(read_da(in), model);
  E.check_lazy(d.empty(), "operand-modified", [&] { return std::string(what) + " changed its input: " + d; });
}
template <class F> void rejects(vh::Explorer &E, const char *what, F &&f) {
  ++E.transitions;
  E.check_lazy(!raised(f).empty(), "accepted", [&] { return std::string(what) + " was accepted"; });
}

/// A table of events with ids as data.
DA table(ix n, bool var = true) {
  DA t;
  t.data = iota({EV}, {n}, 1, units::counts, D, var);
  return t;
}
Arr column(const std::vector<LD> &v, DType t = D, units::Unit u = units::m) {
  Arr a = A(t, t == T ? units::ns : (t == S || t == B) ? units::one : u, {EV}, {ix(v.size())}, {});
  for (const auto x : v) {
    Cell c(x);
    c.s = "s" + std::to_string(long(x));
    a.v.push_back(c);
  }
  return a;
}
Arr key(Dim d, const std::vector<LD> &v, DType t = D, units::Unit u = units::m) {
  Arr a = column(v, t, u);
  a.dims = {d};
  return a;
}
std::string list(const std::vector<LD> &v) {
  std::string s;
  for (const auto x : v)
    s += " " + num(x);
  return "[" + s + " ]";
}

// --- tables ----------------------------------------------------------------
template <class F> void sequences(const std::vector<LD> &alphabet, size_t n, F &&f) {
  std::vector<LD> s(n);
  std::vector<size_t> i(n, 0);
  for (;;) {
    for (size_t k = 0; k < n; ++k)
      s[k] = alphabet[i[k]];
    f(s);
    size_t k = n;
    while (k > 0 && ++i[k - 1] == alphabet.size())
      i[--k] = 0;
    if (k == 0)
      return;
  }
}
void one_edge(vh::Explorer &E) {
  struct Fam {
    std::vector<LD> edges, values;
  };
  const LD e = 1 + 0x1p-52L, m = 1 - 0x1p-53L;
  const std::vector<Fam> fams{
      {{0, 1, 2, 3}, {-0.5L, 0, 0.5L, 1, 2, 2.5L, 3, NAN_}},
      {{0, 1, 3}, {-0.5L, 0, 0.5L, 1, 2.5L, 3, INF, NAN_}},
      {{0, 1}, {-INF, -0.0L, 0.5L, m, 1, e, NAN_}},
      {{0, 1, 1, 2}, {-1, 0, m, 1, e, 2, 3}},
      {{1, 1}, {0, m, 1, e, 2}},
      {{0, 0, 1, 1}, {-1, 0, 0.5L, 1, 2}},
      {{-INF, 0, INF}, {-INF, -1, 0, 1, INF, NAN_}},
      {{-3, -1, 1, 3}, {-4, -3, -2, -1, 0, 1, 3, NAN_}},
      {{0.1, 0.1 + 0.1, 0.1 + 0.2, 0.4}, {0.1, 0.2, 0.1 + 0.2, 0.3, 0.4, 0.25L, 0}},
      {{1e15, 1e15 + 1, 1e15 + 2}, {1e15, 1e15 + 0.5L, 1e15 + 1, 1e15 + 2, 1e15 - 1, 0}},
      {{1e16, 1e16 + 2, 1e16 + 4, 1e16 + 20}, {1e16, 1e16 + 2, 1e16 + 4, 1e16 + 6, 1e16 + 18, 1e16 + 20}},
      {{1, e, 1 + 0x1p-51L, 1 + 0x1p-49L}, {m, 1, e, 1 + 0x1p-51L, 1 + 3 * 0x1p-51L, 1 + 0x1p-49L}},
  };
  for (const auto &f : fams)
    for (size_t n = 0; n <= (E.thorough ? 5 : 4); ++n)
      for (size_t first = 0; first < (n ? f.values.size() : 1); ++first)
        E.run([&] { return "tables of " + std::to_string(n) + " events in edges " + list(f.edges) + ", first value " + (n ? num(f.values[first]) : ""); }, [&] {
          if (n)
            E.nontrivial();
          const auto go = [&](std::vector<LD> s) {
            if (n)
              s.insert(s.begin(), f.values[first]);
            DA t = table(n);
            t.coords.push_back({X, {column(s), true}});
            compare(E, make_da(t), t, {{key(X, f.edges)}, {}, {}});
          };
          if (n < 2)
            go({});
          else
            sequences(f.values, n - 1, go);
        });
}
void one_group(vh::Explorer &E) {
  struct Fam {
    DType ct, kt;
    std::vector<LD> groups, values;
  };
  const LD big = 4294967296.0L;
  std::vector<Fam> fams;
  const std::vector<std::vector<LD>> labels{{1, 2, 3}, {3, 1, 2}, {1, 3}, {5}, {-1, 0, 1}, {3, 2, 1}, {1, 2, 4}};
  for (const auto [ct, kt] : std::vector<std::pair<DType, DType>>{{L, L}, {I, I}, {L, I}, {I, L}, {D, D}, {F, F}, {S, S}, {T, T}})
    for (const auto &g : labels)
      fams.push_back({ct, kt, g, {0, 1, 2, 3, 4, -1}});
  fams.push_back({L, I, {1, 3}, {1, 3, big + 1, big + 3, -big + 1, 2}});
  fams.push_back({L, I, {1, 2, 3}, {1, 3, big + 1, big + 3, -big + 1, 2}});
  fams.push_back({L, I, {-1, 5}, {-1, 5, big - 1, big + 5, 4, -big - 1}});
  fams.push_back({L, L, {1, 2, 3}, {1, 9223372036854775807.0L, -9223372036854775807.0L, 3, big, 4}});
  fams.push_back({L, L, {9223372036854775806.0L, 9223372036854775807.0L}, {1, 9223372036854775807.0L, -9223372036854775807.0L, -3, 9223372036854775806.0L, -9223372036854775807.0L - 1}});
  fams.push_back({L, L, {-9223372036854775807.0L - 1, -9223372036854775807.0L}, {1, 9223372036854775807.0L, -9223372036854775807.0L, -3, 0, -9223372036854775807.0L - 1}});
  fams.push_back({I, I, {2147483646, 2147483647}, {2147483647, -2147483648.0L, -2147483647, 0, 2147483646, 1}});
  fams.push_back({I, I, {-2147483648.0L, -2147483647}, {2147483647, -2147483648.0L, -2147483647, 0, 2147483646, 1}});
  fams.push_back({I, L, {-2147483648.0L, 2147483647}, {2147483647, -2147483648.0L, -2147483647, 0, 2147483646, 1}});
  fams.push_back({L, L, {-5, 9007199254740993.0L}, {9007199254740992.0L, 9007199254740993.0L, 9007199254740994.0L, -5}});
  fams.push_back({B, B, {0, 1}, {0, 1}});
  fams.push_back({B, B, {1, 0}, {0, 1}});
  fams.push_back({B, B, {1}, {0, 1}});
  fams.push_back({D, D, {-0.0L, 1.5L}, {0, -0.0L, 1.5L, 1, NAN_, INF}});
  fams.push_back({D, D, {INF, 1.5L, -INF}, {0, 1.5L, NAN_, INF, -INF}});
  for (const auto &f : fams)
    for (size_t n = 0; n <= (E.thorough ? 5 : 4); ++n)
      E.run([&] { return "tables of " + std::to_string(n) + " events in groups " + list(f.groups) + " of " + to_string(f.ct) + ", " + to_string(f.kt); }, [&] {
        if (n)
          E.nontrivial();
        const auto go = [&](const std::vector<LD> &s) {
          DA t = table(n, false);
          t.coords.push_back({X, {column(s, f.ct), true}});
          compare(E, make_da(t), t, {{}, {key(X, f.groups, f.kt)}, {}});
        };
        if (n == 0)
          go({});
        else
          sequences(f.values, n, go);
      });
}
void types(vh::Explorer &E) {
  for (const auto [ct, kt] : std::vector<std::pair<DType, DType>>{{D, D}, {F, F}, {L, L}, {I, I}, {T, T}, {L, D}, {I, D}, {F, D}, {D, F}, {I, L}})
    for (const auto &ed : std::vector<std::vector<LD>>{{0, 2, 4}, {0, 1, 4}, {-2, 0}, {1, 1, 2}})
      for (int variances = 0; variances < 2; ++variances)
        E.run([&] { return "coordinate " + to_string(ct) + ", edges " + list(ed) + " " + to_string(kt); }, [&] {
          E.nontrivial();
          const bool frac = ct == D || ct == F;
          const std::vector<LD> vals = frac ? std::vector<LD>{-2, -0.5L, 0, 1, 1.5L, 2, 4} : std::vector<LD>{-2, -1, 0, 1, 2, 3, 4};
          sequences(vals, 3, [&](const std::vector<LD> &s) {
            DA t = table(3, variances);
            t.coords.push_back({X, {column(s, ct), true}});
            compare(E, make_da(t), t, {{key(X, ed, kt)}, {}, {}});
          });
        });
  // types of data and metadata
  for (const DType dt : {D, F, L, I, B, S, T, V})
    for (const auto &ed : std::vector<std::vector<LD>>{{0, 2, 4}, {0, 1, 4}})
      E.run([&] { return "data " + to_string(dt); }, [&] {
        E.nontrivial();
        sequences({-1, 0, 1, 2, 3.5L}, 3, [&](const std::vector<LD> &s) {
          DA t;
          t.data = iota({EV}, {3}, 1, dt == T ? units::s : units::one, dt);
          if (dt == V)
            for (auto &c : t.data.v)
              c.y = c.x + 10, c.z = c.x + 20;
          t.coords.push_back({X, {column(s), true}});
          t.coords.push_back({Y, {iota({EV}, {3}, 5, units::one, dt), false}});
          t.coords.push_back({Z, {iota({}, {}, 7, units::K, D, true), true}});
          t.attrs.push_back({U, iota({EV}, {3}, 3, units::s, I)});
          t.attrs.push_back({Dim("w"), iota({}, {}, 3, units::s, I)});
          t.masks.push_back({"m", iota({EV}, {3}, 1, units::none, B)});
          t.masks.push_back({"m0", iota({}, {}, 1, units::none, B)});
          for (const int layout : {0, 1}) {
            const auto in = make_da(t);
            compare(E, in, t, {{key(X, ed)}, {}, {}}, layout * 2);
            unchanged(E, in, t, "bin");
          }
        });
      });
}
void several_keys(vh::Explorer &E) {
  const auto xe = key(X, {0, 1, 2}), xi = key(X, {0, 0.5L, 2}), ye = key(Y, {0, 1, 2, 5}, D, units::s), zg = key(Z, {1, 3}, L, units::one), zc = key(Z, {1, 2}, L, units::one), ug = key(U, {7, 6}, S);
  const std::vector<BinArgs> args{{{xe, ye}, {}, {}},       {{ye, xi}, {}, {}},     {{xe}, {zg}, {}},           {{xi}, {zc}, {}},
                                  {{xe, ye}, {zg}, {}},     {{}, {zg, ug}, {}},     {{}, {ug, zc}, {}},         {{ye}, {ug, zg}, {}},
                                  {{xi, ye}, {zc, ug}, {}}, {{key(X, {9, 10})}, {zg}, {}}, {{xe}, {key(Z, {5}, L, units::one)}, {}}};
  for (const auto &a : args)
    E.run([&] { return "several keys:" + ds::str(a); }, [&] {
      E.nontrivial();
      // every event is one of the corners
      std::vector<std::array<LD, 4>> ev;
      for (const LD x : {0.25L, 1.0L, 2.0L})
        for (const LD y : {0.0L, 4.0L})
          for (const LD z : {1.0L, 3.0L})
            for (const LD u : {6.0L, 8.0L})
              ev.push_back({x, y, z, u});
      ev.push_back({NAN_, 0, 1, 6});
      std::vector<LD> which;
      for (size_t i = 0; i < ev.size(); ++i)
        which.push_back(i);
      sequences(which, E.thorough ? 3 : 2, [&](const std::vector<LD> &s) {
        DA t = table(s.size());
        std::vector<LD> c[4];
        for (const auto i : s)
          for (int k = 0; k < 4; ++k)
            c[k].push_back(ev[i][k]);
        t.coords.push_back({X, {column(c[0]), true}});
        t.coords.push_back({Y, {column(c[1], D, units::s), true}});
        t.coords.push_back({Z, {column(c[2], L, units::one), true}});
        t.attrs.push_back({U, column(c[3], S)});
        compare(E, make_da(t), t, a);
      });
    });
}

// --- binned input ----------------------------------------------------------
struct Ev {
  ix bin;
  LD x, y, u;
};
/// Binned data over dimensions, with coordinates x, y, u of the events.
DA binned(const std::vector<Dim> &dims, const std::vector<ix> &shape, const std::vector<Ev> &ev, bool ex, bool ey, bool eu = true) {
  DA r;
  r.binned = true;
  r.data = A(D, units::none, dims, shape, {});
  ix id = 1;
  for (ix b = 0; b < r.data.volume(); ++b) {
    std::vector<LD> x, y, u;
    const ix first = id;
    for (const auto &e : ev)
      if (e.bin == b) {
        x.push_back(e.x);
        y.push_back(e.y);
        u.push_back(e.u);
        ++id;
      }
    DA t;
    t.data = iota({EV}, {ix(x.size())}, first, units::counts, D, true);
    if (ex)
      t.coords.push_back({X, {column(x), true}});
    if (ey)
      t.coords.push_back({Y, {column(y, D, units::s), true}});
    if (eu)
      t.coords.push_back({U, {column(u, L, units::one), true}});
    r.bins.push_back(t);
  }
  return r;
}
DataArray make_in(const DA &m, int form) {
  // forms: 0..3 layout of the bins, 4: transposed, 5: slice
  if (form < 4)
    return make_da(m, form);
  if (form == 4) {
    std::vector<Dim> order(m.data.dims.rbegin(), m.data.dims.rend());
    return sd::transpose(make_da(permuted(m, order)), m.data.dims);
  }
  if (m.data.dims.empty())
    return make_da(m, 1);
  // longer along the first dimension, with junk
  const Dim d = m.data.dims[0];
  const ix n = m.data.shape[0];
  if (n == 0)
    return make_da(m, 3);
  DA big = m;
  auto idx = range(0, n);
  idx.insert(idx.begin(), n - 1);
  idx.push_back(0);
  big.data.shape[0] = n + 2;
  big.bins = take_bins(m.data, m.bins, d, idx);
  for (auto &[k, c] : big.coords) {
    if (c.a.axis(d) < 0)
      continue;
    if (is_edges(c.a, m.data, d)) {
      auto e = range(0, n + 1);
      e.insert(e.begin(), 0);
      e.push_back(n);
      c.a = take(c.a, d, e);
    } else
      c.a = take(c.a, d, idx);
  }
  for (auto &[k, c] : big.masks)
    c = take(c, d, idx);
  for (auto &[k, c] : big.attrs)
    c = take(c, d, idx);
  const auto s = make_da(big, 1).slice({d, 1, n + 1});
  return s;
}
std::vector<std::vector<LD>> subsets(const std::vector<LD> &g, int min, int max) {
  std::vector<std::vector<LD>> r;
  for (unsigned m = 0; m < (1u << g.size()); ++m) {
    std::vector<LD> s;
    for (size_t i = 0; i < g.size(); ++i)
      if (m >> i & 1)
        s.push_back(g[i]);
    if (int(s.size()) >= min && int(s.size()) <= max)
      r.push_back(s);
  }
  return r;
}
/// All ways to put events into bins with edges and all new edges.
void rebin(vh::Explorer &E) {
  const std::vector<LD> grid{-1, 0, 0.5L, 1, 1.5L, 2, 3, 4};
  struct In {
    std::vector<Dim> dims;
    std::vector<ix> shape;
    std::vector<LD> edges; // of x
    size_t n;
    int max_edges;
  };
  const std::vector<In> ins{{{X}, {1}, {0, 2}, 3, 5},          {{X}, {2}, {0, 1, 2}, 3, 4},       {{X}, {3}, {0, 1, 2, 3}, 2, 8},
                            {{X}, {2}, {0, 1, 3}, 2, 8},       {{X}, {3}, {0, 1, 1, 3}, 2, 4},    {{Y, X}, {2, 2}, {0, 1, 3}, 2, 4},
                            {{X, Y}, {2, 2}, {0, 1, 3}, 2, 4}, {{X, Y}, {3, 2}, {0, 1, 2, 3}, 1, 4}, {{Y, X}, {1, 3}, {0, 1, 2, 3}, 2, 3},
                            {{X}, {2}, {2, 1, 0}, 2, 4}};
  for (const auto &in : ins)
    for (const int with_y : {0, 1})
      for (const auto &ne : subsets(grid, 2, in.max_edges)) {
        if (with_y && (in.dims.size() < 2 || ne.size() > 3))
          continue;
        E.run([&] { return "binned in " + std::to_string(in.dims.size()) + " dimensions with edges " + list(in.edges) + " rebinned to " + list(ne) + (with_y ? " and y" : ""); }, [&] {
          E.nontrivial();
          // possible events: in every bin at the left edge, within, and just below the right edge
          std::vector<Ev> kinds;
          Arr labels = A(D, units::one, in.dims, in.shape, {});
          for (ix b = 0; b < labels.volume(); ++b) {
            const auto m = labels.unravel(b);
            const ix j = m[labels.axis(X)];
            const LD y = labels.axis(Y) >= 0 ? m[labels.axis(Y)] : 0;
            const LD lo = std::min(in.edges[j], in.edges[j + 1]), hi = std::max(in.edges[j], in.edges[j + 1]);
            if (lo == hi)
              continue;
            kinds.push_back({b, lo, y, 1});
            kinds.push_back({b, lo + (hi - lo) / 2, y + 0.5L, 2});
            kinds.push_back({b, hi - 0.125L, y, 1});
          }
          std::vector<LD> which;
          for (size_t i = 0; i < kinds.size(); ++i)
            which.push_back(i);
          const auto go = [&](const std::vector<LD> &s) {
            std::vector<Ev> ev;
            for (const auto i : s)
              ev.push_back(kinds[i]);
            DA m = binned(in.dims, in.shape, ev, true, in.dims.size() > 1);
            m.coords.push_back({X, {key(X, in.edges), true}});
            BinArgs arg{{key(X, ne)}, {}, {}};
            if (with_y)
              arg.edges.push_back(key(Y, {0, 0.5L, 3}, D, units::s));
            compare(E, make_in(m, s.size() % 2 ? 3 : 0), m, arg);
          };
          if (in.n == 0 || which.empty())
            go({});
          else
            sequences(which, in.n, go);
        });
      }
}
/// Many kinds of arguments, metadata and layouts for a few contents.
void forms(vh::Explorer &E) {
  struct Shape {
    std::vector<Dim> dims;
    std::vector<ix> shape;
  };
  const std::vector<Shape> shapes{{{}, {}}, {{X}, {3}}, {{Y}, {2}}, {{X, Y}, {3, 2}}, {{Y, X}, {2, 3}}, {{X, Y}, {2, 3}}, {{Z, X}, {2, 3}}, {{X, Z}, {3, 2}}, {{X, Z, Y}, {2, 2, 2}}, {{Y, Z, X}, {2, 2, 2}}, {{X, Y}, {3, 0}}, {{X, Y}, {0, 2}}};
  const auto xe = key(X, {0, 1, 2, 3}), xi = key(X, {0, 0.5L, 2.5L}), xw = key(X, {-1, 4}), xn = key(X, {5, 6, 8}), ye = key(Y, {0, 0.5L, 2}, D, units::s), ug = key(U, {2, 5, 1}, L, units::one), uc = key(U, {1, 2}, L, units::one), ue = key(U, {1, 2, 4}, D, units::one);
  Arr x2 = A(D, units::m, {Y, X}, {2, 3}, {{0}, {1}, {3}, {0.5L}, {0.75L}, {2}});
  Arr x2z = A(D, units::m, {Z, X}, {2, 3}, {{0}, {1}, {3}, {0.5L}, {0.75L}, {2}});
  std::vector<BinArgs> args{{{xe}, {}, {}},      {{xi}, {}, {}},       {{xw}, {}, {}},       {{xn}, {}, {}},      {{ye}, {}, {}},       {{ye, xi}, {}, {}},
                            {{xi, ye}, {}, {}},  {{}, {ug}, {}},       {{}, {uc}, {}},       {{ue}, {}, {}},      {{xi}, {ug}, {}},     {{ue}, {}, {X}},
                            {{ue}, {}, {Y}},     {{}, {uc}, {X}},      {{}, {uc}, {X, Y}},   {{xi}, {}, {Y}},     {{ye}, {uc}, {X}},    {{ue}, {}, {X, Y}},
                            {{ue}, {}, {Y, X}},  {{ue, xi, ye}, {}, {}}, {{x2}, {}, {}},     {{x2, ue}, {}, {}},  {{x2z}, {}, {}},      {{ue}, {}, {Z}},
                            {{xi}, {}, {Z}}};
  for (const auto &sh : shapes)
    for (const auto &arg : args) {
      const Arr labels = A(D, units::one, sh.dims, sh.shape, {});
      bool ok = true;
      for (const auto &d : arg.erase)
        ok = ok && labels.axis(d) >= 0;
      for (const auto &e : arg.edges)
        if (e.dims.size() > 1) {
          // edges that depend on another dimension need it to be there
          const int k = labels.axis(e.dims[0]);
          ok = ok && k >= 0 && labels.shape[k] == e.shape[0];
        }
      if (!ok)
        continue;
      for (int pattern = 0; pattern < (E.thorough ? 8 : 3); ++pattern)
        for (int meta = 0; meta < 14; ++meta)
          E.run([&] { return "bins" + arr::str(labels) + " pattern " + std::to_string(pattern) + " metadata " + std::to_string(meta) + ds::str(arg); }, [&] {
            E.nontrivial();
            // contents: sizes by pattern, coordinates consistent with edges 0,1,2,3
            std::vector<Ev> ev;
            for (ix b = 0; b < labels.volume(); ++b) {
              const auto p = labels.unravel(b);
              const LD x0 = labels.axis(X) >= 0 ? p[labels.axis(X)] : 0, y0 = labels.axis(Y) >= 0 ? p[labels.axis(Y)] : 0;
              const ix n = pattern == 0 ? 2 : pattern == 1 ? (b * 2 + 1) % 4 : pattern == 2 ? (b % 3 == 1) : (b * pattern + 2) % 5;
              for (ix i = 0; i < n; ++i)
                ev.push_back({b, x0 + LD((i * 3 + b + pattern) % 4) / 4, y0 + LD((i + b) % 2) / 2, LD((i * 2 + b + pattern) % 5)});
            }
            const bool point_x = meta == 4 || meta == 8;
            if (point_x)
              for (auto &e : ev)
                e.x = std::floor(e.x);
            const auto hasd = [&](Dim d) { return labels.axis(d) >= 0; };
            const auto len = [&](Dim d) { return labels.shape[labels.axis(d)]; };
            // edges that depend on two dimensions: every row has its own offset
            const Dim D2 = hasd(Y) ? Y : Z;
            const auto shift = [&](ix row) { return row % 3 == 0 ? 1.0L : row % 3 == 1 ? -0.5L : 0.25L; };
            const bool edges2 = (meta == 12 || meta == 13) && hasd(X) && hasd(D2);
            if (edges2)
              for (auto &e : ev)
                e.x += shift(labels.unravel(e.bin)[labels.axis(D2)]);
            DA m = binned(sh.dims, sh.shape, ev, meta != 4, meta != 9);
            // (such edges of a dimension inside of a rebinned one are rejected,
            // unless that dimension is rebinned or erased as well)
            bool outer = false, named = false;
            for (const auto *l : {&arg.edges, &arg.groups})
              for (const auto &e : *l) {
                outer = outer || (edges2 && hasd(e.dims.back()) && labels.axis(e.dims.back()) < labels.axis(X));
                named = named || e.dims.back() == X;
              }
            named = named || std::count(arg.erase.begin(), arg.erase.end(), X);
            if (edges2 && (named || !outer)) {
              Arr c = A(D, units::m, {D2, X}, {len(D2), len(X) + 1}, {});
              for (ix i = 0; i < len(D2); ++i)
                for (ix j = 0; j <= len(X); ++j)
                  c.v.push_back(shift(i) + j);
              m.coords.push_back({X, {meta == 12 ? c : transposed(c, {X, D2}), true}});
            }
            const auto upto = [&](Dim d, ix n, units::Unit u) { return iota({d}, {n}, 0, u); };
            if ((meta == 1 || meta == 2 || meta == 3 || (meta >= 5 && meta < 10)) && !point_x && hasd(X))
              m.coords.push_back({X, {upto(X, len(X) + 1, units::m), true}});
            if (point_x) {
              if (hasd(X))
                m.coords.push_back({X, {upto(X, len(X), units::m), true}});
              else if (meta == 4)
                m.coords.push_back({X, {A(D, units::m, {}, {}, {{0}}), true}});
            }
            if ((meta == 2 || meta == 5) && hasd(Y))
              m.coords.push_back({Y, {upto(Y, len(Y) + 1, units::s), true}});
            if (meta == 10) { // attributes of the name of keys
              // (a scalar one for a dimension that is not rebinned may be rejected)
              for (const Dim d : {X, Y, U})
                if (!hasd(d) || std::any_of(arg.edges.begin(), arg.edges.end(), [&](const auto &k) { return k.dims.back() == d; }))
                  m.attrs.push_back({d, iota({}, {}, 5)});
              m.coords.push_back({Dim("c0"), {iota({}, {}, 0), false}});
            }
            if (meta == 11) { // edges of a single bin in dimensions that the data do not have
              if (!hasd(X))
                m.coords.push_back({X, {A(D, units::m, {X}, {2}, {{0}, {1}}), true}});
              if (!hasd(Y))
                m.coords.push_back({Y, {A(D, units::s, {Y}, {2}, {{0}, {2}}), true}});
              m.coords.push_back({U, {A(L, units::one, {U}, {2}, {{0}, {5}}), true}});
            }
            if (meta == 9) { // bins know y, events do not
              if (hasd(Y))
                m.coords.push_back({Y, {upto(Y, len(Y), units::s), true}});
              else
                m.coords.push_back({Y, {A(D, units::s, {}, {}, {{0.5L}}), true}});
            }
            if (meta == 3 && hasd(X) && hasd(Y))
              m.coords.push_back({Dim("xy"), {iota({Y, X}, {len(Y), len(X)}, 0), true}});
            if (meta == 3 && hasd(Z))
              m.coords.push_back({Z, {iota({Z}, {len(Z)}, 0), false}});
            if (meta == 3) {
              if (hasd(X))
                m.attrs.push_back({Dim("ax"), iota({X}, {len(X)}, 0)});
              if (hasd(Y))
                m.attrs.push_back({Dim("ay"), iota({Y}, {len(Y)}, 0)});
              m.attrs.push_back({Dim("a0"), iota({}, {}, 0)});
              m.coords.push_back({Dim("c0"), {iota({}, {}, 0), false}});
              for (auto &b : m.bins) {
                b.masks.push_back({"em", iota({EV}, {ix(b.data.v.size())}, 0, units::none, B)});
                b.attrs.push_back({Dim("ea"), iota({EV}, {ix(b.data.v.size())}, 5, units::one, S)});
              }
            }
            const auto mask = [&](std::vector<Dim> dd, ix start) {
              std::vector<ix> s;
              for (const auto d : dd)
                s.push_back(len(d));
              return iota(dd, s, start, units::none, B);
            };
            if ((meta == 5 || meta == 7) && hasd(X))
              m.masks.push_back({"mx", mask({X}, 0)});
            if ((meta == 6 || meta == 7) && hasd(Y))
              m.masks.push_back({"my", mask({Y}, 1)});
            if (meta == 7 && hasd(X) && hasd(Y))
              m.masks.push_back({"mxy", mask({Y, X}, 1)});
            if (meta == 6 && hasd(Z))
              m.masks.push_back({"mz", mask({Z}, 0)});
            if (meta == 7)
              m.masks.push_back({"m0", iota({}, {}, pattern == 1, units::none, B)});
            for (const int form : {0, 1, 3, 4, 5}) {
              if (m.bins.empty())
                continue;
              const auto in = make_in(m, form);
              compare(E, in, m, arg, form == 3 ? 2 : 0);
              unchanged(E, in, m, "bin");
            }
          });
    }
}
/// Bin, then bin again, against binning the events at once.
void again(vh::Explorer &E) {
  const std::vector<Arr> first{key(X, {0, 1, 2, 3}), key(X, {0, 3}), key(X, {0, 0.5L, 3}), key(Y, {0, 1, 2}, D, units::s), key(U, {1, 2, 4}, D, units::one)};
  const std::vector<BinArgs> second{{{key(X, {0, 1, 2})}, {}, {}}, {{key(X, {0.25L, 1.5L, 2.75L})}, {}, {}}, {{key(Y, {0, 0.5L, 1.5L}, D, units::s)}, {}, {}}, {{}, {key(U, {1, 3}, L, units::one)}, {}}, {{}, {key(U, {2, 3}, L, units::one)}, {}}};
  for (size_t f = 0; f < first.size(); ++f)
    for (size_t g = 0; g < first.size(); ++g)
      for (size_t s = 0; s < second.size(); ++s)
        E.run([&] { return "binned by " + arr::str(first[f]) + ", " + arr::str(first[g]) + " then" + ds::str(second[s]); }, [&] {
          E.nontrivial();
          for (int pattern = 0; pattern < 4; ++pattern) {
            DA t = table(12);
            std::vector<LD> x, y, u;
            for (ix i = 0; i < 12; ++i) {
              x.push_back(LD((i * 5 + pattern * 3) % 13) / 4);
              y.push_back(LD((i * 3 + pattern) % 5) / 2);
              u.push_back((i * 7 + pattern) % 5);
            }
            t.coords.push_back({X, {column(x), true}});
            t.coords.push_back({Y, {column(y, D, units::s), true}});
            t.coords.push_back({U, {column(u, L, units::one), true}});
            const auto in = make_da(t);
            const auto a = sd::bin(in, {make_plain(first[f])});
            compare(E, a, read_da(a), second[s]);
            if (first[f].dims != first[g].dims) {
              const auto b = sd::bin(a, {make_plain(first[g])});
              compare(E, b, read_da(b), second[s]);
              // the same bins with another history
              const auto c = sd::bin(in, {make_plain(first[f]), make_plain(first[g])});
              const auto d = ds::difference(like(read_da(b), read_da(c)), read_da(c));
              E.check_lazy(d.empty(), "history", [&] { return "binning twice differs from binning once: " + d; });
            }
            const auto c = sd::bin(a, {make_plain(first[g])});
            if (first[f].dims == first[g].dims) {
              // events outside the first edges are gone, those within are as if binned at once
              auto w = bin_ref(read_da(a), {{first[g]}, {}, {}});
              const auto d = ds::difference(read_da(c), w);
              E.check_lazy(d.empty(), "history", [&] { return "binning again: " + d; });
            }
          }
        });
}
/// Sizes at which other algorithms are used.
void large(vh::Explorer &E) {
  struct Case {
    ix events, nx, ny;
    bool regular, by_group;
    ix bins; // input bins
    bool keep = false;
  };
  std::vector<Case> cases;
  for (const bool regular : {true, false})
    for (const ix bins : {ix(0), ix(1), ix(5)}) {
      cases.push_back({40, 130, 130, regular, false, bins});     // two stages
      cases.push_back({40, 128, 128, regular, false, bins});     // exactly the limit
      cases.push_back({40, 16385, 1, regular, false, bins});
      cases.push_back({3000, 600, 1, regular, false, bins});     // chunks of bins
      cases.push_back({2048, 512, 1, regular, false, bins});
      cases.push_back({2052, 513, 1, regular, false, bins});
      cases.push_back({2053, 513, 1, regular, false, bins});
      cases.push_back({20000 * std::max(ix(1), bins), 600, 1, regular, false, bins}); // chunks filled several times
      cases.push_back({66000, 128, 128, regular, false, bins});
      cases.push_back({66000, 129, 128, regular, false, bins});
      cases.push_back({100001, 7, 1, regular, false, bins});     // two threads
      cases.push_back({100000, 7, 1, regular, false, bins});
      cases.push_back({3000, 600, 1, regular, true, bins});
      cases.push_back({40, 17000, 1, regular, true, bins});
      if (bins) { // the dimension of the input bins is kept
        cases.push_back({400, 130, 130, regular, false, bins, true});
        cases.push_back({3000, 600, 1, regular, false, bins, true});
        cases.push_back({2000, 3300, 1, regular, false, bins, true});
        cases.push_back({66000, 128, 129, regular, false, bins, true});
        cases.push_back({3000, 600, 1, regular, true, bins, true});
      }
    }
  if (E.thorough) {
    cases.push_back({1000001, 3, 1, true, false, 0});
    cases.push_back({1000003, 600, 1, false, false, 0});
    cases.push_back({300000, 256, 256, true, false, 0});
    cases.push_back({300000, 513, 129, false, false, 3});
  }
  for (const auto &c : cases)
    E.run([&] { return std::to_string(c.events) + " events in " + std::to_string(c.nx) + " x " + std::to_string(c.ny) + (c.regular ? " regular" : " irregular") + (c.by_group ? " groups" : " bins") + " from " + std::to_string(c.bins) + " bins" + (c.keep ? ", kept" : ""); }, [&] {
      E.nontrivial();
      ++E.transitions;
      std::vector<LD> ex, ey;
      for (ix i = 0; i <= c.nx; ++i)
        ex.push_back(c.regular ? i : c.by_group ? LD(i * 2 + (i % 3 == 0)) : LD(i) * i);
      for (ix i = 0; i <= c.ny; ++i)
        ey.push_back(c.regular ? i : LD(i) * (i + 1) / 2);
      DA t = table(c.events);
      std::vector<LD> x, y;
      for (ix i = 0; i < c.events; ++i) {
        // every 11th event is out of range
        const LD j = (i * 7919) % c.nx, k = (i * 104729) % c.ny;
        if (c.by_group)
          x.push_back(i % 11 == 5 ? -1 : ex[ix(j)]);
        else
          x.push_back(i % 11 == 5 ? -1 : ex[ix(j)] + (ex[ix(j) + 1] - ex[ix(j)]) * LD(i % 4) / 4);
        y.push_back(i % 13 == 7 ? ey.back() : ey[ix(k)] + (ey[ix(k) + 1] - ey[ix(k)]) * LD(i % 2) / 2);
      }
      t.coords.push_back({X, {column(x, c.by_group ? L : D), true}});
      t.coords.push_back({Y, {column(y, D, units::s), true}});
      t.coords.push_back({U, {iota({EV}, {c.events}, 5, units::K), true}}); // like Y, but for the unit
      t.attrs.push_back({Dim("a"), iota({EV}, {c.events}, 7, units::one)});
      t.attrs.push_back({Dim("ai"), iota({EV}, {c.events}, 9, units::counts, L)});
      t.masks.push_back({"m", iota({EV}, {c.events}, 1, units::none, B)});
      DA in = t;
      if (c.bins) {
        in = DA();
        in.binned = true;
        in.data = A(D, units::none, {Z}, {c.bins}, {});
        for (ix b = 0; b < c.bins; ++b)
          in.bins.push_back(rows(t, EV, b * c.events / c.bins, (b + 1) * c.events / c.bins));
      }
      if (c.by_group)
        ex.pop_back();
      const auto kx = key(X, ex, c.by_group ? L : D), ky = key(Y, ey, D, units::s);
      std::vector<Variable> edges, groups;
      (c.by_group ? groups : edges).push_back(make_plain(kx));
      if (c.ny > 1)
        edges.push_back(make_plain(ky));
      const auto out = sd::bin(make_da(in), edges, groups, c.bins && !c.keep ? std::vector<Dim>{Z} : std::vector<Dim>{});
      const auto &[ind, dim, buf] = out.data().constituents<DataArray>();
      const auto gi = read(ind);
      const auto gb = read_da(buf);
      const ix nz = c.keep ? c.bins : 1, nout = nz * c.nx * c.ny;
      E.check(ix(gi.v.size()) == nout, "dims", "wrong number of bins");
      E.check(gb.data.u == t.data.u && gb.coord(Y)->a.u == units::s && (c.by_group || gb.coord(X)->a.u == units::m) && gb.coord(U) && gb.coord(U)->a.u == units::K && gb.attr(Dim("a")) && gb.attr(Dim("a"))->u == units::one && gb.attr(Dim("ai")) && gb.attr(Dim("ai"))->u == units::counts && gb.mask("m"), "result", "columns are missing or of the wrong unit");
      // which input bin an event is in
      const auto input_bin = [&](ix i) {
        ix b = 0;
        while (c.keep && i >= (b + 1) * c.events / c.bins)
          ++b;
        return b;
      };
      // order of the events by bin
      std::vector<std::vector<ix>> want(nout);
      for (ix i = 0; i < c.events; ++i) {
        ix j = -1;
        if (c.by_group) {
          const auto it = std::find(ex.begin(), ex.end(), x[i]);
          j = it == ex.end() ? -1 : it - ex.begin();
        } else if (const auto it = std::upper_bound(ex.begin(), ex.end(), x[i]); it != ex.begin() && it != ex.end())
          j = it - ex.begin() - 1;
        const auto it = std::upper_bound(ey.begin(), ey.end(), y[i]);
        const ix k = c.ny == 1 ? 0 : it != ey.begin() && it != ey.end() ? it - ey.begin() - 1 : -1;
        if (j >= 0 && k >= 0)
          want[(input_bin(i) * c.nx + j) * c.ny + k].push_back(i);
      }
      for (ix b = 0; b < nout; ++b) {
        const ix lo = gi.v[b].x, hi = gi.v[b].y;
        E.check_lazy(hi - lo == ix(want[b].size()), "result", [&] { return "bin " + std::to_string(b) + " has " + std::to_string(hi - lo) + " events instead of " + std::to_string(want[b].size()); });
        for (ix e = lo; e < hi; ++e) {
          const ix i = want[b][e - lo];
          E.check_lazy(gb.data.v[e].x == i + 1 && gb.data.v[e].var == t.data.v[i].var && gb.coord(Y)->a.v[e].x == t.coord(Y)->a.v[i].x && (c.by_group || gb.coord(X)->a.v[e].x == t.coord(X)->a.v[i].x) && gb.coord(U)->a.v[e].x == t.coord(U)->a.v[i].x && gb.attr(Dim("a"))->v[e].x == t.attr(Dim("a"))->v[i].x && gb.attr(Dim("ai"))->v[e].x == t.attr(Dim("ai"))->v[i].x && gb.mask("m")->v[e].x == t.mask("m")->v[i].x, "result",
                       [&] { return "event " + std::to_string(i) + " is missing or damaged in bin " + std::to_string(b); });
        }
      }
    });
}
void errors(vh::Explorer &E) {
  E.run([&] { return std::string("rejected arguments"); }, [&] {
    E.nontrivial();
    DA t = table(3);
    t.coords.push_back({X, {column({0, 1, 2}), true}});
    t.coords.push_back({Z, {column({0, 1, 2}, L, units::one), true}});
    const auto in = make_da(t);
    const auto e = [&](const std::vector<LD> &v, DType dt = D, units::Unit u = units::m) { return make_plain(key(X, v, dt, u)); };
    rejects(E, "no key", [&] { sd::bin(in, {}, {}); });
    rejects(E, "one edge", [&] { sd::bin(in, {e({0})}); });
    rejects(E, "descending edges", [&] { sd::bin(in, {e({2, 1, 0})}); });
    rejects(E, "unsorted edges", [&] { sd::bin(in, {e({0, 2, 1, 3})}); });
    rejects(E, "edges of another unit", [&] { sd::bin(in, {e({0, 1, 2}, D, units::s)}); });
    rejects(E, "irregular edges of another unit", [&] { sd::bin(in, {e({0, 1, 3}, D, units::s)}); });
    rejects(E, "a key without coordinate", [&] { sd::bin(in, {make_plain(key(Y, {0, 1, 2}))}); });
    rejects(E, "duplicate groups", [&] { sd::bin(in, {}, {make_plain(key(Z, {1, 2, 1}, L, units::one))}); });
    rejects(E, "adjacent duplicate groups", [&] { sd::bin(in, {}, {make_plain(key(Z, {1, 1}, L, units::one))}); });
    rejects(E, "groups of another unit", [&] { sd::bin(in, {}, {make_plain(key(Z, {1, 3}, L, units::m))}); });
    rejects(E, "consecutive groups of another unit", [&] { sd::bin(in, {}, {make_plain(key(Z, {1, 2}, L, units::m))}); });
    DA two;
    two.data = iota({X, Y}, {2, 2}, 0);
    two.coords.push_back({X, {iota({X}, {2}, 0, units::m), true}});
    rejects(E, "two-dimensional data", [&] { sd::bin(make_da(two), {e({0, 1, 2})}); });
    // bins with edges, but events without the coordinate
    DA b = binned({X}, {2}, {{0, 0.5L, 0, 0}, {1, 1.5L, 0, 0}}, false, false);
    b.coords.push_back({X, {key(X, {0, 1, 2}), true}});
    rejects(E, "edges of bins without coordinate of the events", [&] { sd::bin(make_da(b), {e({0, 2})}); });
    rejects(E, "edges of bins without coordinate of the events", [&] { sd::bin(make_da(b), {e({0, 0.5L, 2})}); });
    // rejected in the middle: nothing is modified
    unchanged(E, in, t, "a rejected bin");
  });
}
} // namespace

VH_EXPLORE(B01) {
  one_edge(E);
  one_group(E);
  types(E);
  several_keys(E);
  rebin(E);
  forms(E);
  again(E);
  large(E);
  errors(E);
}
VH_MAIN
