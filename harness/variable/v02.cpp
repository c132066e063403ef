// V02: views address exactly the selected elements of the shared buffer.
#include "../common/arr.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/variable_concept.h"
#include <deque>
#include <set>

using namespace arr;
namespace sv = scipp::variable;

namespace {
/// What a view selects: labelled positions of a buffer.
struct View {
  std::vector<Dim> dims;
  std::vector<ix> shape;
  std::vector<ix> pos; ///< row-major
  ix volume() const {
    ix n = 1;
    for (auto s : shape)
      n *= s;
    return n;
  }
  int axis(Dim d) const {
    for (size_t i = 0; i < dims.size(); ++i)
      if (dims[i] == d)
        return i;
    return -1;
  }
  bool unique() const { return std::set<ix>(pos.begin(), pos.end()).size() == pos.size(); }
};
/// Build from a function of the multi-index.
template <class F> View build(std::vector<Dim> dims, std::vector<ix> shape, F &&f) {
  View r;
  r.dims = std::move(dims);
  r.shape = std::move(shape);
  const ix n = r.volume();
  std::vector<ix> m(r.shape.size());
  for (ix i = 0; i < n; ++i) {
    ix rest = i;
    for (int k = int(m.size()) - 1; k >= 0; --k) {
      m[k] = rest % r.shape[k];
      rest /= r.shape[k];
    }
    r.pos.push_back(f(m));
  }
  return r;
}
ix at(const View &v, const std::vector<ix> &m) {
  ix r = 0;
  for (size_t k = 0; k < m.size(); ++k)
    r = r * v.shape[k] + m[k];
  return v.pos[r];
}

struct Op {
  std::string name;
  std::function<Variable(const Variable &)> apply;
  std::function<View(const View &)> model;
  bool may_copy = false;
  bool broadcasts = false; ///< more elements than before
};

const Dim NEW1("new1"), NEW2("new2"), OUT("out");

std::vector<std::pair<std::vector<Dim>, std::vector<ix>>> foldings(ix n) {
  std::vector<std::pair<std::vector<Dim>, std::vector<ix>>> r;
  r.push_back({{NEW1}, {n}});
  for (ix a = 0; a <= n; ++a)
    for (ix b = 0; b <= std::max<ix>(n, 1); ++b)
      if (a * b == n && (n > 0 || a + b <= 2))
        r.push_back({{NEW1, NEW2}, {a, b}});
  if (n > 1)
    r.push_back({{NEW2, NEW1, OUT}, {1, n, 1}});
  return r;
}

std::vector<Op> ops(const View &v, bool thorough) {
  std::vector<Op> r;
  const int nd = v.dims.size();
  for (int k = 0; k < nd; ++k) {
    const Dim d = v.dims[k];
    const ix n = v.shape[k];
    for (ix i = 0; i < n; ++i)
      r.push_back({"[" + to_string(d) + "," + std::to_string(i) + "]", [=](const Variable &x) { return x.slice({d, i}); },
                   [=](const View &w) {
                     auto dims = w.dims;
                     auto shape = w.shape;
                     dims.erase(dims.begin() + k);
                     shape.erase(shape.begin() + k);
                     return build(dims, shape, [&](std::vector<ix> m) {
                       m.insert(m.begin() + k, i);
                       return at(w, m);
                     });
                   }});
    for (ix b = 0; b <= n; ++b)
      for (ix e = b; e <= n; ++e)
        for (ix s = 1; s <= (thorough ? 4 : 3); ++s) {
          if (s > 1 && (e - b < 2 || s > e - b + 1))
            continue;
          if (b == 0 && e == n && s == 1)
            continue;
          r.push_back({"[" + to_string(d) + "," + std::to_string(b) + ":" + std::to_string(e) + ":" + std::to_string(s) + "]",
                       [=](const Variable &x) { return x.slice({d, b, e, s}); },
                       [=](const View &w) {
                         auto shape = w.shape;
                         shape[k] = (e - b + s - 1) / s;
                         return build(w.dims, shape, [&](std::vector<ix> m) {
                           m[k] = b + m[k] * s;
                           return at(w, m);
                         });
                       }});
        }
  }
  // orders of the dimensions
  const auto reorder = [](const View &w, const std::vector<Dim> &order) {
    std::vector<ix> shape;
    for (const auto &d : order)
      shape.push_back(w.axis(d) < 0 ? 2 : w.shape[w.axis(d)]);
    return build(order, shape, [&](const std::vector<ix> &m) {
      std::vector<ix> o(w.dims.size());
      for (size_t k = 0; k < order.size(); ++k)
        if (w.axis(order[k]) >= 0)
          o[w.axis(order[k])] = m[k];
      return at(w, o);
    });
  };
  if (nd > 1) {
    std::vector<int> p(nd);
    for (int i = 0; i < nd; ++i)
      p[i] = i;
    while (std::next_permutation(p.begin(), p.end())) {
      std::vector<Dim> order;
      std::string s;
      for (const auto i : p)
        order.push_back(v.dims[i]), s += " " + to_string(v.dims[i]);
      r.push_back({"transpose" + s, [=](const Variable &x) { return sv::transpose(x, order); }, [=](const View &w) { return reorder(w, order); }});
      if (p.front() == nd - 1)
        r.push_back({"broadcast to" + s, [=](const Variable &x) {
                       scipp::Dimensions t;
                       for (const auto &d : order)
                         t.addInner(d, x.dims()[d]);
                       return x.broadcast(t);
                     },
                     [=](const View &w) { return reorder(w, order); }});
    }
  }
  if (nd > 0) {
    auto order = v.dims;
    std::reverse(order.begin(), order.end());
    r.push_back({"transpose", [=](const Variable &x) { return sv::transpose(x); }, [=](const View &w) { return reorder(w, order); }});
  }
  if (nd < 4 && v.axis(NEW1) < 0)
    for (int k = 0; k <= nd; ++k)
      for (const ix n : {0, 1, 2}) {
        auto order = v.dims;
        order.insert(order.begin() + k, NEW1);
        r.push_back({"broadcast at " + std::to_string(k) + " to " + std::to_string(n),
                     [=](const Variable &x) {
                       scipp::Dimensions t;
                       for (const auto &d : order)
                         t.addInner(d, d == NEW1 ? n : x.dims()[d]);
                       return x.broadcast(t);
                     },
                     [=](const View &w) {
                       std::vector<ix> shape = w.shape;
                       shape.insert(shape.begin() + k, n);
                       return build(order, shape, [&](std::vector<ix> m) {
                         m.erase(m.begin() + k);
                         return at(w, m);
                       });
                     },
                     false, n != 1});
      }
  for (int k = 0; k < nd && nd < 4; ++k) {
    const Dim d = v.dims[k];
    for (const auto &[dims, shape] : foldings(v.shape[k])) {
      bool clash = false;
      for (const auto &x : dims)
        clash |= v.axis(x) >= 0;
      if (clash || nd + dims.size() > 5)
        continue;
      std::string s;
      for (const auto x : shape)
        s += " " + std::to_string(x);
      r.push_back({"fold " + to_string(d) + " to" + s,
                   [=, dims = dims, shape = shape](const Variable &x) {
                     return sv::fold(x, d, scipp::Dimensions(dims, shape));
                   },
                   [=, fdims = dims, fshape = shape](const View &w) {
                     auto nd_ = w.dims;
                     auto ns = w.shape;
                     nd_.erase(nd_.begin() + k);
                     ns.erase(ns.begin() + k);
                     nd_.insert(nd_.begin() + k, fdims.begin(), fdims.end());
                     ns.insert(ns.begin() + k, fshape.begin(), fshape.end());
                     return build(nd_, ns, [&](std::vector<ix> m) {
                       ix i = 0;
                       for (size_t f = 0; f < fdims.size(); ++f)
                         i = i * fshape[f] + m[k + f];
                       m.erase(m.begin() + k, m.begin() + k + fdims.size());
                       m.insert(m.begin() + k, i);
                       return at(w, m);
                     });
                   }});
    }
  }
  // flatten: every run of adjacent dimensions
  for (int k = 0; k < nd; ++k)
    for (int e = k + 1; e <= nd; ++e)
      for (const Dim to : {OUT, v.dims[k]}) {
        const std::vector<Dim> from(v.dims.begin() + k, v.dims.begin() + e);
        if (to == OUT && v.axis(OUT) >= 0 && std::find(from.begin(), from.end(), OUT) == from.end())
          continue;
        if (to == v.dims[k] && e - k < 2)
          continue;
        std::string s;
        for (const auto &d : from)
          s += " " + to_string(d);
        r.push_back({"flatten" + s + " to " + to_string(to), [=](const Variable &x) { return sv::flatten(x, from, to); },
                     [=](const View &w) {
                       View f = w;
                       ix n = 1;
                       for (int i = k; i < e; ++i)
                         n *= w.shape[i];
                       f.dims.erase(f.dims.begin() + k, f.dims.begin() + e);
                       f.shape.erase(f.shape.begin() + k, f.shape.begin() + e);
                       f.dims.insert(f.dims.begin() + k, to);
                       f.shape.insert(f.shape.begin() + k, n);
                       return f;
                     },
                     true});
      }
  if (nd < 4 && v.axis(OUT) < 0)
    r.push_back({"flatten nothing", [=](const Variable &x) { return sv::flatten(x, std::vector<Dim>{}, OUT); },
                 [=](const View &w) {
                   View f = w;
                   f.dims.push_back(OUT);
                   f.shape.push_back(1);
                   return f;
                 },
                 true});
  // squeeze: all, and each
  const auto squeezed = [](const View &w, const std::vector<Dim> &which) {
    View f = w;
    for (const auto &d : which) {
      const int k = f.axis(d);
      f.dims.erase(f.dims.begin() + k);
      f.shape.erase(f.shape.begin() + k);
    }
    return f;
  };
  std::vector<Dim> ones;
  for (int k = 0; k < nd; ++k)
    if (v.shape[k] == 1)
      ones.push_back(v.dims[k]);
  r.push_back({"squeeze", [=](const Variable &x) { return sv::squeeze(x, std::nullopt); }, [=](const View &w) { return squeezed(w, ones); }});
  for (const auto &d : ones)
    r.push_back({"squeeze " + to_string(d), [=](const Variable &x) { return sv::squeeze(x, std::vector<Dim>{d}); }, [=](const View &w) { return squeezed(w, {d}); }});
  // rename
  for (int k = 0; k < nd; ++k)
    if (v.axis(NEW2) < 0) {
      const Dim d = v.dims[k];
      r.push_back({"rename " + to_string(d), [=](const Variable &x) { return x.rename_dims({{d, NEW2}}); }, [=](const View &w) {
                     View f = w;
                     f.dims[k] = NEW2;
                     return f;
                   }});
    }
  if (nd > 1 && v.axis(NEW2) < 0) {
    // exchange of two names
    const Dim a = v.dims[0], b = v.dims[1];
    r.push_back({"exchange names", [=](const Variable &x) { return x.rename_dims({{a, NEW2}, {b, a}, {NEW2, b}}); }, [=](const View &w) {
                   View f = w;
                   std::swap(f.dims[0], f.dims[1]);
                   return f;
                 }});
  }
  return r;
}

/// Calls that must be rejected.
std::vector<Op> bad_ops(const View &v) {
  std::vector<Op> r;
  const auto bad = [&](const std::string &n, std::function<Variable(const Variable &)> f) { r.push_back({n, std::move(f), {}}); };
  bad("slice of a missing dimension", [](const Variable &x) { return x.slice({Dim("missing"), 0}); });
  bad("range of a missing dimension", [](const Variable &x) { return x.slice({Dim("missing"), 0, 0}); });
  bad("fold of a missing dimension", [](const Variable &x) { return sv::fold(x, Dim("missing"), {{NEW1, 1}}); });
  bad("squeeze of a missing dimension", [](const Variable &x) { return sv::squeeze(x, std::vector<Dim>{Dim("missing")}); });
  bad("flatten of a missing dimension", [](const Variable &x) { return sv::flatten(x, std::vector<Dim>{Dim("missing")}, OUT); });
  bad("rename of a missing dimension", [](const Variable &x) { return x.rename_dims({{Dim("missing"), NEW2}}); });
  bad("transpose with a missing dimension", [](const Variable &x) { return sv::transpose(x, std::vector<Dim>{Dim("missing")}); });
  const int nd = v.dims.size();
  for (int k = 0; k < nd; ++k) {
    const Dim d = v.dims[k];
    const ix n = v.shape[k];
    bad("point beyond the end", [=](const Variable &x) { return x.slice({d, n}); });
    bad("range beyond the end", [=](const Variable &x) { return x.slice({d, 0, n + 1}); });
    bad("strided range beyond the end", [=](const Variable &x) { return x.slice({d, 0, n + 1, 2}); });
    bad("empty range beyond the end", [=](const Variable &x) { return x.slice({d, n + 1, n + 1}); });
    bad("negative point", [=](const Variable &x) { return x.slice({d, -1}); });
    bad("negative step", [=](const Variable &x) { return x.slice({d, 0, n, -1}); });
    bad("step zero", [=](const Variable &x) { return x.slice({d, 0, n, 0}); });
    if (n != 1)
      bad("squeeze of length " + std::to_string(n), [=](const Variable &x) { return sv::squeeze(x, std::vector<Dim>{d}); });
    if (v.volume() > 0) {
      bad("fold to another length", [=](const Variable &x) { return sv::fold(x, d, {{NEW1, n + 1}, {NEW2, 1}}); });
      bad("fold to a negative length", [=](const Variable &x) { return sv::fold(x, d, {{NEW1, -n}, {NEW2, -1}}); });
    }
    bad("broadcast to another length", [=](const Variable &x) {
      auto t = x.dims();
      t.resize(d, n + 1);
      return x.broadcast(t);
    });
    bad("broadcast without a dimension", [=](const Variable &x) {
      auto t = x.dims();
      t.erase(d);
      return x.broadcast(t);
    });
    if (nd > 1) {
      const Dim o = v.dims[k ? 0 : 1];
      bad("rename to an existing name", [=](const Variable &x) { return x.rename_dims({{d, o}}); });
      bad("flatten to an existing name", [=](const Variable &x) { return sv::flatten(x, std::vector<Dim>{d}, o); });
      bad("fold to an existing name", [=](const Variable &x) { return sv::fold(x, d, {{o, x.dims()[d]}}); });
      bad("transpose with a repeated name", [=](const Variable &x) { return sv::transpose(x, std::vector<Dim>(x.dims().ndim(), o)); });
      bad("transpose with too few names", [=](const Variable &x) { return sv::transpose(x, std::vector<Dim>{o}); });
      bad("flatten of a wrong order", [=](const Variable &x) {
        const auto l = x.dims().labels();
        return sv::flatten(x, std::vector<Dim>{l[1], l[0]}, OUT);
      });
    }
    if (nd > 2)
      bad("flatten of dimensions that are not adjacent", [=](const Variable &x) {
        const auto l = x.dims().labels();
        return sv::flatten(x, std::vector<Dim>{l[0], l[2]}, OUT);
      });
  }
  return r;
}

struct State {
  Variable v;
  View m;
  Variable base; ///< what pos refers to
  bool readonly = false, shared = true;
  std::string how;
  int depth = 0;
};

enum class Kind { Double, Str, Binned };
Variable make_base(Kind k, const std::vector<Dim> &dims, const std::vector<ix> &shape) {
  scipp::Dimensions d(dims, shape);
  const ix n = d.volume();
  if (k == Kind::Str) {
    core::element_array<std::string> x(n);
    for (ix i = 0; i < n; ++i)
      x.data()[i] = "text number " + std::to_string(i);
    return makeVariable<std::string>(d, Values(std::move(x)));
  }
  if (k == Kind::Binned) {
    // bin i holds the i % 3 events 10 i, 10 i + 1
    core::element_array<scipp::index_pair> x(n);
    ix at = 0;
    for (ix i = 0; i < n; ++i) {
      x.data()[i] = {at, at + i % 3};
      at += i % 3;
    }
    core::element_array<double> e(at);
    for (ix i = 0; i < n; ++i)
      for (ix j = x.data()[i].first; j < x.data()[i].second; ++j)
        e.data()[j] = 10 * i + (j - x.data()[i].first);
    return sv::make_bins(makeVariable<scipp::index_pair>(d, Values(std::move(x))), Dim("event"), makeVariable<double>(scipp::Dimensions(Dim("event"), at), units::m, Values(std::move(e))));
  }
  core::element_array<double> x(n), y(n);
  for (ix i = 0; i < n; ++i)
    x.data()[i] = i, y.data()[i] = i + 0.5;
  return makeVariable<double>(d, units::m, Values(std::move(x)), Variances(std::move(y)));
}

/// Labels of the elements at all positions, as strings.
template <class F> void for_elements(Kind k, const Variable &v, F &&f) {
  ix i = 0;
  if (k == Kind::Double) {
    const auto &x = v.values<double>();
    auto y = v.variances<double>().begin();
    for (const auto &e : x) {
      f(i++, e, *y);
      ++y;
    }
  } else if (k == Kind::Str) {
    for (const auto &e : v.values<std::string>())
      f(i++, std::stod(e.substr(12)), 0.0);
  } else {
    for (const auto &e : v.values<scipp::core::bin<Variable>>()) {
      const auto b = e.template values<double>();
      double s = b.size();
      for (const auto q : b)
        s = s * 1000 + q;
      f(i++, s, 0.0);
    }
  }
}
double expected(Kind k, ix p) {
  if (k != Kind::Binned)
    return p;
  double s = p % 3;
  for (ix j = 0; j < p % 3; ++j)
    s = s * 1000 + 10 * p + j;
  return s;
}

void verify_content(vh::Explorer &E, Kind k, const Variable &v, const View &m, const std::string &how) {
  const auto l = v.dims().labels();
  const auto s = v.dims().shape();
  const bool dims = std::equal(l.begin(), l.end(), m.dims.begin(), m.dims.end()) && std::equal(s.begin(), s.end(), m.shape.begin(), m.shape.end());
  E.check_lazy(dims, "dims", [&] { return how + " has dimensions " + to_string(v.dims()); });
  ix count = 0;
  for_elements(k, v, [&](ix i, double x, double y) {
    ++count;
    const bool ok = i < ix(m.pos.size()) && x == expected(k, m.pos[i]) && (k != Kind::Double || y == x + 0.5);
    E.check_lazy(ok, "content", [&] { return how + ": element " + std::to_string(i) + " is " + num(x) + (i < ix(m.pos.size()) ? ", not " + num(expected(k, m.pos[i])) : ""); });
  });
  E.check_lazy(count == m.volume(), "count", [&] { return how + " has " + std::to_string(count) + " elements"; });
}

/// Write through the view, look at what changed, and undo.
void verify_writes(vh::Explorer &E, const State &s) {
  auto view = s.v;
  auto base = s.base;
  auto changed = [&](auto &&write, const char *kind) {
    std::string e = raised(write);
    const auto b = base.values<double>();
    const auto bv = base.variances<double>();
    std::vector<double> want(b.size());
    for (size_t i = 0; i < want.size(); ++i)
      want[i] = i;
    if (s.readonly && !s.m.unique())
      E.check_lazy(!e.empty(), "write-to-broadcast", [&] { return s.how + ", " + kind + " did not raise"; });
    if (!s.readonly)
      E.check_lazy(e.empty(), "write-rejected", [&] { return s.how + ", " + kind + " raised " + e; });
    if (e.empty())
      for (size_t i = 0; i < s.m.pos.size(); ++i)
        want[s.m.pos[i]] = 1000 + i;
    for (size_t i = 0; i < want.size(); ++i)
      E.check_lazy(b[i] == want[i] && bv[i] == want[i] + 0.5, "write", [&] {
        return s.how + ", " + kind + ": element " + std::to_string(i) + " of the original is " + num(b[i]) + "+-sqrt(" + num(bv[i]) + "), not " + num(want[i]);
      });
    ix i = 0;
    auto mb = base.values<double>();
    auto mv = base.variances<double>();
    for (auto &x : mb)
      x = i++;
    i = 0;
    for (auto &x : mv)
      x = i++ + 0.5;
    ++E.transitions;
  };
  const ix n = s.m.volume();
  core::element_array<double> x(n), y(n);
  for (ix i = 0; i < n; ++i)
    x.data()[i] = 1000 + i, y.data()[i] = 1000.5 + i;
  const auto source = makeVariable<double>(scipp::Dimensions(s.m.dims, s.m.shape), units::m, Values(std::move(x)), Variances(std::move(y)));
  changed([&] { copy(source, view); }, "copy into the view");
  changed(
      [&] {
        auto vals = view.values<double>();
        auto vars = view.variances<double>();
        ix i = 0;
        for (auto &e : vals)
          e = 1000 + i++;
        for (i = 0; i < n; ++i)
          vars[i] = 1000.5 + i;
      },
      "writing elements");
  if (!s.m.dims.empty())
    changed(
        [&] {
          const ix h = s.m.shape[0] / 2;
          auto v2 = view;
          v2.setSlice({s.m.dims[0], 0, h}, source.slice({s.m.dims[0], 0, h}));
          for (ix i = h; i < s.m.shape[0]; ++i)
            v2.setSlice({s.m.dims[0], i}, source.slice({s.m.dims[0], i}));
          if (s.m.shape[0] == 0 && s.readonly)
            v2.setSlice({s.m.dims[0], 0, 0}, source);
        },
        "assigning slices");
}

void explore(vh::Explorer &E, Kind kind, const std::vector<ix> &shape, int depth, int only_first) {
  std::vector<Dim> dims;
  const Dim all[] = {Dim::X, Dim::Y, Dim::Z, Dim::Time};
  for (size_t i = 0; i < shape.size(); ++i)
    dims.push_back(all[i]);
  State init;
  init.v = make_base(kind, dims, shape);
  init.base = init.v;
  init.m = build(dims, shape, [n = ix(0)](const auto &) mutable { return n++; });
  std::deque<State> queue{init};
  std::set<std::string> seen;
  bool first = true;
  while (!queue.empty()) {
    auto s = std::move(queue.front());
    queue.pop_front();
    const auto list = ops(s.m, E.thorough);
    for (const auto &o : bad_ops(s.m)) {
      const auto before = s.m;
      ++E.transitions;
      const auto e = raised([&] { (void)o.apply(s.v); });
      E.check_lazy(!e.empty(), "not-rejected", [&] { return s.how + ": " + o.name; });
      verify_content(E, kind, s.v, s.m, s.how + " after a rejected call");
    }
    for (size_t k = 0; k < list.size(); ++k) {
      if (first && ix(k) % 8 != only_first)
        continue;
      const auto &o = list[k];
      State t;
      t.how = s.how + (s.how.empty() ? "" : ", ") + o.name;
      t.depth = s.depth + 1;
      t.v = o.apply(s.v);
      t.m = o.model(s.m);
      t.readonly = s.readonly || o.broadcasts;
      t.shared = s.shared;
      t.base = s.base;
      ++E.transitions;
      verify_content(E, kind, t.v, t.m, t.how);
      verify_content(E, kind, s.v, s.m, s.how + " after " + o.name);
      // a copy has the same content
      const auto c = copy(t.v);
      verify_content(E, kind, c, t.m, "copy of " + t.how);
      E.check_lazy(c == t.v && t.v == c, "copy-equal", [&] { return t.how; });
      const bool copied = t.v.data_handle() != s.v.data_handle();
      E.check_lazy(!copied || o.may_copy, "not-a-view", [&] { return t.how + " does not share the data"; });
      if (copied) {
        t.shared = false;
        t.readonly = false;
        t.base = t.v;
      }
      if (kind == Kind::Double && t.shared)
        verify_writes(E, t);
      if (kind == Kind::Double && copied && t.m.volume() > 0) {
        // writing to a copy changes nothing else
        auto v = t.v;
        v.values<double>()[0] = 1234;
        verify_content(E, kind, s.v, s.m, s.how + " after writing to a copy");
        v.values<double>()[0] = t.m.pos[0];
      }
      // explore each reached state once
      std::string key = std::to_string(t.shared) + std::to_string(t.readonly) + to_string(t.v.dims()) + "|" + std::to_string(t.v.offset()) + "|";
      for (const auto x : t.v.strides())
        key += std::to_string(x) + ",";
      for (const auto p : t.m.pos)
        key += std::to_string(p) + ".";
      if (seen.insert(key).second) {
        E.state(std::hash<std::string>{}(std::to_string(int(kind)) + key));
        if (t.shared && t.depth < depth)
          queue.push_back(std::move(t));
      }
    }
    first = false;
  }
}
} // namespace

VH_EXPLORE(V02) {
  const std::vector<std::vector<ix>> shapes{{}, {0}, {1}, {2}, {4}, {5}, {2, 3}, {1, 4}, {3, 1}, {0, 3}, {2, 0}, {2, 3, 2}, {1, 2, 3}, {2, 1, 2}, {2, 0, 2}, {4, 2}, {6}, {2, 2, 2, 2}};
  for (const auto kind : {Kind::Double, Kind::Str, Kind::Binned})
    for (const auto &shape : shapes)
      for (int part = 0; part < 8; ++part) {
        ix n = 1;
        for (auto x : shape)
          n *= x;
        int depth = n > 8 || shape.size() > 3 ? 2 : 3;
        if (kind != Kind::Double)
          depth = n > 8 ? 1 : 2;
        if (E.thorough)
          ++depth;
        E.run(
            [&] {
              std::string s = kind == Kind::Double ? "numbers" : kind == Kind::Str ? "strings" : "bins";
              s += " of shape";
              for (const auto x : shape)
                s += " " + std::to_string(x);
              return s + ", chains of up to " + std::to_string(depth) + " operations, part " + std::to_string(part);
            },
            [&] {
              if (n > 1)
                E.nontrivial();
              explore(E, kind, shape, depth, part);
            });
      }
}
VH_MAIN
