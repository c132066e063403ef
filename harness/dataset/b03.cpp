// B03: operations on binned data act on exactly the events of each bin: all
// sizes of bins, layouts of the bins in the buffer and views, every operation
// compared with lists of events, and the whole buffer with what it was before.
#include "../common/redref.h"
#include "scipp/dataset/bins_view.h"
#include "scipp/dataset/shape.h"
#include "scipp/dataset/util.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/astype.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/cumulative.h"
#include "scipp/variable/math.h"
#include "scipp/variable/util.h"
#include "scipp/dataset/except.h"

using namespace redref;
namespace {
std::vector<std::vector<int>> words(int n, int k) {
  std::vector<std::vector<int>> r{{}};
  for (int i = 0; i < n; ++i) {
    std::vector<std::vector<int>> s;
    for (const auto &x : r)
      for (int j = 0; j < k; ++j) {
        auto y = x;
        y.push_back(j);
        s.push_back(y);
      }
    r = s;
  }
  return r;
}
template <class T> std::string list(const std::vector<T> &w) {
  std::string s;
  for (const auto i : w)
    s += (s.empty() ? "" : " ") + std::to_string(i);
  return s;
}
const Dim EC("ec"), GC("gc"), AC("ac");
enum Table { VarD, VarDV, VarL, VarS, ArrD, ArrFV, ArrNoMask, NTABLES };
const char *table_name[] = {"float64", "float64 with variances", "int64", "string", "table of float64", "table of float32 with variances", "table without masks"};
/// Events with consecutive numbers.
DA make_table(Table t, ix n, ix start) {
  DA b;
  const DType dt = t == VarL ? L : t == VarS ? S : t == ArrFV ? F : D;
  b.data = iota({EV}, {n}, start, t == VarS ? units::none : units::one, dt, t == VarDV || t == ArrFV);
  if (t < ArrD)
    return b;
  b.coords.push_back({EC, {iota({EV}, {n}, start % 5, units::m, D), true}});
  b.coords.push_back({GC, {iota({EV}, {n}, start, units::none, S), false}});
  if (t != ArrNoMask) {
    auto m = iota({EV}, {n}, 0, units::none, B);
    for (ix i = 0; i < n; ++i)
      m.v[i].x = (start + i) % 3 == 0;
    b.masks.push_back({"em", m});
  }
  b.attrs.push_back({AC, iota({EV}, {n}, start, units::s, L)});
  return b;
}
DA binned(Table t, std::vector<Dim> dims, std::vector<ix> shape, const std::vector<int> &sizes, ix start = 1) {
  DA a;
  a.binned = true;
  a.plain_bins = t < ArrD;
  a.data = A(D, units::none, dims, shape, {});
  for (const auto n : sizes) {
    a.bins.push_back(make_table(t, n, start));
    start += n;
  }
  return a;
}
/// Selection of bins: how it is made and which bins it has.
struct View {
  std::string name;
  std::vector<std::function<Variable(const Variable &)>> steps;
  Arr idx;
  Variable of(Variable v) const {
    for (const auto &s : steps)
      v = s(v);
    return v;
  }
};
std::vector<View> views(std::vector<Dim> dims, std::vector<ix> shape) {
  Arr all = A(L, units::none, dims, shape, {});
  for (ix i = 0; i < all.volume(); ++i)
    all.v.push_back(Cell(i));
  std::vector<View> r{{"all", {}, all}};
  const auto slices = [&](const View &from) {
    std::vector<View> o;
    for (size_t k = 0; k < from.idx.dims.size(); ++k) {
      const Dim d = from.idx.dims[k];
      const ix n = from.idx.shape[k];
      for (ix i = 0; i < n; ++i) {
        View v{from.name + "[" + to_string(d) + "," + std::to_string(i) + "]", from.steps, point(from.idx, d, i)};
        v.steps.push_back([d, i](const Variable &x) { return x.slice({d, i}); });
        o.push_back(v);
      }
      for (ix b = 0; b <= n; ++b)
        for (ix e = b; e <= n; ++e)
          if (e - b < n) {
            View v{from.name + "[" + to_string(d) + "," + std::to_string(b) + ":" + std::to_string(e) + "]", from.steps, take(from.idx, d, range(b, e))};
            v.steps.push_back([d, b, e](const Variable &x) { return x.slice({d, b, e}); });
            o.push_back(v);
          }
      if (n > 2) {
        View v{from.name + "[" + to_string(d) + ",::2]", from.steps, take(from.idx, d, n > 2 ? std::vector<ix>{0, 2} : std::vector<ix>{0})};
        v.steps.push_back([d](const Variable &x) { return x.slice({d, 0, 3, 2}); });
        o.push_back(v);
      }
    }
    return o;
  };
  const auto one = slices(r[0]);
  r.insert(r.end(), one.begin(), one.end());
  if (dims.size() == 2) {
    const std::vector<Dim> order{dims[1], dims[0]};
    View v{"transposed", {[order](const Variable &x) { return x.transpose(order); }}, transposed(all, order)};
    r.push_back(v);
    for (const auto &s : slices(v))
      r.push_back(s);
    for (const auto &s : one)
      if (s.idx.dims.size() == 2 && s.idx.volume() > 0) {
        View w = s;
        w.name += ".transposed";
        w.steps.push_back([order](const Variable &x) { return x.transpose(order); });
        w.idx = transposed(s.idx, order);
        r.push_back(w);
      }
  }
  for (const auto &s : one)
    if (s.idx.dims.size() == 1)
      for (const auto &q : slices(s))
        r.push_back(q);
  return r;
}
DA select(const DA &a, const Arr &idx) {
  DA r = a;
  r.data.dims = idx.dims;
  r.data.shape = idx.shape;
  r.bins.clear();
  for (const auto &c : idx.v)
    r.bins.push_back(a.bins[ix(c.x)]);
  return r;
}
struct Buffer {
  DA table;
  std::vector<std::pair<ix, ix>> rows; ///< of every bin
};
Buffer read_buffer(const Variable &v) {
  Buffer b;
  const auto pairs = [&](const Variable &ind) {
    for (const auto &c : read(ind).v)
      b.rows.push_back({ix(c.x), ix(c.y)});
  };
  if (v.dtype() == dtype<core::bin<Variable>>) {
    const auto &[ind, dim, buf] = v.constituents<Variable>();
    pairs(ind);
    b.table.data = read(buf);
  } else {
    const auto &[ind, dim, buf] = v.constituents<DataArray>();
    pairs(ind);
    b.table = read_da(buf);
  }
  return b;
}
/// Positions of the selected events, with the number of their bin.
template <class F> void for_events(const Buffer &b, const Arr &idx, F &&f) {
  for (size_t k = 0; k < idx.v.size(); ++k) {
    const auto [s, e] = b.rows[ix(idx.v[k].x)];
    for (ix r = s; r < e; ++r)
      f(r, k, r - s);
  }
}
using E_ = vh::Explorer;
struct Case {
  E_ &E;
  Table t;
  std::vector<int> sizes;
  DA model;
  int layout;
  View view;
  std::string where() const { return view.name + " of bins of sizes " + list(sizes) + " of " + table_name[t] + ", bins in the buffer with layout " + std::to_string(layout); }
  Variable base() const { return make_bins_var(model, layout); }
  void same(const char *op, const DA &got, const DA &want, const char *sig = "result") const {
    ++E.transitions;
    const LD eps = t == ArrFV ? 1e-6L : 1e-14L;
    const auto d = difference(got, want, {eps, eps});
    E.check_lazy(d.empty(), sig, [&] { return std::string(op) + " of " + where() + ": " + d + ", expected " + str(want); });
  }
  void same_buffer(const char *op, const Variable &v, const Buffer &want) const {
    ++E.transitions;
    const LD eps = t == ArrFV ? 1e-6L : 1e-14L;
    const auto got = read_buffer(v);
    E.check_lazy(got.rows == want.rows, "bin-ranges", [&] { return std::string(op) + " of " + where() + " changed the ranges of bins"; });
    const auto d = difference(got.table, want.table, {eps, eps});
    E.check_lazy(d.empty(), "buffer", [&] { return std::string(op) + " of " + where() + ": the buffer: " + d + ", expected " + str(want.table); });
  }
};
bool numeric(Table t) { return t != VarS; }
Cell times(Cell c, LD f) {
  c.x *= f;
  c.var *= f * f;
  return c;
}
Arr dense_like(const Arr &idx, LD start, DType t = D) { return iota(idx.dims, idx.shape, start, units::one, t); }

void views_case(const Case &c) {
  auto &E = c.E;
  const auto want = select(c.model, c.view.idx);
  { // reading, copies
    const auto base = c.base();
    const auto v = c.view.of(base);
    const auto before = read_buffer(base);
    c.same("view", read_var(v), want);
    const auto cp = copy(v);
    c.same("copy", read_var(cp), want);
    E.check_lazy(cp == v && v == cp, "equal", [&] { return "a copy differs from " + c.where(); });
    ++E.transitions;
    Arr sizes = c.view.idx;
    for (size_t i = 0; i < sizes.v.size(); ++i)
      sizes.v[i] = Cell(want.bins[i].data.volume());
    const auto d = arr::difference(read(sv::bin_sizes(v)), sizes);
    E.check_lazy(d.empty(), "sizes", [&] { return "bin_sizes of " + c.where() + ": " + d; });
    if (!want.bins.empty()) {
      const auto other = make_bins_var(want, 3 - c.layout);
      E.check_lazy(other == v && v == other, "equal", [&] { return "bins of the same content in another layout differ from " + c.where(); });
      if (numeric(c.t))
        for (size_t b = 0; b < want.bins.size(); ++b)
          if (want.bins[b].data.volume() > 0) {
            auto w = want;
            w.bins[b].data.v.back().x += 1;
            const auto other1 = make_bins_var(w, c.layout);
            E.check_lazy(other1 != v && v != other1, "equal", [&] { return "bins that differ in one event equal " + c.where(); });
          }
    }
    c.same_buffer("reading", base, before);
  }
  if (!numeric(c.t)) {
    // assignment only
  } else {
    { // reductions of bins
      const auto base = c.base();
      const auto v = DataArray(c.view.of(base));
      if (c.t >= ArrD && !want.bins.empty())
        for (const auto &op : reductions())
          compare(E, (c.view.name + " of " + table_name[c.t]).c_str(), "bins_" + op.name, want, v, reduced(op, want, {}, true), [&] { return op.bins(v); }, op.name == "all" || op.name == "any" || want.bins.empty());
    }
    // new results
    const auto f = dense_like(c.view.idx, 2, c.t == VarL ? L : c.t == ArrFV ? F : D);
    const auto two = c.t == VarL ? makeVariable<int64_t>(units::one, Values{2}) : makeVariable<float>(units::one, Values{2});
    const auto result = [&](const char *op, auto &&g, auto &&ref) {
      const auto base = c.base();
      const auto before = read_buffer(base);
      const auto v = c.view.of(base);
      auto w = want;
      for (size_t b = 0; b < w.bins.size(); ++b)
        for (auto &x : w.bins[b].data.v)
          x = ref(x, b);
      c.same(op, read_var(g(v)), w);
      c.same_buffer(op, base, before);
    };
    result("negative", [](const Variable &v) { return -v; }, [](Cell x, size_t) { return times(x, -1); });
    result("times 2", [&](const Variable &v) { return v * two; },
           [](Cell x, size_t) { return times(x, 2); });
    result("times one factor per bin", [&](const Variable &v) { return v * make_plain(f); }, [&](Cell x, size_t b) { return times(x, f.v[b].x); });
    result("plus one summand per bin", [&](const Variable &v) { return make_plain(f) + v; },
           [&](Cell x, size_t b) {
             x.x += f.v[b].x;
             return x;
           });
    result("times a factor per bin in another layout", [&](const Variable &v) { return v * make(f, 5).view; }, [&](Cell x, size_t b) { return times(x, f.v[b].x); });
    if (c.t < ArrD && !want.bins.empty())
      result("minus bins in another layout", [&](const Variable &v) { return v - make_bins_var(want, 3 - c.layout); },
             [&](Cell x, size_t) {
               x.x = 0;
               x.var *= 2;
               return x;
             });
    if (c.t >= ArrD && !want.bins.empty()) {
      // with bins of plain numbers the events keep their coords and masks
      DA plain = want;
      plain.plain_bins = true;
      for (auto &b : plain.bins) {
        DA p;
        p.data = b.data;
        p.data.var = false;
        for (auto &x : p.data.v)
          x = Cell(2);
        b = p;
      }
      const auto other = make_bins_var(plain, 3 - c.layout);
      result("times bins of plain numbers", [&](const Variable &v) { return v * other; }, [](Cell x, size_t) { return times(x, 2); });
      result("bins of plain numbers times", [&](const Variable &v) { return other * v; }, [](Cell x, size_t) { return times(x, 2); });
      const auto tables = make_bins_var(want, c.layout);
      const auto base = c.base();
      const auto v = c.view.of(base);
      const auto err = raised([&] { static_cast<void>(v * tables); });
      ++c.E.transitions;
      c.E.check_lazy(!err.empty(), "tables-accepted", [&] { return "product of two binned tables is accepted for " + c.where(); });
    }
    for (const auto mode : {CumSumMode::Inclusive, CumSumMode::Exclusive}) {
      if (c.t == VarDV || c.t == ArrFV)
        continue;
      auto w = want;
      for (auto &b : w.bins) {
        LD s = 0;
        for (auto &x : b.data.v) {
          const LD y = x.x;
          x.x = mode == CumSumMode::Inclusive ? s + y : s;
          s += y;
        }
      }
      const auto base = c.base();
      const auto before = read_buffer(base);
      c.same("cumsum", read_var(sv::cumsum_bins(c.view.of(base), mode)), w);
      c.same_buffer("cumsum", base, before);
    }
    // in place: only the selected events are changed
    const auto modify = [&](const char *op, auto &&g, auto &&ref) {
      const auto base = c.base();
      auto after = read_buffer(base);
      for_events(after, c.view.idx, [&](ix row, size_t b, ix) { after.table.data.v[row] = ref(after.table.data.v[row], b); });
      auto v = c.view.of(base);
      g(v);
      c.same_buffer(op, base, after);
    };
    modify("*= 2", [&](Variable &v) { v *= two; }, [](Cell x, size_t) { return times(x, 2); });
    modify("*= one factor per bin", [&](Variable &v) { v *= make_plain(f); }, [&](Cell x, size_t b) { return times(x, f.v[b].x); });
    modify("-= one number per bin", [&](Variable &v) { v -= make(f, 1).view; },
           [&](Cell x, size_t b) {
             x.x -= f.v[b].x;
             return x;
           });
    if (c.t < ArrD && !want.bins.empty())
      modify("+= bins in another layout", [&](Variable &v) { v += make_bins_var(want, 3 - c.layout); },
             [&](Cell x, size_t) {
               x.x *= 2;
               x.var *= 2;
               return x;
             });
    {
      // the unit is that of all events, not only of some bins
      const auto base = c.base();
      auto after = read_buffer(base);
      auto v = c.view.of(base);
      if (!v.is_readonly()) {
        const bool all = c.view.idx.v.size() == after.rows.size();
        const auto err = raised([&] { v *= makeVariable<int64_t>(scipp::units::m, Values{2}); });
        ++c.E.transitions;
        if (all && err.empty()) {
          after.table.data.u = scipp::units::m;
          for_events(after, c.view.idx, [&](ix row, size_t, ix) { after.table.data.v[row] = times(after.table.data.v[row], 2); });
        }
        if (!v.dims().volume()) {
          if (err.empty())
            after.table.data.u = read_buffer(base).table.data.u;
        } else
          c.E.check_lazy(err.empty() == all, "unit-of-some-bins", [&] { return std::string("changing the unit of ") + (all ? "all" : "some") + " bins in place is " + (err.empty() ? "accepted" : "rejected") + " for " + c.where(); });
        c.same_buffer("*= 2 m", base, after);
      }
    }
    modify("set every bin by slices", [&](Variable &v) {
      if (v.dims().ndim() == 1)
        for (ix i = 0; i < v.dims().volume(); ++i) {
          auto s = v.slice({v.dims().inner(), i});
          s *= makeVariable<int64_t>(units::one, Values{i + 2});
        }
      else
        v *= two;
    }, [&](Cell x, size_t b) { return times(x, c.view.idx.dims.size() == 1 ? b + 2 : 2); });
  }
  // assignment
  if (!want.bins.empty()) {
    std::vector<int> sz;
    for (const auto &b : want.bins)
      sz.push_back(b.data.volume());
    const auto src = binned(c.t, c.view.idx.dims, c.view.idx.shape, sz, 101);
    const auto assign = [&](const char *op, auto &&g) {
      const auto base = c.base();
      auto after = read_buffer(base);
      for_events(after, c.view.idx, [&](ix row, size_t b, ix k) {
        after.table.data.v[row] = src.bins[b].data.v[k];
        for (size_t m = 0; m < after.table.coords.size(); ++m)
          after.table.coords[m].second.a.v[row] = src.bins[b].coords[m].second.a.v[k];
        for (size_t m = 0; m < after.table.masks.size(); ++m)
          after.table.masks[m].second.v[row] = src.bins[b].masks[m].second.v[k];
        for (size_t m = 0; m < after.table.attrs.size(); ++m)
          after.table.attrs[m].second.v[row] = src.bins[b].attrs[m].second.v[k];
      });
      auto v = c.view.of(base);
      g(v);
      c.same_buffer(op, base, after);
    };
    for (int l = 0; l < 4; ++l) {
      assign("copy to", [&](Variable &v) { copy(make_bins_var(src, l), v); });
      for (const auto d : c.view.idx.dims)
        assign("assign to a slice", [&](Variable &v) { v.setSlice({d, 0, v.dims()[d]}, make_bins_var(src, l)); });
    }
    if (c.view.idx.dims.size() == 2) {
      const std::vector<Dim> order{c.view.idx.dims[1], c.view.idx.dims[0]};
      Arr id = c.view.idx;
      for (size_t i = 0; i < id.v.size(); ++i)
        id.v[i].x = i;
      const auto t = select(src, transposed(id, order));
      assign("copy of transposed to", [&](Variable &v) { copy(make_bins_var(t, 2), v); });
    }
    // another number of events in one bin
    for (size_t b = 0; b < sz.size(); ++b) {
      auto other = sz;
      other[b] += other[b] == 0 || b % 2 ? 1 : -1;
      const auto bad = binned(c.t, c.view.idx.dims, c.view.idx.shape, other, 101);
      const auto base = c.base();
      const auto before = read_buffer(base);
      auto v = c.view.of(base);
      const auto err = raised([&] { copy(make_bins_var(bad, 1), v); });
      E.check_lazy(!err.empty(), "raise", [&] { return "copying bins of other sizes to " + c.where() + " did not raise"; });
      c.same_buffer("failed copy to", base, before);
      if (c.t < ArrD && numeric(c.t)) {
        const auto err1 = raised([&] { v += make_bins_var(bad, 1); });
        E.check_lazy(!err1.empty(), "raise", [&] { return "adding bins of other sizes to " + c.where() + " did not raise"; });
        c.same_buffer("failed addition to", base, before);
      }
    }
  }
  // access to columns
  if (c.t >= ArrD) {
    const auto base = c.base();
    const auto before = read_buffer(base);
    const auto v = c.view.of(base);
    const auto column = [&](const char *op, const Variable &x, auto &&get) {
      DA w;
      w.binned = w.plain_bins = true;
      w.data = want.data;
      for (const auto &b : want.bins) {
        DA t;
        t.data = get(b);
        w.bins.push_back(t);
      }
      c.same(op, read_var(x), w);
    };
    auto bv = sd::bins_view<DataArray>(v);
    column("bins.data", bv.data(), [](const DA &b) { return b.data; });
    column("bins.coords", bv.coords()[EC], [](const DA &b) { return b.coord(EC)->a; });
    column("bins.meta", bv.meta()[AC], [](const DA &b) { return *b.attr(AC); });
    column("bins.attrs", bv.attrs()[AC], [](const DA &b) { return *b.attr(AC); });
    if (c.t != ArrNoMask)
      column("bins.masks", bv.masks()["em"], [](const DA &b) { return *b.mask("em"); });
    c.same_buffer("bins_view", base, before);
    auto after = before;
    for_events(after, c.view.idx, [&](ix row, size_t b, ix) {
      after.table.data.v[row] = times(after.table.data.v[row], 3);
      after.table.coords[0].second.a.v[row].x *= b + 2;
    });
    auto data = bv.data();
    data *= makeVariable<float>(units::one, Values{3});
    auto coord = bv.coords()[EC];
    coord *= make_plain(dense_like(c.view.idx, 2));
    c.same_buffer("operation on columns", base, after);
    if (c.view.steps.empty()) {
      // a new column computed from others
      const auto sum = bv.coords()[EC] + bv.coords()[EC];
      if (const auto err = raised([&] { bv.coords().set(Dim("new"), sum); }); !err.empty()) {
        // only works if the ranges of bins are the same
        E.check_lazy(c.layout != 0, "raise", [&] { return "new column of " + c.where() + " raised " + err; });
        c.same_buffer("failed new column", base, after);
        E.nontrivial();
        return;
      }
      auto w = read_var(v);
      bool ok = true;
      for (const auto &b : w.bins) {
        const auto *n = b.coord(Dim("new"));
        ok &= n != nullptr;
        for (ix i = 0; ok && i < b.data.volume(); ++i)
          ok &= n->a.v[i].x == 2 * b.coord(EC)->a.v[i].x;
      }
      E.check_lazy(ok, "column", [&] { return "new column of " + c.where() + ": " + str(w); });
      bv.coords().erase(Dim("new"));
      c.same_buffer("erasing a column", base, after);
    }
  }
  E.nontrivial();
}
void explore_views(E_ &E) {
  struct Shape {
    std::vector<Dim> dims;
    std::vector<ix> shape;
    std::vector<std::vector<int>> sizes;
  };
  std::vector<Shape> shapes{{{}, {}, words(1, 4)}, {{X}, {2}, words(2, 3)}, {{X}, {3}, words(3, E.thorough ? 4 : 3)}, {{X, Y}, {2, 2}, words(4, E.thorough ? 3 : 2)}};
  shapes.push_back({{Y, X}, {3, 2}, {{1, 0, 2, 3, 0, 1}, {0, 2, 1, 1, 3, 0}, {0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 2}}});
  for (int t = 0; t < NTABLES; ++t)
    for (const auto &s : shapes)
      for (const auto &sz : s.sizes)
        E.run(std::string("views, ") + table_name[t] + ", bins of sizes " + list(sz) + (s.dims.size() == 2 ? " in 2-D" : ""), [&, t] {
          const auto model = binned(Table(t), s.dims, s.shape, sz);
          for (const auto &v : views(s.dims, s.shape))
            for (int l = 0; l < 4; ++l)
              views_case({E, Table(t), sz, model, l, v});
        });
}

// --- concatenation ------------------------------------------------------------
DA joined(const DA &a, const DA &b) { // bins of the union of dimensions, order of a first
  DA r = a;
  Arr dims = a.data;
  for (size_t i = 0; i < b.data.dims.size(); ++i)
    if (dims.axis(b.data.dims[i]) < 0) {
      dims.dims.push_back(b.data.dims[i]);
      dims.shape.push_back(b.data.shape[i]);
    }
  r.data = dims;
  r.bins.clear();
  for (ix i = 0; i < dims.volume(); ++i) {
    DA t = a.bins[a.data.index_of(dims, i)];
    const DA &u = b.bins[b.data.index_of(dims, i)];
    const auto cat = [](Arr &x, const Arr &y) {
      x.v.insert(x.v.end(), y.v.begin(), y.v.end());
      x.shape[0] += y.shape[0];
    };
    cat(t.data, u.data);
    for (size_t m = 0; m < t.coords.size(); ++m)
      cat(t.coords[m].second.a, u.coords[m].second.a);
    for (size_t m = 0; m < t.masks.size(); ++m)
      cat(t.masks[m].second, u.masks[m].second);
    for (size_t m = 0; m < t.attrs.size(); ++m)
      cat(t.attrs[m].second, u.attrs[m].second);
    r.bins.push_back(t);
  }
  return r;
}
DA reordered(const DA &a, const std::vector<Dim> &order) {
  Arr id = a.data;
  id.v.clear();
  for (ix i = 0; i < id.volume(); ++i)
    id.v.push_back(Cell(i));
  return select(a, transposed(id, order));
}
void concatenation(E_ &E, Table t, const DA &a, const Variable &x, const DA &b, const Variable &y, const std::string &what, bool plain = true) {
  const auto want = joined(a, b);
  const auto bx = read_var(x), by = read_var(y);
  const auto eq = [&](const char *op, const DA &got, const DA &w) {
    ++E.transitions;
    auto g = got;
    if (g.data.dims != w.data.dims && g.data.dims.size() == w.data.dims.size())
      g = reordered(g, w.data.dims);
    // alignment of event coords is not specified
    const auto d = difference(g, w, {0, 0, &w != &want});
    E.check_lazy(d.empty(), "concatenate", [&] { return std::string(op) + " " + what + " of " + table_name[t] + ": " + d + ", expected " + str(w); });
  };
  eq("concatenate", read_var(sd::buckets::concatenate(x, y)), want);
  eq("concatenate: first operand", read_var(x), bx);
  eq("concatenate: second operand", read_var(y), by);
  for (int place = 0; place < 2; ++place) {
    auto target = x;
    DA got;
    const auto err = raised([&] {
      sd::buckets::append(target, y);
      got = read_var(target);
    });
    if (err.empty())
      eq("append", got, want);
    else {
      E.tally["append rejected"]++;
      eq("failed append", read_var(target), bx);
      if (place == 0)
        E.check_lazy(!plain || x.dims() != y.dims(), "raise", [&] { return "append " + what + " raised " + err; });
    }
    eq("append: second operand", read_var(y), by);
  }
}
void explore_concatenate(E_ &E) {
  for (int t = 0; t < NTABLES; ++t)
    for (const auto &sa : words(2, E.thorough ? 4 : 3))
      E.run(std::string("concatenate, ") + table_name[t] + ", first bins of sizes " + list(sa), [&, t] {
        const auto T = Table(t);
        const auto a = binned(T, {X}, {2}, sa);
        for (const auto &sb : words(2, E.thorough ? 4 : 3)) {
          const auto b = binned(T, {X}, {2}, sb, 101);
          for (int la = 0; la < 4; ++la)
            for (int lb = 0; lb < 4; ++lb)
              concatenation(E, T, a, make_bins_var(a, la), b, make_bins_var(b, lb), "bins " + list(sa) + " and " + list(sb));
        }
        // scalar, broadcast
        for (int n = 0; n < 3; ++n) {
          const auto s = binned(T, {}, {}, {n}, 101);
          concatenation(E, T, a, make_bins_var(a, 1), s, make_bins_var(s, 3), "bins and a bin");
          concatenation(E, T, s, make_bins_var(s, 1), a, make_bins_var(a, 3), "a bin and bins");
          const auto o = binned(T, {Y}, {2}, {n, 1}, 101);
          concatenation(E, T, a, make_bins_var(a, 1), o, make_bins_var(o, 3), "bins along x and bins along y");
        }
        E.nontrivial();
      });
  for (int t = 0; t < NTABLES; ++t)
    for (const auto &sa : words(4, 2))
      E.run(std::string("concatenate in 2-D, ") + table_name[t] + ", first bins of sizes " + list(sa), [&, t] {
        const auto T = Table(t);
        const std::vector<int> sb{2, 0, 1, 3};
        const auto a = binned(T, {X, Y}, {2, 2}, sa), b = binned(T, {X, Y}, {2, 2}, sb, 101);
        for (const auto &va : views({X, Y}, {2, 2}))
          for (const auto &vb : views({X, Y}, {2, 2})) {
            const auto ma = select(a, va.idx), mb = select(b, vb.idx);
            bool fits = !ma.bins.empty() && !mb.bins.empty();
            for (size_t i = 0; i < ma.data.dims.size(); ++i) {
              const int k = mb.data.axis(ma.data.dims[i]);
              fits &= k < 0 || mb.data.shape[k] == ma.data.shape[i];
            }
            if (fits)
              for (int l = 0; l < 4; ++l)
                concatenation(E, T, ma, va.of(make_bins_var(a, l)), mb, vb.of(make_bins_var(b, 3 - l)), va.name + " of bins " + list(sa) + " and " + vb.name + " of bins " + list(sb), va.steps.empty());
          }
        E.nontrivial();
      });
  // along a dimension
  for (int t = 0; t < NTABLES; ++t)
    for (const auto &sa : words(4, E.thorough ? 3 : 2))
      E.run(std::string("concatenate along a dimension, ") + table_name[t] + ", sizes " + list(sa), [&, t] {
        const auto T = Table(t);
        const auto a = binned(T, {X, Y}, {2, 2}, sa);
        for (const auto &va : views({X, Y}, {2, 2}))
          for (int l = 0; l < 4; ++l) {
            const auto x = va.of(make_bins_var(a, l));
            const auto m = select(a, va.idx);
            for (const auto d : m.data.dims) {
              const ix n = m.data.shape[m.data.axis(d)];
              if (m.bins.empty())
                continue;
              DA want = select(a, point(va.idx, d, 0));
              for (ix i = 1; i < n; ++i)
                want = joined(want, select(a, point(va.idx, d, i)));
              const auto got = read_var(sd::buckets::concatenate(x, d));
              ++E.transitions;
              auto g = got;
              auto w = want;
              // alignment of event coords is not specified
              const auto diff = difference(g, w, {0, 0, false});
              E.check_lazy(diff.empty(), "concatenate-dim", [&] { return "concatenate along " + to_string(d) + " of " + va.name + " of bins " + list(sa) + ": " + diff + ", expected " + str(want); });
            }
          }
        E.nontrivial();
      });
  // tables that do not match
  E.run("concatenate tables that do not match", [&] {
    for (const auto &sa : words(2, 2))
      for (const auto &sb : words(2, 2))
        for (int l = 0; l < 4; ++l) {
          const auto a = binned(ArrD, {X}, {2}, sa);
          const auto bad = [&](const char *what, auto &&change, bool only_events = false) {
            auto b = binned(ArrD, {X}, {2}, sb, 101);
            for (auto &x : b.bins)
              change(x);
            auto x = make_bins_var(a, l), y = make_bins_var(b, 3 - l);
            const auto bx = read_var(x), by = read_var(y);
            if (only_events && sb[0] + sb[1] == 0)
              return;
            ++E.transitions;
            for (int flip = 0; flip < 2; ++flip) {
              auto p = flip ? y : x, q = flip ? x : y;
              E.check_lazy(!raised([&] { static_cast<void>(sd::buckets::concatenate(p, q)); }).empty(), "raise", [&] { return std::string("concatenate of bins with ") + what + " did not raise"; });
              E.check_lazy(!raised([&] { sd::buckets::append(p, q); }).empty(), "raise", [&] { return std::string("append of bins with ") + what + " did not raise"; });
              const auto d = difference(read_var(x), bx) + difference(read_var(y), by) + difference(read_var(p), flip ? by : bx);
              E.check_lazy(d.empty(), "operand", [&] { return std::string("concatenate of bins with ") + what + " changed an operand: " + d; });
            }
          };
          bad("a coord less", [](DA &t) { t.coords.pop_back(); });
          bad("another coord", [](DA &t) { t.coords.back().first = Dim("other"); });
          bad("a mask less", [](DA &t) { t.masks.pop_back(); });
          bad("another mask", [](DA &t) { t.masks.back().first = "other"; });
          bad("an attr less", [](DA &t) { t.attrs.pop_back(); });
          bad("another unit", [](DA &t) { t.data.u = units::m; });
          bad("another unit of a coord", [](DA &t) { t.coords[0].second.a.u = units::s; });
          bad("another type", [](DA &t) { t.data.t = S; });
          bad("variances", [](DA &t) { t.data.var = true; });
        }
    E.nontrivial();
  });
  // data arrays
  E.run("concatenate data arrays", [&] {
    const auto with = [&](DA a, int which, bool edges) {
      const ix n = a.data.shape[0];
      a.coords.push_back({X, {iota({X}, {n + edges}, 5, units::m), true}});
      a.masks.push_back({"both", A(B, units::none, {X}, {n}, {Cell(which), Cell(which * 0)})});
      if (which == 0)
        a.masks.push_back({"first", A(B, units::none, {X}, {n}, {Cell(0), Cell(1)})});
      else
        a.masks.push_back({"second", A(B, units::none, {}, {}, {Cell(1)})});
      a.attrs.push_back({Dim("same"), iota({X}, {n}, 3)});
      a.attrs.push_back({Dim("differs"), iota({X}, {n}, which)});
      return a;
    };
    for (int edges = 0; edges < 2; ++edges)
      for (const auto &sa : words(2, 3))
        for (const auto &sb : words(2, 3))
          for (int extra = 0; extra < 3; ++extra) {
            auto a = with(binned(ArrD, {X}, {2}, sa), 0, edges), b = with(binned(ArrD, {X}, {2}, sb, 101), 1, edges);
            if (extra == 1)
              a.coords.push_back({Dim("extra"), {iota({X}, {2}, 1), true}});
            if (extra == 2)
              b.coords.push_back({Dim("extra"), {iota({X}, {2}, 1), true}});
            auto want = joined(a, b);
            want.coords = extra == 2 ? b.coords : a.coords;
            want.masks = {{"both", A(B, units::none, {X}, {2}, {Cell(1), Cell(0)})}, a.masks[1], b.masks[1]};
            want.attrs = {a.attrs[0]};
            auto x = make_da(a, 1), y = make_da(b, 2);
            auto d = difference(read_da(sd::buckets::concatenate(x, y)), want, {0, 0, false});
            ++E.transitions;
            E.check_lazy(d.empty(), "concatenate-array", [&] { return "concatenate " + str(a) + " and " + str(b) + ": " + d; });
            unchanged(x, a);
            unchanged(y, b);
            const auto err = raised([&] { sd::buckets::append(x, y); });
            ++E.transitions;
            unchanged(y, b);
            E.check_lazy(err.empty() == (extra != 2), "raise", [&] { return "append " + str(b) + " to " + str(a) + (err.empty() ? " did not raise" : " raised " + err); });
            if (!err.empty()) {
              unchanged(x, a);
              continue;
            }
            want.attrs = a.attrs;
            d = difference(read_da(x), want, {0, 0, false});
            E.check_lazy(d.empty(), "append-array", [&] { return "append " + str(b) + " to " + str(a) + ": " + d; });
            auto c = b;
            c.coords[0].second.a.v[0].x -= 1;
            auto z = make_da(c, 1);
            x = make_da(a, 1);
            E.check_lazy(!raised([&] { static_cast<void>(sd::buckets::concatenate(x, z)); }).empty(), "raise", [&] { return "concatenate with another coord did not raise"; });
            E.check_lazy(!raised([&] { sd::buckets::append(x, z); }).empty(), "raise", [&] { return "append with another coord did not raise"; });
            unchanged(x, a);
          }
    E.nontrivial();
  });
}

// --- valid ranges ---------------------------------------------------------------
void explore_ranges(E_ &E) {
  const ix n = 3;
  std::vector<std::pair<ix, ix>> pairs;
  for (ix b = -1; b <= n + 1; ++b)
    for (ix e = -1; e <= n + 1; ++e)
      pairs.push_back({b, e});
  const auto table = make_table(ArrD, n, 1);
  // form: shape of the bins and layout of the ranges in memory
  const auto check = [&](const std::vector<std::pair<ix, ix>> &p, int form) {
    Arr idx = A(dtype<scipp::index_pair>, units::none, {X}, {ix(p.size())}, {});
    if (form / 3 == 1) {
      idx.dims = {X, Y};
      idx.shape = {ix(p.size()), 1};
    } else if (form / 3 == 2) {
      idx.dims = {Z, X};
      idx.shape = {1, ix(p.size())};
    } else if (form / 3 == 3) {
      idx.dims = idx.shape.empty() ? idx.dims : std::vector<Dim>{};
      idx.shape = {};
    } else if (form / 3 == 4) {
      idx.dims = {Y, X};
      idx.shape = {2, 2};
    }
    bool bad = false, inside = false;
    for (const auto &[b, e] : p) {
      Cell c(b);
      c.y = e;
      idx.v.push_back(c);
      bad |= b < 0 || e > n || b > e;
    }
    for (size_t i = 0; i < p.size(); ++i)
      for (size_t k = 0; k < p.size(); ++k)
        if (i != k && p[i].first < p[k].second && p[k].first < p[i].second) {
          if (p[i].first < p[i].second && p[k].first < p[k].second)
            bad = true;
          else
            inside = true; // an empty bin within another
        }
    const auto ind = make(idx, form % 3 == 0 ? 0 : form % 3 == 1 ? 5 : 4).view;
    for (int kind = 0; kind < 2; ++kind) {
      Variable v;
      const auto err = raised([&] { v = kind ? sd::make_bins(ind, EV, make_da(table)) : sv::make_bins(ind, EV, make_plain(table.data)); });
      ++E.transitions;
      const auto name = [&] {
        std::string s;
        for (const auto &[b, e] : p)
          s += "[" + std::to_string(b) + "," + std::to_string(e) + ")";
        return s + " form " + std::to_string(form);
      };
      if (!inside || bad)
        E.check_lazy(err.empty() != bad, "ranges", [&] { return "bins " + name() + " of 3 events" + (bad ? " are accepted" : " are rejected: " + err); });
      if (err.empty() && !bad) {
        const auto got = read_var(v);
        for (size_t i = 0; i < p.size(); ++i)
          E.check_lazy(difference(got.bins[i], rows(kind ? table : [&] { DA d; d.data = table.data; return d; }(), EV, p[i].first, p[i].second)).empty(), "ranges", [&] { return "bins " + name() + " of 3 events have other events"; });
      }
    }
  };
  E.run("ranges of up to two bins", [&] {
    for (int form = 0; form < 9; ++form)
      check({}, form);
    for (const auto &p : pairs) {
      for (int form = 0; form < 12; ++form)
        check({p}, form);
      for (const auto &q : pairs)
        for (int form = 0; form < 9; ++form)
          check({p, q}, form);
    }
    E.nontrivial();
  });
  for (const auto &p : pairs)
    E.run("ranges of three bins, first [" + std::to_string(p.first) + "," + std::to_string(p.second) + ")", [&] {
      for (const auto &q : pairs)
        for (const auto &r : pairs)
          check({p, q, r}, 0);
      // two rows of two
      for (const auto &q : pairs)
        for (const auto &r : {std::pair<ix, ix>(0, 0), std::pair<ix, ix>(0, 1), std::pair<ix, ix>(2, 3), std::pair<ix, ix>(1, 3), std::pair<ix, ix>(2, 1)})
          for (const auto &t : {std::pair<ix, ix>(3, 3), std::pair<ix, ix>(1, 2), std::pair<ix, ix>(2, 3)})
            for (int form = 12; form < 15; ++form) {
              check({p, q, r, t}, form);
              check({r, t, p, q}, form);
            }
      E.nontrivial();
    });
  E.run("ranges with a unit", [&] {
    auto idx = A(dtype<scipp::index_pair>, units::m, {X}, {1}, {Cell(0)});
    E.check_lazy(!raised([&] { static_cast<void>(sd::make_bins(make_plain(idx), EV, make_da(table))); }).empty(), "ranges", [] { return "ranges of bins may have a unit"; });
    idx.u = units::none;
    E.check_lazy(!raised([&] { static_cast<void>(sd::make_bins(make_plain(idx), Z, make_da(table))); }).empty(), "ranges", [] { return "bins along a dimension that the events do not have"; });
    E.nontrivial();
  });
}

// --- functions of events -----------------------------------------------------------
const std::vector<std::pair<DType, DType>> xtypes{{L, L}, {I, I}, {L, D}, {I, D}, {T, T}, {D, D}, {F, D}, {F, F}, {D, F}};
std::vector<std::vector<LD>> edge_lists(DType t, bool thorough) {
  std::vector<std::vector<LD>> r{{0, 1}, {0, 1, 2}, {-3, -1, 1, 3}, {0, 2, 3}, {0, 1, 3, 4}, {1, 1, 2}, {0, 1, 1, 1, 2}, {-2, 5, 6, 6}, {2}, {}};
  if (t == D) {
    r.push_back({0, 0.1, 0.2, 0.1 * 3, 0.4});
    r.push_back({0, 0.1, 0.2, 0.3, 0.4});
    std::vector<LD> e;
    for (int i = 0; i <= (thorough ? 40 : 12); ++i)
      e.push_back(double(i) * (1.0 / 3.0));
    r.push_back(e);
    r.push_back({-INF, 0, INF});
    r.push_back({1, std::nextafter(1.0, 2.0), std::nextafter(std::nextafter(1.0, 2.0), 2.0)});
    r.push_back({1e300, 2e300, 3e300});
  }
  if (t == F)
    r.push_back({0, 0.1f, 0.2f, 0.3f, 0.4f});
  if (t == T || t == L)
    r.push_back({4611686018427387904.L, 4611686018427387905.L, 4611686018427387906.L, 4611686018427387907.L});
  return r;
}
LD in_type(DType t, LD x) {
  if (t == D)
    return double(x);
  if (t == F)
    return float(x);
  return std::trunc(x);
}
std::vector<LD> arguments(DType xt, const std::vector<LD> &edges) {
  std::set<LD> s;
  const auto add = [&](LD x) {
    if (floating(xt) || std::abs(x) < (xt == I ? 2147483648.L : 9e18L) || x == -2147483648.L)
      s.insert(in_type(xt, x));
  };
  for (const auto e : edges) {
    if (std::isinf(e)) {
      if (floating(xt))
        add(e);
      continue;
    }
    add(e);
    if (floating(xt)) {
      add(xt == D ? std::nextafter(double(e), 1e308) : std::nextafterf(float(e), 1e38f));
      add(xt == D ? std::nextafter(double(e), -1e308) : std::nextafterf(float(e), -1e38f));
      add(e + 0.5L);
    } else {
      add(e - 1);
      add(e + 1);
    }
  }
  for (size_t i = 1; i < edges.size(); ++i)
    if (std::isfinite(edges[i]) && std::isfinite(edges[i - 1]))
      add((edges[i - 1] + edges[i]) / 2);
  if (floating(xt)) {
    s.insert(INF);
    s.insert(-INF);
  } else {
    add(-2147483648.L);
    add(2147483647.L);
  }
  add(0);
  std::vector<LD> r(s.begin(), s.end());
  if (floating(xt)) {
    r.push_back(NAN_);
    r.push_back(-0.0L);
  }
  return r;
}
ix bin_of(const std::vector<LD> &e, LD x) {
  for (size_t i = 0; i + 1 < e.size(); ++i)
    if (e[i] <= x && x < e[i + 1])
      return i;
  return -1;
}
ix previous_of(const std::vector<LD> &e, LD x) {
  ix r = -1;
  for (size_t i = 0; i < e.size(); ++i)
    if (e[i] <= x)
      r = i;
  return r;
}
Cells cells(const std::vector<LD> &v) {
  Cells c;
  for (const auto x : v)
    c.push_back(Cell(x));
  return c;
}
/// x in bins of given sizes (repeated) along Y, with ranges of a layout.
Variable in_bins(const Arr &x, int layout, DA *model = nullptr) {
  DA a;
  a.binned = a.plain_bins = true;
  const std::vector<ix> sizes{1, 0, 3, 2};
  ix at = 0;
  for (size_t i = 0; at < x.volume() || i < 2; ++i) {
    const ix n = std::min(sizes[i % 4], x.volume() - at);
    DA t;
    t.data = A(x.t, x.u, {EV}, {n}, Cells(x.v.begin() + at, x.v.begin() + at + n), x.var);
    a.bins.push_back(t);
    at += n;
  }
  a.data = A(D, units::none, {Y}, {ix(a.bins.size())}, {});
  if (model)
    *model = a;
  return make_bins_var(a, layout);
}
/// The values of a plain binned variable, bin after bin.
Arr flat(const Variable &v) {
  const auto a = read_var(v);
  Arr r = A(a.bins.at(0).data.t, a.bins.at(0).data.u, {EV}, {0}, {}, a.bins.at(0).data.var);
  for (const auto &b : a.bins)
    r.v.insert(r.v.end(), b.data.v.begin(), b.data.v.end());
  r.shape = {ix(r.v.size())};
  return r;
}
struct Func {
  DType xt, et, wt;
  bool var;
  std::vector<LD> edges;
  bool previous;
  std::string str() const {
    std::string s = previous ? "lookup_previous at " : "map with edges ";
    for (const auto e : edges)
      s += num(e) + " ";
    return s + "(" + to_string(et) + ") values " + to_string(wt) + (var ? " with variances" : "") + ", argument " + to_string(xt);
  }
};
void function_case(E_ &E, const Func &f, int layout, const std::vector<LD> &args) {
  const ix n = std::max(ix(0), ix(f.edges.size()) - (f.previous ? 0 : 1));
  if (!f.previous && f.edges.empty())
    return;
  Arr w = iota({X}, {n}, 3, f.wt == B ? units::none : units::m, f.wt, f.var);
  const auto e = A(f.et, units::s, {X}, {ix(f.edges.size())}, cells(f.edges));
  const auto x = A(f.xt, units::s, {EV}, {ix(args.size())}, cells(args));
  const bool core = f.et == D && f.xt == D && f.wt == D;
  for (int masks = 0; masks < (n <= 4 ? (1 << n) : 2); ++masks)
    for (int fill = 0; fill < 2; ++fill) {
      DA fun;
      fun.data = w;
      fun.coords.push_back({X, {e, true}});
      if (masks) {
        auto m = A(B, units::none, {X}, {n}, {});
        for (ix i = 0; i < n; ++i)
          m.v.push_back(Cell((masks >> i) & 1));
        fun.masks.push_back({"m", m});
        if (masks % 3 == 1) { // the same split into two
          auto m2 = m;
          m2.v[0].x = 0;
          fun.masks.push_back({"m2", m2});
        }
      }
      const Cell fv = fill ? Cell(f.wt == B ? 1 : 77, f.var ? 5 : 0) : Cell(floating(f.wt) ? NAN_ : 0);
      std::optional<Variable> fv_var;
      if (fill)
        fv_var = make_plain(A(f.wt, w.u, {}, {}, {fv}, f.var));
      Arr want = A(f.wt, w.u, {EV}, x.shape, {}, f.var);
      for (const auto a : args) {
        const ix i = f.previous ? previous_of(f.edges, a) : bin_of(f.edges, a);
        want.v.push_back(i < 0 || ((masks >> i) & 1 && i < 31) ? fv : w.v[i]);
      }
      const auto function = make_da(fun, 0, layout);
      const auto call = [&](const char *how, const Variable &arg, auto &&get) {
        Arr got;
        const auto before = read_var(arg);
        const auto err = raised([&] { got = get(f.previous ? sd::lookup_previous(function, arg, X, fv_var) : sd::buckets::map(function, arg, X, fv_var)); });
        ++E.transitions;
        unchanged(function, fun);
        E.check_lazy(difference(read_var(arg), before).empty(), "operand", [&] { return f.str() + " changed the argument"; });
        if (!err.empty()) {
          E.tally["function rejected"]++;
          E.check_lazy(!core || layout != 0 || f.edges.size() < 2 || f.var, "raise", [&] { return f.str() + " of " + how + " raised " + err; });
          return;
        }
        // the variance of a default fill value is not specified
        if (f.var && !fill)
          for (size_t i = 0; i < got.v.size() && i < want.v.size(); ++i)
            if (std::isnan(want.v[i].x) && std::isnan(got.v[i].x))
              got.v[i].var = want.v[i].var;
        const auto d = arr::difference(got, want);
        E.check_lazy(d.empty(), "function", [&] { return f.str() + (masks ? ", masks " + arr::str(fun.masks[0].second) : "") + " of " + how + " " + arr::str(x) + ": " + d; });
      };
      for (int l = 0; l < (masks ? 1 : 3); ++l)
        call("dense", make(x, l).view, [](const Variable &v) { return read(v); });
      for (int l = 0; l < 4; ++l)
        call("events", in_bins(x, l), [](const Variable &v) { return flat(v); });
    }
}
void scale_case(E_ &E, const Func &f, DType dt, bool var, const std::vector<LD> &args) {
  const ix n = ix(f.edges.size()) - 1;
  if (n < 0)
    return;
  Arr w = iota({X}, {n}, 3, units::s, f.wt);
  const auto e = A(f.et, units::m, {X}, {n + 1}, cells(f.edges));
  for (int masks = 0; masks < (n <= 3 ? (1 << n) : 2); ++masks)
    for (int l = 0; l < 4; ++l) {
      DA hist;
      hist.data = w;
      hist.coords.push_back({X, {e, true}});
      if (masks) {
        auto m = A(B, units::none, {X}, {n}, {});
        for (ix i = 0; i < n; ++i)
          m.v.push_back(Cell((masks >> i) & 1));
        hist.masks.push_back({"m", m});
      }
      hist.masks.push_back({"kept", A(B, units::none, {}, {}, {Cell(1)})});
      const auto x = A(f.xt, units::m, {EV}, {ix(args.size())}, cells(args));
      DA a;
      in_bins(x, 0, &a);
      a.plain_bins = false;
      ix k = 1;
      for (auto &b : a.bins) {
        b.coords.push_back({X, {b.data, true}});
        b.data = iota({EV}, b.data.shape, k, units::counts, dt, var);
        b.attrs.push_back({AC, iota({EV}, b.data.shape, k)});
        k += b.data.volume();
      }
      a.masks.push_back({"own", A(B, units::none, {Y}, a.data.shape, Cells(a.bins.size(), Cell(1)))});
      auto want = a;
      want.masks.push_back(hist.masks.back());
      for (auto &b : want.bins) {
        for (size_t i = 0; i < b.data.v.size(); ++i) {
          const ix j = bin_of(f.edges, b.coords[0].second.a.v[i].x);
          b.data.v[i] = times(b.data.v[i], j < 0 || ((masks >> j) & 1 && j < 31) ? 0 : w.v[j].x);
        }
        b.data.u = units::counts * units::s;
      }
      auto array = make_da(a, l);
      const auto h = make_da(hist);
      const auto err = raised([&] { sd::buckets::scale(array, h, X); });
      ++E.transitions;
      unchanged(h, hist);
      if (!err.empty()) {
        E.tally["scale rejected"]++;
        E.check_lazy(!(dt == D && f.et == D && f.wt == D && f.xt == D && n > 0), "raise", [&] { return "scale, " + f.str() + " raised " + err; });
        continue;
      }
      const LD eps = dt == F ? 1e-6L : 1e-14L;
      const auto d = difference(read_da(array), want, {eps, eps});
      E.check_lazy(d.empty(), "scale", [&] { return "scale of " + str(a) + " by " + f.str() + (masks ? " with masks " : "") + ": " + d; });
    }
}
void explore_functions(E_ &E) {
  for (const auto &[xt, et] : xtypes)
    for (const auto wt : {D, F, L, I, B})
      for (int var = 0; var < (floating(wt) ? 2 : 1); ++var)
        for (int previous = 0; previous < 2; ++previous)
          for (int layout = 0; layout < (wt == D ? 6 : 1); ++layout)
            E.run(std::string(previous ? "lookup_previous " : "map ") + to_string(xt) + " " + to_string(et) + " " + to_string(wt) + (var ? " with variances" : "") + " " + layout_name(layout), [&, xt = xt, et = et] {
              for (const auto &edges : edge_lists(et, E.thorough)) {
                auto args = arguments(xt, edges);
                if (previous) // there is no value before NaN
                  args.erase(std::remove_if(args.begin(), args.end(), [](LD x) { return std::isnan(x); }), args.end());
                function_case(E, {xt, et, wt, bool(var), edges, bool(previous)}, layout, args);
                E.nontrivial();
              }
            });
  for (const auto &[xt, et] : xtypes)
    for (const auto dt : {D, F})
      for (const auto wt : {D, F})
        for (int var = 0; var < 2; ++var)
          E.run("scale " + to_string(dt) + (var ? " with variances " : " ") + to_string(xt) + " " + to_string(et) + " " + to_string(wt), [&, xt = xt, et = et, dt = dt] {
            for (const auto &edges : edge_lists(et, E.thorough))
              scale_case(E, {xt, et, wt, false, edges, false}, dt, var, arguments(xt, edges));
            E.nontrivial();
          });
  E.run("functions that depend on the bin", [&] {
    // a function for each bin along Y
    for (int regular = 0; regular < 2; ++regular)
      for (int two_d = 0; two_d < 2; ++two_d)
        for (int order = 0; order < 2; ++order)
          for (int mask = 0; mask < 3; ++mask)
            for (int l = 0; l < 4; ++l) {
              const std::vector<LD> edges = regular ? std::vector<LD>{0, 1, 2} : std::vector<LD>{0, 2, 3};
              const auto args = arguments(D, edges);
              DA xm;
              const auto x = in_bins(A(D, units::s, {EV}, {ix(args.size())}, cells(args)), l, &xm);
              const ix ny = xm.data.shape[0];
              DA f;
              f.data = iota({Y, X}, {ny, 2}, 1, units::m);
              auto e = A(D, units::s, {X}, {3}, cells(edges));
              if (two_d) {
                e = A(D, units::s, {Y, X}, {ny, 3}, {});
                for (ix y = 0; y < ny; ++y)
                  for (const auto c : edges)
                    e.v.push_back(Cell(c + y));
              }
              f.coords.push_back({X, {e, true}});
              if (mask == 1)
                f.masks.push_back({"m", A(B, units::none, {X}, {2}, {Cell(0), Cell(1)})});
              if (mask == 2) {
                auto m = iota({Y, X}, {ny, 2}, 0, units::none, B);
                for (ix i = 0; i < 2 * ny; ++i)
                  m.v[i].x = i % 3 == 0;
                f.masks.push_back({"m", m});
              }
              auto want = xm;
              for (ix y = 0; y < ny; ++y) {
                auto &b = want.bins[y];
                b.data.u = units::m;
                std::vector<LD> mine;
                for (const auto c : edges)
                  mine.push_back(c + (two_d ? y : 0));
                for (auto &c : b.data.v) {
                  const ix i = bin_of(mine, c.x);
                  const bool masked = i >= 0 && mask && f.masks[0].second.v[mask == 1 ? i : y * 2 + i].x != 0;
                  c = i < 0 || masked ? Cell(NAN_) : f.data.v[y * 2 + i];
                }
              }
              const auto fun0 = make_da(f);
              const auto fun = order ? sd::transpose(fun0, std::vector<Dim>{X, Y}) : fun0;
              DA got;
              const auto err = raised([&] { got = read_var(sd::buckets::map(fun, x, X)); });
              ++E.transitions;
              if (!err.empty()) {
                E.tally["function of bins rejected"]++;
                E.check_lazy(order == 1, "raise", [&] { return "map with a function for each bin raised " + err; });
                continue;
              }
              const auto d = difference(got, want);
              E.check_lazy(d.empty(), "function", [&] { return "map with a function for each bin " + str(f) + " of " + str(xm) + ": " + d; });
            }
    E.nontrivial();
  });
  E.run("functions that are rejected", [&] {
    const auto x = A(D, units::s, {EV}, {3}, cells({0, 1, 2}));
    DA good;
    good.data = iota({X}, {2}, 3, units::m);
    good.coords.push_back({X, {A(D, units::s, {X}, {3}, cells({0, 1, 2})), true}});
    const auto bad = [&](const char *what, auto &&change, std::optional<Variable> fill = std::nullopt, bool previous = false) {
      auto f = good;
      change(f);
      for (int l = 0; l < 5; ++l) {
        const auto arg = l == 4 ? make_plain(x) : in_bins(x, l);
        const auto before = read_var(arg);
        if (!previous)
          E.check_lazy(!raised([&] { static_cast<void>(sd::buckets::map(make_da(f), arg, X, fill)); }).empty(), "raise", [&] { return std::string("map with ") + what + " did not raise"; });
        if (previous) {
          f.data.shape[0] = f.coords[0].second.a.shape[0];
          f.data.v.resize(f.data.shape[0]);
          E.check_lazy(!raised([&] { static_cast<void>(sd::lookup_previous(make_da(f), arg, X, fill)); }).empty(), "raise", [&] { return std::string("lookup_previous with ") + what + " did not raise"; });
        }
        E.check_lazy(difference(read_var(arg), before).empty(), "operand", [&] { return std::string("map with ") + what + " changed the argument"; });
        ++E.transitions;
      }
      if (fill)
        return;
      for (int l = 0; l < 4; ++l) {
        DA a;
        in_bins(x, 0, &a);
        a.plain_bins = false;
        for (auto &b : a.bins)
          b.coords.push_back({X, {b.data, true}});
        auto array = make_da(a, l);
        if (!previous)
          E.check_lazy(!raised([&] { sd::buckets::scale(array, make_da(f), X); }).empty(), "raise", [&] { return std::string("scale with ") + what + " did not raise"; });
        unchanged(array, a);
        ++E.transitions;
      }
    };
    for (int previous = 0; previous < 2; ++previous) {
      bad("another unit of edges", [](DA &f) { f.coords[0].second.a.u = units::m; }, {}, previous);
      bad("edges without order", [](DA &f) { f.coords[0].second.a.v = cells({0, 2, 1}); }, {}, previous);
      bad("descending edges", [](DA &f) { f.coords[0].second.a.v = cells({3, 1, 0}); }, {}, previous);
      bad("no coord", [](DA &f) { f.coords.clear(); f.coords.push_back({Y, {A(D, units::s, {X}, {2}, cells({1, 2})), true}}); }, {}, previous);
      bad("a fill value of another type", [](DA &) {}, makeVariable<float>(units::m, Values{1}), previous);
      bad("a fill value of another unit", [](DA &) {}, makeVariable<double>(units::s, Values{1}), previous);
    }
    bad("points", [](DA &f) { f.coords[0].second.a = A(D, units::s, {X}, {2}, cells({0, 1})); });
    E.nontrivial();
  });
  E.run("scale by something that does not match", [&] {
    // a coord that the array does not have or that differs is an error
    for (int l = 0; l < 4; ++l)
      for (int kind = 0; kind < 3; ++kind) {
        DA a = binned(ArrD, {Y}, {2}, {2, 1});
        for (auto &b : a.bins)
          b.coords[0].first = X;
        a.coords.push_back({Y, {iota({Y}, {2}, 1, units::m), true}});
        DA h;
        h.data = iota({X}, {2}, 3, units::one);
        h.coords.push_back({X, {A(D, units::m, {X}, {3}, cells({0, 2, 3})), true}});
        if (kind == 0)
          h.coords.push_back({Dim("absent"), {iota({}, {}, 1), true}});
        if (kind == 1) {
          h.data = iota({Y, X}, {2, 2}, 3, units::one);
          h.coords.push_back({Y, {iota({Y}, {2}, 2, units::m), true}});
        }
        if (kind == 2) {
          h.data = iota({Y, X}, {2, 2}, 3, units::one);
          h.coords.push_back({Y, {iota({Y}, {2}, 1, units::m), true}});
        }
        auto array = make_da(a, l);
        const auto err = raised([&] { sd::buckets::scale(array, make_da(h), X); });
        ++E.transitions;
        E.check_lazy(err.empty() == (kind == 2), "raise", [&] { return "scale by " + str(h) + (err.empty() ? " did not raise" : " raised " + err); });
        if (kind != 2) {
          unchanged(array, a);
          continue;
        }
        for (ix y = 0; y < 2; ++y)
          for (size_t i = 0; i < a.bins[y].data.v.size(); ++i) {
            const ix j = bin_of({0, 2, 3}, a.bins[y].coords[0].second.a.v[i].x);
            a.bins[y].data.v[i] = times(a.bins[y].data.v[i], j < 0 ? 0 : h.data.v[y * 2 + j].x);
          }
        const auto d = difference(read_da(array), a);
        E.check_lazy(d.empty(), "scale", [&] { return "scale by one histogram per bin: " + d; });
      }
    E.nontrivial();
  });
}
/// Operation with three operands, any of them binned, with bins of any sizes.
void explore_three(E_ &E) {
  for (int which = 1; which < 8; ++which)
    for (int nb = 1; nb <= 2; ++nb)
      E.run("where, operands binned " + std::to_string(which) + ", " + std::to_string(nb) + " bins", [&, which, nb] {
        const int nsizes = nb == 1 ? 3 : 9;
        std::array<int, 3> s{};
        for (s[0] = 0; s[0] < (which & 1 ? nsizes : 1); ++s[0])
          for (s[1] = 0; s[1] < (which & 2 ? nsizes : 1); ++s[1])
            for (s[2] = 0; s[2] < (which & 4 ? nsizes : 1); ++s[2])
              for (int l = 0; l < (E.thorough ? 16 : 4); ++l) {
                std::array<DA, 3> in;
                std::array<Variable, 3> v;
                std::vector<int> sizes;
                bool match = true;
                for (int k = 0; k < 3; ++k) {
                  const DType t = k == 0 ? B : D;
                  auto &a = in[k];
                  const auto u = k == 0 ? units::none : units::m;
                  if (which >> k & 1) {
                    const std::vector<int> sz = nb == 1 ? std::vector<int>{s[k]} : std::vector<int>{s[k] % 3, s[k] / 3};
                    match = match && (sizes.empty() || sizes == sz);
                    sizes = sz;
                    a.binned = a.plain_bins = true;
                    a.data = A(D, units::none, {X}, {nb}, {});
                    ix at = 0;
                    for (const auto n : sz) {
                      DA b;
                      b.data = A(t, u, {EV}, {n}, {});
                      for (ix i = 0; i < n; ++i, ++at)
                        b.data.v.push_back(Cell(k == 0 ? at % 2 : 100 * k + at));
                      a.bins.push_back(b);
                    }
                    v[k] = make_da(a, (l + k + l / 4 * k) % 4).data();
                  } else {
                    a.data = A(t, u, {X}, {nb}, {});
                    for (ix i = 0; i < nb; ++i)
                      a.data.v.push_back(Cell(k == 0 ? i % 2 : 100 * k + 50 + i));
                    v[k] = make_plain(a.data);
                  }
                }
                Variable out;
                const auto err = raised([&] { out = variable::where(v[0], v[1], v[2]); });
                ++E.transitions;
                const auto what = [&] { return "where(" + str(in[0]) + ", " + str(in[1]) + ", " + str(in[2]) + ")"; };
                E.check_lazy(err.empty() == match, "raise", [&] { return what() + (err.empty() ? " of bins of other sizes did not raise" : " raised " + err); });
                for (int k = 0; k < 3; ++k) {
                  const auto d = difference(read_var(v[k]), in[k]);
                  E.check_lazy(d.empty(), "operand", [&] { return what() + " changed an operand: " + d; });
                }
                if (!match || !err.empty())
                  continue;
                DA want = in[which & 1 ? 0 : which & 2 ? 1 : 2];
                for (int b = 0; b < nb; ++b) {
                  auto &w = want.bins[b].data;
                  w.t = D;
                  w.u = units::m;
                  for (size_t i = 0; i < w.v.size(); ++i) {
                    const auto of = [&](int k) { return in[k].binned ? in[k].bins[b].data.v[i].x : in[k].data.v[b].x; };
                    w.v[i] = Cell(of(0) ? of(1) : of(2));
                  }
                }
                const auto d = difference(read_var(out), want);
                E.check_lazy(d.empty(), "where", [&] { return what() + ": " + d; });
              }
        E.nontrivial();
      });
}
} // namespace
VH_EXPLORE(B03) {
  explore_three(E);
  explore_views(E);
  explore_concatenate(E);
  explore_ranges(E);
  explore_functions(E);
}
VH_MAIN
