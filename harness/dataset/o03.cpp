// O03: modifying in place with operands that share memory with the target gives
// what it gives with a copy of the operand.
#include "../common/ds.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/dataset.h"
#include "scipp/dataset/generated_arithmetic.h"
#include "scipp/dataset/shape.h"
#include "scipp/dataset/generated_logical.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/math.h"
#include "scipp/variable/operations.h"
#include "scipp/variable/pow.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/structures.h"
#include "scipp/variable/trigonometry.h"

using namespace ds;
namespace {
using Ex = vh::Explorer;
using Step = std::function<Variable(const Variable &)>;
struct View {
  std::string name;
  std::vector<Step> steps;
  Variable of(const Variable &base) const {
    auto v = base;
    for (const auto &s : steps)
      v = s(v);
    return v;
  }
};
std::string place(const Variable &v) {
  std::ostringstream s;
  s << v.offset();
  for (const auto &d : v.dims().labels())
    s << ' ' << to_string(d) << v.dims()[d];
  for (const auto x : v.strides())
    s << ' ' << x;
  return s.str();
}
/// All views that a number of steps leads to.
std::vector<View> all_views(const Variable &base, int depth, bool broadcasts, bool strides = true) {
  std::vector<View> out{{"", {}}};
  std::set<std::string> seen{place(base)};
  size_t done = 0;
  for (int n = 0; n < depth; ++n) {
    const auto end = out.size();
    for (; done < end; ++done) {
      const auto from = out[done];
      const auto v = from.of(base);
      const auto add = [&](const std::string &name, Step s) {
        Variable w;
        try {
          w = s(v);
        } catch (const std::exception &) {
          return;
        }
        if (w.dims().volume() == 0 || !seen.insert(place(w)).second)
          return;
        auto next = from;
        next.name += name;
        next.steps.push_back(std::move(s));
        out.push_back(std::move(next));
      };
      const auto labels = v.dims().labels();
      for (const auto &d : labels) {
        const auto size = v.dims()[d];
        for (ix b = 0; b < size; ++b) {
          add("[" + to_string(d) + "," + std::to_string(b) + "]", [d, b](const Variable &x) { return x.slice({d, b}); });
          for (ix e = b + 1; e <= size; ++e) {
            add("[" + to_string(d) + "," + std::to_string(b) + ":" + std::to_string(e) + "]", [d, b, e](const Variable &x) { return x.slice({d, b, e}); });
            if (strides && e - b > 2)
              add("[" + to_string(d) + "," + std::to_string(b) + ":" + std::to_string(e) + ":2]", [d, b, e](const Variable &x) { return x.slice({d, b, e, 2}); });
          }
        }
        for (const auto &t : {X, Y, Z})
          if (!v.dims().contains(t))
            add(" " + to_string(d) + "->" + to_string(t), [d, t](const Variable &x) { return x.rename_dims({{d, t}}); });
        if (size == 4)
          for (const auto &t : {X, Y, Z})
            for (const auto &u : {X, Y, Z})
              add(" fold " + to_string(d) + "->" + to_string(t) + to_string(u), [d, t, u](const Variable &x) {
                scipp::Dimensions dims;
                dims.addInner(t, 2);
                dims.addInner(u, 2);
                return variable::fold(x, d, dims);
              });
      }
      if (labels.size() == 2) {
        const Dim a = labels.front(), b = labels.back();
        add(" T", [a, b](const Variable &x) { return x.transpose(std::vector<Dim>{b, a}); });
        add(" swap", [a, b](const Variable &x) { return x.rename_dims({{a, Z}}).rename_dims({{b, a}}).rename_dims({{Z, b}}); });
        add(" flatten", [a, b](const Variable &x) {
          const auto f = variable::flatten(x, std::vector<Dim>{a, b}, X);
          if (f.data_handle() != x.data_handle())
            throw std::runtime_error("copy");
          return f;
        });
      }
      if (broadcasts)
        for (const auto &d : {X, Y})
          for (const ix size : {2, 3})
            if (!v.dims().contains(d) && v.dims().ndim() < 2)
              for (int outer = 0; outer < 2; ++outer)
                add(" broadcast " + to_string(d) + std::to_string(size) + (outer ? " outer" : ""), [d, size, outer](const Variable &x) {
                  auto dims = x.dims();
                  if (outer)
                    dims.add(d, size);
                  else
                    dims.addInner(d, size);
                  return x.broadcast(dims);
                });
    }
  }
  return out;
}
struct Op {
  std::string name;
  std::function<void(Variable &, const Variable &)> f;
};
const std::vector<Op> arithmetic{{"+=", [](Variable &a, const Variable &b) { a += b; }},
                                 {"-=", [](Variable &a, const Variable &b) { a -= b; }},
                                 {"*=", [](Variable &a, const Variable &b) { a *= b; }},
                                 {"/=", [](Variable &a, const Variable &b) { a /= b; }},
                                 {"copy", [](Variable &a, const Variable &b) { copy(b, a); }},
                                 {"setSlice", [](Variable &a, const Variable &b) { a.setSlice(scipp::Slice{}, b); }}};
const std::vector<Op> outs{{"abs", [](Variable &a, const Variable &b) { static_cast<void>(abs(b, a)); }},
                           {"sqrt", [](Variable &a, const Variable &b) { static_cast<void>(sqrt(b, a)); }},
                           {"reciprocal", [](Variable &a, const Variable &b) { static_cast<void>(reciprocal(b, a)); }},
                           {"floor", [](Variable &a, const Variable &b) { static_cast<void>(floor(b, a)); }},
                           {"nan_to_num", [](Variable &a, const Variable &b) { static_cast<void>(nan_to_num(b, makeVariable<double>(b.unit(), Values{3.25}), a)); }},
                           {"nan_to_num by", [](Variable &a, const Variable &b) { static_cast<void>(nan_to_num(copy(a), b, a)); }},
                           {"pow", [](Variable &a, const Variable &b) { static_cast<void>(pow(b, makeVariable<double>(Values{2.0}), a)); }},
                           {"pow by", [](Variable &a, const Variable &b) { static_cast<void>(pow(copy(a), b, a)); }}};
const std::vector<Op> logic{{"|=", [](Variable &a, const Variable &b) { a |= b; }}, {"&=", [](Variable &a, const Variable &b) { a &= b; }}, {"^=", [](Variable &a, const Variable &b) { a ^= b; }}, {"copy", [](Variable &a, const Variable &b) { copy(b, a); }}};
const std::vector<Op> integer{{"+=", [](Variable &a, const Variable &b) { a += b; }}, {"-=", [](Variable &a, const Variable &b) { a -= b; }}, {"*=", [](Variable &a, const Variable &b) { a *= b; }}, {"floor_divide", [](Variable &a, const Variable &b) { static_cast<void>(floor_divide_equals(a, b)); }}, {"copy", [](Variable &a, const Variable &b) { copy(b, a); }}};

void compare(Ex &E, const std::string &what, const std::string &err, const std::string &want_err, const std::function<std::string()> &diff, bool raising_allowed = false) {
  ++E.transitions;
  if (!err.empty() && want_err.empty()) {
    E.tally["only with shared memory rejected"]++;
    E.check_lazy(raising_allowed || err.find("ariance") != std::string::npos, "raise", [&] { return what + " raised " + err + ", but not with a copy"; });
    return;
  }
  E.check_lazy(err.empty() == want_err.empty(), "raise", [&] { return what + " did not raise, but does with a copy: " + want_err; });
  if (!err.empty() && !want_err.empty()) {
    E.tally["rejected"]++;
    return;
  }
  const auto d = diff();
  E.check_lazy(d.empty(), "value", [&] { return what + ": " + d; });
}
/// Dimensions that can be operands at all.
bool fits(const Variable &t, const Variable &o) {
  for (const auto &d : o.dims().labels())
    if (!t.dims().contains(d) || t.dims()[d] != o.dims()[d])
      return false;
  return true;
}
void pairs(Ex &E, const std::string &name, const Arr &base, int depth_t, int depth_o, const std::vector<Op> &ops, bool strides = true) {
  const auto proto = make_plain(base);
  const auto targets = all_views(proto, depth_t, false, strides), operands = all_views(proto, depth_o, true, strides);
  E.state(vh::hash_str(name));
  for (const auto &t : targets)
    E.run(name + ", target buffer" + t.name, [&] {
      for (const auto &o : operands) {
        if (!fits(t.of(proto), o.of(proto)))
          continue;
        for (const auto &op : ops) {
          if ((op.name == "copy" || op.name == "setSlice") && o.of(proto).dims().ndim() != t.of(proto).dims().ndim())
            continue;
          const auto one = make_plain(base), two = make_plain(base);
          auto t1 = t.of(one), t2 = t.of(two);
          const auto o1 = o.of(one), o2 = copy(o.of(two));
          const auto what = [&] { return name + ": buffer" + t.name + " " + op.name + " buffer" + o.name; };
          const auto err = raised([&] { op.f(t1, o1); });
          const auto want = raised([&] { op.f(t2, o2); });
          // identical operands are handled as correlated
          const bool same = base.var && place(t1) == place(o1);
          compare(E, what(), err, want, [&] {
            auto x = read(one), y = read(two);
            if (same)
              for (auto *r : {&x, &y})
                for (auto &c : r->v)
                  c.var = 0;
            return arr::difference(x, y);
          }, op.name.rfind("nan_to_num", 0) == 0); // not implemented for several operands
          if (err.empty() && want.empty())
            E.check_lazy(t1.unit() == t2.unit(), "unit", [&] { return what() + ": unit " + to_string(t1.unit()); });
        }
        E.nontrivial();
      }
    });
}
Arr numbers(DType t, units::Unit u, std::vector<Dim> dims, std::vector<ix> shape, bool var) {
  auto a = iota(dims, shape, 0, u, t, var);
  const LD primes[]{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37};
  for (size_t i = 0; i < a.v.size(); ++i) {
    a.v[i] = Cell(t == B ? LD((0x5a36 >> i) & 1) : primes[i], var ? i + 1 : 0);
    if (t == S)
      a.v[i].s = std::string(1, char('a' + i));
    if (t == V) {
      a.v[i].y = primes[i] + 0.5;
      a.v[i].z = primes[i] - 0.25;
    }
  }
  return a;
}
void explore_variables(Ex &E) {
  const int d = E.thorough ? 3 : 2;
  for (int var = 0; var < 2; ++var)
    for (const auto &u : {units::one, units::m}) {
      const auto n = std::string(var ? " with variances" : "") + " [" + to_string(u) + "]";
      pairs(E, "5" + n, numbers(D, u, {X}, {5}, var), 3, 4, arithmetic);
      pairs(E, "3x3" + n, numbers(D, u, {Y, X}, {3, 3}, var), d, var ? 2 : d + 1, arithmetic);
    }
  pairs(E, "2x3", numbers(D, units::one, {X, Y}, {2, 3}, false), 2, 3, arithmetic);
  pairs(E, "4", numbers(D, units::one, {X}, {4}, false), 3, 4, arithmetic);
  pairs(E, "2x2x2", numbers(D, units::one, {X, Y, Z}, {2, 2, 2}, false), 2, 3, arithmetic, false);
  auto gaps = numbers(D, units::one, {Y, X}, {3, 3}, false);
  for (const size_t i : {1, 4, 6})
    gaps.v[i].x = NAN_;
  pairs(E, "out arguments 3x3", gaps, 2, 3, outs);
  pairs(E, "out arguments 5", numbers(D, units::one, {X}, {5}, false), 3, 3, outs);
  for (const auto t : {F, L, I})
    pairs(E, to_string(t) + " 3x3", numbers(t, units::one, {Y, X}, {3, 3}, false), 2, 2, t == F ? arithmetic : integer);
  pairs(E, "bool 3x3", numbers(B, units::none, {Y, X}, {3, 3}, false), 2, 3, logic);
  pairs(E, "bool 5", numbers(B, units::none, {X}, {5}, false), 3, 3, logic);
  pairs(E, "string 5", numbers(S, units::none, {X}, {5}, false), 3, 3, {arithmetic[4]});
  pairs(E, "vector 3x3", numbers(V, units::one, {Y, X}, {3, 3}, false), 2, 2, {arithmetic[0], arithmetic[1], arithmetic[4]});
  // components of vectors
  const auto base = numbers(V, units::one, {X}, {4}, false);
  const auto proto = make_plain(base);
  const auto views = all_views(proto, 3, false), more = all_views(proto, 3, true);
  const std::vector<std::string> keys{"", "x", "y", "z"};
  for (const auto &kt : keys)
    for (const auto &ko : keys)
      for (const auto &t : views)
        E.run("vectors, target buffer" + t.name + " " + kt + ", operand " + ko, [&] {
          for (const auto &o : more) {
            if (!fits(t.of(proto), o.of(proto)))
              continue;
            for (const auto &op : arithmetic) {
              if ((op.name == "copy" || op.name == "setSlice") && (o.of(proto).dims().ndim() != t.of(proto).dims().ndim()))
                continue;
              const auto one = make_plain(base), two = make_plain(base);
              const auto pick = [](const Variable &v, const std::string &k) { return k.empty() ? v : v.elements<Eigen::Vector3d>(k); };
              auto t1 = pick(t.of(one), kt), t2 = pick(t.of(two), kt);
              const auto o1 = pick(o.of(one), ko), o2 = copy(pick(o.of(two), ko));
              const auto err = raised([&] { op.f(t1, o1); });
              const auto want = raised([&] { op.f(t2, o2); });
              compare(E, "buffer" + t.name + " " + kt + " " + op.name + " buffer" + o.name + " " + ko, err, want, [&] { return arr::difference(read(one), read(two)); });
              E.nontrivial();
            }
          }
        });
}

// --- binned ----------------------------------------------------------------
void explore_bins(Ex &E) {
  // bins of a common buffer, in different order and overlapping
  struct Binning {
    std::string name;
    std::vector<std::pair<ix, ix>> bins;
  };
  const std::vector<Binning> binnings{{"in order", {{0, 2}, {2, 4}}}, {"swapped", {{2, 4}, {0, 2}}}, {"shifted", {{1, 3}, {3, 5}}}, {"overlapping", {{0, 2}, {1, 3}}}, {"same", {{2, 4}, {2, 4}}}, {"longer", {{0, 3}, {3, 4}}}, {"empty", {{0, 0}, {0, 2}}}};
  struct World {
    Variable buffer;
    std::optional<DataArray> table;
    Variable bins(const std::vector<std::pair<ix, ix>> &b, const std::vector<Dim> &dims) const {
      scipp::Dimensions d;
      if (dims.size() == 2) {
        d.addInner(dims[0], 1);
        d.addInner(dims[1], 2);
      } else
        d.addInner(dims[0], 2);
      std::vector<scipp::index_pair> v(b.begin(), b.end());
      const auto ind = makeVariable<scipp::index_pair>(scipp::Dimensions(d), Values(v));
      return table ? sd::make_bins_no_validate(ind, EV, *table) : variable::make_bins_no_validate(ind, EV, buffer);
    }
  };
  const auto world = [](bool with_table, bool var) {
    World w;
    w.buffer = make_plain(numbers(D, units::one, {EV}, {6}, var));
    if (with_table)
      w.table = DataArray(w.buffer, {{X, make_plain(iota({EV}, {6}, 100))}});
    return w;
  };
  for (int table = 0; table < 2; ++table)
    for (int var = 0; var < 2; ++var)
      for (const auto &bt : binnings) {
        if (bt.name == "overlapping" || bt.name == "same")
          continue;
        E.run("bins " + bt.name + (table ? " of a table" : "") + (var ? " with variances" : ""), [&, table, var] {
          const auto check = [&](const std::string &what, auto &&target, auto &&operand, const std::vector<Op> &ops, bool identical = false) {
            for (const auto &op : ops) {
              const auto one = world(table, var), two = world(table, var);
              Variable t1, t2, o1, o2;
              try {
                t1 = target(one), t2 = target(two), o1 = operand(one), o2 = copy(operand(two));
              } catch (const std::exception &) {
                continue;
              }
              const auto err = raised([&] { op.f(t1, o1); });
              const auto want = raised([&] { op.f(t2, o2); });
              compare(E, bt.name + " " + op.name + " " + what, err, want, [&] {
                auto x = read(one.buffer), y = read(two.buffer);
                if (identical) // handled as correlated
                  for (auto *r : {&x, &y})
                    for (auto &cell : r->v)
                      cell.var = 0;
                auto d = arr::difference(x, y);
                if (d.empty() && table)
                  d = arr::difference(read(one.table->coords()[X]), read(two.table->coords()[X]));
                if (d.empty() && !identical)
                  d = difference(read_var(t1), read_var(t2));
                return d;
              });
            }
            E.nontrivial();
          };
          // binned operands
          for (const auto &bo : binnings)
            for (int same = 0; same < 2; ++same) // views of one binned variable
              for (ix b = 0; b < 2; ++b)
                for (ix e = b; e <= 2; ++e) // b == e: one bin
                  for (ix c = 0; c < 2; ++c) {
                    if (same && bo.name != bt.name)
                      continue;
                    std::map<const void *, Variable> made;
                    const auto all = [&](const World &w) {
                      auto &m = made[&w];
                      if (!m.is_valid())
                        m = w.bins(bt.bins, {X});
                      return m;
                    };
                    const auto sub = [](const Variable &v, ix b, ix e) { return b == e ? v.slice({X, b}) : v.slice({X, b, e}); };
                    check("bins " + bo.name + " " + std::to_string(b) + ":" + std::to_string(e) + " from " + std::to_string(c), [&](const World &w) { return sub(all(w), b, e); },
                          [&](const World &w) {
                            const auto v = same ? all(w) : w.bins(bo.bins, {X});
                            return c == 0 ? sub(v, b, e) : b == e ? v.slice({X, 1 - b}) : v.slice({X, 2 - (e - b), 2});
                          },
                          arithmetic, same && (c == 0 || (b != e && 2 - (e - b) == b)));
                    made.clear();
                  }
          // dense operands that are part of the events
          for (const auto *dims : {"X", "YX", "XY"}) {
            const std::vector<Dim> bd = dims[1] == 0 ? std::vector<Dim>{X} : dims[0] == 'Y' ? std::vector<Dim>{Y, X} : std::vector<Dim>{X, Y};
            for (ix b = 0; b < 5; ++b) {
              if (!bd[1 < bd.size()].name().empty()) {
                const Dim inner = bd.back();
                check("events " + std::to_string(b) + ":+2 along " + to_string(inner), [&](const World &w) { return w.bins(bt.bins, bd); }, [&](const World &w) { return w.buffer.slice({EV, b, b + 2}).rename_dims({{EV, inner}}); }, {arithmetic.begin(), arithmetic.begin() + 4});
              }
              check("event " + std::to_string(b), [&](const World &w) { return w.bins(bt.bins, bd); }, [&](const World &w) { return w.buffer.slice({EV, b}); }, {arithmetic.begin(), arithmetic.begin() + 4});
            }
            check("every second event", [&](const World &w) { return w.bins(bt.bins, bd); }, [&](const World &w) { return w.buffer.slice({EV, 0, 3, 2}).rename_dims({{EV, bd.back()}}); }, {arithmetic.begin(), arithmetic.begin() + 4});
          }
        });
      }
  // bins that are assigned within one binned variable
  for (int table = 0; table < 2; ++table)
    for (int transposed = 0; transposed < 2; ++transposed)
      E.run("slices of 3x3 bins" + std::string(table ? " of a table" : "") + (transposed ? ", transposed" : ""), [&] {
        const auto make_one = [&] {
          std::vector<scipp::index_pair> v;
          for (ix i = 0; i < 9; ++i)
            v.emplace_back(2 * i, 2 * i + 2);
          const auto ind = makeVariable<scipp::index_pair>(scipp::Dimensions({Y, X}, {3, 3}), Values(v));
          auto b = make_plain(iota({EV}, {18}, 1));
          if (!table)
            return variable::make_bins_no_validate(ind, EV, b);
          return sd::make_bins_no_validate(ind, EV, DataArray(b, {{X, make_plain(iota({EV}, {18}, 101))}}));
        };
        const auto proto = make_one();
        // as an equivalent dense variable to enumerate the views
        const auto shape = make_plain(iota({Y, X}, {3, 3}, 0));
        const auto t_views = all_views(shape, 2, false), o_views = all_views(shape, 2, false);
        for (const auto &t : t_views)
          for (const auto &o : o_views) {
            Variable a, b;
            if (t.name.find("flatten") != std::string::npos || o.name.find("flatten") != std::string::npos)
              continue;
            if (!fits(t.of(shape), o.of(shape)) || t.of(shape).dims().ndim() != o.of(shape).dims().ndim())
              continue;
            for (const auto &op : arithmetic) {
              auto one = make_one(), two = make_one();
              const auto tr = [&](const Variable &v) { return transposed ? v.transpose(std::vector<Dim>{X, Y}) : v; };
              Variable t1 = t.of(one), t2 = t.of(two);
              const Variable o1 = o.of(transposed ? tr(one).rename_dims({{X, Z}}).rename_dims({{Y, X}}).rename_dims({{Z, Y}}) : one), o2 = copy(o.of(transposed ? tr(two).rename_dims({{X, Z}}).rename_dims({{Y, X}}).rename_dims({{Z, Y}}) : two));
              const auto err = raised([&] { op.f(t1, o1); });
              const auto want = raised([&] { op.f(t2, o2); });
              compare(E, "bins" + t.name + " " + op.name + " bins" + o.name, err, want, [&] { return difference(read_var(one), read_var(two)); });
            }
          }
        E.nontrivial();
      });
}

// --- data arrays and datasets ------------------------------------------------
struct DOp {
  std::string name;
  int kind;
};
template <class A, class B_> void apply(int kind, A &a, const B_ &b) {
  switch (kind) {
  case 0:
    a += b;
    break;
  case 1:
    a -= b;
    break;
  case 2:
    a *= b;
    break;
  case 3:
    a /= b;
    break;
  }
}
const char *const op_names[]{"+=", "-=", "*=", "/="};
void explore_arrays(Ex &E) {
  // data arrays: the target and the operand are views of one array with masks
  for (int nd = 1; nd <= 2; ++nd)
    for (int op = 0; op < 5; ++op)
      E.run("data arrays of " + std::to_string(nd) + " dimensions, " + (op < 4 ? op_names[op] : "setSlice"), [&, op] {
        const auto make_one = [&] {
          DA a;
          a.data = nd == 1 ? numbers(D, units::one, {X}, {5}, false) : numbers(D, units::one, {Y, X}, {3, 3}, false);
          auto m = a.data;
          m.t = B;
          m.u = units::none;
          for (size_t i = 0; i < m.v.size(); ++i)
            m.v[i] = Cell((0x2d3 >> i) & 1);
          a.masks.push_back({"m", m});
          auto mx = A(B, units::none, {X}, {a.data.shape.back()}, {});
          for (ix i = 0; i < a.data.shape.back(); ++i)
            mx.v.push_back(Cell(i % 2));
          if (op < 4)
            a.masks.push_back({"mx", mx});
          return make_da(a);
        };
        struct Cut {
          std::string name;
          std::function<DataArray(const DataArray &)> f;
          std::vector<scipp::Slice> slices;
        };
        std::vector<Cut> cuts;
        const auto ranges = [](Dim d, ix n) {
          std::vector<scipp::Slice> r{scipp::Slice{}};
          for (ix b = 0; b < n; ++b) {
            r.emplace_back(d, b);
            for (ix e = b + 1; e <= n; ++e)
              r.emplace_back(d, b, e);
          }
          return r;
        };
        const auto text = [](const scipp::Slice &s) { return s == scipp::Slice{} ? std::string() : "[" + to_string(s.dim()) + "," + std::to_string(s.begin()) + ":" + std::to_string(s.end()) + "]"; };
        for (const auto &s : ranges(X, nd == 1 ? 5 : 3))
          for (const auto &r : nd == 1 ? std::vector<scipp::Slice>{scipp::Slice{}} : ranges(Y, 3))
            cuts.push_back({text(s) + text(r), [s, r](const DataArray &a) { return a.slice(s).slice(r); }, {s, r}});
        if (nd == 2) {
          const auto n = cuts.size();
          for (size_t i = 0; i < n; ++i)
            cuts.push_back({cuts[i].name + " T", [f = cuts[i].f](const DataArray &a) { return f(sd::transpose(a, std::vector<Dim>{X, Y})); }, {}});
        }
        for (const auto &t : cuts)
          for (const auto &o : cuts) {
            if (op == 4 && t.slices.empty())
              continue;
            auto one = make_one(), two = make_one();
            {
              const auto tv = t.f(one), ov = o.f(one);
              if (!fits(tv.data(), ov.data()))
                continue;
            }
            std::string err, want;
            if (op < 4) {
              auto t1 = t.f(one), t2 = t.f(two);
              if (&t == &cuts[0]) {
                err = raised([&] { apply(op, one, o.f(one)); });
                want = raised([&] { apply(op, two, copy(o.f(two))); });
              } else {
                // masks of slices cannot be modified: only the data
                err = raised([&] { apply(op, t1, o.f(one).data()); });
                want = raised([&] { apply(op, t2, copy(o.f(two).data())); });
              }
            } else {
              const auto part1 = one.slice(t.slices[1]), part2 = two.slice(t.slices[1]);
              auto p1 = part1, p2 = part2;
              err = raised([&] { p1.setSlice(t.slices[0], o.f(one)); });
              want = raised([&] { p2.setSlice(t.slices[0], copy(o.f(two))); });
            }
            compare(E, "array" + t.name + " " + (op < 4 ? op_names[op] : "setSlice") + " array" + o.name, err, want, [&] { return difference(read_da(one), read_da(two)); });
          }
        E.nontrivial();
      });
  // datasets: what the items and the operands share
  // items: views of buffer 0 or 1
  const std::vector<View> views{{"", {}}, {" T", {[](const Variable &v) { return v.transpose(std::vector<Dim>{X, Y}); }}}, {" swapped", {[](const Variable &v) { return v.rename_dims({{X, Z}}).rename_dims({{Y, X}}).rename_dims({{Z, Y}}); }}}, {"[x,1:]", {[](const Variable &v) { return v.slice({X, 1, 3}); }}}, {"[x,:2]", {[](const Variable &v) { return v.slice({X, 0, 2}); }}}, {"[y,1:]", {[](const Variable &v) { return v.slice({Y, 1, 3}); }}}, {"[y,:2]", {[](const Variable &v) { return v.slice({Y, 0, 2}); }}}};
  std::vector<View> operand_views = views;
  for (ix i = 0; i < 3; ++i)
    for (const auto &d : {X, Y})
      operand_views.push_back({"[" + to_string(d) + "," + std::to_string(i) + "]", {[d, i](const Variable &v) { return v.slice({d, i}); }}});
  operand_views.push_back({"[x,1:][y,1]", {[](const Variable &v) { return v.slice({X, 1, 3}).slice({Y, 1}); }}});
  operand_views.push_back({"[y,1:][x,1]", {[](const Variable &v) { return v.slice({Y, 1, 3}).slice({X, 1}); }}});
  operand_views.push_back({"[x,0][y,0]", {[](const Variable &v) { return v.slice({X, 0}).slice({Y, 0}); }}});
  operand_views.push_back({"[x,2][y,1]", {[](const Variable &v) { return v.slice({X, 2}).slice({Y, 1}); }}});
  operand_views.push_back({"[x,0] broadcast", {[](const Variable &v) { return v.slice({X, 0}).broadcast(v.dims()); }}});
  operand_views.push_back({"[x,0][y,1] broadcast", {[](const Variable &v) { return v.slice({X, 0}).slice({Y, 1}).broadcast(v.dims()); }}});
  struct Bufs {
    Variable v[3];
  };
  const auto buffers = [] {
    Bufs b;
    for (int i = 0; i < 3; ++i) {
      auto a = numbers(D, units::one, {Y, X}, {3, 3}, false);
      for (auto &c : a.v)
        c.x += 40 * i;
      b.v[i] = make_plain(a);
    }
    return b;
  };
  const auto diff = [](const Bufs &a, const Bufs &b) {
    std::string d;
    for (int i = 0; i < 3; ++i)
      d += arr::difference(read(a.v[i]), read(b.v[i]));
    return d;
  };
  for (size_t va = 0; va < views.size(); ++va)
    for (size_t vb = 0; vb < views.size(); ++vb)
      for (int buf = 0; buf < 2; ++buf) {
        const auto name = "dataset of buffer 0" + views[va].name + " and buffer " + std::to_string(buf) + views[vb].name;
        E.run(name, [&, va, vb, buf] {
          const auto build = [&](const Bufs &b) {
            Dataset s;
            s.setDataInit("a", DataArray(views[va].of(b.v[0])));
            s.setData("b", views[vb].of(b.v[buf]));
            s.setData("c", copy(views[va].of(b.v[2])));
            return s;
          };
          {
            const auto b = buffers();
            if (!raised([&] { build(b); }).empty())
              return;
          }
          const auto contents = [](const Dataset &s) {
            std::vector<DA> r;
            for (const auto *n : {"a", "b", "c"})
              r.push_back(read_da(DataArray(s[n])));
            return r;
          };
          const auto differ = [&](const Bufs &b1, const Bufs &b2, const Dataset &s1, const Dataset &s2) {
            auto d = diff(b1, b2);
            const auto x = contents(s1), y = contents(s2);
            for (int i = 0; i < 3; ++i)
              d += difference(x[i], y[i]);
            return d;
          };
          for (int op = 0; op < 4; ++op) {
            for (int from = 0; from < 2; ++from)
              for (const auto &o : operand_views)
                for (int as_array = 0; as_array < 2; ++as_array) {
                  const auto b1 = buffers(), b2 = buffers();
                  auto s1 = build(b1), s2 = build(b2);
                  const auto o1 = o.of(b1.v[from]), o2 = copy(o.of(b2.v[from]));
                  std::string err, want;
                  if (as_array) {
                    err = raised([&] { apply(op, s1, DataArray(o1)); });
                    want = raised([&] { apply(op, s2, DataArray(o2)); });
                  } else {
                    err = raised([&] { apply(op, s1, o1); });
                    want = raised([&] { apply(op, s2, o2); });
                  }
                  compare(E, name + " " + op_names[op] + " buffer " + std::to_string(from) + o.name, err, want, [&] { return differ(b1, b2, s1, s2); });
                }
            // items as operands, also swapped
            for (const auto *ia : {"a", "b", "c"}) {
              const auto b1 = buffers(), b2 = buffers();
              auto s1 = build(b1), s2 = build(b2);
              const auto err = raised([&] { apply(op, s1, s1[ia]); });
              const auto want = raised([&] { apply(op, s2, copy(DataArray(s2[ia]))); });
              compare(E, name + " " + op_names[op] + " item " + ia, err, want, [&] { return differ(b1, b2, s1, s2); });
              for (const auto *ib : {"a", "b", "c"})
                for (const auto *ic : {"a", "b", "c", ""}) {
                  const auto c1 = buffers(), c2 = buffers();
                  auto t1 = build(c1), t2 = build(c2);
                  const auto operand = [&](const Dataset &s) {
                    Dataset r;
                    r.setDataInit("a", DataArray(s[ia].data()));
                    r.setData("b", s[ib].data());
                    if (*ic)
                      r.setData("c", s[ic].data());
                    return r;
                  };
                  const auto p1 = operand(t1), p2 = copy(operand(t2));
                  const auto e1 = raised([&] { apply(op, t1, p1); });
                  const auto e2 = raised([&] { apply(op, t2, p2); });
                  compare(E, name + " " + op_names[op] + " dataset of items " + ia + " " + ib + " " + ic, e1, e2, [&] { return differ(c1, c2, t1, t2); });
                }
            }
            // itself and its slices
            const auto b1 = buffers(), b2 = buffers();
            auto s1 = build(b1), s2 = build(b2);
            const auto err = raised([&] { apply(op, s1, s1); });
            const auto want = raised([&] { apply(op, s2, copy(s2)); });
            compare(E, name + " " + op_names[op] + " itself", err, want, [&] { return differ(b1, b2, s1, s2); });
          }
          // assigning slices
          for (const auto &d : {X, Y})
            for (ix b = 0; b < 2; ++b)
              for (ix c = 0; c < 2; ++c)
                for (int range = 0; range < 2; ++range)
                  for (int what = 0; what < 3; ++what) {
                    const auto b1 = buffers(), b2 = buffers();
                    auto s1 = build(b1), s2 = build(b2);
                    const auto size = s1.sizes()[d];
                    if (b >= size || c >= size || (range && (b + 2 > size || c + 2 > size)))
                      continue;
                    const auto at = [&](ix i) { return range ? scipp::Slice(d, i, i + 2) : scipp::Slice(d, i); };
                    std::string err, want;
                    if (what == 0) {
                      err = raised([&] { s1.setSlice(at(b), s1.slice(at(c))); });
                      want = raised([&] { s2.setSlice(at(b), copy(s2.slice(at(c)))); });
                    } else if (what == 1) {
                      err = raised([&] { s1.setSlice(at(b), DataArray(s1["a"]).slice(at(c))); });
                      want = raised([&] { s2.setSlice(at(b), copy(DataArray(s2["a"]).slice(at(c)))); });
                    } else {
                      err = raised([&] { s1.setSlice(at(b), s1["b"].data().slice(at(c))); });
                      want = raised([&] { s2.setSlice(at(b), copy(s2["b"].data().slice(at(c)))); });
                    }
                    compare(E, name + " slice " + std::to_string(b) + " of " + to_string(d) + (range ? ":+2" : "") + " set to slice " + std::to_string(c) + (what == 0 ? "" : what == 1 ? " of a" : " of the data of b"), err, want, [&] { return differ(b1, b2, s1, s2); });
                  }
          E.nontrivial();
        });
      }
}
} // namespace
VH_EXPLORE(O03) {
  explore_variables(E);
  explore_bins(E);
  explore_arrays(E);
}
VH_MAIN
