// O04: parallel loops are free of races and their result does not depend on how
// they are split. Every operation is run with every region split in every way
// (up to bounds) and its chunks in several orders, and with all regions split.
// An execution in which no chunk accesses what another one writes stands for
// all interleavings of these chunks.
#include "../variable/ops.h"
#include "text.h"
#include "races.h"
#include <tbb/parallel_for.h>
#include "scipp/dataset/bin.h"
#include "scipp/dataset/bins.h"
#include "scipp/dataset/bins_view.h"
#include "scipp/dataset/generated_bins.h"
#include "scipp/dataset/generated_reduction.h"
#include "scipp/dataset/groupby.h"
#include "scipp/dataset/histogram.h"
#include "scipp/dataset/mean.h"
#include "scipp/dataset/nanmean.h"
#include "scipp/dataset/rebin.h"
#include "scipp/dataset/shape.h"
#include "scipp/dataset/slice.h"
#include "scipp/dataset/sort.h"
#include "scipp/dataset/to_unit.h"
#include "scipp/variable/cumulative.h"
#include "scipp/variable/reduction.h"
#include "scipp/variable/rebin.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/structures.h"
#include "scipp/variable/to_unit.h"
#include <algorithm>
#include <functional>
#include <memory>

using namespace ds;

namespace {
using Ex = vh::Explorer;
using Chunks = std::vector<std::pair<long, long>>;
struct Region {
  long begin, end, grain;
};

struct Sched : verif_par::Scheduler {
  std::vector<Region> log;
  std::vector<int> ids; // chunk counters of the open regions
  std::function<Chunks(size_t, const Region &)> choose;
  bool ties = false;
  Chunks partition(long b, long e, long g) override {
    races::Pause p;
    const Region r{b, e, g};
    log.push_back(r);
    return choose ? choose(log.size() - 1, r) : Chunks{{b, e}};
  }
  void region_begin(void *frame) override {
    races::Pause p;
    races::enter(frame);
    ids.push_back(0);
  }
  void chunk_begin(long, long) override {
    races::Pause p;
    races::chunk(++ids.back());
  }
  void chunk_end() override {
    races::Pause p;
    races::chunk(0);
  }
  void region_end() override {
    races::Pause p;
    races::leave();
    ids.pop_back();
  }
  bool sort_reverses_ties() override { return ties; }
} Sc;

/// Can a range be split like this by dividing ranges longer than the grain size?
bool possible(const std::vector<long> &len, size_t b, size_t e, long g) {
  if (e - b == 1)
    return true;
  long n = 0;
  for (size_t i = b; i < e; ++i)
    n += len[i];
  if (n <= g)
    return false;
  if (g == 1)
    return true;
  for (size_t m = b + 1; m < e; ++m)
    if (possible(len, b, m, g) && possible(len, m, e, g))
      return true;
  return false;
}
void halves(long b, long e, long g, std::vector<long> &len) {
  if (e - b <= g) {
    len.push_back(e - b);
    return;
  }
  const auto m = b + (e - b) / 2;
  halves(b, m, g, len);
  halves(m, e, g, len);
}
std::vector<long> finest(long n, long g) {
  std::vector<long> len;
  halves(0, n, g, len);
  return len;
}
/// Lengths of the parts of all partitions considered.
std::vector<std::vector<long>> partitions(long n, long g, bool thorough) {
  std::vector<std::vector<long>> r;
  const auto add = [&](std::vector<long> len) {
    for (const auto l : len)
      if (l <= 0)
        return;
    if (len.size() > 1 && (len.size() > 30 || possible(len, 0, len.size(), g)) && std::find(r.begin(), r.end(), len) == r.end())
      r.push_back(len);
  };
  if (n <= (thorough ? 6 : 4)) {
    for (int m = 1; m < 1 << (n - 1); ++m) {
      std::vector<long> len{1};
      for (int i = 0; i < n - 1; ++i)
        if (m >> i & 1)
          len.push_back(1);
        else
          ++len.back();
      add(len);
    }
    return r;
  }
  add(finest(n, g));
  const auto few = [&](long n) {
    std::vector<long> k{1, n / 2, n - 1};
    if (thorough || n <= 8) {
      k.clear();
      for (long i = 1; i < n && i < 30; ++i)
        k.push_back(i);
    }
    return k;
  };
  for (const auto a : few(n)) {
    add({a, n - a});
    if (n - a > 1 && (thorough || n <= 6))
      for (const auto b : few(n - a))
        add({a, b, n - a - b});
  }
  return r;
}
/// Orders in which the parts are run.
std::vector<std::vector<int>> orders(size_t n, bool thorough) {
  std::vector<int> p(n);
  for (size_t i = 0; i < n; ++i)
    p[i] = int(i);
  std::vector<std::vector<int>> r;
  if (n <= 4 && thorough) {
    do
      r.push_back(p);
    while (std::next_permutation(p.begin(), p.end()));
    return r;
  }
  r.push_back(p);
  std::reverse(p.begin(), p.end());
  if (!thorough) // accesses are recorded alike in any order
    return {p};
  r.push_back(p);
  std::vector<int> q; // middle first
  for (size_t i = 0; i < n; ++i)
    q.push_back(int((i + n / 2) % n));
  r.push_back(q);
  return r;
}
Chunks chunks(const Region &r, const std::vector<long> &len, const std::vector<int> &order) {
  Chunks all, c;
  long b = r.begin;
  for (const auto l : len) {
    all.push_back({b, b + l});
    b += l;
  }
  for (const auto i : order)
    c.push_back(all[i]);
  return c;
}
std::vector<int> reversed(size_t n) { return orders(n, true).size() ? [&] {
    std::vector<int> p(n);
    for (size_t i = 0; i < n; ++i) p[i] = int(n - 1 - i);
    return p; }() : std::vector<int>{}; }

struct Job {
  std::string name;
  std::function<std::string()> f; // runs on fresh operands, returns everything as text
  bool ties = false;              // result does not depend on the order of equal elements either
};

void explore(Ex &E, const Job &j) {
  E.run([&] { return j.name; },
        [&] {
          verif_par::scheduler = nullptr;
          std::string want;
          try {
            want = j.f();
          } catch (const std::exception &e) {
            ++E.tally["not applicable"];
            return;
          }
          const auto sig = j.name.substr(0, j.name.find(':'));
          const auto once = [&](const std::function<Chunks(size_t, const Region &)> &c, const std::function<std::string()> &how) {
            Sc.log.clear();
            Sc.ids.clear();
            Sc.choose = c;
            races::start();
            verif_par::scheduler = &Sc;
            std::string got;
            try {
              got = j.f();
            } catch (const std::exception &e) {
              got = std::string("raised ") + e.what();
            }
            verif_par::scheduler = nullptr;
            ++E.transitions;
            E.checks += 2;
            if (const auto r = races::found(); !r.empty())
              E.note(sig + " race", j.name + ", " + how() + ": " + r);
            if (got != want)
              E.note(sig + " result", j.name + ", " + how() + ": result\n" + got.substr(0, 1500) + "\ninstead of\n" + want.substr(0, 1500));
          };
          Sc.ties = false;
          once({}, [] { return "nothing split"; });
          const auto log = Sc.log;
          bool nontrivial = false;
          const auto txt = [](const Region &r, const std::vector<long> &len, const std::vector<int> &o) {
            std::string s = "of " + std::to_string(r.end - r.begin) + " split into";
            for (size_t i = 0; i < len.size(); ++i)
              s += " " + std::to_string(len[i]);
            s += " run in order";
            for (const auto i : o)
              s += " " + std::to_string(i);
            return s;
          };
          std::map<std::pair<long, long>, int> seen;
          for (size_t k = 0; k < log.size(); ++k) {
            const auto &r = log[k];
            const auto n = r.end - r.begin;
            E.state(vh::hash_mix(n, r.grain));
            auto all = partitions(n, r.grain, E.thorough);
            if (!E.thorough && ++seen[{n, r.grain}] > 4 && !all.empty()) // many loops alike, e.g., in every bin
              all = {finest(n, r.grain)};
            for (const auto &len : all)
              for (const auto &o : orders(len.size(), E.thorough)) {
                nontrivial = true;
                once([&](size_t i, const Region &q) { return i == k && q.end - q.begin == n ? chunks(q, len, o) : Chunks{{q.begin, q.end}}; },
                     [&] { return "loop " + std::to_string(k) + " " + txt(r, len, o); });
              }
          }
          if (nontrivial)
            E.nontrivial();
          for (int ties = 0; ties < (j.ties ? 2 : 1); ++ties) {
            Sc.ties = ties;
            for (int rev = 0; rev < 2; ++rev) {
              once([&](size_t, const Region &q) {
                     const auto len = finest(q.end - q.begin, q.grain);
                     return chunks(q, len, rev ? reversed(len.size()) : orders(len.size(), true)[0]);
                   },
                   [&] { return std::string("all loops split as far as possible") + (rev ? ", in reverse order" : "") + (ties ? ", equal elements swapped in sort" : ""); });
              for (const int first : {1, 2})
                once([&](size_t, const Region &q) {
                       const auto n = q.end - q.begin;
                       if (n <= q.grain || n < 2)
                         return Chunks{{q.begin, q.end}};
                       const auto m = first == 1 ? 1 : n / 2;
                       Chunks c{{q.begin, q.begin + m}, {q.begin + m, q.end}};
                       if (rev)
                         std::swap(c[0], c[1]);
                       return c;
                     },
                     [&] { return std::string(first == 1 ? "first element split off in all loops" : "all loops halved") + (rev ? ", second part first" : ""); });
            }
          }
          Sc.ties = false;
        });
}

// --- operations ------------------------------------------------------------
using Dims = std::vector<std::pair<Dim, ix>>;
Arr arr(const Dims &d, core::DType t, units::Unit u, bool variances, long double start) {
  std::vector<Dim> dims;
  std::vector<ix> shape;
  for (const auto &[k, n] : d)
    dims.push_back(k), shape.push_back(n);
  return iota(dims, shape, start, u, t, variances);
}
Variable var(const Dims &d, core::DType t = D, units::Unit u = units::one, bool variances = false, long double start = 1, int layout = 0) {
  const auto a = arr(d, t, u, variances, start);
  return layout ? make(a, layout).view : make_plain(a);
}
const Dim Q("q"), W("w");
const std::vector<Dims> shapes{{{X, 2}}, {{X, 4}}, {{X, 2}, {Y, 3}}, {{X, 3}, {Y, 2}}, {{X, 2}, {Y, 1}, {Z, 2}}};

void elementwise(Ex &E) {
  const auto table = ops::table();
  const std::vector<ops::Types> pool{{D, D, D}, {F, D, D}, {L, L, L}, {I, D, D}, {B, D, D}, {S, S, S}, {T, L, L}, {V, V, V}, {B, B, B}, {V, D, D}, {T, T, T}, {S, L, L}};
  for (const auto &op : table) {
    int kinds = 0;
    for (const auto &all : pool) {
      ops::Types t(all.begin(), all.begin() + op.arity);
      if (op.type(t) == ops::N)
        continue;
      if (++kinds > (E.thorough ? 12 : 3))
        break;
      // units
      std::vector<units::Unit> us(op.arity, op.units.empty() ? units::one : op.units[0]);
      if (op.units.size() == size_t(op.arity))
        us = op.units;
      for (size_t s = 0; s < shapes.size(); ++s)
        for (int how = 0; how < (E.thorough ? 6 : 4); ++how)
          for (int variances = 0; variances < (t[0] == D && how == 0 ? 2 : 1); ++variances) {
            if (!E.thorough && how > 1 && s != 2)
              continue;
            const auto operands = [=, &op] {
              std::vector<Variable> v;
              for (int i = 0; i < op.arity; ++i) {
                auto d = shapes[s];
                // how: all the same, transposed, first broadcast, last broadcast, strided, offset
                if (how == 2 && i == 0)
                  d.erase(d.begin());
                if (how == 3 && i == op.arity - 1 && op.arity > 1)
                  d.pop_back();
                const int layout = how == 1 && i == 0 ? 1 : how == 4 ? 2 : how == 5 ? 5 : 0;
                const bool vari = variances && floating(t[i]);
                auto u = us[i];
                if (t[i] == B || t[i] == S)
                  u = units::none;
                if (t[i] == T)
                  u = units::Unit("s");
                v.push_back(var(d, t[i], u, vari, i + 1, layout));
              }
              return v;
            };
            std::string name = op.name + ": " + std::to_string(s) + " " + std::to_string(how) + (variances ? " variances" : "");
            for (const auto &x : t)
              name += " " + to_string(x);
            explore(E, {"op " + name, [=, &op] {
                          const auto v = operands();
                          return text(op.f(v));
                        }});
            if (op.in_place && op.in_place_types(t))
              explore(E, {"in place " + name, [=, &op] {
                            auto v = operands();
                            auto a = copy(v[0]);
                            op.in_place(a, v);
                            return text(a);
                          }});
            if (op.in_place && op.in_place_types(t) && how == 1)
              explore(E, {"in place of a view " + name, [=, &op] {
                            auto v = operands();
                            op.in_place(v[0], v);
                            return text(v[0]);
                          }});
            if (op.out && how == 0)
              explore(E, {"to " + name, [=, &op] {
                            auto v = operands();
                            auto o = copy(op.f(v));
                            op.out(v, o);
                            return text(o);
                          }});
          }
    }
  }
}

/// In-place operations with operands that are views of the target.
void aliasing(Ex &E) {
  struct Case {
    std::string name;
    std::function<std::string(int)> f;
  };
  const auto apply = [](int op, Variable a, const Variable &b) {
    switch (op) {
    case 0:
      a += b;
      break;
    case 1:
      a *= b;
      break;
    case 2:
      copy(b, a);
      break;
    case 3:
      sqrt(b, a);
      break;
    default:
      a -= b;
    }
  };
  const std::vector<Case> cs{
      {"itself", [=](int o) { auto v = var({{X, 4}}, D, units::one); apply(o, v, v); return text(v); }},
      {"shifted", [=](int o) { auto v = var({{X, 5}}); apply(o, v.slice({X, 0, 4}), v.slice({X, 1, 5})); return text(v); }},
      {"shifted back", [=](int o) { auto v = var({{X, 5}}); apply(o, v.slice({X, 1, 5}), v.slice({X, 0, 4})); return text(v); }},
      {"strided", [=](int o) { auto v = var({{X, 7}}); apply(o, v.slice({X, 0, 4}), v.slice({X, 0, 7, 2})); return text(v); }},
      {"transposed", [=](int o) { auto v = var({{X, 3}, {Y, 3}}); apply(o, v, transpose(v.rename_dims({{X, Y}, {Y, X}}))); return text(v); }},
      {"renamed", [=](int o) { auto v = var({{X, 3}, {Y, 3}}); apply(o, v, v.rename_dims({{X, Y}, {Y, X}})); return text(v); }},
      {"row", [=](int o) { auto v = var({{X, 3}, {Y, 2}}); apply(o, v, v.slice({X, 1})); return text(v); }},
      {"column", [=](int o) { auto v = var({{X, 3}, {Y, 2}}); apply(o, v, v.slice({Y, 1})); return text(v); }},
      {"element", [=](int o) { auto v = var({{X, 4}}); apply(o, v, v.slice({X, 2})); return text(v); }},
      {"overlapping rows", [=](int o) { auto v = var({{X, 3}, {Y, 2}}, D, units::one, true); apply(o, v.slice({X, 1, 3}), v.slice({X, 0, 2})); return text(v); }}};
  for (const auto &c : cs)
    for (int o = 0; o < 5; ++o)
      explore(E, {"aliasing " + std::to_string(o) + ": " + c.name, [=] { return c.f(o); }});
  for (int o = 0; o < 5; ++o) // several output elements the same: must not run in parallel
    explore(E, {"broadcast target " + std::to_string(o) + ":", [=] {
                  auto v = var({{Y, 2}});
                  const auto b = v.broadcast(Dimensions({X, Y}, {4, 2}));
                  try {
                    apply(o, b, var({{X, 4}, {Y, 2}}));
                  } catch (const std::exception &) {
                    return std::string("raised");
                  }
                  return text(v);
                }});
}

void reductions(Ex &E) {
  using Fn = std::function<Variable(const Variable &, Dim)>;
  const std::vector<std::pair<std::string, Fn>> fs{
      {"sum", [](auto &v, Dim d) { return sum(v, d); }},       {"nansum", [](auto &v, Dim d) { return nansum(v, d); }},
      {"mean", [](auto &v, Dim d) { return mean(v, d); }},     {"nanmean", [](auto &v, Dim d) { return nanmean(v, d); }},
      {"min", [](auto &v, Dim d) { return min(v, d); }},       {"max", [](auto &v, Dim d) { return max(v, d); }},
      {"nanmin", [](auto &v, Dim d) { return nanmin(v, d); }}, {"nanmax", [](auto &v, Dim d) { return nanmax(v, d); }},
      {"all", [](auto &v, Dim d) { return all(v, d); }},       {"any", [](auto &v, Dim d) { return any(v, d); }},
      {"cumsum", [](auto &v, Dim d) { return cumsum(v, d); }}};
  const std::vector<Dims> many{{{X, 3}}, {{X, 5}}, {{X, 26}}, {{X, 30}}, {{X, 49}}, {{X, 3}, {Y, 4}}, {{X, 2}, {Y, 3}, {Z, 2}}, {{X, 5}, {Y, 130}}, {{X, 130}, {Y, 3}}, {{X, 26}, {Y, 2}}, {{X, 2}, {Y, 26}}, {{X, 0}, {Y, 3}}, {{X, 3}, {Y, 0}}};
  for (const auto &[n, f] : fs)
    for (size_t s = 0; s < many.size(); ++s) {
      ix volume = 1;
      for (const auto &[d, k] : many[s])
        volume *= k;
      for (const auto &t : {D, F, L, I, B, V})
        for (int variances = 0; variances < (t == D ? 2 : 1); ++variances)
          for (const int layout : {0, 1, 2}) {
            if ((n == "all" || n == "any") != (t == B) && !(t == B && n == "sum"))
              continue;
            if (!E.thorough && (volume > 100 || t == I || t == V) && (layout == 2 || (variances && t != D)))
              continue;
            for (const auto &[d, k] : many[s]) {
              const auto &sh = many[s];
              const auto dim = d;
              const auto f_ = f;
              std::string name = n + ": " + to_string(t) + (variances ? " variances" : "") + " layout " + std::to_string(layout) + " over " + to_string(d) + " of";
              for (const auto &[e, m] : sh)
                name += " " + to_string(e) + std::to_string(m);
              const auto tt = t;
              explore(E, {name, [=] { return text(f_(var(sh, tt, tt == B ? units::none : units::one, variances, 1, layout), dim)); }});
            }
            if (many[s].size() > 1) {
              const auto &sh = many[s];
              const auto tt = t;
              if (n == "sum" && layout < 2)
                explore(E, {"sum over all dims: " + to_string(t) + " " + std::to_string(s) + (variances ? " variances" : "") + " layout " + std::to_string(layout),
                            [=] { return text(sum(var(sh, tt, tt == B ? units::none : units::one, variances, 1, layout))); }});
            }
          }
    }
  // Accumulation runs in parallel from 16384 elements on, over the elements of
  // the result or, by chunks of the input, if these are fewer than 65536.
  const std::vector<Dims> big{{{X, 16384}}, {{X, 2}, {Y, 8192}}, {{X, 8192}, {Y, 2}}, {{X, 130}, {Y, 128}}, {{X, 25}, {Y, 656}}, {{X, 3}, {Y, 2}, {Z, 2731}}, {{X, 47}, {Y, 350}}};
  for (const auto &[n, f] : fs)
    for (size_t s = 0; s < big.size() + 2; ++s)
      for (const auto &t : {D, F, L, B})
        for (int variances = 0; variances < (t == D ? 2 : 1); ++variances)
          for (const int layout : {0, 1}) {
            const auto sh = s < big.size() ? big[s] : s == big.size() ? Dims{{X, 2}, {Y, 65540}} : Dims{{X, 65540}, {Y, 2}};
            if ((n == "all" || n == "any") != (t == B) && !(t == B && n == "sum"))
              continue;
            if (!E.thorough && ((n != "sum" && n != "max" && n != "any" && (s != 1 || layout)) || (t == F && layout) || (t == L && s % 2) || (s >= big.size() && (t != D || variances || layout || n != "sum"))))
              continue;
            for (const auto &[d, k] : sh) {
              const auto dim = d;
              const auto f_ = f;
              const auto tt = t;
              std::string name = n + ": large " + to_string(t) + (variances ? " variances" : "") + " layout " + std::to_string(layout) + " over " + to_string(d) + " of";
              for (const auto &[e, m] : sh)
                name += " " + to_string(e) + std::to_string(m);
              const auto operand = std::make_shared<Variable>();
              explore(E, {name, [=] {
                            if (!operand->is_valid()) // not modified
                              *operand = var(sh, tt, tt == B ? units::none : units::one, variances, 1, layout);
                            return text(f_(*operand, dim));
                          }});
            }
          }
}

DataArray events(ix n, bool variances = false, int seed = 0, core::DType t = D) {
  DataArray a(var({{EV, n}}, t, units::counts, variances));
  std::vector<Cell> x, y;
  for (ix i = 0; i < n; ++i) {
    x.push_back(Cell((i * 7 + seed) % 5 + 0.5));
    y.push_back(Cell((i * 5 + seed) % 3));
  }
  a.coords().set(X, make_plain(A(D, units::m, {EV}, {n}, x)));
  a.coords().set(Y, make_plain(A(D, units::m, {EV}, {n}, y)));
  a.coords().set(Q, make_plain(A(L, units::none, {EV}, {n}, y)));
  return a;
}
Variable edges(Dim d, std::vector<Cell> v) {
  const ix n = v.size();
  return make_plain(A(D, units::m, {d}, {n}, v));
}
Variable groups(Dim d, std::vector<Cell> v) {
  const ix n = v.size();
  return make_plain(A(L, units::none, {d}, {n}, v));
}
Variable pairs(const Dims &d, const std::vector<std::pair<ix, ix>> &p) {
  auto a = arr(d, dtype<scipp::index_pair>, units::none, false, 0);
  for (size_t i = 0; i < p.size(); ++i) {
    a.v[i] = Cell(p[i].first);
    a.v[i].y = p[i].second;
  }
  return make_plain(a);
}
/// Bins, how: in order, with gaps and out of order, some empty
DataArray binned(const Dims &d, int how, bool variances = false, bool mask = false) {
  ix n = 1;
  for (const auto &[k, m] : d)
    n *= m;
  std::vector<std::pair<ix, ix>> p;
  ix at = 0;
  for (ix i = 0; i < n; ++i) {
    const ix len = how == 2 && i % 2 ? 0 : 1 + i % 3;
    if (how == 1)
      ++at;
    p.push_back({at, at + len});
    at += len;
  }
  if (how == 1) {
    std::reverse(p.begin(), p.end());
    ++at;
  }
  DataArray a(sd::make_bins(pairs(d, p), EV, events(at, variances)));
  for (const auto &[k, m] : d)
    a.coords().set(k, edges(k, [&, m = m] {
                     std::vector<Cell> v;
                     for (ix i = 0; i <= m; ++i)
                       v.push_back(Cell(i * 2));
                     return v;
                   }()));
  if (mask)
    a.masks().set("m", make_plain(iota({d[0].first}, {d[0].second}, 0, units::none, B)));
  return a;
}
void binning(Ex &E) {
  const auto xe = edges(X, {0, 1, 3, 4}), xr = edges(X, {0, 1, 2, 3, 4}), ye = edges(Y, {0, 2, 3});
  const auto q = groups(Q, {0, 2});
  struct B_ {
    std::string name;
    std::vector<Variable> e, g;
  };
  const std::vector<B_> bs{{"x", {xe}, {}}, {"regular x", {xr}, {}}, {"x y", {xe, ye}, {}}, {"q", {}, {q}}, {"x q", {xe}, {q}}, {"y", {ye}, {}}};
  for (const auto &b : bs) {
    for (const ix n : {0, 1, 5, 30, 60})
      for (int variances = 0; variances < 2; ++variances)
        explore(E, {"bin: table of " + std::to_string(n) + (variances ? " with variances" : "") + " by " + b.name, [=] { return text(sd::bin(events(n, variances), b.e, b.g)); }});
    for (int how = 0; how < 3; ++how)
      for (const auto &d : {Dims{{X, 3}}, Dims{{Z, 2}, {X, 2}}, Dims{{X, 2}, {Y, 2}}, Dims{{W, 2}}, Dims{{X, 26}}})
        for (int mask = 0; mask < 2; ++mask) {
          std::string name = "bin: bins " + std::to_string(how) + " of";
          for (const auto &[e, m] : d)
            name += " " + to_string(e) + std::to_string(m);
          explore(E, {name + (mask ? " masked" : "") + " by " + b.name, [=] { return text(sd::bin(binned(d, how, false, mask), b.e, b.g)); }});
        }
  }
  for (int how = 0; how < 3; ++how)
    for (const auto &d : {Dims{{X, 3}}, Dims{{Z, 2}, {X, 2}}, Dims{{X, 26}}, Dims{{X, 2}, {Y, 2}, {Z, 2}}})
      for (int variances = 0; variances < 2; ++variances) {
        std::string at = std::to_string(how) + (variances ? " variances" : "") + " of";
        for (const auto &[e, m] : d)
          at += " " + to_string(e) + std::to_string(m);
        const auto make = [=] { return binned(d, how, variances, true); };
        const auto add = [&](const std::string &name, auto f) {
          explore(E, {name + ": bins " + at, [=] { return text(f(make())); }});
        };
        add("histogram", [=](const DataArray &a) { return sd::histogram(a, ye); });
        add("histogram x", [=](const DataArray &a) { return sd::histogram(a, xe); });
        add("buckets::histogram", [=](const DataArray &a) { return sd::buckets::histogram(a.data(), ye); });
        add("bins.sum", [](const DataArray &a) { return bins_sum(a.data()); });
        add("bins.mean", [](const DataArray &a) { return bins_mean(a.data()); });
        add("bins.max", [](const DataArray &a) { return bins_max(a.data()); });
        add("bins.min", [](const DataArray &a) { return bins_min(a.data()); });
        add("bins.nansum", [](const DataArray &a) { return bins_nansum(a.data()); });
        add("bin sizes", [](const DataArray &a) { return bin_sizes(a.data()); });
        add("copy", [](const DataArray &a) { return copy(a); });
        add("concatenate", [](const DataArray &a) { return sd::buckets::concatenate(a, a); });
        add("append", [](DataArray a) {
          sd::buckets::append(a, copy(a));
          return a;
        });
        add("append to itself", [](DataArray a) {
          sd::buckets::append(a, a);
          return a;
        });
        for (const auto &[k, m] : d) {
          const auto dim = k;
          add("concatenate over " + to_string(k), [dim](const DataArray &a) { return sd::buckets::concatenate(a, dim); });
          add("concat along " + to_string(k), [dim](const DataArray &a) { return concat(std::vector<DataArray>{a, a}, dim); });
          add("slice " + to_string(k), [dim](const DataArray &a) { return copy(a.slice({dim, 1, a.dims()[dim]})); });
        }
        add("transpose", [](const DataArray &a) { return copy(transpose(a)); });
        add("+=", [](DataArray a) {
          auto d = a.data();
          d += var({}, D, units::counts);
          return a;
        });
        add("*= dense", [](DataArray a) {
          Variable v = bin_sizes(a.data()) * var({}, D, units::one);
          v.setUnit(units::one);
          auto d = a.data();
          d *= v;
          return a;
        });
        add("+ itself", [](const DataArray &a) { return a.data() + a.data(); });
        add("events == ", [](const DataArray &a) { return less(sd::bins_view<DataArray>(a.data()).meta()[X], var({}, D, units::m, false, 2)); });
        add("to_unit", [](const DataArray &a) { return to_unit(sd::bins_view<DataArray>(a.data()).meta()[X], units::Unit("mm")); });
        add("map", [](const DataArray &a) {
          DataArray f(var({{X, 3}}));
          f.coords().set(X, edges(X, {0, 1, 3, 4}));
          return sd::buckets::map(f, a.data(), X);
        });
        add("scale", [](DataArray a) {
          DataArray f(var({{X, 3}}));
          f.coords().set(X, edges(X, {0, 1, 3, 4}));
          sd::buckets::scale(a, f);
          return a;
        });
        add("lookup", [](const DataArray &a) {
          DataArray f(var({{X, 3}}));
          f.coords().set(X, edges(X, {0, 1, 3}));
          return sd::lookup_previous(f, sd::bins_view<DataArray>(a.data()).meta()[X], X);
        });
        add("sort events", [](const DataArray &a) { return sum(bins_sum(a.data())); });
      }
  for (const ix n : {0, 1, 5, 30, 60, 200})
    for (int variances = 0; variances < 2; ++variances) {
      const auto at = std::to_string(n) + (variances ? " variances" : "");
      explore(E, {"histogram: table of " + at, [=] { return text(sd::histogram(events(n, variances), xe)); }});
      explore(E, {"histogram: regular, table of " + at, [=] { return text(sd::histogram(events(n, variances), xr)); }});
    }
}

void datasets(Ex &E) {
  // data along X with a key
  const auto data = [](ix n, ix m, bool variances, bool mask, core::DType t, int key) {
    DataArray a(var(m ? Dims{{X, n}, {Y, m}} : Dims{{X, n}}, t, t == B ? units::none : units::counts, variances));
    std::vector<Cell> k;
    for (ix i = 0; i < n; ++i)
      k.push_back(Cell(key == 0 ? (i * 3) % 2 : key == 1 ? i / 2 : (i * 7) % 5));
    a.coords().set(Q, make_plain(A(D, units::m, {X}, {n}, k)));
    a.coords().set(X, var({{X, n}}, D, units::m));
    if (mask)
      a.masks().set("m", make_plain(iota({X}, {n}, 0, units::none, B)));
    return a;
  };
  for (const ix n : {3, 5, 8, 26})
    for (const ix m : {0, 2})
      for (int variances = 0; variances < 2; ++variances)
        for (int mask = 0; mask < 2; ++mask)
          for (int key = 0; key < 3; ++key) {
            if (!E.thorough && n == 26 && key == 1)
              continue;
            const auto at = std::to_string(n) + "x" + std::to_string(m) + (variances ? " variances" : "") + (mask ? " masked" : "") + " key " + std::to_string(key);
            const auto add = [&](const std::string &name, auto f, core::DType t = D) {
              if (t == B && variances)
                return;
              explore(E, {name + ": " + at, [=] { return text(f(data(n, m, variances, mask, t, key))); }, true});
            };
            add("groupby.sum", [](const DataArray &a) { return groupby(a, Q).sum(X); });
            add("groupby.mean", [](const DataArray &a) { return groupby(a, Q).mean(X); });
            add("groupby.nansum", [](const DataArray &a) { return groupby(a, Q).nansum(X); });
            add("groupby.min", [](const DataArray &a) { return groupby(a, Q).min(X); });
            add("groupby.max", [](const DataArray &a) { return groupby(a, Q).max(X); });
            add("groupby.all", [](const DataArray &a) { return groupby(a, Q).all(X); }, B);
            add("groupby.any", [](const DataArray &a) { return groupby(a, Q).any(X); }, B);
            add("groupby bins", [](const DataArray &a) { return groupby(a, Q, edges(W, {0, 1, 2, 5})).sum(X); });
            add("groupby.sum of a dataset", [](const DataArray &a) {
              Dataset d({{"a", a}, {"b", a * a}});
              return groupby(d, Q).sum(X);
            });
            add("sum", [](const DataArray &a) { return sum(a, X); });
            add("mean", [](const DataArray &a) { return mean(a, X); });
            add("nanmean", [](const DataArray &a) { return nanmean(a, X); });
            if (key == 2) {
              add("copy", [](const DataArray &a) { return copy(a); });
              add("concat", [](const DataArray &a) { return concat(std::vector<DataArray>{a, a}, X); });
              add("flatten", [](const DataArray &a) { return flatten(a, a.dims().labels(), Z); });
              add("a + a", [](const DataArray &a) { return a + copy(a); });
              add("+=", [](DataArray a) {
                a += copy(a);
                return a;
              });
              add("*= row", [](DataArray a) {
                a *= copy(a.slice({X, 1})).data();
                return a;
              });
              add("setSlice", [](DataArray a) {
                a.setSlice({X, 0, 2}, copy(a.slice({X, 1, 3})).data());
                return a;
              });
              add("rebin", [](const DataArray &a) {
                auto b = a;
                b.coords().set(X, var({{X, a.dims()[X] + 1}}, D, units::m, false, 0));
                return rebin(b, X, edges(X, {0, 1, 2.5, 3, 7}));
              });
              add("where", [](const DataArray &a) { return where(greater(a.coords()[Q], var({}, D, units::m, false, 1)), a.data(), var({}, D, units::counts)); });
            }
            // distinct keys: the order of equal elements is not specified
            explore(E, {"sort: " + at, [=] { return text(sort(data(n, m, variances, mask, D, 2), X, key ? SortOrder::Descending : SortOrder::Ascending)); }, true});
          }
  for (int layout = 0; layout < 4; ++layout)
    for (const auto &d : {Dims{{X, 4}}, Dims{{X, 4}, {Y, 2}}, Dims{{Y, 3}, {X, 4}}, Dims{{X, 30}}, Dims{{X, 4}, {Y, 26}}})
      for (int variances = 0; variances < 2; ++variances)
        for (const auto &t : {D, F, L, B})
          for (int dir = 0; dir < 2; ++dir) {
            if (variances && t != D)
              continue;
            ix n = 0;
            for (const auto &[k, m] : d)
              if (k == X)
                n = m;
            std::string name = "rebin: " + to_string(t) + " layout " + std::to_string(layout) + (variances ? " variances" : "") + (dir ? " descending" : "") + " of";
            for (const auto &[e, m] : d)
              name += " " + to_string(e) + std::to_string(m);
            const auto tt = t;
            explore(E, {name, [=] {
                          auto oldx = var({{X, n + 1}}, D, units::m, false, 0);
                          auto newx = edges(X, {-1, 0.5, 1, 3.5, 4, 9});
                          if (dir) {
                            oldx = -oldx;
                            newx = -newx;
                          }
                          return text(rebin(var(d, tt, tt == B ? units::none : units::counts, variances, 1, layout), X, oldx, newx));
                        }});
          }
  // groups of bins
  for (int how = 0; how < 3; ++how)
    for (const ix n : {4, 8}) {
      const auto make = [=] {
        auto a = binned({{X, n}}, how);
        std::vector<Cell> k;
        for (ix i = 0; i < n; ++i)
          k.push_back(Cell((i * 7) % 3));
        a.coords().set(Q, make_plain(A(D, units::m, {X}, {n}, k)));
        return a;
      };
      const auto at = ": bins " + std::to_string(how) + " of " + std::to_string(n);
      explore(E, {"groupby.concat" + at, [=] { return text(groupby(make(), Q).concat(X)); }, true});
      explore(E, {"groupby.sum" + at, [=] { return text(groupby(make(), Q).sum(X)); }, true});
      explore(E, {"groupby.max" + at, [=] { return text(groupby(make(), Q).max(X)); }, true});
    }
  // plain buffers of every size up to some, larger than grain sizes
  for (const ix n : {1, 2, 3, 4, 5, 6, 23, 24, 25, 26, 47, 48, 49, 50, 96, 97})
    for (const auto &t : {D, S, B, V}) {
      const auto tt = t;
      const auto at = ": " + to_string(t) + " " + std::to_string(n);
      const auto u = t == B || t == S ? units::none : units::one;
      explore(E, {"copy" + at, [=] { return text(copy(var({{X, n}}, tt, u))); }});
      explore(E, {"copy strided" + at, [=] { return text(copy(var({{X, n}}, tt, u, false, 1, 2))); }});
      explore(E, {"copy of bins" + at, [=] { return text(copy(sv::make_bins(pairs({{Y, 2}}, {{n / 2, n}, {0, n / 2}}), X, var({{X, n}}, tt, u)))); }});
      if (t == D || t == B)
        explore(E, {"logic or addition" + at, [=] { return text(tt == B ? var({{X, n}}, tt, u) | var({{X, n}}, tt, u) : var({{X, n}}, tt, u) + var({{X, n}}, tt, u)); }});
    }
}
} // namespace
VH_EXPLORE(O04) {
  elementwise(E);
  aliasing(E);
  reductions(E);
  binning(E);
  datasets(E);
}
VH_MAIN
