// C01: dimension sets are ordered maps from labels to extents.
//
// Part 1: every state (ordered choice of labels with extents) up to a bound is
// built, every operation with every argument of the alphabet is applied to it,
// and the result is compared with the same operation on a plain vector of pairs.
// Part 2: every history of in-place operations up to a depth, without merging of
// states, so that the objects are used as the operations left them.
#include "vh.h"
#include "scipp/core/dimensions.h"
#include "scipp/core/except.h"
#include "scipp/core/sizes.h"
#include <algorithm>
#include <optional>

using namespace scipp;
using core::Slice;
using Model = std::vector<std::pair<int, long>>; // label index, extent

namespace {
std::vector<Dim> L;
long find(const Model &m, int l) {
  for (size_t i = 0; i < m.size(); ++i)
    if (m[i].first == l)
      return long(i);
  return -1;
}
std::string show(const Model &m) {
  std::string s = "{";
  for (auto &[l, n] : m)
    s += (l < 0 ? std::string("invalid") : std::string(1, char('a' + l))) + ":" + std::to_string(n) + " ";
  return s + "}";
}
Dim dim(int l) { return l < 0 ? Dim(Dim::Invalid) : L[l]; }
Dimensions build(const Model &m) {
  Dimensions d;
  for (auto &[l, n] : m)
    d.addInner(dim(l), n);
  return d;
}
Sizes build_sizes(const Model &m) {
  Sizes d;
  for (auto &[l, n] : m)
    d.set(dim(l), n);
  return d;
}
using Opt = std::optional<Model>; // empty: an error is expected

template <class A> void same_sizes(vh::Explorer &E, const Sizes &d, const Model &m, const A &after) {
  auto bad = [&](const std::string &what) {
    E.check(false, "content", after() + ": " + what + ", expected " + show(m));
  };
  ++E.checks;
  if (d.size() != long(m.size()) || d.empty() != m.empty())
    bad("wrong number of labels " + std::to_string(d.size()));
  if (long(d.labels().size()) != long(m.size()) || long(d.sizes().size()) != long(m.size()))
    bad("wrong length of labels or sizes");
  size_t i = 0;
  for (const auto &l : d) {
    if (i >= m.size() || l != dim(m[i].first) || d.labels()[i] != l || d.sizes()[i] != m[i].second)
      bad("wrong label or extent at position " + std::to_string(i));
    if (d[l] != m[i].second || d.at(l) != m[i].second || d.index(l) != long(i))
      bad("wrong lookup at position " + std::to_string(i));
    ++i;
  }
  if (i != m.size())
    bad("iteration ends early");
  auto r = m.rbegin();
  for (auto it = d.rbegin(); it != d.rend(); ++it, ++r)
    if (r == m.rend() || *it != dim(r->first))
      bad("wrong reverse iteration");
  for (int l = 0; l < int(L.size()); ++l) {
    const auto at = find(m, l);
    if (d.contains(L[l]) != (at >= 0))
      bad("wrong answer of contains");
    if ((d.find(L[l]) == d.end()) != (at < 0))
      bad("wrong answer of find");
    if (at < 0 && E.tick++ % 16 == 0) {
      bool thrown = false;
      try {
        (void)d[L[l]];
      } catch (const std::exception &) {
        thrown = true;
      }
      if (!thrown)
        bad("lookup of a missing label did not raise");
    }
  }
}
template <class A> void same(vh::Explorer &E, const Sizes &d, const Model &m, const A &after) {
  same_sizes(E, d, m, after);
}
template <class A> void same(vh::Explorer &E, const Dimensions &d, const Model &m, const A &after) {
  same_sizes(E, d, m, after);
  auto bad = [&](const std::string &what) {
    E.check(false, "content", after() + ": " + what + ", expected " + show(m));
  };
  long vol = 1;
  for (auto &x : m)
    vol *= x.second;
  if (d.volume() != vol)
    bad("wrong volume " + std::to_string(d.volume()));
  if (d.ndim() != long(m.size()))
    bad("wrong ndim");
  if (d.inner() != (m.empty() ? Dim(Dim::Invalid) : dim(m.back().first)))
    bad("wrong inner");
  for (size_t i = 0; i < m.size(); ++i) {
    long off = 1;
    for (size_t k = i + 1; k < m.size(); ++k)
      off *= m[k].second;
    if (d.offset(dim(m[i].first)) != off || d.label(i) != dim(m[i].first) || d.size(i) != m[i].second ||
        d.shape()[i] != m[i].second)
      bad("wrong offset, label or size");
  }
  if (!(d == build(m)) || d != build(m))
    bad("not equal to a set built directly");
}

/// Apply an in-place operation to the object, and compare with the model.
template <class T, class F>
bool mutate(vh::Explorer &E, T &obj, Model &m, const Opt &expected, const char *name, F &&f) {
  ++E.transitions;
  bool thrown = false;
  try {
    f(obj);
  } catch (const std::exception &) {
    thrown = true;
  }
  const auto what = [&] { return std::string(name) + " on " + show(m); };
  E.check_lazy(thrown == !expected.has_value(), "error",
               [&] { return what() + (thrown ? " raised" : " did not raise"); });
  const Model before = m;
  if (expected)
    m = *expected;
  same(E, obj, m, [&] { return name + (" on " + show(before)); });
  return !thrown;
}
/// Evaluate an operation returning a new object.
template <class T, class F>
void value(vh::Explorer &E, const T &obj, const Model &m, const Opt &expected, const char *name, F &&f,
           const Model *other = nullptr) {
  ++E.transitions;
  bool thrown = false;
  const auto text = [&] { return std::string(name) + " of " + show(m) + (other ? " with " + show(*other) : ""); };
  try {
    const auto r = f(obj);
    if (expected)
      same(E, r, *expected, text);
  } catch (const vh::Fail &) {
    throw;
  } catch (const std::exception &) {
    thrown = true;
  }
  E.check_lazy(thrown == !expected.has_value(), "error", [&] {
    return text() + (thrown ? " raised" : " did not raise");
  });
  same(E, obj, m, [&] { return "operand after " + text(); });
}

// the operations on the model
Opt m_add(Model m, int l, long n, bool left) {
  if (l < 0 || n < 0 || find(m, l) >= 0)
    return {};
  m.insert(left ? m.begin() : m.end(), {l, n});
  return m;
}
Opt m_resize(Model m, int l, long n) {
  const auto i = find(m, l);
  if (i < 0 || n < 0)
    return {};
  m[i].second = n;
  return m;
}
Opt m_set(Model m, int l, long n) {
  if (l < 0 || n < 0)
    return {};
  const auto i = find(m, l);
  if (i >= 0)
    return m[i].second == n ? Opt(m) : Opt();
  m.emplace_back(l, n);
  return m;
}
Opt m_erase(Model m, int l) {
  const auto i = find(m, l);
  if (i < 0)
    return {};
  m.erase(m.begin() + i);
  return m;
}
Opt m_replace(Model m, int from, int to) {
  const auto i = find(m, from);
  if (i < 0 || (from != to && find(m, to) >= 0))
    return {};
  m[i].first = to;
  return m;
}
Opt m_rename(Model m, const std::vector<std::pair<int, int>> &names, bool strict) {
  for (auto &[a, b] : names) {
    if (find(m, a) < 0) {
      if (strict)
        return {};
      continue;
    }
    auto r = m_replace(m, a, b);
    if (!r)
      return {};
    m = *r;
  }
  return m;
}
Opt m_slice(Model m, int l, long b, long e, long s) { // e == -1: point
  const auto i = find(m, l);
  if (i < 0 || b < 0)
    return {};
  if (e == -1) {
    if (b >= m[i].second)
      return {};
    m.erase(m.begin() + i);
    return m;
  }
  if (b > e || s <= 0 || e > m[i].second)
    return {};
  long n = 0;
  for (long k = b; k < e; k += s)
    ++n;
  m[i].second = n;
  return m;
}
/// Labels of both; the order of `a` is kept, and labels of b that come before a
/// common label in b come before it in the result.
Opt m_merge(const Model &a, const Model &b) {
  for (auto &[l, n] : a) {
    const auto i = find(b, l);
    if (i >= 0 && b[i].second != n)
      return {};
  }
  Model out;
  size_t j = 0;
  for (auto &x : a) {
    const auto i = find(b, x.first);
    if (i >= 0)
      for (; j < size_t(i); ++j)
        if (find(a, b[j].first) < 0)
          out.push_back(b[j]);
    out.push_back(x);
  }
  for (; j < b.size(); ++j)
    if (find(a, b[j].first) < 0)
      out.push_back(b[j]);
  return out;
}
Opt m_merge_sizes(Model a, const Model &b) {
  for (auto &[l, n] : b) {
    auto r = m_set(a, l, n);
    if (!r)
      return {};
    a = *r;
  }
  return a;
}
Opt m_intersection(const Model &a, const Model &b) {
  auto m = m_merge(a, b);
  if (!m)
    return {};
  Model out;
  for (auto &x : *m)
    if (find(a, x.first) >= 0 && find(b, x.first) >= 0)
      out.push_back(x);
  return out;
}
Opt m_transpose(const Model &a, std::vector<int> order) {
  if (order.empty()) {
    Model r(a.rbegin(), a.rend());
    return r;
  }
  if (order.size() != a.size())
    return {};
  Model out;
  for (int l : order) {
    const auto i = find(a, l);
    if (i < 0 || find(out, l) >= 0)
      return {};
    out.push_back(a[i]);
  }
  return out;
}
bool m_includes(const Model &a, const Model &b) {
  for (auto &[l, n] : b) {
    const auto i = find(a, l);
    if (i < 0 || a[i].second != n)
      return false;
  }
  return true;
}
bool m_equal_unordered(const Model &a, const Model &b) { return a.size() == b.size() && m_includes(a, b); }
Opt m_fold(const Model &a, int from, const Model &to) {
  const auto i = find(a, from);
  if (i < 0)
    return {};
  Model out(a.begin(), a.begin() + i);
  for (auto &x : to)
    out.push_back(x);
  for (size_t k = i + 1; k < a.size(); ++k)
    out.push_back(a[k]);
  for (size_t k = 0; k < out.size(); ++k)
    for (size_t j = 0; j < k; ++j)
      if (out[k].first == out[j].first)
        return {};
  long v = 1;
  for (auto &x : to)
    v *= x.second;
  if (v != a[i].second)
    return {};
  return out;
}

/// If the labels common to both are in the same order in both, the order of the
/// result is fixed: no transposing. Otherwise it only has to keep the order of a,
/// and the order of the labels of b that are not in a.
void check_merge(vh::Explorer &E, const Model &m, const Model &o, const Dimensions &d, const Dimensions &od) {
  std::vector<int> ca, cb;
  for (auto &x : m)
    if (find(o, x.first) >= 0)
      ca.push_back(x.first);
  for (auto &x : o)
    if (find(m, x.first) >= 0)
      cb.push_back(x.first);
  auto expected = m_merge(m, o);
  if (ca != cb && expected) {
    const auto r = core::merge(d, od);
    auto order = [&](const Model &a, const Model *without) {
      long last = -1;
      for (auto &x : a)
        if (!without || find(*without, x.first) < 0) {
          if (!r.contains(dim(x.first)) || r.index(dim(x.first)) <= last)
            return false;
          last = r.index(dim(x.first));
        }
      return true;
    };
    E.check_lazy(order(m, nullptr) && order(o, &m), "content",
                 [&] { return "order of merge of " + show(m) + " with " + show(o) + ": " + to_string(r); });
    // compare the content in the order that it has
    Model sorted;
    for (const auto &l : r)
      for (auto &x : *expected)
        if (dim(x.first) == l)
          sorted.push_back(x);
    if (sorted.size() == expected->size())
      expected = sorted;
  }
  value(E, d, m, expected, "merge", [&](auto &x) { return core::merge(x, od); }, &o);
}

void all_models(int nl, const std::vector<long> &ext, size_t maxn, std::vector<Model> &out) {
  out.push_back({});
  for (size_t i = 0; i < out.size(); ++i) {
    if (out[i].size() >= maxn)
      continue;
    for (int l = 0; l < nl; ++l) {
      if (find(out[i], l) >= 0)
        continue;
      for (long e : ext) {
        auto m = out[i];
        m.emplace_back(l, e);
        out.push_back(m);
      }
    }
  }
}
uint64_t hash(const Model &m) {
  uint64_t h = 5;
  for (auto &[l, n] : m)
    h = vh::hash_mix(vh::hash_mix(h, l), n);
  return h;
}

void all_operations(vh::Explorer &E, const Model &m, const std::vector<Model> &others, int nl,
                    const std::vector<long> &ext) {
  const auto d = build(m);
  const auto s = build_sizes(m);
  same(E, d, m, [] { return std::string("construction"); });
  same(E, s, m, [] { return std::string("construction of sizes"); });
  {
    std::vector<Dim> labels;
    std::vector<scipp::index> shape;
    for (auto &[l, n] : m) {
      labels.push_back(dim(l));
      shape.push_back(n);
    }
    value(E, d, m, m, "constructor", [&](auto &) { return Dimensions(labels, shape); });
    auto longer = shape;
    longer.push_back(1);
    value(E, d, m, Opt(), "constructor with another length", [&](auto &) { return Dimensions(labels, longer); });
    if (!labels.empty()) {
      auto l2 = labels;
      l2.push_back(labels[0]);
      value(E, d, m, Opt(), "constructor with duplicate", [&](auto &) { return Dimensions(l2, longer); });
      value(E, d, m, Opt(), "constructor with shorter shape",
            [&](auto &) { return Dimensions(labels, scipp::span<const scipp::index>(shape.data(), shape.size() - 1)); });
    }
  }
  std::vector<long> e2 = ext;
  e2.push_back(-1);
  for (int l = -1; l < nl; ++l) {
    for (long n : e2) {
      auto c = d;
      auto mm = m;
      mutate(E, c, mm, m_add(m, l, n, true), "add", [&](auto &o) { o.add(dim(l), n); });
      c = d;
      mm = m;
      mutate(E, c, mm, m_add(m, l, n, false), "addInner", [&](auto &o) { o.addInner(dim(l), n); });
      c = d;
      mm = m;
      mutate(E, c, mm, m_resize(m, l, n), "resize", [&](auto &o) { o.resize(dim(l), n); });
      auto z = s;
      mm = m;
      mutate(E, z, mm, m_resize(m, l, n), "resize", [&](auto &o) { o.resize(dim(l), n); });
      z = s;
      mm = m;
      mutate(E, z, mm, m_set(m, l, n), "set", [&](auto &o) { o.set(dim(l), n); });
    }
    auto c = d;
    auto mm = m;
    mutate(E, c, mm, m_erase(m, l), "erase", [&](auto &o) { o.erase(dim(l)); });
    c = d;
    if (l >= 0) {
      for (int k = 0; k < nl; ++k) {
        c = d;
        mm = m;
        mutate(E, c, mm, m_replace(m, l, k), "replace_key", [&](auto &o) { o.replace_key(dim(l), dim(k)); });
        for (bool strict : {true, false}) {
          value(E, d, m, m_rename(m, {{l, k}}, strict), "rename_dims",
                [&](auto &o) { return o.rename_dims({{dim(l), dim(k)}}, strict); });
          value(E, s, m, m_rename(m, {{l, k}}, strict), "rename_dims of sizes",
                [&](auto &o) { return o.rename_dims({{dim(l), dim(k)}}, strict); });
          // two at once: chains, swaps, conflicts
          const int l2 = (l + 1) % nl, k2 = (k + 2) % nl;
          for (auto &[p, q] : {std::pair{l2, k2}, std::pair{k, l}, std::pair{l2, l}})
            value(E, d, m, m_rename(m, {{l, k}, {p, q}}, strict), "rename_dims of two",
                  [&, p = p, q = q](auto &o) {
                    return o.rename_dims({{dim(l), dim(k)}, {dim(p), dim(q)}}, strict);
                  });
        }
      }
      long top = 0;
      for (long e : ext)
        top = std::max(top, e);
      const bool mine = find(m, l) >= 0;
      if (mine || l == 0)
        for (long b = -1; b <= top + 1; ++b) {
          value(E, s, m, m_slice(m, l, b, -1, 1), "point slice",
                [&](auto &o) { return o.slice(Slice(dim(l), b)); });
          for (long e = 0; e <= top + 1; ++e)
            for (long st : {-1, 0, 1, 2, 3})
              value(E, s, m, m_slice(m, l, b, e, st), "slice",
                    [&](auto &o) { return o.slice(Slice(dim(l), b, e, st)); });
        }
    }
  }
  value(E, s, m, m, "empty slice", [&](auto &o) { return o.slice(Slice{}); });
  {
    auto c = d;
    auto mm = m;
    mutate(E, c, mm, Model{}, "clear", [&](auto &o) { o.clear(); });
  }
  // transpose
  {
    value(E, d, m, m_transpose(m, {}), "transpose", [&](auto &o) { return core::transpose(o); });
    std::vector<int> order;
    for (auto &x : m)
      order.push_back(x.first);
    std::sort(order.begin(), order.end());
    do {
      if (order.empty())
        break;
      std::vector<Dim> labels;
      for (int l : order)
        labels.push_back(dim(l));
      value(E, d, m, m_transpose(m, order), "transpose to order",
            [&](auto &o) { return core::transpose(o, labels); });
    } while (std::next_permutation(order.begin(), order.end()));
    if (!order.empty()) {
      auto bad = order;
      bad[0] = bad.back() == 0 ? 1 : (find(m, 0) < 0 ? 0 : bad.back());
      std::vector<Dim> labels;
      for (int l : bad)
        labels.push_back(dim(l));
      value(E, d, m, m_transpose(m, bad), "transpose to wrong labels",
            [&](auto &o) { return core::transpose(o, labels); });
      labels.pop_back();
      bad.pop_back();
      if (!bad.empty())
        value(E, d, m, m_transpose(m, bad), "transpose to fewer labels",
              [&](auto &o) { return core::transpose(o, labels); });
    }
  }
  // two sets
  for (const auto &o : others) {
    const auto od = build(o);
    const auto os = build_sizes(o);
    const auto with = [&] { return " with " + show(o); };
    check_merge(E, m, o, d, od);
    value(E, d, m, m_intersection(m, o), "intersection", [&](auto &x) { return core::intersection(x, od); }, &o);
    value(E, s, m, m_merge_sizes(m, o), "merge of sizes", [&](auto &x) { return core::merge(x, os); }, &o);
    E.check_lazy(s.includes(os) == m_includes(m, o), "includes", [&] { return "includes" + with() + " of " + show(m); });
    E.check_lazy((s == os) == m_equal_unordered(m, o) && (s != os) == !m_equal_unordered(m, o), "equality",
                 [&] { return "equality of sizes" + with() + " of " + show(m); });
    E.check_lazy((d == od) == (m == o) && (d != od) == (m != o) && (od == d) == (m == o), "equality",
                 [&] { return "equality" + with() + " of " + show(m); });
    if (!m.empty() && !o.empty())
      value(E, d, m, m_fold(m, m[0].first, o), "fold of the first label",
            [&](auto &x) {
              auto r = core::fold(x, dim(m[0].first), od);
              // With no elements any folding has the right volume.
              if (d.volume() == 0 && !m_fold(m, m[0].first, o))
                throw std::runtime_error("not decided");
              return r;
            }, &o);
  }
  // permutations of the same content
  {
    auto p = m;
    std::sort(p.begin(), p.end());
    int k = 0;
    do {
      const auto od = build(p);
      const auto os = build_sizes(p);
      E.check_lazy((d == od) == (m == p), "equality", [&] { return "order of " + show(m) + " and " + show(p); });
      E.check_lazy(s == os && !(s != os), "equality", [&] { return "sizes " + show(m) + " and " + show(p); });
      check_merge(E, m, p, d, od);
    } while (std::next_permutation(p.begin(), p.end()) && ++k < 24);
    for (size_t i = 0; i < m.size(); ++i) {
      auto q = m;
      q[i].second += 1;
      E.check_lazy(build(q) != d && !(build(q) == d) && build_sizes(q) != s && !(build_sizes(q) == s), "equality",
                   [&] { return show(q) + " equal to " + show(m); });
      E.check_lazy(!s.includes(build_sizes(q)), "includes", [&] { return show(m) + " includes " + show(q); });
      auto w = m;
      w.erase(w.begin() + i);
      E.check_lazy(s.includes(build_sizes(w)) && !build_sizes(w).includes(s), "includes", [&] { return show(m); });
      E.check_lazy(build(w) != d && build_sizes(w) != s && s != build_sizes(w), "equality", [&] { return show(m); });
    }
  }
}

struct Step {
  int op;
  int l;
  long n;
};
std::string show(const Step &s) {
  static const char *names[] = {"add", "addInner", "set", "resize", "erase", "replace_key", "copy-assign", "slice", "transpose"};
  return std::string(names[s.op]) + "(" + std::to_string(s.l) + "," + std::to_string(s.n) + ") ";
}
} // namespace

VH_EXPLORE(C01) {
  for (const char *n : {"a", "b", "c", "d", "e", "f"})
    L.emplace_back(n);
  const int nl = E.thorough ? 6 : 5;
  const std::vector<long> ext{0, 1, 2};
  std::vector<Model> models, others;
  all_models(nl, ext, 5, models);
  all_models(nl, {0, 2}, 2, others);
  {
    std::vector<Model> more;
    all_models(3, {1, 2}, 3, more);
    for (auto &m : more)
      if (m.size() == 3)
        others.push_back(m);
  }
  for (size_t i = 0; i < models.size(); ++i) {
    // the extents of sets with four and five labels are varied less
    if (models[i].size() >= 4 && !E.thorough) {
      int other = 0;
      for (auto &x : models[i])
        other += x.second != 2;
      if (other > (models[i].size() == 4))
        continue;
    }
    E.run([&] { return "every operation on " + show(models[i]); },
          [&] {
            E.state(hash(models[i]));
            if (!models[i].empty())
              E.nontrivial();
            all_operations(E, models[i], others, nl, ext);
            E.outcome(hash(models[i]));
          });
  }
  // concatenation of sizes and edges
  {
    std::vector<Model> small;
    all_models(3, {0, 1, 2, 3}, 3, small);
    for (size_t i = 0; i < small.size(); ++i)
      E.run([&] { return "edges of " + show(small[i]); },
            [&] {
              E.nontrivial();
              const auto data = build_sizes(small[i]);
              for (auto &c : small) {
                const auto coord = build_sizes(c);
                for (int l = -1; l < 3; ++l) {
                  // bin edges along l: one longer than the data along l (or length
                  // 2 where the data has no such extent), all other labels of the
                  // data present with the same extent
                  ++E.transitions;
                  const auto a = find(small[i], l), b = find(c, l);
                  bool exp = l >= 0 && b >= 0 && a >= 0;
                  (void)exp;
                  const bool got = core::is_edges(data, coord, dim(l));
                  bool want = false;
                  if (l >= 0 && b >= 0) {
                    want = true;
                    if (!small[i].empty())
                      for (auto &[k, n] : c)
                        if (k != l) {
                          const auto f = find(small[i], k);
                          want &= f >= 0 && small[i][f].second == n;
                        }
                    want &= c[b].second == (a >= 0 ? small[i][a].second + 1 : 2);
                  }
                  E.check_lazy(got == want, "edges", [&] {
                    return "is_edges of " + show(c) + " for data " + show(small[i]) + " along " + std::to_string(l);
                  });
                }
                // concat of sizes along a label, other labels equal
                for (int l = 0; l < 3; ++l) {
                  auto x = small[i], y = c;
                  const auto ix = find(x, l), iy = find(y, l);
                  const long nx = ix >= 0 ? x[ix].second : 1, ny = iy >= 0 ? y[iy].second : 1;
                  if (ix >= 0)
                    x.erase(x.begin() + ix);
                  if (iy >= 0)
                    y.erase(y.begin() + iy);
                  if (!m_equal_unordered(x, y))
                    continue;
                  auto w = x;
                  w.emplace_back(l, nx + ny);
                  ++E.transitions;
                  const std::vector<Sizes> both{data, coord};
                  E.check_lazy(core::concat(both, dim(l)) == build_sizes(w), "concat",
                               [&] { return "concat of " + show(small[i]) + " and " + show(c); });
                }
              }
            });
  }
  // histories
  {
    std::vector<Step> steps;
    for (int l : {0, 1, 2}) {
      for (long n : {1L, 2L}) {
        for (int op : {0, 1, 2, 3})
          steps.push_back({op, l, n});
      }
      steps.push_back({4, l, 0});
      steps.push_back({5, l, (l + 1) % 3});
      steps.push_back({5, l, (l + 2) % 3});
      steps.push_back({7, l, 0});
    }
    steps.push_back({3, 0, -1});
    steps.push_back({6, 0, 0});
    steps.push_back({8, 0, 0});
    const int depth = E.thorough ? 5 : 4;
    std::vector<int> h(depth, 0);
    // one case per choice of the first two steps
    for (size_t i = 0; i < steps.size(); ++i)
      for (size_t j = 0; j < steps.size(); ++j)
        E.run([&] { return "histories from " + show(steps[i]) + show(steps[j]); },
              [&] {
                E.nontrivial();
                std::string trail;
                std::function<void(const Dimensions &, const Model &, int)> rec = [&](const Dimensions &d0, const Model &m0, int k) {
                  for (size_t s = 0; s < steps.size(); ++s) {
                    if ((k == 0 && s != i) || (k == 1 && s != j))
                      continue;
                    const auto &st = steps[s];
                    Dimensions d(d0);
                    Model m(m0);
                    const auto size = trail.size();
                    trail += show(st);
                    try {
                      switch (st.op) {
                      case 0: mutate(E, d, m, m_add(m, st.l, st.n, true), "add", [&](auto &o) { o.add(dim(st.l), st.n); }); break;
                      case 1: mutate(E, d, m, m_add(m, st.l, st.n, false), "addInner", [&](auto &o) { o.addInner(dim(st.l), st.n); }); break;
                      case 2: mutate(E, d, m, m_set(m, st.l, st.n), "set", [&](auto &o) { o.set(dim(st.l), st.n); }); break;
                      case 3: mutate(E, d, m, m_resize(m, st.l, st.n), "resize", [&](auto &o) { o.resize(dim(st.l), st.n); }); break;
                      case 4: mutate(E, d, m, m_erase(m, st.l), "erase", [&](auto &o) { o.erase(dim(st.l)); }); break;
                      case 5: mutate(E, d, m, m_replace(m, st.l, int(st.n)), "replace_key", [&](auto &o) { o.replace_key(dim(st.l), dim(int(st.n))); }); break;
                      case 6: mutate(E, d, m, m, "copy and move", [&](auto &o) { Dimensions c; c = o; Dimensions e(std::move(c)); o = std::move(e); }); break;
                      case 7: {
                        // slicing makes sizes, whose order is that of the input
                        value(E, static_cast<const Sizes &>(d), m, m_slice(m, st.l, 0, 1, 1), "slice", [&](auto &o) { return o.slice(Slice(dim(st.l), 0, 1)); });
                        break;
                      }
                      case 8: mutate(E, d, m, m_transpose(m, {}), "transpose", [&](auto &o) { o = core::transpose(o); }); break;
                      }
                    } catch (vh::Fail &f) {
                      f.msg = "after " + trail + ": " + f.msg;
                      throw;
                    }
                    E.state(hash(m));
                    ++E.traces;
                    if (k + 1 < depth)
                      rec(d, m, k + 1);
                    trail.resize(size);
                  }
                };
                rec(Dimensions{}, {}, 0);
              });
  }
}
VH_MAIN
