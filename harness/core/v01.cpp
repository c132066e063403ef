// V01: element iteration visits exactly the right elements in order.
//
// All small shapes with all strides of a set, for one to five operands, dense
// and binned, are iterated with the real ViewIndex, MultiIndex and
// ElementArrayView from every start to every end, and the sequence of memory
// locations is compared with nested loops.
#include "vh.h"
#include "scipp/core/element_array_view.h"
#include "scipp/core/except.h"
#include "scipp/core/multi_index.h"
#include "scipp/core/strides.h"
#include <algorithm>
#include <array>
#include <optional>

using namespace scipp;
using namespace scipp::core;
using ix = scipp::index;
using Vec = std::vector<ix>;

namespace {
const std::array<Dim, 8> &L() {
  static const std::array<Dim, 8> l{Dim::X, Dim::Y, Dim::Z, Dim("v01-a"), Dim("v01-b"), Dim("v01-c"), Dim("v01-d"), Dim("v01-e")};
  return l;
}
std::string show(const Vec &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i)
    s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
ix volume(const Vec &s) {
  ix v = 1;
  for (auto x : s)
    v *= x;
  return v;
}
Dimensions dims_of(const Vec &shape, size_t first = 0) {
  Dimensions d;
  for (size_t i = 0; i < shape.size(); ++i)
    d.addInner(L()[first + i], shape[i]);
  return d;
}
Strides strides_of(const Vec &s) { return Strides(scipp::span<const ix>(s.data(), s.size())); }

/// Nested loops: f(position) for every position in row-major order.
template <class F> void loops(const Vec &shape, F &&f) {
  const auto n = volume(shape);
  Vec c(shape.size(), 0);
  for (ix i = 0; i < n; ++i) {
    f(c);
    for (ix d = ix(shape.size()) - 1; d >= 0; --d) {
      if (++c[d] < shape[d])
        break;
      c[d] = 0;
    }
  }
}
ix dot(const Vec &a, const Vec &b) {
  ix r = 0;
  for (size_t i = 0; i < a.size(); ++i)
    r += a[i] * b[i];
  return r;
}
Vec reference(const Vec &shape, const Vec &strides) {
  Vec r;
  loops(shape, [&](const Vec &c) { r.push_back(dot(c, strides)); });
  return r;
}
/// All vectors of n entries from the set.
std::vector<Vec> product(size_t n, const Vec &set) {
  std::vector<Vec> out{{}};
  for (size_t i = 0; i < n; ++i) {
    std::vector<Vec> next;
    for (const auto &v : out)
      for (auto x : set) {
        next.push_back(v);
        next.back().push_back(x);
      }
    out = std::move(next);
  }
  return out;
}
/// Strides of every layout that slicing, transposing and broadcasting can give:
/// every memory order, gaps after any of the dimensions, any set of dimensions
/// broadcast.
std::vector<Vec> layouts(const Vec &shape, bool gaps) {
  std::vector<size_t> perm(shape.size());
  for (size_t i = 0; i < perm.size(); ++i)
    perm[i] = i;
  std::set<Vec> out;
  const size_t n = shape.size();
  do {
    for (size_t g = 0; g < (gaps ? size_t(1) << n : 1); ++g)
      for (size_t b = 0; b < size_t(1) << n; ++b) {
        Vec s(n);
        ix step = 1;
        for (size_t k = n; k-- > 0;) {
          if (g >> k & 1) // strided
            step *= 2;
          const auto d = perm[k];
          s[d] = (b >> d & 1) ? 0 : step;
          if (!(b >> d & 1))
            step *= std::max(shape[d], ix(1));
        }
        out.insert(s);
      }
  } while (std::next_permutation(perm.begin(), perm.end()));
  return {out.begin(), out.end()};
}

// ---------------------------------------------------------------- ViewIndex
void one_view(vh::Explorer &E, const Vec &shape, const Vec &strides) {
  const auto ref = reference(shape, strides);
  const ix n = ref.size();
  const auto dims = dims_of(shape);
  const auto where = [&](const std::string &w) {
    return w + " for shape " + show(shape) + " strides " + show(strides);
  };
  ViewIndex it(dims, strides_of(strides));
  E.check_lazy(it.get() == 0 && it.index() == 0, "view-start", [&] { return where("does not start at 0"); });
  ViewIndex end(it);
  end.set_index(n);
  const auto sweep = [&](ViewIndex i, ix from, const char *what) {
    for (ix k = from; k < n; ++k) {
      E.check_lazy(i != end && i.get() == ref[k] && i.index() == k, "view-step", [&] {
        return where(std::string(what) + ": element " + std::to_string(k) + " is at " + std::to_string(i.get()) + " instead of " +
                     std::to_string(ref[k]));
      });
      i.increment();
      ++E.transitions;
    }
    E.check_lazy(i == end && i.index() == n, "view-end", [&] { return where(std::string(what) + ": does not end"); });
    return i;
  };
  auto used = sweep(it, 0, "stepping");
  for (ix k = 0; k <= n; ++k) {
    auto i = it;
    i.set_index(k);
    sweep(i, k, "jumping from start, then stepping");
    if (n == 0)
      continue;
    i = used; // after the end
    i.set_index(k);
    used = sweep(i, k, "jumping back, then stepping");
  }
}
void view_iterators(vh::Explorer &E, const Vec &shape, const Vec &strides) {
  const auto ref = reference(shape, strides);
  const ix n = ref.size();
  ix lo = 0, hi = 0;
  for (auto r : ref)
    lo = std::min(lo, r), hi = std::max(hi, r);
  std::vector<ix> buf(hi - lo + 1 + 4, -77);
  const ix offset = 2 - lo;
  for (size_t i = 0; i < buf.size(); ++i)
    buf[i] = ix(i) - offset;
  const auto where = [&](const std::string &w) {
    return w + " for shape " + show(shape) + " strides " + show(strides);
  };
  const ElementArrayView<ix> view(buf.data(), offset, dims_of(shape), strides_of(strides));
  const auto b = view.begin(), e = view.end();
  E.check_lazy(view.size() == n && e - b == n && b - e == -n && (b == e) == (n == 0), "iterator-distance",
               [&] { return where("wrong size or distance"); });
  ix k = 0;
  for (const auto &x : view) {
    E.check_lazy(k < n && x == ref[k], "iterator-step", [&] { return where("wrong element in a loop at " + std::to_string(k)); });
    ++k;
  }
  E.check_lazy(k == n, "iterator-step", [&] { return where("loop ends at " + std::to_string(k)); });
  for (ix i = 0; i < n; ++i)
    E.check_lazy(view[i] == ref[i], "iterator-subscript", [&] { return where("wrong element [" + std::to_string(i) + "]"); });
  if (n > 0)
    E.check_lazy(view.front() == ref.front() && view.back() == ref.back(), "iterator-front", [&] { return where("front or back"); });
  k = n;
  for (auto it = e; it != b;) {
    --it;
    --k;
    E.check_lazy(k >= 0 && *it == ref[k], "iterator-back", [&] { return where("wrong element going back at " + std::to_string(k)); });
  }
  E.check_lazy(k == 0, "iterator-back", [&] { return where("going back ends at " + std::to_string(k)); });
  for (ix i = 0; i <= n; ++i)
    for (ix j = 0; j <= n; ++j) {
      auto a = b + i; // jump, then jump by any distance, then step
      a += j - i;
      ++E.transitions;
      const auto c = b + i;
      E.check_lazy(a - c == j - i && c - a == i - j && (a == c) == (i == j) && a - b == j, "iterator-distance",
                   [&] { return where("wrong distance after a jump"); });
      if (j < n)
        E.check_lazy(*a == ref[j] && &*a == &buf[ref[j] + offset], "iterator-jump", [&] { return where("wrong element after a jump"); });
      if (j < n) {
        auto a2 = a++;
        E.check_lazy(*a2 == ref[j] && a - a2 == 1 && (j + 1 == n || *a == ref[j + 1]), "iterator-jump-step",
                     [&] { return where("wrong element after a jump and a step"); });
      }
      if (j > 0) {
        --a;
        if (j == n)
          E.check_lazy(*a == ref[j - 1], "iterator-jump-back", [&] { return where("wrong element after a jump and a step back"); });
      }
    }
  // equality of views with different layout
  std::vector<ix> dense(ref);
  const ElementArrayView<ix> other(dense.data(), 0, dims_of(shape), Strides(dims_of(shape)));
  E.check_lazy(view == other && other == view, "view-equality", [&] { return where("not equal to the same elements"); });
  for (ix i = 0; i < n; ++i) {
    dense[i] += 1000;
    E.check_lazy(!(view == other) && !(other == view), "view-equality", [&] { return where("equal to other elements"); });
    dense[i] -= 1000;
  }
  bool contiguous = true;
  try {
    auto s = view.as_span();
    E.check_lazy(ix(s.size()) == n && std::equal(s.begin(), s.end(), ref.begin()), "span",
                 [&] { return where("as_span gives other elements"); });
  } catch (const std::runtime_error &) {
    contiguous = false;
  }
  if (strides_of(strides) == Strides(dims_of(shape)))
    E.check_lazy(contiguous, "span", [&] { return where("as_span raised"); });
}

// --------------------------------------------------------------- MultiIndex
template <size_t N> using Seq = std::vector<std::array<ix, N>>;

template <class It, size_t N, class M>
void walk(vh::Explorer &E, const It &begin, const It &end, const std::array<ix, N> *ref, ix n, M &&where) {
  // element by element
  auto it = begin;
  for (ix k = 0; k < n; ++k) {
    E.check_lazy(it != end && it.get() == ref[k], "multi-step", [&] { return where("wrong element " + std::to_string(k) + " when stepping"); });
    it.increment();
    ++E.transitions;
  }
  E.check_lazy(it == end, "multi-end", [&] { return where("does not reach the end when stepping"); });
}
template <class It, size_t N, class M>
void walk_chunks(vh::Explorer &E, const It &begin, const It &end, const std::array<ix, N> *ref, ix n, M &&where) {
  // chunk by chunk, as the loops over elements do
  auto it = begin;
  ix k = 0, rounds = 0;
  const auto strides = it.inner_strides();
  while (it != end) {
    E.check_lazy(++rounds < 10 * n + 50, "multi-chunk", [&] { return where("does not reach the end in chunks"); });
    const auto size = it.in_same_chunk(end, 1) ? it.inner_distance_to(end) : it.inner_distance_to_end();
    auto at = it.get();
    for (ix i = 0; i < size; ++i, ++k) {
      E.check_lazy(k < n && at == ref[k], "multi-chunk", [&] { return where("wrong element " + std::to_string(k) + " in chunks"); });
      for (size_t o = 0; o < N; ++o)
        at[o] += strides[o];
    }
    it.increment_by(size != 0 ? size : 1);
    ++E.transitions;
  }
  E.check_lazy(k == n, "multi-chunk", [&] { return where("only " + std::to_string(k) + " elements in chunks"); });
}

template <size_t... I> auto make_dense(const Dimensions &d, const std::vector<Vec> &s, std::index_sequence<I...>) {
  return MultiIndex<sizeof...(I)>(d, strides_of(s[I])...);
}
template <size_t N> void one_dense(vh::Explorer &E, const Vec &shape, const std::vector<Vec> &strides, bool all_ranges) {
  Seq<N> ref;
  loops(shape, [&](const Vec &c) {
    std::array<ix, N> a;
    for (size_t o = 0; o < N; ++o) {
      a[o] = 0;
      for (size_t d = 0; d < strides[o].size(); ++d)
        a[o] += c[d] * strides[o][d];
    }
    ref.push_back(a);
  });
  const ix n = ref.size();
  const auto where = [&](const std::string &w) {
    std::string s = w + " for shape " + show(shape) + " strides";
    for (const auto &v : strides)
      s += " " + show(v);
    return s;
  };
  const auto m = make_dense(dims_of(shape), strides, std::make_index_sequence<N>{});
  E.check_lazy(!m.has_bins(), "multi-bins", [&] { return where("claims to have bins"); });
  bool zero = false;
  for (size_t d = 0; d < shape.size(); ++d)
    zero |= strides[0].size() <= d || strides[0][d] == 0;
  // A dimension of extent 1 may be merged, so this is required only where it
  // matters: two elements of the first operand at one place.
  bool alias = false;
  for (size_t d = 0; d < shape.size(); ++d)
    alias |= shape[d] > 1 && (strides[0].size() <= d || strides[0][d] == 0);
  if (n > 0 && alias)
    E.check_lazy(m.has_stride_zero(), "multi-stride-zero", [&] { return where("broadcast output is not noticed"); });
  if (!zero)
    E.check_lazy(!m.has_stride_zero(), "multi-stride-zero", [&] { return where("output wrongly taken for broadcast"); });
  if (n > 0) {
    walk(E, m.begin(), m.end(), ref.data(), n, where);
    walk_chunks(E, m.begin(), m.end(), ref.data(), n, where);
    walk_chunks(E, m, m.end(), ref.data(), n, where);
  }
  auto b = m, e = m;
  for (ix i = 0; i <= n; ++i) {
    b.set_index(i);
    if (i < n)
      E.check_lazy(b.get() == ref[i], "multi-jump", [&] { return where("wrong element after jumping to " + std::to_string(i)); });
    for (ix j = i; j <= n; ++j) {
      if (!all_ranges && j > i + 1 && j + 1 < n)
        continue;
      e.set_index(j);
      E.check_lazy((b == e) == (i == j) && (b != e) == (i != j), "multi-compare", [&] { return where("positions compare wrongly"); });
      walk_chunks(E, b, e, ref.data() + i, j - i, where);
      if (all_ranges)
        walk(E, b, e, ref.data() + i, j - i, where);
    }
  }
}

// ------------------------------------------------------------ binned operands
struct Op {
  bool binned;
  Vec strides;       // in the outer dimensions
  std::vector<std::pair<ix, ix>> indices;
  Vec inner_strides; // of the buffer
};
template <size_t... I>
auto make_binned(const Dimensions &outer, const Dimensions &inner, Dim slice, const std::vector<Op> &ops, std::index_sequence<I...>) {
  const auto param = [&](const Op &o) {
    BucketParams p;
    if (o.binned)
      p = BucketParams{slice, inner, strides_of(o.inner_strides), o.indices.data()};
    return ElementArrayViewParams(0, outer, strides_of(o.strides), p);
  };
  return MultiIndex<sizeof...(I)>(param(ops[I])...);
}
template <size_t N>
void one_binned(vh::Explorer &E, const Vec &outer, const Vec &inner, size_t slice, const std::vector<Op> &ops, bool expect_mismatch) {
  const auto where = [&](const std::string &w) {
    std::string s = w + " for bins of shape " + show(outer) + " of buffers " + show(inner) + " cut along " + std::to_string(slice);
    for (const auto &o : ops) {
      s += o.binned ? " | binned " : " | dense ";
      s += show(o.strides);
      for (const auto &p : o.indices)
        s += " " + std::to_string(p.first) + ":" + std::to_string(p.second);
    }
    return s;
  };
  Seq<N> ref;
  Vec bin_begin; // position of the first element of each bin in ref
  loops(outer, [&](const Vec &c) {
    bin_begin.push_back(ref.size());
    ix size = 0;
    for (const auto &o : ops)
      if (o.binned) {
        const auto [b, e] = o.indices[dot(c, o.strides)];
        size = e - b;
      }
    Vec shape = inner;
    shape[slice] = size;
    loops(shape, [&](const Vec &i) {
      std::array<ix, N> a;
      for (size_t k = 0; k < N; ++k) {
        a[k] = dot(c, ops[k].strides);
        if (ops[k].binned)
          a[k] = dot(i, ops[k].inner_strides) + ops[k].indices[a[k]].first * ops[k].inner_strides[slice];
      }
      ref.push_back(a);
    });
  });
  const ix nbin = bin_begin.size();
  bin_begin.push_back(ref.size());
  std::optional<MultiIndex<N>> made;
  const auto od = dims_of(outer), id = dims_of(inner, 4);
  try {
    made.emplace(make_binned(od, id, L()[4 + slice], ops, std::make_index_sequence<N>{}));
  } catch (const except::BinnedDataError &) {
  }
  E.check_lazy(made.has_value() != expect_mismatch, "bin-sizes", [&] { return where(expect_mismatch ? "unequal bin sizes accepted" : "raised"); });
  if (!made)
    return;
  const auto &m = *made;
  E.check_lazy(m.has_bins(), "multi-bins", [&] { return where("claims to have no bins"); });
  const ix n = ref.size();
  walk_chunks(E, m.begin(), m.end(), ref.data(), n, where);
  walk_chunks(E, m, m.end(), ref.data(), n, where);
  if (inner.size() == 1 || volume(inner) > 0)
    walk(E, m.begin(), m.end(), ref.data(), n, where);
  auto b = m, e = m;
  for (ix i = 0; i <= nbin; ++i) {
    b.set_index(i);
    for (ix j = i; j <= nbin; ++j) {
      e.set_index(j);
      walk_chunks(E, b, e, ref.data() + bin_begin[i], bin_begin[j] - bin_begin[i], where);
    }
  }
}
} // namespace

VH_EXPLORE(V01) {
  const bool T = E.thorough;
  // ---- one operand: all shapes, all strides
  for (size_t nd = 0; nd <= 6; ++nd) {
    const Vec extents = nd <= 3 ? Vec{0, 1, 2, 3} : nd == 4 ? Vec{0, 1, 2} : nd == 5 ? Vec{1, 2} : Vec{1, 2};
    const Vec steps = nd <= 2   ? Vec{-3, -2, -1, 0, 1, 2, 3, 4, 6}
                      : nd == 3 ? (T ? Vec{-2, -1, 0, 1, 2, 3, 4, 6, 9} : Vec{-1, 0, 1, 2, 3, 4, 6, 9})
                      : nd == 4 ? (T ? Vec{-1, 0, 1, 2, 4, 8} : Vec{0, 1, 2, 4})
                      : nd == 5 ? (T ? Vec{0, 1, 2, 4, 8} : Vec{0, 1, 2, 4})
                                : (T ? Vec{0, 1, 2, 4} : Vec{0, 1, 2});
    for (const auto &shape : product(nd, extents)) {
      if (nd >= 4 && !T && volume(shape) > 32)
        continue;
      E.run([&] { return "one operand of shape " + show(shape) + ", all strides"; },
            [&] {
              if (volume(shape) > 1)
                E.nontrivial();
              for (const auto &s : product(nd, steps)) {
                one_view(E, shape, s);
                if (nd <= 2 || (nd == 3 && volume(shape) <= (T ? 27 : 8)))
                  view_iterators(E, shape, s);
                if (nd <= 4 || volume(shape) <= 16)
                  one_dense<1>(E, shape, {s}, nd <= 2 || volume(shape) <= 6);
                E.state(vh::hash_bytes(s.data(), s.size() * 8, vh::hash_bytes(shape.data(), shape.size() * 8)));
              }
            });
    }
  }
  // Layouts as produced by slicing, for more dimensions
  for (size_t nd : {5, 6})
    for (const auto &shape : product(nd, {1, 2}))
      E.run([&] { return "one operand of shape " + show(shape) + ", all memory orders and broadcasts"; },
            [&] {
              E.nontrivial();
              ix k = 0;
              for (const auto &s : layouts(shape, false)) {
                if (!T && nd == 6 && k++ % 7)
                  continue;
                one_view(E, shape, s);
                one_dense<1>(E, shape, {s}, false);
              }
            });
  // Beyond the supported number of dimensions: an error or the right sequence
  for (size_t nd : {7, 8})
    for (ix ext : {1, 2})
      E.run([&] { return std::to_string(nd) + " dimensions of extent " + std::to_string(ext) + ", all single transpositions"; },
            [&] {
              E.nontrivial();
              const Vec shape(nd, ext);
              const Strides c(dims_of(shape));
              const Vec contiguous(c.begin(), c.end());
              std::vector<Vec> all{contiguous, Vec(contiguous.rbegin(), contiguous.rend()), Vec(nd, 0)};
              for (size_t i = 0; i < nd; ++i)
                for (size_t j = 0; j < i; ++j) {
                  all.push_back(contiguous);
                  std::swap(all.back()[i], all.back()[j]);
                }
              for (const auto &s : all) {
                try {
                  one_view(E, shape, s);
                  view_iterators(E, shape, s);
                } catch (const std::runtime_error &) {
                  E.count("more than 6 dimensions rejected");
                }
                try {
                  one_dense<1>(E, shape, {s}, false);
                } catch (const std::runtime_error &) {
                  E.count("more than 6 dimensions rejected");
                }
                try {
                  one_dense<2>(E, shape, {contiguous, s}, false);
                } catch (const std::runtime_error &) {
                  E.count("more than 6 dimensions rejected");
                }
              }
            });
  // ---- two operands
  for (size_t nd = 0; nd <= 3; ++nd)
    for (const auto &shape : product(nd, {0, 1, 2, 3})) {
      const auto ls = nd <= 2 ? product(nd, {-1, 0, 1, 2, 3, 4, 6}) : layouts(shape, T);
      for (const auto &s0 : ls)
        E.run([&] { return "two operands of shape " + show(shape) + ", the first with strides " + show(s0); },
              [&] {
                if (volume(shape) > 1)
                  E.nontrivial();
                for (const auto &s1 : ls)
                  one_dense<2>(E, shape, {s0, s1}, volume(shape) <= 9);
                // fewer strides than dimensions
                if (nd > 0)
                  one_dense<2>(E, shape, {s0, Vec{}}, false);
              });
    }
  // ---- three to five operands
  for (size_t nd = 0; nd <= 3; ++nd)
    for (const auto &shape : product(nd, nd == 3 ? Vec{1, 2} : Vec{0, 1, 2, 3})) {
      const auto ls = layouts(shape, nd < 2 || (T && nd == 2));
      for (const auto &s0 : ls)
        E.run([&] { return "three operands of shape " + show(shape) + ", the first with strides " + show(s0); },
              [&] {
                if (volume(shape) > 1)
                  E.nontrivial();
                for (const auto &s1 : ls)
                  for (const auto &s2 : ls) {
                    one_dense<3>(E, shape, {s0, s1, s2}, volume(shape) <= 4);
                    if (nd == 2) {
                      one_dense<4>(E, shape, {s2, s0, s0, s1}, false);
                      one_dense<5>(E, shape, {s1, s0, s2, s0, s1}, false);
                    }
                  }
              });
    }
  // ---- binned operands
  std::vector<Vec> outers{{}};
  for (size_t nd = 1; nd <= 3; ++nd)
    for (const auto &s : product(nd, nd == 1 ? Vec{0, 1, 2, 3, 4} : nd == 2 ? Vec{0, 1, 2, 3} : Vec{1, 2}))
      if (volume(s) <= (T ? 6 : 4))
        outers.push_back(s);
  for (const auto &outer : outers) {
    const ix nb = volume(outer);
    for (const auto &sizes : product(nb, nb <= 4 ? Vec{0, 1, 2} : Vec{0, 1}))
      E.run([&] { return "bins of shape " + show(outer) + " and sizes " + show(sizes); },
            [&] {
              E.nontrivial();
              // bins in memory: in order, in reverse, with gaps, and reverse with gaps
              const auto table = [&](const Vec &strides, int kind) {
                std::vector<std::pair<ix, ix>> t;
                ix last = 0;
                loops(outer, [&](const Vec &c) { last = std::max(last, dot(c, strides)); });
                t.assign(last + 1, {-1, -1});
                Vec size(last + 1, 1);
                ix i = 0;
                bool ok = true;
                std::vector<bool> used(last + 1, false);
                loops(outer, [&](const Vec &c) {
                  const auto p = dot(c, strides);
                  if (used[p] && size[p] != sizes[i])
                    ok = false; // a broadcast bin has one size
                  used[p] = true;
                  size[p] = sizes[i++];
                });
                if (!ok || outer.empty())
                  size = outer.empty() ? sizes : size;
                ix at = kind >= 2 ? 1 : 0;
                for (ix k = 0; k <= last; ++k) {
                  const auto p = kind % 2 ? last - k : k;
                  t[p] = {at, at + size[p]};
                  at += size[p] + (kind >= 2 ? 2 : 0);
                }
                return std::pair(ok, std::pair(t, at + 1));
              };
              const auto ls = layouts(outer, T || outer.size() <= 1);
              const auto ls0 = layouts(outer, T || outer.size() <= 2);
              for (size_t kind_of_buffer = 0; kind_of_buffer < 7; ++kind_of_buffer) {
                // buffers: events; events x 2; 2 x events; 2 x events x 2; with 0 and 1
                static const std::vector<std::pair<Vec, size_t>> buffers{{{-1}, 0},       {{-1, 2}, 0}, {{2, -1}, 1}, {{2, -1, 2}, 1},
                                                                         {{-1, 0}, 0}, {{0, -1}, 1}, {{1, -1}, 1}};
                if (!T && kind_of_buffer >= 3 && nb > 3)
                  continue;
                const auto slice = buffers[kind_of_buffer].second;
                for (const auto &s0 : ls0)
                  for (int k0 = 0; k0 < 4; ++k0) {
                    const auto [ok0, t0] = table(s0, k0);
                    if (!ok0)
                      continue;
                    auto inner = buffers[kind_of_buffer].first;
                    inner[slice] = t0.second;
                    if (outer.size() + inner.size() > 6)
                      continue;
                    const auto contiguous = [&] {
                      const Strides s(dims_of(inner, 4));
                      return Vec(s.begin(), s.end());
                    };
                    const Op b0{true, s0, t0.first, contiguous()};
                    one_binned<1>(E, outer, inner, slice, {b0}, false);
                    E.state(vh::hash_bytes(t0.first.data(), t0.first.size() * 16, vh::hash_bytes(s0.data(), s0.size() * 8)));
                    for (const auto &s1 : ls) {
                      if (!T && k0 == 1)
                        continue;
                      const Op d{false, s1, {}, {}};
                      one_binned<2>(E, outer, inner, slice, {b0, d}, false);
                      one_binned<2>(E, outer, inner, slice, {d, b0}, false);
                      for (int k1 = 0; k1 < 4; ++k1) {
                        if (!T && k1 != 3 - k0)
                          continue;
                        const auto [ok1, t1] = table(s1, k1);
                        if (!ok1)
                          continue;
                        // buffers of both operands may differ in size
                        auto inner1 = inner;
                        inner1[slice] = t1.second;
                        const Strides is(dims_of(inner1, 4));
                        const Op b1{true, s1, t1.first, Vec(is.begin(), is.end())};
                        one_binned<2>(E, outer, inner, slice, {b0, b1}, false);
                        one_binned<3>(E, outer, inner, slice, {b1, d, b0}, false);
                        if (kind_of_buffer == 0)
                          one_binned<3>(E, outer, inner, slice, {d, b1, b0}, false);
                        // one bin of another size
                        if (kind_of_buffer == 0 && s0 == ls0.back())
                          for (size_t k = 0; k < t1.first.size(); ++k) {
                            auto bad = b1;
                            bad.indices[k].second += 1;
                            bool used = false;
                            loops(outer, [&](const Vec &c) { used |= dot(c, s1) == ix(k); });
                            if (used) {
                              one_binned<2>(E, outer, inner, slice, {b0, bad}, true);
                              one_binned<3>(E, outer, inner, slice, {b0, d, bad}, true);
                              one_binned<3>(E, outer, inner, slice, {b0, bad, d}, true);
                            }
                          }
                      }
                    }
                  }
              }
            });
  }
  // ---- views derived from views: every reordering, extension and restriction
  for (const auto &shape : product(2, {1, 2, 3}))
    for (const auto &s : layouts(shape, true))
      E.run([&] { return "views of a view of shape " + show(shape) + " strides " + show(s); },
            [&] {
              E.nontrivial();
              std::vector<ix> buf(64);
              for (size_t i = 0; i < buf.size(); ++i)
                buf[i] = i;
              const ElementArrayView<ix> base(buf.data(), 3, dims_of(shape), strides_of(s));
              for (size_t nd = 0; nd <= 3; ++nd)
                for (const auto &labels : product(nd, {0, 1, 2})) {
                  if (std::set<ix>(labels.begin(), labels.end()).size() != nd)
                    continue;
                  for (const auto &target : product(nd, {1, 2, 3, 4})) {
                    Dimensions d;
                    for (size_t i = 0; i < nd; ++i)
                      d.addInner(L()[labels[i]], target[i]);
                    bool fits = true;
                    Vec strides(nd);
                    for (size_t i = 0; i < nd; ++i) {
                      fits &= labels[i] == 2 || target[i] <= shape[labels[i]];
                      strides[i] = labels[i] == 2 ? 0 : s[labels[i]];
                    }
                    ++E.transitions;
                    try {
                      const ElementArrayView<ix> v(base, d);
                      E.check(fits, "derived-error", "a view larger than its base was made");
                      const auto ref = reference(target, strides);
                      E.check(v.size() == ix(ref.size()) &&
                                  std::equal(v.begin(), v.end(), ref.begin(), [](auto a, auto b) { return a == b + 3; }),
                              "derived", "wrong elements");
                    } catch (const except::DimensionError &) {
                      E.check(!fits, "derived-error", "a valid view was rejected");
                    }
                  }
                }
            });
  // ---- strides of shapes
  for (size_t nd = 0; nd <= 6; ++nd)
    for (const auto &shape : product(nd, nd <= 4 ? Vec{0, 1, 2, 3} : Vec{1, 2}))
      E.run([&] { return "strides of shape " + show(shape); },
            [&] {
              if (nd)
                E.nontrivial();
              const Strides s(dims_of(shape));
              Vec expected(nd);
              ix step = 1;
              for (size_t i = nd; i-- > 0;) {
                expected[i] = step;
                step *= shape[i];
              }
              E.check(s == strides_of(expected) && !(s != strides_of(expected)) && s.size() == ix(nd), "strides", "wrong strides");
              for (size_t i = 0; i < nd; ++i) {
                auto o = s;
                o[i] += 1;
                E.check(s != o && !(s == o), "strides", "different strides are equal");
                auto e = expected;
                e.erase(e.begin() + i);
                auto x = s;
                x.erase(i);
                E.check(x == strides_of(e), "strides", "wrong strides after erase");
              }
              std::vector<size_t> perm(nd);
              for (size_t i = 0; i < nd; ++i)
                perm[i] = i;
              if (nd <= 4 && std::find(shape.begin(), shape.end(), 0) == shape.end())
                do {
                  std::vector<Dim> order;
                  Vec exp;
                  for (auto p : perm) {
                    order.push_back(L()[p]);
                    exp.push_back(expected[p]);
                  }
                  if (nd > 0)
                    E.check(transpose(s, dims_of(shape), order) == strides_of(exp), "strides", "wrong strides after transpose");
                  ++E.transitions;
                } while (std::next_permutation(perm.begin(), perm.end()));
            });
}
VH_MAIN
