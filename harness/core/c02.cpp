// C02: dictionaries are insertion-ordered maps, and iterators notice changes.
//
// Every history of operations up to a depth on the real Dict, compared after
// every step with a vector of pairs; and in every state so reached every kind of
// iterator at every position is held across every operation. Values are objects
// that know whether they are alive. Built with AddressSanitizer, so that reading
// a stale entry ends the process.
#include "vh.h"
#include "scipp/core/dict.h"
#include "scipp/units/dim.h"
#include <algorithm>
#include <memory>
#include <optional>

using namespace scipp;
using core::Dict;

namespace {
struct Val {
  std::unique_ptr<int> p; // null when moved from
  const Val *self;
  static inline long alive = 0;
  explicit Val(int i) : p(std::make_unique<int>(i)), self(this) { ++alive; }
  Val(const Val &o) : p(std::make_unique<int>(*o.p)), self(this) { ++alive; }
  Val(Val &&o) noexcept : p(std::move(o.p)), self(this) { ++alive; }
  Val &operator=(const Val &o) {
    if (self != this)
      abort();
    auto q = std::make_unique<int>(*o.p);
    p = std::move(q);
    return *this;
  }
  Val &operator=(Val &&o) noexcept {
    if (self != this)
      abort();
    p = std::move(o.p);
    return *this;
  }
  ~Val() {
    if (self != this)
      abort();
    --alive;
  }
  int get() const {
    if (self != this)
      abort();
    return p ? *p : -999;
  }
};

template <class K> std::vector<K> keys();
template <> std::vector<std::string> keys() {
  return {"a", "", "a rather long key that is not stored in place"};
}
template <> std::vector<Dim> keys() { return {Dim("dict-a"), Dim(Dim::X), Dim("dict-b")}; }

using Model = std::vector<std::pair<int, int>>;
std::string show(const Model &m) {
  std::string s = "{";
  for (auto &[k, v] : m)
    s += std::to_string(k) + ":" + std::to_string(v) + " ";
  return s + "}";
}
long find(const Model &m, int k) {
  for (size_t i = 0; i < m.size(); ++i)
    if (m[i].first == k)
      return long(i);
  return -1;
}
enum Kind { Insert, InsertMove, InsertAlias, Erase, EraseOwnKey, Extract, Assign, Reserve, Clear, Copy, Move, MoveAssign, SelfAssign, Lookup, Init };
struct Step {
  Kind kind;
  int k;
};
std::string show(const Step &s) {
  static const char *n[] = {"insert", "insert(move)", "insert-alias", "erase", "erase(own key)", "extract", "assign-through-[]", "reserve", "clear",
                            "copy", "move", "move-assign", "self-assign", "lookup", "init-list"};
  return std::string(n[s.kind]) + "(" + std::to_string(s.k) + ") ";
}

template <class K> struct Checker {
  vh::Explorer &E;
  std::vector<K> K_ = keys<K>();
  using D = Dict<K, Val>;

  template <class A> void same(D &d, const Model &m, const A &after) {
    auto bad = [&](const std::string &w) { E.check(false, "content", after() + ": " + w + ", expected " + show(m)); };
    ++E.checks;
    const D &c = d;
    if (d.size() != long(m.size()) || d.empty() != m.empty())
      bad("wrong size");
    if (d.capacity() < d.size())
      bad("wrong capacity");
    for (int k = 0; k < int(K_.size()); ++k) {
      const auto i = find(m, k);
      if (d.contains(K_[k]) != (i >= 0) || (d.find(K_[k]) == d.end()) == (i >= 0) ||
          (c.find(K_[k]) == c.end()) == (i >= 0))
        bad("contains or find is wrong for " + std::to_string(k));
      if (i >= 0) {
        if (d[K_[k]].get() != m[i].second || c[K_[k]].get() != m[i].second || d.at(K_[k]).get() != m[i].second ||
            c.at(K_[k]).get() != m[i].second)
          bad("wrong value of " + std::to_string(k));
        auto it = d.find(K_[k]);
        if ((*it).first != K_[k] || (*it).second.get() != m[i].second || it->second.get() != m[i].second || it->first != K_[k])
          bad("find gives another entry for " + std::to_string(k));
        auto ct = c.find(K_[k]);
        if (ct->first != K_[k] || ct->second.get() != m[i].second)
          bad("const find gives another entry for " + std::to_string(k));
      }
    }
    size_t i = 0;
    for (auto it = d.begin(); it != d.end(); ++it, ++i)
      if (i >= m.size() || it->first != K_[m[i].first] || it->second.get() != m[i].second)
        bad("wrong entry in iteration at " + std::to_string(i));
    if (i != m.size())
      bad("iteration ends early");
    i = 0;
    for (const auto &[k, v] : c) {
      if (i >= m.size() || k != K_[m[i].first] || v.get() != m[i].second)
        bad("wrong entry in const iteration at " + std::to_string(i));
      ++i;
    }
    if (i != m.size())
      bad("const iteration ends early");
    i = 0;
    for (auto it = c.keys_begin(); it != c.keys_end(); ++it, ++i)
      if (i >= m.size() || *it != K_[m[i].first])
        bad("wrong key in iteration");
    if (i != m.size())
      bad("key iteration ends early");
    i = 0;
    for (auto it = c.values_begin(); it != c.values_end(); ++it, ++i)
      if (i >= m.size() || it->get() != m[i].second)
        bad("wrong value in iteration");
    if (i != m.size())
      bad("value iteration ends early");
    i = 0;
    for (auto it = d.values_begin(); it != d.values_end(); ++it, ++i)
      if (i >= m.size() || (*it).get() != m[i].second)
        bad("wrong value in non-const iteration");
    if (i != m.size())
      bad("non-const value iteration ends early");
    i = 0;
    auto f = [](const auto &x) { return x.second.get() + 1; };
    auto tend = c.end().transform(f);
    for (auto it = c.begin().transform(f); it != tend; ++it, ++i)
      if (i >= m.size() || *it != m[i].second + 1)
        bad("wrong value of transformed iteration");
    if (i != m.size())
      bad("transformed iteration ends early");
  }

  /// Apply a step to the dict and the model. Returns whether it modified the
  /// set of keys.
  bool apply(D &d, Model &m, const Step &s, int v) {
    const auto i = s.k >= 0 && s.k < 3 ? find(m, s.k) : -1;
    const auto expect_throw = [&](bool exp, auto &&f) {
      bool thrown = false;
      try {
        f();
      } catch (const std::exception &) {
        thrown = true;
      }
      E.check_lazy(thrown == exp, "error", [&] { return show(s) + "on " + show(m) + (thrown ? " raised" : " did not raise"); });
    };
    const auto put = [&] {
      if (i < 0)
        m.emplace_back(s.k, v);
      else
        m[i].second = v;
    };
    switch (s.kind) {
    case Insert: {
      const Val x(v);
      d.insert_or_assign(K_[s.k], x);
      E.check(x.get() == v, "content", "insert changed its argument");
      put();
      return i < 0;
    }
    case InsertMove:
      d.insert_or_assign(K_[s.k], Val(v));
      put();
      return i < 0;
    case InsertAlias: {
      // the value is an entry of the dict itself
      if (m.empty())
        return false;
      const auto src = m[m.size() - 1];
      d.insert_or_assign(K_[s.k], d[K_[src.first]]);
      if (i < 0)
        m.emplace_back(s.k, src.second);
      else
        m[i].second = src.second;
      return i < 0;
    }
    case Erase:
      expect_throw(i < 0, [&] { d.erase(K_[s.k]); });
      if (i >= 0)
        m.erase(m.begin() + i);
      return i >= 0;
    case EraseOwnKey: {
      if (i < 0)
        return false;
      // the key is the one stored in the dict
      auto it = d.find(K_[s.k]);
      const K &own = (*it).first;
      d.erase(own);
      m.erase(m.begin() + i);
      return true;
    }
    case Extract:
      expect_throw(i < 0, [&] {
        const auto x = d.extract(K_[s.k]);
        E.check(x.get() == m[i].second, "content", "extract gave another value");
      });
      if (i >= 0)
        m.erase(m.begin() + i);
      return i >= 0;
    case Assign:
      expect_throw(i < 0, [&] { d[K_[s.k]] = Val(v); });
      if (i >= 0)
        m[i].second = v;
      return false;
    case Lookup:
      expect_throw(i < 0, [&] { (void)d.at(K_[s.k]); });
      expect_throw(i < 0, [&] { (void)std::as_const(d)[K_[s.k]]; });
      return false;
    case Reserve:
      d.reserve(s.k);
      E.check(d.capacity() >= s.k, "content", "reserve did not reserve");
      return false;
    case Clear: {
      const bool r = !m.empty();
      d.clear();
      m.clear();
      return r;
    }
    case Copy: {
      D c(d);
      auto mm = m;
      same(c, m, [&] { return "copy of " + show(m); });
      // changing the copy must not change the original
      if (!mm.empty()) {
        c[K_[mm[0].first]] = Val(-5);
        c.erase(K_[mm[0].first]);
      }
      c.insert_or_assign(K_[0], Val(-7));
      same(d, m, [&] { return "original after changing its copy, " + show(m); });
      D e;
      e.insert_or_assign(K_[1], Val(3));
      e = d;
      same(e, m, [&] { return "assigned copy of " + show(m); });
      d = e;
      return true;
    }
    case Move: {
      D c(std::move(d));
      same(c, m, [&] { return "moved " + show(m); });
      d = D(c);
      return true;
    }
    case MoveAssign: {
      D c;
      c.insert_or_assign(K_[2], Val(3));
      c = std::move(d);
      same(c, m, [&] { return "move-assigned " + show(m); });
      d = std::move(c);
      return true;
    }
    case SelfAssign: {
      auto &r = d;
      d = r;
      return true;
    }
    case Init: {
      if (s.k == 0) {
        d = D({{K_[1], Val(v)}, {K_[0], Val(v + 1)}});
        m = {{1, v}, {0, v + 1}};
      } else
        expect_throw(true, [&] { d = D({{K_[1], Val(v)}, {K_[0], Val(v + 1)}, {K_[1], Val(v)}}); });
      return true;
    }
    }
    return true;
  }

  /// An iterator at position pos is held across the step.
  template <class Get>
  void held(D &d, const Model &m, bool changed, Get &&check_current, size_t before_size, const std::string &what) {
    (void)d;
    bool thrown = false;
    try {
      check_current();
    } catch (const vh::Fail &) {
      throw;
    } catch (const std::exception &) {
      thrown = true;
    }
    if (m.size() != before_size)
      E.check_lazy(thrown, "iterator", [&] { return what + ": the change of size was not noticed"; });
    else if (!changed)
      E.check_lazy(!thrown, "iterator", [&] { return what + ": raised although nothing was changed"; });
  }
};

template <class K> void iterators(vh::Explorer &E, Checker<K> &C, const std::vector<Step> &hist, const std::vector<Step> &steps) {
  using D = Dict<K, Val>;
  auto make = [&](D &d, Model &m) {
    int v = 100;
    for (auto &s : hist)
      C.apply(d, m, s, v++);
  };
  Model m0;
  {
    D d;
    make(d, m0);
  }
  for (const auto &s : steps) {
    if (s.kind == Move || s.kind == MoveAssign || s.kind == Copy || s.kind == SelfAssign || s.kind == Init)
      continue;
    for (size_t pos = 0; pos <= m0.size(); ++pos)
      for (int type = 0; type < 6; ++type) {
        ++E.transitions;
        D d;
        Model m;
        make(d, m);
        const D &c = d;
        const auto before = m.size();
        const bool reserve = s.kind == Reserve && s.k > d.capacity();
        auto text = [&] { return "iterator of type " + std::to_string(type) + " at " + std::to_string(pos) + " of " + show(m0) + ", then " + show(s); };
        auto hold = [&](auto it, auto end, auto &&eq) {
          for (size_t i = 0; i < pos; ++i)
            ++it;
          auto copy = it;
          const bool changed = C.apply(d, m, s, 55) || reserve;
          bool was_end = pos == before;
          if (!was_end) {
            C.held(d, m, changed, [&] {
              // either raises or shows the current entry
              const bool ok = eq(it);
              if (m.size() == before)
                E.check_lazy(ok, "iterator", [&] { return text() + ": stale entry"; });
            }, before, text());
            C.held(d, m, changed, [&] { ++copy; }, before, text() + " (increment)");
          }
          auto copy2 = it;
          C.held(d, m, changed, [&] {
            const bool e = copy2 == end;
            if (m.size() == before)
              E.check_lazy(e == was_end, "iterator", [&] { return text() + ": comparison with the end"; });
          }, before, text() + " (comparison)");
        };
        auto entry = [&](const auto &x) {
          return pos < m.size() && x.first == C.K_[m[pos].first] && x.second.get() == m[pos].second;
        };
        switch (type) {
        case 0: hold(d.begin(), d.end(), [&](auto &it) { return entry(*it); }); break;
        case 1: hold(c.begin(), c.end(), [&](auto &it) { return entry(*it); }); break;
        case 2: hold(c.keys_begin(), c.keys_end(), [&](auto &it) { const auto &k = *it; return pos < m.size() && k == C.K_[m[pos].first]; }); break;
        case 3: hold(d.values_begin(), d.values_end(), [&](auto &it) { const auto v = it->get(); return pos < m.size() && v == m[pos].second; }); break;
        case 4: hold(c.values_begin(), c.values_end(), [&](auto &it) { const auto v = (*it).get(); return pos < m.size() && v == m[pos].second; }); break;
        case 5: {
          auto f = [](const auto &x) { return x.second.get(); };
          hold(c.begin().transform(f), c.end().transform(f), [&](auto &it) { const auto v = *it; return pos < m.size() && v == m[pos].second; });
          break;
        }
        }
      }
  }
}

template <class K> void explore(vh::Explorer &E, const char *name) {
  std::vector<Step> steps;
  for (int k = 0; k < 3; ++k)
    for (Kind kind : {Insert, InsertMove, InsertAlias, Erase, Extract, Assign, Lookup})
      steps.push_back({kind, k});
  steps.push_back({EraseOwnKey, 0});
  steps.push_back({EraseOwnKey, 1});
  for (Kind kind : {Clear, Copy, Move, MoveAssign, SelfAssign})
    steps.push_back({kind, 0});
  steps.push_back({Reserve, 2});
  steps.push_back({Reserve, 7});
  steps.push_back({Init, 0});
  steps.push_back({Init, 1});
  const int depth = E.thorough ? 5 : 4;
  for (size_t i = 0; i < steps.size(); ++i)
    for (size_t j = 0; j < steps.size(); ++j)
      E.run([&] { return std::string("dict with keys ") + name + ", histories from " + show(steps[i]) + show(steps[j]); },
            [&] {
              E.nontrivial();
              Checker<K> C{E};
              const auto alive = Val::alive;
              std::vector<Step> hist;
              std::function<void(const Dict<K, Val> &, const Model &)> rec = [&](const Dict<K, Val> &d0, const Model &m0) {
                const int k = int(hist.size());
                for (size_t s = 0; s < steps.size(); ++s) {
                  if ((k == 0 && s != i) || (k == 1 && s != j))
                    continue;
                  Dict<K, Val> d(d0);
                  Model m(m0);
                  hist.push_back(steps[s]);
                  auto after = [&] {
                    std::string t = "after ";
                    for (auto &h : hist)
                      t += show(h);
                    return t;
                  };
                  try {
                    C.apply(d, m, steps[s], 100 + k);
                    C.same(d, m, after);
                  } catch (vh::Fail &f) {
                    f.msg = after() + ": " + f.msg;
                    throw;
                  }
                  ++E.transitions;
                  ++E.traces;
                  uint64_t h = 3;
                  for (auto &[a, b] : m)
                    h = vh::hash_mix(h, a * 1000 + b);
                  E.state(h);
                  E.outcome(h);
                  if (k + 1 < depth)
                    rec(d, m);
                  hist.pop_back();
                }
              };
              rec({}, {});
              // the same without copying between the steps, and iterators
              for (auto &s3 : steps) {
                const std::vector<Step> h{steps[i], steps[j], s3};
                Dict<K, Val> d;
                Model m;
                int v = 100;
                for (auto &s : h)
                  C.apply(d, m, s, v++);
                C.same(d, m, [&] { return "history without copies " + show(h[0]) + show(h[1]) + show(h[2]); });
                if ((s3.kind == Insert && s3.k == 2) || (E.thorough && (s3.kind == Reserve || s3.kind == Erase || s3.kind == Clear)))
                  iterators(E, C, h, steps);
              }
              E.check(Val::alive == alive, "lifetime", "values are not destroyed exactly once");
            });
}
} // namespace

VH_EXPLORE(C02) {
  explore<std::string>(E, "string");
  explore<Dim>(E, "Dim");
}
VH_MAIN
