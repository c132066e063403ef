// E01: element buffers own their memory exactly once.
//
// Every history of operations up to a depth on three buffers, compared with
// optional vectors; elements know whether they are alive, and every element
// construction and assignment can be made to fail (each of them in turn). Run
// with AddressSanitizer and under several partitions of the parallel loops.
#include "vh.h"
#include "scipp/core/element_array.h"
#include <optional>
#include <cstddef>
#include <memory>
#include <numeric>

using scipp::core::element_array;
using scipp::core::init_for_overwrite;

namespace {
long budget = -1; // number of element operations until one fails; -1: never
struct Injected {};
void tickdown() {
  if (budget >= 0 && budget-- == 0)
    throw Injected{};
}
struct Val {
  std::unique_ptr<int> p;
  const Val *self;
  static inline long alive = 0;
  Val() : p(std::make_unique<int>(0)), self(this) { tickdown(); ++alive; }
  explicit Val(int i) : p(std::make_unique<int>(i)), self(this) { ++alive; }
  Val(const Val &o) : p(std::make_unique<int>(*o.p)), self(this) { tickdown(); ++alive; }
  Val &operator=(const Val &o) {
    if (self != this || o.self != &o)
      abort();
    tickdown();
    p = std::make_unique<int>(*o.p);
    return *this;
  }
  ~Val() {
    if (self != this)
      abort();
    self = nullptr;
    --alive;
  }
};
int get(const Val &v) { return *v.p; }
int get(int v) { return v; }
int get(bool v) { return v; }
int get(const std::string &s) { return s.empty() ? 0 : std::stoi(s.substr(20)); }
template <class T> T mk(int i) {
  if constexpr (std::is_same_v<T, std::string>)
    return i == 0 ? std::string() : std::string(20, 'x') + std::to_string(i);
  else if constexpr (std::is_same_v<T, bool>)
    return i % 2;
  else
    return T(i);
}
template <class T> int canon(int i) { return std::is_same_v<T, bool> ? i % 2 : i; }

using M = std::optional<std::vector<int>>;
std::string show(const M &m) {
  if (!m)
    return "unset ";
  std::string s = "[";
  for (int i : *m)
    s += std::to_string(i) + " ";
  return s + "] ";
}

struct Partition : verif_par::Scheduler {
  int mode = 0;
  long calls = 0;
  std::vector<std::pair<long, long>> partition(long b, long e, long grain) override {
    ++calls;
    std::vector<std::pair<long, long>> out;
    split(b, e, mode == 1 ? std::max(grain, (e - b) / 2) : grain, out);
    if (mode == 2)
      std::reverse(out.begin(), out.end());
    return out;
  }
  static void split(long b, long e, long grain, std::vector<std::pair<long, long>> &out) {
    if (e - b > grain) {
      const long m = b + (e - b) / 2;
      split(b, m, grain, out);
      split(m, e, grain, out);
    } else
      out.emplace_back(b, e);
  }
};

enum Kind { CopyAssign, MoveAssign, CopyCtor, MoveCtor, Fill, FromIter, FromContainer, FromList, Resize, ResizeOver, Reset, Write, DefaultCtor, FromRange };
struct Step {
  Kind kind;
  int a, b;
};
std::string show(const Step &s) {
  static const char *n[] = {"copy-assign", "move-assign", "copy-construct", "move-construct", "fill", "from-iterators", "from-container",
                            "from-list", "resize", "resize-for-overwrite", "reset", "write", "default", "from-range-of-other"};
  return std::string(n[s.kind]) + "(" + std::to_string(s.a) + "," + std::to_string(s.b) + ") ";
}

template <class T> struct Run {
  vh::Explorer &E;
  element_array<T> x[3];
  M m[3];
  int v = 10;

  template <class A> void same(const A &after) {
    for (int i = 0; i < 3; ++i) {
      const auto &c = x[i];
      auto &y = x[i];
      ++E.checks;
      auto bad = [&](const std::string &w) {
        E.check(false, "content", after() + ": buffer " + std::to_string(i) + ": " + w + ", expected " + show(m[i]));
      };
      if (bool(c) != m[i].has_value())
        bad("wrong answer whether it is set");
      if (!m[i]) {
        if (c.size() != -1 || c.begin() != c.end() || y.begin() != y.end() || c.empty())
          bad("an unset buffer has elements");
        continue;
      }
      const long n = m[i]->size();
      if (c.size() != n || c.empty() != (n == 0) || c.end() - c.begin() != n || y.end() - y.begin() != n)
        bad("wrong size " + std::to_string(c.size()));
      if (n && (c.data() != c.begin() || y.data() != y.begin() || c.data() != y.data()))
        bad("wrong data pointer");
      for (long k = 0; k < n; ++k)
        if (get(c.data()[k]) != (*m[i])[k])
          bad("wrong element " + std::to_string(k) + " " + std::to_string(get(c.data()[k])));
      for (int j = 0; j < i; ++j)
        if (n && m[j] && m[j]->size() && x[j].data() == c.data())
          bad("shares memory with buffer " + std::to_string(j));
    }
  }

  void apply(const Step &s) {
    auto &A = x[s.a];
    auto &B = x[s.b < 3 ? s.b : 0];
    auto &ma = m[s.a];
    auto &mb = m[s.b < 3 ? s.b : 0];
    ++v;
    auto seq = [&](int n) {
      std::vector<int> r;
      for (int i = 0; i < n; ++i)
        r.push_back(canon<T>(v * 10 + i));
      return r;
    };
    switch (s.kind) {
    case CopyAssign:
      A = B;
      ma = mb;
      break;
    case MoveAssign:
      if (s.a == s.b)
        return;
      A = std::move(B);
      ma = mb;
      mb.reset();
      break;
    case CopyCtor: {
      element_array<T> t(B);
      const auto tmp = mb;
      if (tmp && !tmp->empty()) // the copy must be deep
        t.data()[0] = mk<T>(7777);
      element_array<T> t2(B);
      A = std::move(t2);
      ma = tmp;
      break;
    }
    case MoveCtor: {
      element_array<T> t(std::move(B));
      const auto tmp = mb;
      mb.reset();
      A = std::move(t);
      ma = tmp;
      break;
    }
    case Fill:
      A = element_array<T>(s.b, mk<T>(v));
      ma = std::vector<int>(s.b, canon<T>(v));
      break;
    case FromIter: {
      const auto q = seq(s.b);
      std::unique_ptr<T[]> src(new T[s.b]);
      for (int i = 0; i < s.b; ++i)
        src[i] = mk<T>(v * 10 + i);
      A = element_array<T>(src.get(), src.get() + s.b);
      ma = q;
      break;
    }
    case FromContainer: {
      const auto q = seq(s.b);
      std::vector<T> src;
      for (int i = 0; i < s.b; ++i)
        src.push_back(mk<T>(v * 10 + i));
      A = element_array<T>(src);
      ma = q;
      break;
    }
    case FromList:
      A = element_array<T>({mk<T>(v), mk<T>(v + 1), mk<T>(v + 2)});
      ma = std::vector<int>{canon<T>(v), canon<T>(v + 1), canon<T>(v + 2)};
      break;
    case Resize:
      A.resize(s.b);
      ma = std::vector<int>(s.b, 0);
      break;
    case ResizeOver: {
      const bool keep = ma && long(ma->size()) == s.b;
      (void)keep;
      A.resize(s.b, init_for_overwrite);
      for (int i = 0; i < s.b; ++i)
        A.data()[i] = mk<T>(v * 10 + i);
      ma = seq(s.b);
      break;
    }
    case Reset:
      A.reset();
      ma.reset();
      break;
    case Write:
      if (ma && !ma->empty()) {
        A.data()[ma->size() - 1] = mk<T>(v);
        ma->back() = canon<T>(v);
      }
      break;
    case DefaultCtor:
      A = element_array<T>();
      ma.reset();
      break;
    case FromRange:
      if (mb && mb->size() > 1) {
        auto tmp = *mb;
        A = element_array<T>(B.begin() + 1, B.end());
        ma = std::vector<int>(tmp.begin() + 1, tmp.end());
      }
      break;
    }
  }
};

template <class T> void explore(vh::Explorer &E, const char *name, int depth, bool faults) {
  std::vector<Step> steps;
  for (int a = 0; a < 2; ++a) {
    for (int b = 0; b < 3; ++b)
      if (a == 0 || b == 0)
        for (Kind k : {CopyAssign, MoveAssign, CopyCtor, MoveCtor, FromRange})
          steps.push_back({k, a, b});
    for (int n : {0, 1, 3})
      for (Kind k : {Resize, ResizeOver})
        steps.push_back({k, a, n});
    steps.push_back({Fill, a, a ? 0 : 2});
    steps.push_back({FromIter, a, a ? 3 : 0});
    steps.push_back({FromContainer, a, a ? 0 : 3});
    for (Kind k : {FromList, Reset, Write, DefaultCtor})
      if (a == 0 || k == Reset)
        steps.push_back({k, a, 0});
  }
  for (size_t i = 0; i < steps.size(); ++i)
    for (size_t j = 0; j < steps.size(); ++j)
      E.run([&] { return std::string("buffers of ") + name + ", histories from " + show(steps[i]) + show(steps[j]); },
            [&] {
              E.nontrivial();
              const auto alive = Val::alive;
              Partition part;
              part.mode = int((i + j) % 3);
              verif_par::scheduler = &part;
              std::vector<int> h{int(i), int(j)};
              h.resize(depth);
              // all continuations, each from fresh buffers
              long total = 1;
              for (int k = 2; k < depth; ++k)
                total *= long(steps.size());
              for (long c = 0; c < total; ++c) {
                long r = c;
                for (int k = 2; k < depth; ++k, r /= long(steps.size()))
                  h[k] = int(r % long(steps.size()));
                Run<T> run{E};
                int done = 0;
                auto after = [&] {
                  std::string t = "after ";
                  for (int k = 0; k <= done && k < depth; ++k)
                    t += show(steps[h[k]]);
                  return t;
                };
                for (done = 0; done < depth; ++done) {
                  const auto cont = run.m[0];
                  run.apply(steps[h[done]]);
                  ++E.transitions;
                  if (done >= 1) // earlier prefixes are checked in other cases as well
                    run.same(after);
                }
                ++E.traces;
                uint64_t hs = 9;
                for (auto &m : run.m)
                  hs = vh::hash_mix(hs, m ? vh::hash_bytes(m->data(), m->size() * 4) : 1);
                E.state(hs);
                if (faults && std::is_same_v<T, Val>) {
                  // every element operation of the last step fails in turn
                  for (long f = 0; f < 40; ++f) {
                    Run<T> r2{E};
                    for (int k = 0; k + 1 < depth; ++k)
                      r2.apply(steps[h[k]]);
                    M before[3] = {r2.m[0], r2.m[1], r2.m[2]};
                    budget = f;
                    bool thrown = false;
                    try {
                      r2.apply(steps[h[depth - 1]]);
                    } catch (const Injected &) {
                      thrown = true;
                    }
                    budget = -1;
                    ++E.transitions;
                    if (!thrown)
                      break;
                    // What was not to be modified is unchanged; the target is
                    // unchanged or at least usable.
                    const auto &s = steps[h[depth - 1]];
                    const bool in_place = s.kind == ResizeOver || s.kind == Write || s.kind == MoveCtor;
                    for (int k = 0; k < 3; ++k)
                      r2.m[k] = before[k];
                    if (in_place) {
                      r2.x[s.a].reset();
                      r2.m[s.a].reset();
                    }
                    if (s.kind == MoveCtor) {
                      r2.x[s.b].reset();
                      r2.m[s.b].reset();
                    }
                    r2.same([&] { return "after a failure of element operation " + std::to_string(f) + " in the last step; " + after(); });
                    E.count("injected failures");
                  }
                }
              }
              verif_par::scheduler = nullptr;
              E.check(Val::alive == alive, "lifetime", "elements are not destroyed exactly once");
            });
}
} // namespace

VH_EXPLORE(E01) {
  explore<Val>(E, "objects", 3, true);
  explore<Val>(E, "objects", E.thorough ? 5 : 4, false);
  explore<std::string>(E, "strings", E.thorough ? 4 : 3, false);
  explore<int>(E, "int", 3, false);
  explore<bool>(E, "bool", 3, false);
  // Sizes at which the grain size and the partition change, and invalid sizes.
  for (long n : {0, 1, 2, 23, 24, 25, 47, 48, 49, 100, 1000})
    for (int mode = 0; mode < 3; ++mode)
      E.run([&](std::ostream &o) { o << "size " << n << ", partition " << mode; },
            [&] {
              E.nontrivial();
              Partition part;
              part.mode = mode;
              verif_par::scheduler = &part;
              std::vector<int> ref(n);
              std::iota(ref.begin(), ref.end(), 5);
              element_array<int> a(ref.begin(), ref.end()), b(n, 3), c(a);
              element_array<int> d;
              d = c;
              element_array<Val> v(n), w(v);
              verif_par::scheduler = nullptr;
              E.check(std::equal(a.begin(), a.end(), ref.begin(), ref.end()), "content", "from iterators");
              E.check(std::equal(c.begin(), c.end(), ref.begin(), ref.end()), "content", "copy");
              E.check(std::equal(d.begin(), d.end(), ref.begin(), ref.end()), "content", "copy assignment");
              E.check(b.size() == n && std::all_of(b.begin(), b.end(), [](int i) { return i == 3; }), "content", "fill");
              E.check(w.size() == n, "content", "objects");
              E.transitions += 5;
              E.state(vh::hash_mix(n, mode));
            });
  for (long n : {-2L, -100L, std::numeric_limits<long>::min()})
    E.run([&](std::ostream &o) { o << "invalid size " << n; },
          [&] {
            ++E.transitions;
            for (int how = 0; how < 3; ++how) {
              bool thrown = false;
              element_array<int> a({1, 2, 3});
              try {
                if (how == 0)
                  a.resize(n);
                else if (how == 1)
                  a.resize(n, init_for_overwrite);
                else
                  a = element_array<int>(n, 5);
              } catch (const std::exception &) {
                thrown = true;
              }
              E.check(thrown, "error", "a negative size was accepted");
              E.check(a.size() == 3 && a.data()[2] == 3, "content", "a failed resize changed the buffer");
            }
          });
}
VH_MAIN
