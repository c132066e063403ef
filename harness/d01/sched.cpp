#include "sched.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <new>
#include <pthread.h>
#include <stdexcept>
#include <ucontext.h>

namespace sched {
namespace {
constexpr int Horizon = 4000;
using VC = long[MaxT];

struct Lock {
  int writer = -1;
  int readers[MaxT] = {0};
  VC rel = {0};  // joined by later acquirers
  VC rrel = {0}; // releases of readers, joined by writers
  int nreaders() const {
    int n = 0;
    for (int r : readers)
      n += r;
    return n;
  }
};
struct Acc {
  long w = 0; // clock of the last write
  int wt = -1;
  long r[MaxT] = {0};
};

struct State {
  bool active = false;
  int n = 0, cur = -1;
  ucontext_t main, ctx[MaxT];
  char *stack[MaxT];
  bool done[MaxT];
  VC vc[MaxT];
  // what a blocked thread waits for
  enum Want { None, Rd, Wr, Guard } want[MaxT];
  void *obj[MaxT];
  std::map<void *, Lock> *locks;
  std::map<void *, int> *guards; // running initialisation: thread
  std::map<void *, Lock> *atomics;
  std::map<uintptr_t, Acc> *shadow;
  const std::vector<std::function<void()>> *bodies;
  const std::vector<int> *prefix;
  unsigned sleep;
  Op pend[MaxT];
  Result *res;
  bool stop = false;
  int inrt = 0;
  int streak = 0;
} S;

struct InRt {
  InRt() { ++S.inrt; }
  ~InRt() { --S.inrt; }
};

void join(VC &a, const VC &b) {
  for (int i = 0; i < MaxT; ++i)
    if (b[i] > a[i])
      a[i] = b[i];
}

bool enabled(int t) {
  if (S.done[t])
    return false;
  if (S.want[t] == State::Rd)
    return (*S.locks)[S.obj[t]].writer == -1;
  if (S.want[t] == State::Wr) {
    auto &l = (*S.locks)[S.obj[t]];
    return l.writer == -1 && l.nreaders() == 0;
  }
  if (S.want[t] == State::Guard)
    return S.guards->count(S.obj[t]) == 0;
  return true;
}

void failed(const std::string &w) {
  if (S.res->ok) {
    S.res->ok = false;
    S.res->what = w;
  }
}

[[noreturn]] void leave() { // give up this execution
  S.stop = true;
  const int me = S.cur;
  swapcontext(&S.ctx[me], &S.main);
  abort();
}

/// Decide who runs next; called in the context of a thread (or of main, -1).
int decide(bool me_possible) {
  std::vector<int> en;
  Point p;
  if (me_possible && S.cur >= 0 && enabled(S.cur))
    en.push_back(S.cur);
  for (int t = 0; t < S.n; ++t)
    if (!(me_possible && t == S.cur) && enabled(t))
      en.push_back(t);
  if (en.empty())
    return -1;
  for (int t : en)
    p.enabled |= 1u << t;
  for (int t = 0; t < S.n; ++t)
    p.pending[t] = S.pend[t];
  const size_t k = S.res->points.size();
  int c = -1;
  if (k < S.prefix->size()) {
    c = (*S.prefix)[k];
    if (!(p.enabled >> c & 1)) {
      failed("harness: schedule diverged on replay");
      return -2;
    }
  } else {
    for (int t : en)
      if (!(S.sleep >> t & 1)) {
        if (c == -1 || (S.streak > 64 && c == S.cur)) // fairness for spinning code
          c = t;
      }
    if (c == -1) {
      S.res->redundant = true;
      return -2;
    }
    for (int t = 0; t < S.n; ++t)
      if (t == c || dependent(S.pend[t], S.pend[c]))
        S.sleep &= ~(1u << t);
  }
  p.chosen = c;
  S.res->points.push_back(p);
  if (k > Horizon) {
    failed("horizon: the threads do not come to an end");
    return -2;
  }
  return c;
}

void switch_to(int t) {
  const int me = S.cur;
  if (t == me) {
    ++S.streak;
    return;
  }
  S.streak = 0;
  S.cur = t;
  const int rt = S.inrt;
  S.inrt = 0;
  swapcontext(&S.ctx[me], &S.ctx[t]);
  S.inrt = rt;
}

void point(const void *obj, bool write) {
  S.pend[S.cur] = Op{obj, write};
  const int t = decide(true);
  if (t == -1) {
    std::string w = "deadlock:";
    for (int i = 0; i < S.n; ++i)
      if (!S.done[i])
        w += " thread " + std::to_string(i) + " waits;";
    failed(w);
    leave();
  }
  if (t == -2)
    leave();
  switch_to(t);
}

void entry(int t) {
  try {
    (*S.bodies)[t]();
  } catch (const std::exception &e) {
    InRt g;
    failed(std::string("exception in thread: ") + e.what());
  } catch (...) {
    InRt g;
    failed("exception in thread");
  }
  InRt g;
  S.done[t] = true;
  S.pend[t] = Op{};
  const int next = decide(false);
  if (next >= 0) {
    S.cur = next;
    S.inrt = 0;
    S.streak = 0;
    setcontext(&S.ctx[next]);
  }
  if (next == -1)
    for (int i = 0; i < S.n; ++i)
      if (!S.done[i])
        failed("deadlock: thread " + std::to_string(i) + " waits at the end");
  setcontext(&S.main);
}

void tick(int t) { ++S.vc[t][t]; }

std::string sym(uintptr_t a) {
  Dl_info i;
  if (dladdr(reinterpret_cast<void *>(a), &i) && i.dli_sname)
    return i.dli_sname;
  return "?";
}

void access(uintptr_t a, size_t n, bool write, uintptr_t pc) {
  if (!S.active || S.inrt || S.cur < 0)
    return;
  // own stack
  for (int t = 0; t < S.n; ++t)
    if (a >= uintptr_t(S.stack[t]) && a < uintptr_t(S.stack[t]) + (1 << 18))
      return;
  InRt g;
  const int me = S.cur;
  for (size_t i = 0; i < n; ++i) {
    auto &x = (*S.shadow)[a + i];
    bool bad = x.wt >= 0 && x.wt != me && x.w > S.vc[me][x.wt];
    if (write)
      for (int t = 0; t < S.n; ++t)
        bad |= t != me && x.r[t] > S.vc[me][t];
    if (bad) {
      failed(std::string("data race: ") + (write ? "write" : "read") +
             " by thread " + std::to_string(me) + " in " + sym(pc));
      leave();
    }
    if (write) {
      x.w = S.vc[me][me];
      x.wt = me;
    } else
      x.r[me] = S.vc[me][me];
  }
}

bool on() { return S.active && S.inrt == 0 && S.cur >= 0; }

void acquire(void *m, bool wr) {
  InRt g;
  S.want[S.cur] = wr ? State::Wr : State::Rd;
  S.obj[S.cur] = m;
  point(m, wr);
  S.want[S.cur] = State::None;
  auto &l = (*S.locks)[m];
  join(S.vc[S.cur], l.rel);
  if (wr) {
    join(S.vc[S.cur], l.rrel);
    l.writer = S.cur;
  } else
    ++l.readers[S.cur];
}
bool tryacquire(void *m, bool wr) {
  InRt g;
  point(m, true);
  auto &l = (*S.locks)[m];
  if (l.writer != -1 || (wr && l.nreaders()))
    return false;
  join(S.vc[S.cur], l.rel);
  if (wr) {
    join(S.vc[S.cur], l.rrel);
    l.writer = S.cur;
  } else
    ++l.readers[S.cur];
  return true;
}
void release(void *m) {
  InRt g;
  auto &l = (*S.locks)[m];
  if (l.writer == S.cur) {
    l.writer = -1;
    join(l.rel, S.vc[S.cur]);
  } else if (l.readers[S.cur] > 0) {
    --l.readers[S.cur];
    join(l.rrel, S.vc[S.cur]);
  } else {
    failed("a lock is released that the thread does not hold");
    leave();
  }
  tick(S.cur);
}
void atomic_point(const volatile void *b, bool write) {
  InRt g;
  void *a = const_cast<void *>(b);
  point(a, write);
  auto &l = (*S.atomics)[a];
  join(S.vc[S.cur], l.rel);
  join(l.rel, S.vc[S.cur]);
  tick(S.cur);
}
} // namespace

void fail(const std::string &w) {
  InRt g;
  failed(w);
}

Result run(const std::vector<std::function<void()>> &bodies,
           const std::vector<int> &prefix, const unsigned sleep) {
  Result res;
  S.n = int(bodies.size());
  S.bodies = &bodies;
  S.prefix = &prefix;
  S.sleep = sleep;
  S.res = &res;
  S.locks = new std::map<void *, Lock>;
  S.guards = new std::map<void *, int>;
  S.atomics = new std::map<void *, Lock>;
  S.shadow = new std::map<uintptr_t, Acc>;
  S.stop = false;
  S.streak = 0;
  memset(S.vc, 0, sizeof(S.vc));
  for (int t = 0; t < S.n; ++t) {
    S.done[t] = false;
    S.want[t] = State::None;
    S.pend[t] = Op{};
    S.vc[t][t] = 1;
    S.stack[t] = static_cast<char *>(malloc(1 << 18));
    getcontext(&S.ctx[t]);
    S.ctx[t].uc_stack.ss_sp = S.stack[t];
    S.ctx[t].uc_stack.ss_size = 1 << 18;
    S.ctx[t].uc_link = &S.main;
    makecontext(&S.ctx[t], reinterpret_cast<void (*)()>(entry), 1, t);
  }
  S.cur = -1;
  S.inrt = 0;
  S.active = true;
  int first;
  {
    InRt g;
    first = decide(false);
  }
  S.cur = first;
  if (first >= 0)
    swapcontext(&S.main, &S.ctx[first]);
  S.active = false;
  S.cur = -1;
  S.inrt = 0;
  return res;
}
} // namespace sched

using namespace sched;

template <class F> struct RealFn { using type = F; };
template <class F> static F real(const char *name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define LOCKFN(NAME, TYPE, MODEL)                                              \
  extern "C" int NAME(TYPE *m) noexcept {                                      \
    if (!on()) {                                                               \
      static RealFn<int (*)(TYPE *)>::type f = nullptr; if (!f) f = real<int (*)(TYPE *)>(#NAME);                            \
      return f(m);                                                             \
    }                                                                          \
    MODEL;                                                                     \
    return 0;                                                                  \
  }
LOCKFN(pthread_rwlock_rdlock, pthread_rwlock_t, acquire(m, false))
LOCKFN(pthread_rwlock_wrlock, pthread_rwlock_t, acquire(m, true))
LOCKFN(pthread_rwlock_unlock, pthread_rwlock_t, release(m))
LOCKFN(pthread_rwlock_tryrdlock, pthread_rwlock_t, if (!tryacquire(m, false)) return 16)
LOCKFN(pthread_rwlock_trywrlock, pthread_rwlock_t, if (!tryacquire(m, true)) return 16)
LOCKFN(pthread_mutex_lock, pthread_mutex_t, acquire(m, true))
LOCKFN(pthread_mutex_unlock, pthread_mutex_t, release(m))
LOCKFN(pthread_mutex_trylock, pthread_mutex_t, if (!tryacquire(m, true)) return 16)

extern "C" {
// guards of static locals
int __cxa_guard_acquire(long long *g) {
  auto b = reinterpret_cast<volatile char *>(g);
  if (!on()) {
    static RealFn<int (*)(long long *)>::type f = nullptr; if (!f) f = real<int (*)(long long *)>("__cxa_guard_acquire");
    return f(g);
  }
  InRt rt;
  if (*b)
    return 0;
  S.want[S.cur] = State::Guard;
  S.obj[S.cur] = g;
  point(g, true);
  S.want[S.cur] = State::None;
  join(S.vc[S.cur], (*S.atomics)[g].rel);
  if (*b)
    return 0;
  (*S.guards)[g] = S.cur;
  return 1;
}
void __cxa_guard_release(long long *g) {
  if (!on()) {
    static RealFn<void (*)(long long *)>::type f = nullptr; if (!f) f = real<void (*)(long long *)>("__cxa_guard_release");
    f(g);
    return;
  }
  InRt rt;
  *reinterpret_cast<volatile char *>(g) = 1;
  S.guards->erase(g);
  join((*S.atomics)[g].rel, S.vc[S.cur]);
  tick(S.cur);
}
void __cxa_guard_abort(long long *g) {
  if (!on()) {
    static RealFn<void (*)(long long *)>::type f = nullptr; if (!f) f = real<void (*)(long long *)>("__cxa_guard_abort");
    f(g);
    return;
  }
  InRt rt;
  S.guards->erase(g);
}

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N)                                                                  \
  void __tsan_read##N(void *a) {                                               \
    access(uintptr_t(a), N, false, uintptr_t(__builtin_return_address(0)));    \
  }                                                                            \
  void __tsan_write##N(void *a) {                                              \
    access(uintptr_t(a), N, true, uintptr_t(__builtin_return_address(0)));     \
  }                                                                            \
  void __tsan_unaligned_read##N(void *a) {                                     \
    access(uintptr_t(a), N, false, uintptr_t(__builtin_return_address(0)));    \
  }                                                                            \
  void __tsan_unaligned_write##N(void *a) {                                    \
    access(uintptr_t(a), N, true, uintptr_t(__builtin_return_address(0)));     \
  }                                                                            \
  void __tsan_volatile_read##N(void *a) {                                      \
    access(uintptr_t(a), N, false, uintptr_t(__builtin_return_address(0)));    \
  }                                                                            \
  void __tsan_volatile_write##N(void *a) {                                     \
    access(uintptr_t(a), N, true, uintptr_t(__builtin_return_address(0)));     \
  }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **a, void *) {
  access(uintptr_t(a), 8, true, uintptr_t(__builtin_return_address(0)));
}
void __tsan_vptr_read(void **a) {
  access(uintptr_t(a), 8, false, uintptr_t(__builtin_return_address(0)));
}
void __tsan_read_range(void *a, unsigned long n) {
  access(uintptr_t(a), n, false, uintptr_t(__builtin_return_address(0)));
}
void __tsan_write_range(void *a, unsigned long n) {
  access(uintptr_t(a), n, true, uintptr_t(__builtin_return_address(0)));
}
// memcpy and the like of the instrumented code, by --wrap
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  access(uintptr_t(s), n, false, uintptr_t(__builtin_return_address(0)));
  access(uintptr_t(d), n, true, uintptr_t(__builtin_return_address(0)));
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  access(uintptr_t(s), n, false, uintptr_t(__builtin_return_address(0)));
  access(uintptr_t(d), n, true, uintptr_t(__builtin_return_address(0)));
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  access(uintptr_t(d), n, true, uintptr_t(__builtin_return_address(0)));
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *d, const void *s, size_t n) {
  access(uintptr_t(s), n, false, uintptr_t(__builtin_return_address(0)));
  access(uintptr_t(d), n, false, uintptr_t(__builtin_return_address(0)));
  return __real_memcmp(d, s, n);
}

void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(N, T)                                                               \
  T __tsan_atomic##N##_load(const volatile T *a, int) {                        \
    if (on())                                                                  \
      atomic_point(a, false);                                                 \
    return *a;                                                                 \
  }                                                                            \
  void __tsan_atomic##N##_store(volatile T *a, T v, int) {                     \
    if (on())                                                                  \
      atomic_point(a, true);                                                 \
    *a = v;                                                                    \
  }                                                                            \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int) {                     \
    if (on())                                                                  \
      atomic_point(a, true);                                                 \
    T o = *a;                                                                  \
    *a = v;                                                                    \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) {                    \
    if (on())                                                                  \
      atomic_point(a, true);                                                 \
    T o = *a;                                                                  \
    *a = o + v;                                                                \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) {                    \
    if (on())                                                                  \
      atomic_point(a, true);                                                 \
    T o = *a;                                                                  \
    *a = o - v;                                                                \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) {                     \
    if (on())                                                                  \
      atomic_point(a, true);                                                 \
    T o = *a;                                                                  \
    *a = o | v;                                                                \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) {                    \
    if (on())                                                                  \
      atomic_point(a, true);                                                 \
    T o = *a;                                                                  \
    *a = o & v;                                                                \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) {                    \
    if (on())                                                                  \
      atomic_point(a, true);                                                 \
    T o = *a;                                                                  \
    *a = o ^ v;                                                                \
    return o;                                                                  \
  }                                                                            \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v,     \
                                                 int, int) {                   \
    if (on())                                                                  \
      atomic_point(a, true);                                                 \
    if (*a == *c) {                                                            \
      *a = v;                                                                  \
      return 1;                                                                \
    }                                                                          \
    *c = *a;                                                                   \
    return 0;                                                                  \
  }                                                                            \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v,       \
                                               int m, int f) {                 \
    return __tsan_atomic##N##_compare_exchange_strong(a, c, v, m, f);          \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}

// No memory is given back while threads run, so that no address is used twice.
void operator delete(void *p) noexcept {
  if (!S.active)
    free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void *operator new(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
