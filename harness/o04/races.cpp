// Run-time of code compiled with -fsanitize=thread: every access inside a chunk
// of a parallel loop is entered in a table of the memory accessed so far in that
// loop (and the ones around it). All chunks of a loop may run at the same time,
// so it is a race if one chunk writes what another one accesses. The chunks are
// run one after the other; if there is no race, they commute and that execution
// stands for all interleavings of the same chunks.
#include "races.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include <pthread.h>
#include <sys/single_threaded.h>
#include <vector>

namespace races {
long accesses = 0;
namespace {
struct Word {
  uintptr_t key;
  uint32_t epoch;
  uint16_t w[8], r[8]; // chunk, 0 none, 65535 several
};
struct Table {
  std::vector<Word> t;
  uint32_t epoch = 0;
  size_t used = 0;
  Table() : t(1 << 14) {}
  void clear() {
    ++epoch;
    used = 0;
  }
  Word &get(uintptr_t key) {
    if (used * 2 > t.size()) {
      std::vector<Word> old(t.size() * 4);
      old.swap(t);
      used = 0;
      for (const auto &w : old)
        if (w.epoch == epoch && w.key)
          get(w.key) = w;
    }
    size_t i = (key * 0x9e3779b97f4a7c15ull) >> 20 & (t.size() - 1);
    for (;; i = (i + 1) & (t.size() - 1)) {
      auto &w = t[i];
      if (w.epoch != epoch || w.key == 0) {
        memset(&w, 0, sizeof w);
        w.key = key;
        w.epoch = epoch;
        ++used;
        return w;
      }
      if (w.key == key)
        return w;
    }
  }
};
struct Level {
  Table table;
  uintptr_t frame;
  int id;
};
constexpr int MaxLevel = 4;
Level *levels[MaxLevel];
int depth = 0;
int off = 0; // in the run-time, or in a synchronised part
bool active = false;
std::string race;
// memory given back inside a parallel loop
void **freed = nullptr;
size_t nfreed = 0, cap_freed = 0;
void give_back() {
  for (size_t i = 0; i < nfreed; ++i)
    free(freed[i]);
  nfreed = 0;
}

std::string sym(uintptr_t a) {
  Dl_info i;
  if (dladdr(reinterpret_cast<void *>(a), &i) && i.dli_sname)
    return i.dli_sname;
  return "?";
}

void access(uintptr_t a, size_t n, bool write, uintptr_t pc) {
  if (depth == 0 || off || n == 0)
    return;
  ++off;
  ++accesses;
  uintptr_t sp = uintptr_t(__builtin_frame_address(0));
  for (int l = 0; l < depth; ++l) {
    auto &L = *levels[l];
    if (L.id == 0 || (a >= sp - 4096 && a < L.frame))
      continue;
    for (size_t i = 0; i < n;) {
      auto &w = L.table.get((a + i) >> 3 | 1ull << 63);
      for (; i < n; ++i) {
        const int b = (a + i) & 7;
        const auto id = uint16_t(L.id);
        const bool bad = (w.w[b] && w.w[b] != id) || (write && w.r[b] && w.r[b] != id);
        if (bad && race.empty())
          race = std::string(write ? "write" : "read") + " by chunk " + std::to_string(id) + " of what chunk " +
                 std::to_string(w.w[b] && w.w[b] != id ? w.w[b] : w.r[b]) + (w.w[b] && w.w[b] != id ? " wrote" : " read") + ", in " + sym(pc);
        if (write)
          w.w[b] = w.w[b] == 0 || w.w[b] == id ? id : 65535;
        else
          w.r[b] = w.r[b] == 0 || w.r[b] == id ? id : 65535;
        if (b == 7) {
          ++i;
          break;
        }
      }
    }
  }
  --off;
}
} // namespace

void start() {
  __libc_single_threaded = 0; // reference counts are updated atomically
  race.clear();
  depth = 0;
  off = 0;
  active = false;
  give_back();
}
std::string found() { return race; }
void enter(void *frame) {
  ++off;
  if (depth >= MaxLevel) {
    fprintf(stderr, "parallel loops nested too deeply\n");
    abort();
  }
  if (!levels[depth])
    levels[depth] = new Level;
  auto &L = *levels[depth];
  L.table.clear();
  L.frame = uintptr_t(frame);
  L.id = 0;
  ++depth;
  active = true;
  --off;
}
void chunk(int id) { levels[depth - 1]->id = id; }
void pause() { ++off; }
void resume() { --off; }
void leave() {
  --depth;
  if (depth == 0) {
    active = false;
    give_back();
  }
}
} // namespace races
using namespace races;

extern "C" {
#define LOCKFN(NAME, TYPE, D)                                                  \
  int NAME(TYPE *m) noexcept {                                                 \
    static int (*f)(TYPE *) = nullptr;                                         \
    if (!f)                                                                    \
      f = reinterpret_cast<int (*)(TYPE *)>(dlsym(RTLD_NEXT, #NAME));          \
    const int rc = f(m);                                                       \
    if (depth && rc == 0)                                                      \
      off += D;                                                                \
    return rc;                                                                 \
  }
// What is done under a lock is not recorded
LOCKFN(pthread_rwlock_rdlock, pthread_rwlock_t, 1)
LOCKFN(pthread_rwlock_wrlock, pthread_rwlock_t, 1)
LOCKFN(pthread_rwlock_unlock, pthread_rwlock_t, -1)
LOCKFN(pthread_mutex_lock, pthread_mutex_t, 1)
LOCKFN(pthread_mutex_unlock, pthread_mutex_t, -1)
// nor is the initialisation of static locals
int __cxa_guard_acquire(long long *g) {
  static int (*f)(long long *) = nullptr;
  if (!f)
    f = reinterpret_cast<int (*)(long long *)>(dlsym(RTLD_NEXT, "__cxa_guard_acquire"));
  const int rc = f(g);
  if (depth && rc)
    ++off;
  return rc;
}
void __cxa_guard_release(long long *g) {
  static void (*f)(long long *) = nullptr;
  if (!f)
    f = reinterpret_cast<void (*)(long long *)>(dlsym(RTLD_NEXT, "__cxa_guard_release"));
  f(g);
  if (depth && off)
    --off;
}

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N)                                                                  \
  void __tsan_read##N(void *a) {                                               \
    access(uintptr_t(a), N, false, uintptr_t(__builtin_return_address(0)));    \
  }                                                                            \
  void __tsan_write##N(void *a) {                                              \
    access(uintptr_t(a), N, true, uintptr_t(__builtin_return_address(0)));     \
  }                                                                            \
  void __tsan_unaligned_read##N(void *a) {                                     \
    access(uintptr_t(a), N, false, uintptr_t(__builtin_return_address(0)));    \
  }                                                                            \
  void __tsan_unaligned_write##N(void *a) {                                    \
    access(uintptr_t(a), N, true, uintptr_t(__builtin_return_address(0)));     \
  }                                                                            \
  void __tsan_volatile_read##N(void *a) {                                      \
    access(uintptr_t(a), N, false, uintptr_t(__builtin_return_address(0)));    \
  }                                                                            \
  void __tsan_volatile_write##N(void *a) {                                     \
    access(uintptr_t(a), N, true, uintptr_t(__builtin_return_address(0)));     \
  }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **a, void *) {
  access(uintptr_t(a), 8, true, uintptr_t(__builtin_return_address(0)));
}
void __tsan_vptr_read(void **a) {
  access(uintptr_t(a), 8, false, uintptr_t(__builtin_return_address(0)));
}
void __tsan_read_range(void *a, unsigned long n) {
  access(uintptr_t(a), n, false, uintptr_t(__builtin_return_address(0)));
}
void __tsan_write_range(void *a, unsigned long n) {
  access(uintptr_t(a), n, true, uintptr_t(__builtin_return_address(0)));
}
// memcpy and the like of the instrumented code, by --wrap
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  access(uintptr_t(s), n, false, uintptr_t(__builtin_return_address(0)));
  access(uintptr_t(d), n, true, uintptr_t(__builtin_return_address(0)));
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  access(uintptr_t(s), n, false, uintptr_t(__builtin_return_address(0)));
  access(uintptr_t(d), n, true, uintptr_t(__builtin_return_address(0)));
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  access(uintptr_t(d), n, true, uintptr_t(__builtin_return_address(0)));
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *d, const void *s, size_t n) {
  access(uintptr_t(s), n, false, uintptr_t(__builtin_return_address(0)));
  access(uintptr_t(d), n, false, uintptr_t(__builtin_return_address(0)));
  return __real_memcmp(d, s, n);
}

void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(N, T)                                                               \
  T __tsan_atomic##N##_load(const volatile T *a, int) {                        \
    return *a;                                                                 \
  }                                                                            \
  void __tsan_atomic##N##_store(volatile T *a, T v, int) {                     \
    *a = v;                                                                    \
  }                                                                            \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int) {                     \
    T o = *a;                                                                  \
    *a = v;                                                                    \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) {                    \
    T o = *a;                                                                  \
    *a = o + v;                                                                \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) {                    \
    T o = *a;                                                                  \
    *a = o - v;                                                                \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) {                     \
    T o = *a;                                                                  \
    *a = o | v;                                                                \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) {                    \
    T o = *a;                                                                  \
    *a = o & v;                                                                \
    return o;                                                                  \
  }                                                                            \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) {                    \
    T o = *a;                                                                  \
    *a = o ^ v;                                                                \
    return o;                                                                  \
  }                                                                            \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v,     \
                                                 int, int) {                   \
    if (*a == *c) {                                                            \
      *a = v;                                                                  \
      return 1;                                                                \
    }                                                                          \
    *c = *a;                                                                   \
    return 0;                                                                  \
  }                                                                            \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v,       \
                                               int m, int f) {                 \
    return __tsan_atomic##N##_compare_exchange_strong(a, c, v, m, f);          \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}


// No memory is used twice in a parallel loop.
void operator delete(void *p) noexcept {
  if (active && p) {
    if (nfreed == cap_freed)
      freed = static_cast<void **>(realloc(freed, (cap_freed = cap_freed * 2 + 1000) * sizeof(void *)));
    freed[nfreed++] = p;
  } else
    free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void *operator new(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { operator delete(p); }
void *operator new(size_t n, std::align_val_t al) {
  void *p = aligned_alloc(size_t(al), (n + size_t(al) - 1) / size_t(al) * size_t(al));
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t al) { return operator new(n, al); }
