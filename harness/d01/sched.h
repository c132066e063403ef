// Controlled scheduler for small concurrent programs over the real code.
//
// The "threads" are fibers of one OS thread. Every synchronisation operation
// that the code under test performs (pthread rwlocks and mutexes, atomics, the
// guards of static locals) is a scheduling point at which the explorer decides
// who runs next. The code under test is compiled with -fsanitize=thread, and
// the __tsan_* functions defined in sched.cpp check every memory access for a
// data race with vector clocks. With no data race, switching at the
// synchronisation operations alone covers all behaviours.
#pragma once
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>

namespace sched {
struct Op { // a synchronisation operation a thread is about to perform
  const void *obj = nullptr;
  bool write = false;
  bool operator==(const Op &o) const { return obj == o.obj && write == o.write; }
};
/// Operations that do not commute.
inline bool full = getenv("VERIF_FULL") != nullptr;
inline bool dependent(const Op &a, const Op &b) {
  if (full) return true;
  return a.obj == b.obj && a.obj != nullptr && (a.write || b.write);
}
constexpr int MaxT = 4;
struct Point {
  unsigned enabled = 0; // threads that could run
  int chosen = -1;      // thread that did
  Op pending[MaxT];
};
struct Result {
  bool ok = true;
  bool redundant = false; // given up: every enabled thread is asleep
  std::string what;       // what went wrong: race, deadlock, ...
  std::vector<Point> points;
};
/// Run the bodies as threads. The first choices are `prefix` (threads), the
/// others prefer the running thread and never take a thread that is asleep.
Result run(const std::vector<std::function<void()>> &bodies,
           const std::vector<int> &prefix, unsigned sleep);
/// Called by a body to report that a check failed.
void fail(const std::string &what);
} // namespace sched
