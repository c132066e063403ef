// Stand-in for the part of TBB that scipp uses (through
// scipp/core/parallel-tbb.h, which stays in use). It runs serially, but leaves
// every choice that TBB's runtime makes on its own -- how a range is split into
// chunks (any binary splitting down to the grain size) and in which order the
// chunks run -- to a scheduler installed by the harness, so that the harness
// can enumerate them. Without a scheduler the range is run as one chunk.
#pragma once
#include <functional>
#include <vector>
#include <utility>
#include <tbb/blocked_range.h>

namespace verif_par {
/// Interface for a harness that decides about the partition and the order.
struct Scheduler {
  virtual ~Scheduler() = default;
  /// Return the chunks (pairs of begin, end) in the order of their execution.
  virtual std::vector<std::pair<long, long>> partition(long begin, long end,
                                                       long grainsize) = 0;
  /// Objects on the stack below frame belong to the chunks.
  virtual void region_begin(void *frame) { static_cast<void>(frame); }
  virtual void chunk_begin(long, long) {}
  virtual void chunk_end() {}
  virtual void region_end() {}
  /// Order in which equal elements leave an unstable parallel sort:
  /// false for as they came in, true for reversed.
  virtual bool sort_reverses_ties() { return false; }
};
#ifdef VERIF_PAR_DEFINE
__attribute__((visibility("default"))) Scheduler *scheduler = nullptr;
#else
extern Scheduler *scheduler;
#endif
} // namespace verif_par

namespace tbb {
template <class Range, class Body>
__attribute__((noinline)) void parallel_for(const Range &range, const Body &body) {
  auto *s = verif_par::scheduler;
  if (range.empty())
    return;
  if (s == nullptr) {
    body(range);
    return;
  }
  const auto chunks =
      s->partition(range.begin(), range.end(), long(range.grainsize()));
  s->region_begin(__builtin_frame_address(0));
  for (const auto &c : chunks) {
    const Range part(c.first, c.second, range.grainsize());
    s->chunk_begin(c.first, c.second);
    body(part);
    s->chunk_end();
  }
  s->region_end();
}
template <class Range, class Body, class Partitioner>
void parallel_for(const Range &range, const Body &body, const Partitioner &) {
  parallel_for(range, body);
}
struct auto_partitioner {};
struct simple_partitioner {};
struct static_partitioner {};
} // namespace tbb
