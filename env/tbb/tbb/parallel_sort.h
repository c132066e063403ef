// Stand-in for TBB's parallel_sort, see parallel_for.h. parallel_sort is not
// stable: the scheduler decides in which order equal elements come out.
#pragma once
#include <algorithm>
#include <functional>
#include <iterator>
#include <tbb/parallel_for.h>

namespace tbb {
template <class It, class Compare>
void parallel_sort(It begin, It end, const Compare &comp) {
  auto *s = verif_par::scheduler;
  if (s != nullptr && s->sort_reverses_ties())
    std::reverse(begin, end);
  std::stable_sort(begin, end, comp);
}
template <class It> void parallel_sort(It begin, It end) {
  parallel_sort(begin, end,
                std::less<typename std::iterator_traits<It>::value_type>());
}
} // namespace tbb
