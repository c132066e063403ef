// Stand-in for TBB's blocked_range, see parallel_for.h.
#pragma once
#include <cstddef>
namespace tbb {
struct split {};
template <class Value> class blocked_range {
public:
  using const_iterator = Value;
  using size_type = std::size_t;
  blocked_range(Value begin, Value end, size_type grainsize = 1)
      : m_begin(begin), m_end(end), m_grainsize(grainsize) {}
  blocked_range(blocked_range &r, split)
      : m_begin(mid(r)), m_end(r.m_end), m_grainsize(r.m_grainsize) {
    r.m_end = m_begin;
  }
  const_iterator begin() const { return m_begin; }
  const_iterator end() const { return m_end; }
  size_type size() const { return size_type(m_end - m_begin); }
  size_type grainsize() const { return m_grainsize; }
  bool empty() const { return !(m_begin < m_end); }
  bool is_divisible() const { return m_grainsize < size(); }

private:
  static Value mid(const blocked_range &r) {
    return r.m_begin + (r.m_end - r.m_begin) / 2u;
  }
  Value m_begin;
  Value m_end;
  size_type m_grainsize;
};
} // namespace tbb
