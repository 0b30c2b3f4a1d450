// std::sort stand-ins for highway's vectorised sort (libhwy_contrib is not installed).
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <hwy/contrib/sort/vqsort.h>
namespace hwy {
#define S(T) \
  void VQSort(T *p, size_t n, SortAscending) { std::sort(p, p + n); } \
  void VQSort(T *p, size_t n, SortDescending) { std::sort(p, p + n, [](const T &a, const T &b) { return b < a; }); }
S(uint16_t) S(uint32_t) S(uint64_t) S(int16_t) S(int32_t) S(int64_t) S(float) S(double)
static bool lt(const uint128_t &a, const uint128_t &b) { return a.hi < b.hi || (a.hi == b.hi && a.lo < b.lo); }
void VQSort(uint128_t *p, size_t n, SortAscending) { std::sort(p, p + n, lt); }
void VQSort(uint128_t *p, size_t n, SortDescending) {
  std::sort(p, p + n, [](const uint128_t &a, const uint128_t &b) { return lt(b, a); });
}
} // namespace hwy
