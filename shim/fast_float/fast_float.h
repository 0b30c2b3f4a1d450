// fast_float 6 features on Ubuntu's fast_float 3.9: the two option macros defined empty,
// and from_chars for integers with a base.
#pragma once
#undef FASTFLOAT_ALLOWS_LEADING_PLUS
#undef FASTFLOAT_SKIP_WHITE_SPACE
#define FASTFLOAT_ALLOWS_LEADING_PLUS 1
#define FASTFLOAT_SKIP_WHITE_SPACE 1
#include_next <fast_float/fast_float.h>
#undef FASTFLOAT_ALLOWS_LEADING_PLUS
#undef FASTFLOAT_SKIP_WHITE_SPACE
#include <charconv>
#include <cstdint>
namespace fast_float {
inline from_chars_result from_chars(const char *first, const char *last, int64_t &value,
                                    int base) noexcept {
  const char *p = first;
  while (p != last && (*p == ' ' || (*p >= '\t' && *p <= '\r'))) p++;
  if (p != last && *p == '+') {
    p++;
    if (p != last && *p == '-') return {first, std::errc::invalid_argument};
  }
  auto r = std::from_chars(p, last, value, base);
  return {r.ptr, r.ec};
}
} // namespace fast_float
