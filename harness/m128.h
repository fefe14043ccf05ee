// 128-bit values as plain integers.
#pragma once
#include <emmintrin.h>
#include <smmintrin.h>
#include "pbt.h"
namespace pbt {
using u128 = unsigned __int128;
inline u128 toU(__m128i x) {
  u128 r;
  std::memcpy(&r, &x, 16);
  return r;
}
inline __m128i toM(u128 r) {
  __m128i x;
  std::memcpy(&x, &r, 16);
  return x;
}
inline std::string hex(u128 v) {
  char b[40];
  snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)(v >> 64),
           (unsigned long long)v);
  return b;
}
inline std::vector<u128> toU(const std::vector<__m128i>& v) {
  std::vector<u128> r;
  for (auto& x : v) {
    r.push_back(toU(x));
  }
  return r;
}
inline u128 gen128(Src& s) {
  uint64_t hi = s.edgyU(UINT64_MAX), lo = s.edgyU(UINT64_MAX);
  return (u128)hi << 64 | lo;
}
inline u128 rand128(Rng& r) {
  uint64_t hi = r.u64(), lo = r.u64();
  return (u128)hi << 64 | lo;
}
} // namespace pbt
