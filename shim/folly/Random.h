#pragma once
#include <cstdint>
#include <random>
namespace folly {
class Random {
 public:
  static std::mt19937_64& gen() {
    static thread_local std::mt19937_64 g{12345};
    return g;
  }
  static uint32_t rand32() {
    return static_cast<uint32_t>(gen()());
  }
  static uint32_t rand32(uint32_t max) {
    return max == 0 ? 0 : static_cast<uint32_t>(gen()() % max);
  }
  static uint32_t rand32(uint32_t min, uint32_t max) {
    return min + rand32(max - min);
  }
  static uint64_t rand64() {
    return gen()();
  }
  static uint64_t rand64(uint64_t max) {
    return max == 0 ? 0 : gen()() % max;
  }
  static uint64_t rand64(uint64_t min, uint64_t max) {
    return min + rand64(max - min);
  }
  static uint32_t secureRand32() {
    return rand32();
  }
  static uint32_t secureRand32(uint32_t max) {
    return rand32(max);
  }
  static uint32_t secureRand32(uint32_t min, uint32_t max) {
    return rand32(min, max);
  }
  static uint64_t secureRand64() {
    return rand64();
  }
  static uint64_t secureRand64(uint64_t max) {
    return rand64(max);
  }
  static bool secureOneIn(uint32_t n) {
    return rand32(n) == 0;
  }
  static bool oneIn(uint32_t n) {
    return rand32(n) == 0;
  }
};
} // namespace folly
