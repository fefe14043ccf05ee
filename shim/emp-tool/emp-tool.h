// Compile-only stand-in: fbpcf's EmpNetworkAdapter.h names these types in
// members the harness never instantiates.
#pragma once
#include <cstddef>
#include <memory>
#include <cstring>
#include <vector>
#include <string>
#include <iostream>
#include <immintrin.h>
namespace emp {
struct Group {
  unsigned char* scratch = nullptr;
  void resize_scratch(size_t) {}
};
struct Point {
  Group* group = nullptr;
  size_t size() {
    return 0;
  }
  void to_bin(unsigned char*, size_t) {}
  void from_bin(Group*, unsigned char*, size_t) {}
};
template <typename IO>
struct IKNP {};
} // namespace emp
