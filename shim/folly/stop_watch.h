#pragma once
#include <chrono>
namespace folly {
template <typename D = std::chrono::milliseconds>
struct stop_watch {
  std::chrono::steady_clock::time_point s = std::chrono::steady_clock::now();
  D elapsed() const {
    return std::chrono::duration_cast<D>(std::chrono::steady_clock::now() - s);
  }
};
} // namespace folly
