// Offline stand-in for folly's logging macros (folly itself is not installed).
// Arguments are type-checked but never evaluated or printed.
#pragma once
#include <fmt/format.h>
#include <sstream>
#include <string>
#include <type_traits>
namespace folly {
namespace shim {
struct NullLog {
  template <typename T>
  NullLog& operator<<(const T&) {
    return *this;
  }
  NullLog& operator<<(std::ostream& (*)(std::ostream&)) {
    return *this;
  }
};
template <typename... A>
inline NullLog nullLog(A&&...) {
  return {};
}
} // namespace shim
} // namespace folly
#define XLOG(level, ...)                   \
  if (true) {                              \
  } else                                   \
    ::folly::shim::nullLog(__VA_ARGS__)
#define XLOGF(level, ...)                  \
  if (true) {                              \
  } else                                   \
    ::folly::shim::nullLog(__VA_ARGS__)
#define XLOG_IF(level, cond, ...) XLOG(level, ##__VA_ARGS__)
#define XLOG_EVERY_MS(level, ms, ...) XLOG(level, ##__VA_ARGS__)
#define XLOG_EVERY_N(level, n, ...) XLOG(level, ##__VA_ARGS__)
#define XLOG_FIRST_N(level, n, ...) XLOG(level, ##__VA_ARGS__)
#define XLOGF_IF(level, cond, ...) XLOGF(level, ##__VA_ARGS__)
#define XLOGF_EVERY_MS(level, ms, ...) XLOGF(level, ##__VA_ARGS__)
#define XCHECK(c) \
  if (c) {        \
  } else          \
    (std::abort(), ::folly::shim::NullLog())
#define LOG(level) XLOG(level)
#define VLOG(level) XLOG(level)
