#pragma once
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <string>
#include <string_view>
namespace folly {
template <typename... Args>
inline std::string sformat(std::string_view f, Args&&... args) {
  return fmt::vformat(f, fmt::make_format_args(args...));
}
} // namespace folly
