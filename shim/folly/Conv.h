#pragma once
#include <sstream>
#include <stdexcept>
#include <string>
namespace folly {
template <typename T, typename S>
inline T to(const S& s) {
  if constexpr (std::is_same_v<T, std::string>) {
    std::ostringstream o;
    o << s;
    return o.str();
  } else if constexpr (std::is_arithmetic_v<S>) {
    return static_cast<T>(s);
  } else {
    std::istringstream i{std::string(s)};
    T t{};
    if (!(i >> t) || !(i >> std::ws).eof()) {
      throw std::range_error("folly::to");
    }
    return t;
  }
}
} // namespace folly
