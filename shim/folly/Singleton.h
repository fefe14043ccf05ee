#pragma once
#include <memory>
#include <mutex>
namespace folly {
struct DefaultTag {};
template <typename T, typename Tag = DefaultTag>
class Singleton {
 public:
  Singleton() = default;
  std::shared_ptr<T> try_get() {
    static std::shared_ptr<T> p{new T(), [](T* t) { delete t; }};
    return p;
  }
};
} // namespace folly
