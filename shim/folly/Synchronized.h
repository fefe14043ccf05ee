#pragma once
#include <mutex>
#include <utility>
namespace folly {
template <typename T, typename M = std::mutex>
class Synchronized {
 public:
  Synchronized() = default;
  explicit Synchronized(T t) : t_(std::move(t)) {}
  struct Locked {
    std::unique_lock<M> l;
    T* p;
    T* operator->() {
      return p;
    }
    T& operator*() {
      return *p;
    }
  };
  Locked wlock() {
    return Locked{std::unique_lock<M>(m_), &t_};
  }
  Locked rlock() {
    return wlock();
  }
  Locked lock() {
    return wlock();
  }
  template <typename F>
  auto withWLock(F&& f) {
    std::lock_guard<M> g(m_);
    return f(t_);
  }
  template <typename F>
  auto withRLock(F&& f) {
    return withWLock(std::forward<F>(f));
  }
  template <typename F>
  auto withLock(F&& f) {
    return withWLock(std::forward<F>(f));
  }

 private:
  M m_;
  T t_;
};
} // namespace folly
