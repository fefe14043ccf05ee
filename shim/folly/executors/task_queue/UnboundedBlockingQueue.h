#pragma once
#include <condition_variable>
#include <deque>
#include <mutex>
namespace folly {
template <typename T>
class BlockingQueue {
 public:
  virtual ~BlockingQueue() = default;
  virtual void add(T t) = 0;
  virtual T take() = 0;
};
template <typename T>
class UnboundedBlockingQueue : public BlockingQueue<T> {
 public:
  void add(T t) override {
    std::lock_guard<std::mutex> l(m_);
    q_.push_back(std::move(t));
    cv_.notify_one();
  }
  T take() override {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [&] { return !q_.empty(); });
    T t = std::move(q_.front());
    q_.pop_front();
    return t;
  }

 private:
  std::mutex m_;
  std::condition_variable cv_;
  std::deque<T> q_;
};
} // namespace folly
