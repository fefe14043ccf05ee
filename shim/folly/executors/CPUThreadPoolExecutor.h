// A fixed pool of threads with folly's interface: tasks run in the order they
// were added, join() lets every queued task finish, an exception ends its task.
#pragma once
#include <algorithm>
#include <exception>
#include <functional>
#include <memory>
#include <thread>
#include <vector>
#include "folly/executors/task_queue/UnboundedBlockingQueue.h"
namespace folly {
class CPUThreadPoolExecutor {
 public:
  struct CPUTask {
    std::function<void()> f;
    bool poison = false;
  };
  struct ThreadHandle {};
  class Observer {
   public:
    virtual ~Observer() = default;
    virtual void threadStarted(ThreadHandle*) = 0;
    virtual void threadStopped(ThreadHandle*) = 0;
  };
  explicit CPUThreadPoolExecutor(
      size_t n,
      std::unique_ptr<BlockingQueue<CPUTask>> q = std::make_unique<UnboundedBlockingQueue<CPUTask>>())
      : q_(std::move(q)) {
    for (size_t i = 0; i < n; i++) {
      t_.emplace_back([this] {
        while (true) {
          CPUTask t = q_->take();
          if (t.poison) {
            return;
          }
          try {
            t.f();
          } catch (...) { // folly logs and goes on
          }
        }
      });
    }
  }
  ~CPUThreadPoolExecutor() {
    join();
  }
  void addObserver(std::shared_ptr<Observer> o) {
    o_.push_back(o);
    for (size_t i = 0; i < t_.size(); i++) {
      o->threadStarted(nullptr);
    }
  }
  void add(std::function<void()> f) {
    if (joined_) {
      return;
    }
    q_->add(CPUTask{std::move(f)});
  }
  void join() {
    if (joined_) {
      return;
    }
    joined_ = true;
    for (size_t i = 0; i < t_.size(); i++) {
      q_->add(CPUTask{{}, true});
    }
    for (auto& t : t_) {
      t.join();
      for (auto& o : o_) {
        o->threadStopped(nullptr);
      }
    }
  }
  size_t numThreads() const {
    return t_.size();
  }

 private:
  std::unique_ptr<BlockingQueue<CPUTask>> q_;
  std::vector<std::shared_ptr<Observer>> o_;
  std::vector<std::thread> t_;
  bool joined_ = false;
};
} // namespace folly
