// C11: a background buffer delivers its generator's stream unchanged.
#include <future>
#include "fbpcf/engine/util/AsyncBuffer.h"
#include "pbt.h"
#include <thread>
using namespace pbt;

namespace {
struct GenError : std::runtime_error {
  int chunk;
  explicit GenError(int k) : std::runtime_error("generator failed"), chunk(k) {}
};
enum class Launch { Async, Deferred, Ready, Thread };
struct Plan {
  uint64_t buffer;
  Launch launch;
  uint64_t delaySeed = 0; // 0: no delays
  int failAt = -1; // chunk whose generation fails
  bool failSync = false; // ... in the call itself rather than in the future
};
// Produces item(0), item(1), ... chunk by chunk; tracks what is still running.
template <typename T>
struct Generator {
  Plan p;
  T (*item)(uint64_t);
  std::atomic<int> calls{0}, running{0};
  std::atomic<bool> wrongSize{false}, overlap{false};
  std::vector<std::thread> threads;
  ~Generator() {
    for (auto& t : threads) {
      t.join();
    }
  }
  std::vector<T> make(int k, uint64_t size) {
    if (running++ != 0) {
      overlap = true;
    }
    if (p.delaySeed) {
      auto d = mix64(p.delaySeed + k) % 8;
      if (d == 7) {
        std::this_thread::sleep_for(std::chrono::microseconds(300));
      } else {
        for (uint64_t i = 0; i < d; i++) {
          std::this_thread::yield();
        }
      }
    }
    if (k == p.failAt && !p.failSync) {
      running--;
      throw GenError(k);
    }
    std::vector<T> v;
    v.reserve(size);
    for (uint64_t i = 0; i < size; i++) {
      v.push_back(item(k * p.buffer + i));
    }
    running--;
    return v;
  }
  std::future<std::vector<T>> start(uint64_t size) {
    int k = calls++;
    if (size != p.buffer) {
      wrongSize = true;
    }
    if (k == p.failAt && p.failSync) {
      throw GenError(k);
    }
    switch (p.launch) {
      case Launch::Async:
        return std::async(std::launch::async, [this, k, size] { return make(k, size); });
      case Launch::Deferred:
        return std::async(std::launch::deferred, [this, k, size] { return make(k, size); });
      default: {
        auto pr = std::make_shared<std::promise<std::vector<T>>>();
        auto f = pr->get_future();
        auto work = [this, k, size, pr] {
          try {
            pr->set_value(make(k, size));
          } catch (...) {
            pr->set_exception(std::current_exception());
          }
        };
        if (p.launch == Launch::Ready) {
          work();
        } else {
          threads.emplace_back(work);
        }
        return f;
      }
    }
  }
};
unsigned char itemByte(uint64_t i) {
  return mix64(i) & 255;
}
uint64_t itemWord(uint64_t i) {
  return mix64(i);
}
std::string itemText(uint64_t i) {
  return std::string(i % 40, 'a' + i % 26) + std::to_string(i);
}
template <typename T>
void run(Src& s, Ctx& c, const Plan& p, T (*item)(uint64_t), const std::vector<uint64_t>& q) {
  Generator<T> g{p, item};
  uint64_t pos = 0;
  int crossings = 0;
  bool failed = false, constructed = false;
  try {
    fbpcf::engine::util::AsyncBuffer<T> b(
        p.buffer, [&](uint64_t n) { return g.start(n); });
    constructed = true;
    for (size_t r = 0; r < q.size() && !failed; r++) {
      crossings += q[r] && pos / p.buffer != (pos + q[r]) / p.buffer;
      std::vector<T> v;
      try {
        v = b.getData(q[r]);
      } catch (const GenError& e) {
        failed = true;
        requireEq(e.chunk, p.failAt, "the chunk that failed");
        // what it could not deliver needed that chunk (or the one after it
        // being requested while this one is taken)
        require(
            (pos + q[r] + p.buffer - 1) / p.buffer + (p.failSync ? 1 : 0) > (uint64_t)p.failAt,
            "reading ", q[r], " from ", pos, " failed although chunk ", p.failAt,
            " was not needed yet");
        // reading on never makes data up
        bool threw = false;
        try {
          auto w = b.getData(1 + s.below(2 * p.buffer));
          threw = w.empty();
        } catch (const std::exception&) {
          threw = true;
        }
        require(threw || p.failSync, "data was delivered past a failed chunk");
        break;
      }
      requireEq(v.size(), q[r], "items delivered by read ", r);
      for (uint64_t i = 0; i < q[r]; i++) {
        require(
            v[i] == item(pos + i), "read ", r, " of ", q[r], " items: item ", i,
            " is not number ", pos + i, " of the stream");
      }
      pos += q[r];
      if (p.failAt >= 0) {
        require(
            pos <= (uint64_t)p.failAt * p.buffer, "delivered past the failed chunk ",
            p.failAt);
      }
    }
  } catch (const GenError& e) {
    require(
        !constructed && p.failSync && p.failAt == 0,
        "an exception left the buffer outside of a read");
    failed = true;
  }
  requireEq(g.running.load(), 0, "generators still running after the buffer is gone");
  require(!g.wrongSize, "the generator was asked for another size than the buffer's");
  require(!g.overlap, "two chunks were generated at the same time");
  c.nontrivial = crossings >= 2 || (failed && pos > 0);
  c.labelIf(failed, "generator failure reached the reader");
  c.labelIf(p.failAt >= 0 && !failed, "destroyed with a failed chunk unread");
}
void pick(Src& s, Ctx& c, bool faults) {
  Plan p;
  p.buffer = s.chance(1, 20) ? s.pick<uint64_t>({1000, 5000}) : s.pick<uint64_t>({1, 2, 3, 7, 16, 100});
  p.launch = s.pick({Launch::Async, Launch::Thread, Launch::Deferred, Launch::Ready});
  p.delaySeed = s.chance(2, 3) ? s.below(1000) + 1 : 0;
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
  // the reference count of an exception lives in the uninstrumented libstdc++,
  // which the race detector cannot see
  faults = false;
#endif
#endif
  if (faults) {
    p.failAt = s.below(6);
    p.failSync = s.chance(1, 4);
  }
  std::vector<uint64_t> q;
  int m = s.size(0, 20);
  for (int i = 0; i < m; i++) {
    switch (s.below(4)) {
      case 0:
        q.push_back(s.below(3));
        break;
      case 1:
        q.push_back(p.buffer * s.range(0, s.chance(1, 5) ? 40 : 3));
        break;
      default:
        q.push_back(s.below((s.chance(1, 6) ? 50 : 3) * p.buffer + 2));
    }
  }
  static const char* ln[] = {"async", "deferred", "ready", "thread"};
  int type = s.below(3);
  c.desc = cat("type ", type, " buffer ", p.buffer, " ", ln[(int)p.launch], " delays ",
               p.delaySeed, " fail ", p.failAt, p.failSync ? "(sync)" : "", " reads ", show(q));
  c.labelIf(q.empty(), "destroyed at once");
  switch (type) {
    case 0:
      return run<unsigned char>(s, c, p, itemByte, q);
    case 1:
      return run<uint64_t>(s, c, p, itemWord, q);
    default:
      return run<std::string>(s, c, p, itemText, q);
  }
}
} // namespace
PROPERTY(stream, 3000, 100000) {
  pick(s, c, false);
}
PROPERTY(failures, 1500, 50000) {
  pick(s, c, true);
}
