// An in-memory network between party threads that (a) can be aborted, so that a
// failing party never leaves its peers blocked, (b) can fragment and delay
// messages, (c) records the transcript, (d) reports a party set that makes no
// progress as a failure.
#pragma once
#include <condition_variable>
#include <chrono>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include "fbpcf/engine/communication/IPartyCommunicationAgent.h"
#include "fbpcf/engine/communication/IPartyCommunicationAgentFactory.h"
#include "pbt.h"

namespace pbt {

namespace comm = fbpcf::engine::communication;

class Net : public std::enable_shared_from_this<Net> {
 public:
  struct Pipe { // one direction
    std::deque<unsigned char> q;
    std::vector<unsigned char> log;
    uint64_t sent = 0, received = 0;
    bool senderGone = false;
  };
  explicit Net(uint64_t jitterSeed = 0, bool record = false)
      : jitter_(jitterSeed), record_(record) {}

  void abort() {
    std::lock_guard<std::mutex> l(m_);
    aborted_ = true;
    cv_.notify_all();
  }
  bool aborted() {
    std::lock_guard<std::mutex> l(m_);
    return aborted_;
  }
  Pipe& pipe(int from, int to, int k) {
    auto& p = pipes_[std::array<int, 3>{from, to, k}];
    if (!p) {
      p = std::make_unique<Pipe>();
    }
    return *p;
  }
  void send(int from, int to, int k, const void* d, int n) {
    std::unique_lock<std::mutex> l(m_);
    if (aborted_) {
      throw Aborted();
    }
    auto& p = pipe(from, to, k);
    auto* b = (const unsigned char*)d;
    if (n > 0) {
      p.q.insert(p.q.end(), b, b + n);
      if (record_) {
        p.log.insert(p.log.end(), b, b + n);
      }
      p.sent += n;
    }
    progress_++;
    cv_.notify_all();
    bool y = jitter_ && ((jit_ = mix64(jit_ ^ jitter_)) & 7) == 0;
    l.unlock();
    if (y) {
      std::this_thread::yield();
    }
  }
  void recv(int me, int from, int k, void* d, int n) {
    std::unique_lock<std::mutex> l(m_);
    auto& p = pipe(from, me, k);
    auto* out = (unsigned char*)d;
    int got = 0;
    uint64_t seen = progress_;
    int quiet = 0;
    while (got < n) {
      if (aborted_) {
        throw Aborted();
      }
      if (p.q.empty()) {
        if (p.senderGone) {
          throw Failure(cat(
              "party ", me, " waits for ", n - got, " bytes from party ", from,
              " which has finished"));
        }
        cv_.wait_for(l, std::chrono::milliseconds(500));
        if (seen == progress_) {
          if (++quiet > 40) {
            throw Failure(cat(
                "no progress: party ", me, " waits for ", n - got,
                " bytes from party ", from));
          }
        } else {
          quiet = 0;
          seen = progress_;
        }
        continue;
      }
      int take = std::min<size_t>(n - got, p.q.size());
      std::copy(p.q.begin(), p.q.begin() + take, out + got);
      p.q.erase(p.q.begin(), p.q.begin() + take);
      got += take;
      progress_++;
    }
    p.received += n;
  }
  // party `me` runs no more code: nobody may wait for it any longer
  void finished(int me) {
    std::lock_guard<std::mutex> l(m_);
    done_.insert(me);
    for (auto& [key, p] : pipes_) {
      if (key[0] == me) {
        p->senderGone = true;
      }
    }
    cv_.notify_all();
  }
  // bytes that were sent and never received, over all pipes
  uint64_t leftover() {
    std::lock_guard<std::mutex> l(m_);
    uint64_t r = 0;
    for (auto& [key, p] : pipes_) {
      r += p->q.size();
    }
    return r;
  }
  uint64_t totalSent(int from) {
    std::lock_guard<std::mutex> l(m_);
    uint64_t r = 0;
    for (auto& [key, p] : pipes_) {
      if (key[0] == from) {
        r += p->sent;
      }
    }
    return r;
  }
  uint64_t totalReceived(int to) {
    std::lock_guard<std::mutex> l(m_);
    uint64_t r = 0;
    for (auto& [key, p] : pipes_) {
      if (key[1] == to) {
        r += p->received;
      }
    }
    return r;
  }
  std::vector<unsigned char> transcript(int from, int to) {
    std::lock_guard<std::mutex> l(m_);
    std::vector<unsigned char> r;
    for (auto& [key, p] : pipes_) {
      if (key[0] == from && key[1] == to) {
        r.insert(r.end(), p->log.begin(), p->log.end());
      }
    }
    return r;
  }
  // what `from` has sent so far, per receiver and channel (a position in the log)
  using Mark = std::map<std::pair<int, int>, size_t>;
  Mark mark(int from) {
    std::lock_guard<std::mutex> l(m_);
    Mark r;
    for (auto& [key, p] : pipes_) {
      if (key[0] == from) {
        r[{key[1], key[2]}] = p->log.size();
      }
    }
    return r;
  }
  // what was sent between two marks
  std::map<std::pair<int, int>, std::vector<unsigned char>> between(
      int from,
      const Mark& a,
      const Mark& b) {
    std::lock_guard<std::mutex> l(m_);
    std::map<std::pair<int, int>, std::vector<unsigned char>> r;
    for (auto& [at, end] : b) {
      size_t begin = a.count(at) ? a.at(at) : 0;
      auto& log = pipes_.at({from, at.first, at.second})->log;
      if (end > begin) {
        r[at].assign(log.begin() + begin, log.begin() + end);
      }
    }
    return r;
  }
  std::unique_ptr<comm::IPartyCommunicationAgent> agent(int me, int peer);
  std::unique_ptr<comm::IPartyCommunicationAgentFactory> factory(int me, int n);
  int nextIndex(int me, int peer) {
    std::lock_guard<std::mutex> l(m_);
    int k = idx_[{me, peer}]++;
    pipe(me, peer, k);
    pipe(peer, me, k);
    if (done_.count(peer)) {
      pipe(peer, me, k).senderGone = true;
    }
    return k;
  }

  struct Counts {
    std::atomic<uint64_t> sent{0}, recv{0};
  };
  std::shared_ptr<Counts> counts(int me) {
    std::lock_guard<std::mutex> l(m_);
    counts_[me].push_back(std::make_shared<Counts>());
    return counts_[me].back();
  }
  // what the agents of a party, also destroyed ones, have counted by now
  std::pair<uint64_t, uint64_t> counted(int me) {
    std::lock_guard<std::mutex> l(m_);
    std::pair<uint64_t, uint64_t> r{0, 0};
    for (auto& x : counts_[me]) {
      r.first += x->sent;
      r.second += x->recv;
    }
    return r;
  }

 private:
  std::map<int, std::vector<std::shared_ptr<Counts>>> counts_;
  std::mutex m_;
  std::condition_variable cv_;
  std::map<std::array<int, 3>, std::unique_ptr<Pipe>> pipes_;
  std::map<std::pair<int, int>, int> idx_;
  std::set<int> done_;
  bool aborted_ = false;
  uint64_t progress_ = 0, jitter_ = 0, jit_ = 0;
  bool record_;
};

class NetAgent : public comm::IPartyCommunicationAgent {
 public:
  NetAgent(std::shared_ptr<Net> n, int me, int peer, int k)
      : n_(std::move(n)), me_(me), peer_(peer), k_(k), c_(n_->counts(me)) {}
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
    return {c_->sent, c_->recv};
  }

 private:
  void recvImpl(void* d, int n) override {
    n_->recv(me_, peer_, k_, d, n);
    c_->recv += n;
  }
  void sendImpl(const void* d, int n) override {
    n_->send(me_, peer_, k_, d, n);
    c_->sent += n;
  }
  std::shared_ptr<Net> n_;
  int me_, peer_, k_;
  std::shared_ptr<Net::Counts> c_;
};
inline std::unique_ptr<comm::IPartyCommunicationAgent> Net::agent(
    int me,
    int peer) {
  int k = nextIndex(me, peer);
  return std::make_unique<NetAgent>(shared_from_this(), me, peer, k);
}
class NetFactory : public comm::IPartyCommunicationAgentFactory {
 public:
  NetFactory(std::shared_ptr<Net> n, int me, int parties)
      : IPartyCommunicationAgentFactory("net"),
        n_(std::move(n)),
        me_(me),
        parties_(parties) {}
  std::unique_ptr<comm::IPartyCommunicationAgent> create(int id, std::string)
      override {
    if (id == me_ || id < 0 || id >= parties_) {
      throw std::runtime_error("no such party");
    }
    return n_->agent(me_, id);
  }

 private:
  std::shared_ptr<Net> n_;
  int me_, parties_;
};
inline std::unique_ptr<comm::IPartyCommunicationAgentFactory> Net::factory(
    int me,
    int n) {
  return std::make_unique<NetFactory>(shared_from_this(), me, n);
}

// Runs party(0) .. party(n-1) in threads of their own; rethrows the root cause.
inline void runParties(
    Net& net,
    int n,
    uint64_t seed,
    const std::function<void(int)>& party) {
  std::vector<std::exception_ptr> err(n);
  std::vector<std::thread> t;
  std::atomic<int> first{-1};
  for (int i = 0; i < n; i++) {
    t.emplace_back([&, i] {
      seedThreadRandom(mix64(seed ^ (i + 1) * 0x9e37ull));
      try {
        party(i);
        net.finished(i);
      } catch (...) {
        err[i] = std::current_exception();
        int e = -1;
        first.compare_exchange_strong(e, i);
        net.abort();
      }
    });
  }
  for (auto& x : t) {
    x.join();
  }
  if (first >= 0) {
    int f = first;
    try {
      std::rethrow_exception(err[f]);
    } catch (const Failure&) {
      throw;
    } catch (const std::exception& e) {
      throw Failure(cat("party ", f, " threw: ", std::string(e.what())));
    }
  }
}
template <typename R>
std::vector<R> runPartiesR(
    Net& net,
    int n,
    uint64_t seed,
    const std::function<R(int)>& party) {
  std::vector<R> r(n);
  runParties(net, n, seed, [&](int i) { r[i] = party(i); });
  return r;
}
} // namespace pbt
