// A functional stand-in for the EMP garbled-circuit library: the same
// interface, but values are exchanged in the clear.  What fbpcf builds on top
// (games, apps, vectors, queue channels) runs unchanged on it.
#pragma once
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
using std::cout;
using std::endl;
using std::string;
namespace emp {
constexpr int XOR = -1, PUBLIC = 0, ALICE = 1, BOB = 2;

template <typename T>
class IOChannel {
 public:
  uint64_t counter = 0;
  void send_data(const void* p, size_t n) {
    counter += n;
    static_cast<T*>(this)->send_data_internal(p, n);
  }
  void recv_data(void* p, size_t n) {
    static_cast<T*>(this)->recv_data_internal(p, n);
  }
};

// the network of this process: one link per port
struct Hub {
  struct Link {
    std::mutex m;
    std::condition_variable cv;
    std::deque<char> q[2];
    bool closed[2] = {false, false};
  };
  std::mutex m;
  std::condition_variable cv;
  std::map<int, std::shared_ptr<Link>> waiting;
  std::vector<std::pair<std::string, int>> dialled;
  static Hub& get() {
    static Hub h;
    return h;
  }
};
class NetIO : public IOChannel<NetIO> {
 public:
  NetIO(const char* address, int port, bool = false) : server_(address == nullptr) {
    auto& h = Hub::get();
    std::unique_lock<std::mutex> l(h.m);
    if (server_) {
      if (h.waiting.count(port)) {
        throw std::runtime_error("address already in use");
      }
      link_ = std::make_shared<Hub::Link>();
      h.waiting[port] = link_;
      h.cv.notify_all();
      h.cv.wait(l, [&] { return h.waiting.count(port) == 0 || h.waiting[port] != link_; });
    } else {
      h.dialled.push_back({address, port});
      h.cv.wait(l, [&] { return h.waiting.count(port) != 0; });
      link_ = h.waiting[port];
      h.waiting.erase(port);
      h.cv.notify_all();
    }
  }
  NetIO(const NetIO&) = delete;
  ~NetIO() {
    std::lock_guard<std::mutex> l(link_->m);
    link_->closed[server_] = true;
    link_->cv.notify_all();
  }
  void flush() {}
  void send_data_internal(const void* p, int64_t n) {
    std::lock_guard<std::mutex> l(link_->m);
    auto b = (const char*)p;
    link_->q[server_].insert(link_->q[server_].end(), b, b + n);
    link_->cv.notify_all();
  }
  void recv_data_internal(void* p, int64_t n) {
    std::unique_lock<std::mutex> l(link_->m);
    auto& q = link_->q[!server_];
    link_->cv.wait(l, [&] { return (int64_t)q.size() >= n || link_->closed[!server_]; });
    if ((int64_t)q.size() < n) {
      throw std::runtime_error("connection closed");
    }
    for (int64_t i = 0; i < n; i++) {
      ((char*)p)[i] = q.front();
      q.pop_front();
    }
  }

 private:
  bool server_;
  std::shared_ptr<Hub::Link> link_;
};

struct Exec { // the execution a party's thread takes part in
  std::function<void(const void*, size_t)> send;
  std::function<void(void*, size_t)> recv;
  int party = 0;
  static Exec& get() {
    static thread_local Exec e;
    return e;
  }
};
template <typename IO>
void setup_semi_honest(IO* io, int party) {
  auto& e = Exec::get();
  e.send = [io](const void* p, size_t n) { io->send_data(p, n); };
  e.recv = [io](void* p, size_t n) { io->recv_data(p, n); };
  e.party = party;
}
inline uint64_t share(uint64_t v, int bits, int party) {
  if (party != PUBLIC) {
    auto& e = Exec::get();
    size_t n = (bits + 7) / 8;
    if (e.party == party) {
      e.send(&v, n);
    } else {
      v = 0;
      e.recv(&v, n);
    }
  }
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
inline bool mayRead(int party) {
  return party == PUBLIC || party == Exec::get().party;
}

class Bit {
 public:
  Bit(bool v = false, int party = PUBLIC) : v_(share(v, 1, party)) {}
  template <typename O = std::string>
  O reveal(int party = PUBLIC) const {
    bool v = mayRead(party) && v_;
    if constexpr (std::is_same_v<O, std::string>) {
      return v ? "true" : "false";
    } else {
      return (O)v;
    }
  }
  Bit operator&(const Bit& o) const {
    return Bit(v_ & o.v_);
  }
  Bit operator|(const Bit& o) const {
    return Bit(v_ | o.v_);
  }
  Bit operator^(const Bit& o) const {
    return Bit(v_ ^ o.v_);
  }
  Bit operator!() const {
    return Bit(!v_);
  }
  Bit operator==(const Bit& o) const {
    return Bit(v_ == o.v_);
  }

 private:
  bool v_;
};

class Integer {
 public:
  Integer() = default;
  Integer(int bits, int64_t v, int party = PUBLIC) : bits_(bits), v_(share((uint64_t)v, bits, party)) {}
  int size() const {
    return bits_;
  }
  template <typename O = std::string>
  O reveal(int party = PUBLIC) const {
    int64_t v = mayRead(party) ? s() : 0;
    if constexpr (std::is_same_v<O, std::string>) {
      return std::to_string(v);
    } else {
      return (O)v;
    }
  }
  Integer operator+(const Integer& o) const {
    return {bits_, (int64_t)(v_ + o.v_)};
  }
  Integer operator-(const Integer& o) const {
    return {bits_, (int64_t)(v_ - o.v_)};
  }
  Integer operator*(const Integer& o) const {
    return {bits_, (int64_t)(v_ * o.v_)};
  }
  Integer operator^(const Integer& o) const {
    return {bits_, (int64_t)(v_ ^ o.v_)};
  }
  Integer operator&(const Integer& o) const {
    return {bits_, (int64_t)(v_ & o.v_)};
  }
  Bit operator>(const Integer& o) const {
    return Bit(s() > o.s());
  }
  Bit operator>=(const Integer& o) const {
    return Bit(s() >= o.s());
  }
  Bit operator<(const Integer& o) const {
    return Bit(s() < o.s());
  }
  Bit operator<=(const Integer& o) const {
    return Bit(s() <= o.s());
  }
  Bit operator==(const Integer& o) const {
    return Bit(s() == o.s());
  }
  Bit operator!=(const Integer& o) const {
    return Bit(s() != o.s());
  }
  Bit operator[](int i) const {
    return Bit((v_ >> i) & 1);
  }
  Integer select(const Bit& b, const Integer& o) const {
    return b.reveal<bool>() ? o : *this;
  }

 private:
  int64_t s() const {
    return bits_ >= 64 ? (int64_t)v_ : (int64_t)(v_ << (64 - bits_)) >> (64 - bits_);
  }
  int bits_ = 0;
  uint64_t v_ = 0;
};
} // namespace emp
