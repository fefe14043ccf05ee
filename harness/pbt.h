// A small tape-based property-testing runner.
//
// A property is a function of a Src: every choice it makes is drawn from Src,
// and every draw is recorded on a tape of integers.  A failing tape is what is
// shrunk and what a replay file holds, so histories, programs and schedules
// shrink as one value, also when the failure is a crash or a hang.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

struct Rng { // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t u64() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) {
    return n ? u64() % n : u64();
  }
  bool bit() {
    return u64() >> 63;
  }
  template <typename T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; i--) {
      std::swap(v[i - 1], v[below(i)]);
    }
  }
};

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};
// Thrown in a party whose peer has already failed; never the root cause.
struct Aborted : std::runtime_error {
  Aborted() : std::runtime_error("peer aborted") {}
};

class Src {
 public:
  // a case is generated from a seed ...
  explicit Src(uint64_t seed) : rng_(seed), replay_(false) {}
  // ... or replayed from a tape (draws past its end are 0, the simplest value)
  explicit Src(std::vector<uint64_t> tape)
      : rng_(0), replay_(true), in_(std::move(tape)) {}

  uint64_t below(uint64_t n) {
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      pos_++;
    } else {
      v = rng_.u64();
    }
    if (n) {
      v %= n;
    }
    log(v);
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)below((uint64_t)(hi - lo) + 1);
  }
  bool coin() {
    return below(2);
  }
  // true with probability num/den; shrinks towards false
  bool chance(uint64_t num, uint64_t den) {
    return below(den) >= den - num;
  }
  uint64_t u64() {
    return below(0);
  }
  Rng rng() {
    return Rng(below(0));
  }
  // mostly small, sometimes up to max; shrinks towards lo
  size_t size(size_t lo, size_t max) {
    if (max <= lo) {
      return lo;
    }
    size_t span = max - lo;
    uint64_t k = below(8);
    if (k < 3) {
      return lo + below(std::min<size_t>(span, 4) + 1);
    }
    if (k < 6) {
      return lo + below(std::min<size_t>(span, 24) + 1);
    }
    return lo + below(span + 1);
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <typename T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + below(l.size()));
  }
  // signed/unsigned value with boundary values over-represented
  int64_t edgy(int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    switch (below(6)) {
      case 0:
        return (int64_t)((uint64_t)lo + std::min<uint64_t>(span, below(3)));
      case 1:
        return (int64_t)((uint64_t)hi - std::min<uint64_t>(span, below(3)));
      case 2: {
        int64_t v = (int64_t)below(5) - 2;
        return v < lo ? lo : v > hi ? hi : v;
      }
      case 3: { // around a power of two
        uint64_t p = 1ull << below(64);
        int64_t v = (int64_t)(p + below(3) - 1);
        if (below(2)) {
          v = (int64_t)(0 - (uint64_t)v);
        }
        return v < lo ? lo : v > hi ? hi : v;
      }
      default:
        return span == UINT64_MAX ? (int64_t)below(0)
                                  : (int64_t)((uint64_t)lo + below(span + 1));
    }
  }
  uint64_t edgyU(uint64_t hi) {
    switch (below(5)) {
      case 0:
        return std::min<uint64_t>(hi, below(4));
      case 1:
        return hi - std::min<uint64_t>(hi, below(3));
      case 2:
        return std::min<uint64_t>(hi, (1ull << below(64)) + below(3) - 1);
      default:
        return hi == UINT64_MAX ? below(0) : below(hi + 1);
    }
  }
  // a size from 1 to hi, often next to a power of two
  size_t sizeUpTo(size_t hi) {
    if (!coin()) {
      return 1 + below(hi);
    }
    int k = 0;
    while ((2ull << k) <= hi + 1) {
      k++;
    }
    return std::min<size_t>(hi, std::max<int64_t>(1, (1ll << below(k + 1)) + (int64_t)below(3) - 1));
  }
  std::vector<bool> bits(size_t n) {
    std::vector<bool> v(n);
    if (n == 0) {
      return v;
    }
    switch (below(8)) {
      case 0:
        break;
      case 1:
        v.assign(n, true);
        break;
      default: {
        if (n <= 16) {
          uint64_t w = below(1ull << n);
          for (size_t i = 0; i < n; i++) {
            v[i] = (w >> i) & 1;
          }
        } else {
          Rng r = rng();
          for (size_t i = 0; i < n; i++) {
            v[i] = r.bit();
          }
        }
      }
    }
    return v;
  }
  std::vector<unsigned char> bytes(size_t n) {
    std::vector<unsigned char> v(n);
    if (n <= 8) {
      for (auto& x : v) {
        x = below(256);
      }
    } else {
      Rng r = rng();
      bool sparse = r.below(8) == 0;
      for (auto& x : v) {
        x = sparse ? (r.below(4) ? 0 : 255) : r.u64();
      }
    }
    return v;
  }
  std::vector<uint64_t> words(size_t n) {
    std::vector<uint64_t> v(n);
    if (n <= 6) {
      for (auto& x : v) {
        x = edgyU(UINT64_MAX);
      }
    } else {
      Rng r = rng();
      for (auto& x : v) {
        x = r.below(5) == 0 ? r.below(3) - 1 : r.u64();
      }
    }
    return v;
  }
  std::vector<size_t> permutation(size_t n) {
    std::vector<size_t> v(n);
    for (size_t i = 0; i < n; i++) {
      v[i] = i;
    }
    if (n <= 8) {
      for (size_t i = n; i > 1; i--) {
        std::swap(v[i - 1], v[i - 1 - below(i)]);
      }
    } else {
      Rng r = rng();
      r.shuffle(v);
    }
    return v;
  }
  const std::vector<uint64_t>& tape() const {
    return out_;
  }
  uint64_t hash() const {
    return h_;
  }
  // live log shared with the driver, so that a crash keeps its tape
  static inline uint64_t* live = nullptr;
  static inline size_t liveCap = 0;

 private:
  void log(uint64_t v) {
    out_.push_back(v);
    h_ = mix64(h_ ^ v);
    if (live && out_.size() < liveCap) {
      live[1 + out_.size()] = v;
      std::atomic_signal_fence(std::memory_order_seq_cst);
      live[1] = out_.size();
    }
  }
  Rng rng_;
  bool replay_;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  std::vector<uint64_t> out_;
  uint64_t h_ = 7;
};

struct Ctx {
  std::string desc; // the case, written out
  bool nontrivial = false;
  std::set<std::string> labels;
  uint64_t caseSeed = 0;
  void label(const std::string& l) {
    labels.insert(l);
  }
  void labelIf(bool c, const std::string& l) {
    if (c) {
      labels.insert(l);
    }
  }
};

using CaseFn = std::function<void(Src&, Ctx&)>;
struct Family {
  std::string name;
  size_t quick; // cases in the quick tier
  size_t thorough; // cases in the thorough tier
  CaseFn fn;
};
std::vector<Family>& families();
struct Reg {
  Reg(const char* n, size_t q, size_t t, CaseFn f) {
    families().push_back({n, q, t, std::move(f)});
  }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROPERTY(name, quick cases, thorough cases) { body using s and c }
#define PROPERTY(NAME, Q, T)                                         \
  static void prop_##NAME(pbt::Src& s, pbt::Ctx& c);                 \
  static pbt::Reg PBT_CAT(reg_, NAME)(#NAME, Q, T, prop_##NAME);     \
  static void prop_##NAME(                                           \
      [[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Ctx& c)

template <typename T>
std::string show(const T& v);
namespace detail {
template <typename T>
concept Rangeish = requires(const T& t) {
  t.begin();
  t.end();
} && !std::is_convertible_v<T, std::string>;
} // namespace detail
template <typename T>
void showTo(std::ostream& o, const T& v) {
  if constexpr (std::is_same_v<T, unsigned char> || std::is_same_v<T, char> ||
                std::is_same_v<T, signed char>) {
    o << (int)v;
  } else if constexpr (std::is_same_v<T, std::vector<bool>>) {
    o << '<';
    for (size_t i = 0; i < v.size() && i < 160; i++) {
      o << (v[i] ? '1' : '0');
    }
    o << (v.size() > 160 ? "...>" : ">");
  } else if constexpr (requires { v.first; v.second; }) {
    o << '(';
    showTo(o, v.first);
    o << ',';
    showTo(o, v.second);
    o << ')';
  } else if constexpr (detail::Rangeish<T>) {
    o << '[';
    size_t i = 0;
    for (const auto& x : v) {
      if (i) {
        o << ' ';
      }
      if (i++ >= 48) {
        o << "...";
        break;
      }
      showTo(o, x);
    }
    o << ']';
  } else if constexpr (requires { o << v; }) {
    o << v;
  } else {
    o << '?';
  }
}
template <typename T>
std::string show(const T& v) {
  std::ostringstream o;
  showTo(o, v);
  return o.str();
}
template <typename... A>
std::string cat(const A&... a) {
  std::ostringstream o;
  ((showTo(o, a)), ...);
  return o.str();
}
[[noreturn]] inline void fail(const std::string& m) {
  throw Failure(m);
}
template <typename... A>
void require(bool ok, const A&... a) {
  if (!ok) {
    fail(cat(a...));
  }
}
template <typename A, typename B, typename... M>
void requireEq(const A& got, const B& want, const M&... m) {
  if (!(got == want)) {
    fail(cat(m..., ": got ", got, " want ", want));
  }
}
// f must throw an E (and nothing else); the contract is "rejected cleanly"
template <typename E, typename F, typename... M>
void requireThrows(F&& f, const M&... m) {
  try {
    f();
  } catch (const Aborted&) {
    throw;
  } catch (const Failure&) {
    throw;
  } catch (const E&) {
    return;
  } catch (const std::exception& e) {
    fail(cat(m..., ": wrong exception type: ", std::string(e.what())));
  }
  fail(cat(m..., ": was accepted, must be rejected"));
}

// deterministic randomness handed to the code under test (see rand.cpp)
void seedThreadRandom(uint64_t seed);
void seedGlobalRandom(uint64_t seed);

} // namespace pbt
