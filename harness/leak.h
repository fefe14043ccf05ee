// Statistical independence of secrets from what parties see (C38, C40).
//
// Secrets are random; at every position the agreement between a secret's bits
// and the bits seen stays within 9.5 standard deviations of what independence
// predicts (any leak that reveals a third of 1000 bits exceeds it; chance does
// less than once in 10^20 comparisons).
#pragma once
#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <string>
#include <vector>
#include "pbt.h"
namespace leak {
using namespace pbt;
using B = std::vector<bool>;
using U = std::vector<uint64_t>;
using Bytes = std::vector<unsigned char>;
using Sent = std::map<std::pair<int, int>, Bytes>; // (receiver, channel) -> bytes
struct Bits { // packed; bits beyond n are 0
  std::vector<uint64_t> w;
  size_t n = 0;
  explicit Bits(size_t m = 0) : w((m + 63) / 64), n(m) {}
  Bits(const B& b) : Bits(b.size()) {
    for (size_t i = 0; i < n; i++) {
      w[i / 64] |= (uint64_t)b[i] << (i % 64);
    }
  }
  void set(size_t i) {
    w[i / 64] |= 1ull << (i % 64);
  }
  bool operator[](size_t i) const {
    return w[i / 64] >> (i % 64) & 1;
  }
  void window(size_t o, size_t m, uint64_t* r) const { // untrimmed
    size_t k = o / 64, sh = o % 64;
    for (size_t i = 0; i < (m + 63) / 64; i++) {
      r[i] = k + i < w.size() ? w[k + i] >> sh : 0;
      if (sh && k + i + 1 < w.size()) {
        r[i] |= w[k + i + 1] << (64 - sh);
      }
    }
  }
  void trim() {
    if (n % 64) {
      w.back() &= (1ull << (n % 64)) - 1;
    }
  }
  Bits operator^(const Bits& o) const {
    Bits r = *this;
    for (size_t i = 0; i < w.size(); i++) {
      r.w[i] ^= o.w[i];
    }
    return r;
  }
  size_t count() const {
    size_t c = 0;
    for (auto x : w) {
      c += __builtin_popcountll(x);
    }
    return c;
  }
};
inline const double kSigmas = 9.5;
template <typename F>
inline void judge(size_t n, size_t v1, size_t x1, size_t both, F&& what) {
  if (n < 100) {
    return;
  }
  double m = (double)v1 * x1, d = both * (double)n - m; // of n times the numbers
  if (d * d <= kSigmas * kSigmas * m / (n - 1) * (n - v1) * (n - x1)) {
    return;
  }
  double e = m / n;
  double var = m * (n - v1) * (n - x1) / ((double)n * n * (n - 1));
  if (std::abs(both - e) > kSigmas * std::sqrt(var) + 1) {
    fail(cat(what(), ": of ", n, " bits ", x1, " are set in the secret, ", v1, " in what is seen and ", both, " in both"));
  }
}
// v and x independent, at the positions p?
template <typename F>
inline void independent(const uint64_t* v, const Bits& x, const Bits* p, F&& what) {
  size_t n = 0, v1 = 0, x1 = 0, both = 0;
  if (p) {
    for (size_t i = 0; i < x.w.size(); i++) {
      uint64_t m = p->w[i];
      n += __builtin_popcountll(m);
      v1 += __builtin_popcountll(v[i] & m);
      x1 += __builtin_popcountll(x.w[i] & m);
      both += __builtin_popcountll(v[i] & x.w[i] & m);
    }
  } else {
    n = x.n;
    for (size_t i = 0; i < x.w.size(); i++) {
      v1 += __builtin_popcountll(v[i]);
      x1 += __builtin_popcountll(x.w[i]);
      both += __builtin_popcountll(v[i] & x.w[i]);
    }
  }
  judge(n, v1, x1, both, what);
}
template <typename F>
inline void independent(const Bits& v, const Bits& x, const Bits* p, F&& what) {
  independent(v.w.data(), x, p, what);
}
// the same for every bit against the one lag later
template <typename F>
inline void independentOfLater(const uint64_t* v, const Bits& x, size_t lag, F&& what) {
  size_t n = x.n - lag, words = x.w.size(), k = lag / 64, sh = lag % 64;
  auto at = [&](const uint64_t* w, size_t i) {
    uint64_t later = i + k < words ? w[i + k] >> sh : 0;
    if (sh && i + k + 1 < words) {
      later |= w[i + k + 1] << (64 - sh);
    }
    return w[i] ^ later;
  };
  size_t v1 = 0, x1 = 0, both = 0;
  for (size_t i = 0; i * 64 < n; i++) {
    uint64_t m = n - i * 64 >= 64 ? ~0ull : (1ull << (n - i * 64)) - 1;
    uint64_t a = at(v, i) & m, b = at(x.w.data(), i) & m;
    v1 += __builtin_popcountll(a);
    x1 += __builtin_popcountll(b);
    both += __builtin_popcountll(a & b);
  }
  judge(n, v1, x1, both, what);
}
// no bit of e may be the same as the one some distance later, or mirrored at
// some point (only bits at the given positions count)
template <typename F>
inline void noStructure(const Bits& e, const Bits* at, F&& what) {
  size_t n = e.n, words = e.w.size();
  auto mirrored = [&](const Bits& b) {
    Bits r(n);
    for (size_t i = 0; i < n; i++) {
      if (b[n - 1 - i]) {
        r.set(i);
      }
    }
    return r;
  };
  auto compare = [&](const Bits& a, const Bits& b, const Bits* pa, const Bits* pb, size_t lag, double twice, const char* how) {
    size_t len = n - lag, k = lag / 64, sh = lag % 64, d = 0, m = 0;
    auto late = [&](const Bits& b, size_t i) {
      uint64_t later = i + k < words ? b.w[i + k] >> sh : 0;
      if (sh && i + k + 1 < words) {
        later |= b.w[i + k + 1] << (64 - sh);
      }
      return later;
    };
    for (size_t i = 0; i * 64 < len; i++) {
      uint64_t in = len - i * 64 >= 64 ? ~0ull : (1ull << (len - i * 64)) - 1;
      if (pa) {
        in &= pa->w[i] & late(*pb, i);
      }
      m += __builtin_popcountll(in);
      d += __builtin_popcountll((a.w[i] ^ late(b, i)) & in);
    }
    if (std::abs(d - m / 2.0) > kSigmas * std::sqrt(m * twice) / 2 + 2) {
      fail(cat(what(), " agrees with itself ", how, " ", lag, " at ", m - d, " of ", m, " positions"));
    }
  };
  Bits r = mirrored(e), rat = at ? mirrored(*at) : Bits();
  for (size_t lag = 1; lag + 120 < n; lag++) {
    compare(e, e, at, at, lag, 1, "later by");
  }
  for (size_t lag = 0; lag + 240 < n; lag++) { // each pair counts twice
    compare(e, r, at, &rat, lag, 2, "mirrored, from its end");
    compare(r, e, at ? &rat : nullptr, at, lag, 2, "mirrored, from its start");
  }
}
// v ^ x would be the mask
template <typename F>
inline void maskHasNoStructure(const uint64_t* v, const Bits& x, F&& what) {
  Bits e(x.n);
  for (size_t i = 0; i < x.w.size(); i++) {
    e.w[i] = v[i] ^ x.w[i];
  }
  e.trim();
  noStructure(e, nullptr, [&] { return what() + ": the mask"; });
}
inline Bits bitsOf(const Bytes& b, bool lsbFirst) {
  static const auto reversed = [] {
    std::array<unsigned char, 256> r{};
    for (int i = 0; i < 256; i++) {
      for (int k = 0; k < 8; k++) {
        r[i] |= (i >> k & 1) << (7 - k);
      }
    }
    return r;
  }();
  Bits r(b.size() * 8);
  auto* to = (unsigned char*)r.w.data();
  for (size_t i = 0; i < b.size(); i++) {
    to[i] = lsbFirst ? b[i] : reversed[b[i]];
  }
  return r;
}
inline Bits every(const Bits& b, size_t stride, size_t first) {
  if (stride == 1) {
    return b;
  }
  Bits r(b.n > first ? (b.n - first + stride - 1) / stride : 0);
  for (size_t i = 0; i < r.n; i++) {
    if (b[first + i * stride]) {
      r.set(i);
    }
  }
  return r;
}
struct Secret {
  std::string name;
  Bits x;
  std::shared_ptr<Bits> at; // only at these positions
};
// What party q sees of one step: per channel, what each party sent (others to
// q, q to anybody), and vectors q holds.
struct Seen {
  std::map<int, std::map<int, Bytes>> channel;
  std::vector<std::pair<std::string, Bits>> held;
  size_t windows = 160; // looked at per channel and stride
  mutable std::map<std::pair<int, bool>, std::vector<Bits>> bits; // of channels
};
inline Seen seenBy(int q, const std::vector<Sent>& sent) {
  Seen r;
  for (int p = 0; p < (int)sent.size(); p++) {
    for (auto& [to, bytes] : sent[p]) {
      if (p == q || to.first == q) {
        r.channel[to.second].emplace(p, bytes);
      }
    }
  }
  return r;
}
// calls f(description, vector, near the start) for n-bit vectors q can see:
// windows of what was sent on a channel (bits, or every stride-th bit), of any
// of the senders together, alone or with a vector it holds
template <typename F>
void vectors(const Seen& s, size_t n, const std::vector<size_t>& strides, bool lsbFirst, F&& f) {
  size_t words = (n + 63) / 64;
  std::vector<std::vector<uint64_t>> win;
  std::vector<uint64_t> v(words), u(words);
  uint64_t tail = n % 64 ? (1ull << (n % 64)) - 1 : ~0ull;
  for (auto& [k, by] : s.channel) {
    std::vector<int> ps;
    auto& all = s.bits[{k, lsbFirst}];
    bool converted = !all.empty();
    for (auto& [p, bytes] : by) {
      ps.push_back(p);
      if (!converted) {
        all.push_back(bitsOf(bytes, lsbFirst));
      }
    }
    win.assign(ps.size(), std::vector<uint64_t>(words));
    for (size_t stride : strides) {
      for (size_t first = 0; first < stride; first++) {
        std::vector<Bits> some;
        size_t len = 0;
        if (stride > 1) {
          for (auto& b : all) {
            some.push_back(every(b, stride, first));
          }
        }
        auto& st = stride > 1 ? some : all;
        for (auto& b : st) {
          len = std::max(len, b.n);
        }
        if (len < n) {
          continue;
        }
        std::vector<size_t> at; // mostly at the beginnings of bytes
        for (size_t o = 0, step = 1; o + n <= len; o += step) {
          bool byte = (o * stride + first) % 8 == 0;
          if (o < 9 || byte) {
            at.push_back(o);
          }
          if (o >= 9 && byte && step == 1) {
            step = 8 / std::gcd(stride, (size_t)8);
          }
          if (at.size() == s.windows / 2) { // from here on only some
            step *= (len - n - o) / step / (s.windows / 2) + 1;
          }
        }
        if (at.back() + n != len) {
          at.push_back(len - n);
        }
        for (size_t j = 0; j < at.size(); j++) {
          size_t o = at[j];
          for (size_t i = 0; i < ps.size(); i++) {
            st[i].window(o, n, win[i].data());
          }
          for (size_t mask = 1; mask < 1u << ps.size(); mask++) {
            bool ok = true;
            std::fill(v.begin(), v.end(), 0);
            for (size_t i = 0; i < ps.size(); i++) {
              if (mask >> i & 1) {
                ok &= o + n <= st[i].n;
                for (size_t w = 0; w < words; w++) {
                  v[w] ^= win[i][w];
                }
              }
            }
            if (!ok) {
              continue;
            }
            v[words - 1] &= tail;
            for (size_t h = 0; h <= s.held.size(); h++) {
              auto what = [&, mask, h] {
                std::string r = cat("channel ", k, " bits ", first, "+", stride, "*", o, "...");
                for (size_t i = 0; i < ps.size(); i++) {
                  r += mask >> i & 1 ? cat(" from party ", ps[i]) : "";
                }
                return r + (h ? " with its " + s.held[h - 1].first : "");
              };
              if (h) {
                for (size_t w = 0; w < words; w++) {
                  u[w] = v[w] ^ s.held[h - 1].second.w[w];
                }
              }
              f(what, h ? u.data() : v.data(), j < 20, !h && o == 0);
            }
          }
        }
      }
    }
  }
  for (auto& h : s.held) {
    f([&] { return "its " + h.first; }, h.second.w.data(), true, false);
  }
}
inline void hidden(const Seen& s, const std::vector<Secret>& xs, const std::vector<size_t>& strides, const std::string& who, bool lsbFirst = false, bool later = true) {
  if (xs.empty()) {
    return;
  }
  size_t n = xs[0].x.n;
  vectors(s, n, strides, lsbFirst, [&](auto&& what, const uint64_t* v, bool near, bool first) {
    for (auto& x : xs) {
      if (!x.at && first && later) {
        maskHasNoStructure(v, x.x, [&] { return cat(who, " sees ", x.name, " in ", what()); });
      }
      independent(v, x.x, x.at.get(), [&] { return cat(who, " sees ", x.name, " in ", what()); });
      if (!x.at && near && later) { // masks that repeat within the step
        for (size_t lag : {1, 8, 64, 128, 256}) {
          if (lag + 100 < n) {
            independentOfLater(v, x.x, lag, [&] { return cat(who, " sees ", x.name, " against itself ", lag, " later in ", what()); });
          }
        }
      }
    }
  });
}
// masks that repeat from step to step: the differences
inline void hiddenAcross(const Seen& a, const Seen& b, const std::vector<Secret>& xs, const std::vector<Secret>& ys, const std::vector<size_t>& strides, const std::string& who, bool lsbFirst = false) {
  Seen d;
  d.windows = a.windows;
  for (auto& [k, by] : a.channel) {
    for (auto& [p, bytes] : by) {
      auto i = b.channel.find(k);
      if (i == b.channel.end() || !i->second.count(p)) {
        continue;
      }
      auto& o = i->second.at(p);
      auto& r = d.channel[k][p];
      for (size_t j = 0; j < std::min(bytes.size(), o.size()); j++) {
        r.push_back(bytes[j] ^ o[j]);
      }
    }
  }
  for (size_t h = 0; h < std::min(a.held.size(), b.held.size()); h++) {
    d.held.push_back({a.held[h].first, a.held[h].second ^ b.held[h].second});
  }
  std::vector<Secret> ds;
  for (size_t i = 0; i < std::min(xs.size(), ys.size()); i++) {
    auto &x = xs[i], &y = ys[i];
    std::shared_ptr<Bits> at = x.at ? x.at : y.at;
    if (x.at && y.at) {
      at = std::make_shared<Bits>(*x.at);
      for (size_t j = 0; j < at->w.size(); j++) {
        at->w[j] &= y.at->w[j];
      }
    }
    ds.push_back({"the difference of " + x.name + " and " + y.name + " of the next step", x.x ^ y.x, at});
  }
  hidden(d, ds, strides, who, lsbFirst, false);
}
inline Bits randomBits(Rng& r, size_t n) {
  Bits b(n);
  for (auto& x : b.w) {
    x = r.u64();
  }
  b.trim();
  return b;
}
inline B plain(const Bits& b) {
  B r(b.n);
  for (size_t i = 0; i < b.n; i++) {
    r[i] = b[i];
  }
  return r;
}
inline Bits conj(const Bits& a, const Bits& b) {
  Bits r = a;
  for (size_t i = 0; i < r.w.size(); i++) {
    r.w[i] &= b.w[i];
  }
  return r;
}
inline Bits inverse(Bits a) {
  for (auto& x : a.w) {
    x = ~x;
  }
  a.trim();
  return a;
}
} // namespace leak
