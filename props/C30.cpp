// C30: random permutations; the jointly sampled public seed.
#include <openssl/sha.h>
#include <cmath>
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/util/secureRandomPermutation.h"
#include "fbpcf/mpc_std_lib/util/secureSamplePublicSeed.h"
#include "m128.h"
#include "net.h"
using namespace pbt;
namespace {
namespace mu = fbpcf::mpc_std_lib::util;
namespace eu = fbpcf::engine::util;
template <typename V>
std::string list(const V& v) {
  std::string o = "[";
  for (auto&& x : v) {
    o += (o.size() > 1 ? " " : "") + std::to_string(x);
  }
  return o + "]";
}
// cheap generator: the quality of AesPrg is not the question here
struct FastPrg final : eu::IPrg {
  Rng r;
  int mode;
  explicit FastPrg(uint64_t k, int m = 0) : r(k), mode(m) {}
  std::vector<unsigned char> getRandomBytes(uint32_t n) override {
    std::vector<unsigned char> b(n);
    uint64_t v = 0;
    for (uint32_t i = 0; i < n; i++) {
      if (i % 8 == 0) {
        v = r.u64();
      }
      b[i] = mode == 1 ? 0xff : mode == 2 ? 0 : mode == 3 ? (v >> 7 & 1 ? 0xff : 0) : v >> (8 * (i % 8));
    }
    return b;
  }
  std::vector<bool> getRandomBits(uint32_t n) override {
    auto b = getRandomBytes(n);
    std::vector<bool> o;
    for (auto x : b) {
      o.push_back(x & 1);
    }
    return o;
  }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override {
    std::vector<uint64_t> o(n);
    for (auto& x : o) {
      x = r.u64();
    }
    return o;
  }
};
void isPermutation(const std::vector<uint32_t>& p, size_t n) {
  requireEq(p.size(), n, "size");
  std::vector<bool> seen(n);
  for (auto x : p) {
    require(x < n, "element ", x, " in a permutation of ", n);
    require(!seen[x], "element ", x, " twice");
    seen[x] = true;
  }
}
PROPERTY(permutations, 3000, 100000) {
  uint32_t n = s.chance(1, 3) ? s.below(8) : s.chance(1, 100) ? 60000 + s.below(12000) : s.below(700);
  int mode = s.chance(1, 5) ? 1 + s.below(3) : 0;
  uint64_t k = s.u64();
  c.desc = cat("size ", n, " generator ", mode, "/", k);
  c.nontrivial = n > 2;
  c.labelIf(n > 65536, "more than 2^16");
  c.labelIf(n < 2, "nothing to do");
  c.labelIf(mode > 0, "extreme generator");
  FastPrg a(k, mode), b(k, mode), other(k + 1, 0);
  auto p = mu::secureRandomPermutation(n, a);
  isPermutation(p, n);
  require(mu::secureRandomPermutation(n, b) == p, "the same generator gave another permutation");
  if (n >= 30) {
    require(mu::secureRandomPermutation(n, other) != p, "another generator gave the same permutation");
  }
  if (n >= 30 && mode == 0) {
    require(mu::secureRandomPermutation(n, a) != p, "the next permutation is the same");
  }
}
PROPERTY(fromAes, 60, 1500) {
  uint32_t n = 1 + s.below(300);
  auto k = _mm_set_epi64x(s.u64(), s.u64());
  c.desc = cat("size ", n, " AES generator");
  c.nontrivial = n > 2;
  uint32_t buf = s.pick({1, 7, 64, 1024});
  auto a = eu::AesPrgFactory(buf).create(k), b = eu::AesPrgFactory(s.pick({3, 512})).create(k);
  auto p = mu::secureRandomPermutation(n, *a);
  isPermutation(p, n);
  require(mu::secureRandomPermutation(n, *b) == p, "two generators with the same key disagree");
}
// counts of independent events with chance q each in t tries stay within 7
// standard deviations (a false alarm has odds below 10^-11 per count)
void even(size_t count, double t, double q, const std::string& what) {
  double m = t * q, sd = std::sqrt(t * q * (1 - q));
  require(std::abs(count - m) <= 7 * sd + 1, what, ": ", count, " times in ", (size_t)t, ", expected ", (size_t)m);
}
PROPERTY(everyPermutation, 12, 200) {
  uint32_t n = 2 + s.below(5);
  size_t orders = 1;
  for (uint32_t i = 2; i <= n; i++) {
    orders *= i;
  }
  size_t t = orders * 60;
  FastPrg g(s.u64());
  c.desc = cat("size ", n, " tries ", t);
  c.nontrivial = n > 2;
  std::map<std::string, size_t> seen;
  for (size_t i = 0; i < t; i++) {
    seen[list(mu::secureRandomPermutation(n, g))]++;
  }
  requireEq(seen.size(), orders, "different permutations of ", n, " in ", t, " tries");
  for (auto& [p, k] : seen) {
    even(k, t, 1.0 / orders, p);
  }
}
PROPERTY(everyPosition, 10, 200) {
  uint32_t n = 7 + s.below(60);
  size_t t = 60 * n;
  FastPrg g(s.u64());
  c.desc = cat("size ", n, " tries ", t);
  c.nontrivial = true;
  std::vector<std::vector<size_t>> at(n, std::vector<size_t>(n));
  size_t fixed = 0, down = 0;
  for (size_t i = 0; i < t; i++) {
    auto p = mu::secureRandomPermutation(n, g);
    for (uint32_t j = 0; j < n; j++) {
      at[j][p[j]]++;
      fixed += p[j] == j;
    }
    down += p[0] > p[1];
  }
  for (uint32_t i = 0; i < n; i++) {
    for (uint32_t j = 0; j < n; j++) {
      even(at[i][j], t, 1.0 / n, cat("element ", j, " at ", i));
    }
  }
  even(down, t, 0.5, "descents at the front");
  even(fixed, t * n, 1.0 / n, "fixed points");
}
// --- public seed
std::string hex(__m128i a) {
  char t[40];
  snprintf(t, sizeof t, "%016llx%016llx", (unsigned long long)_mm_extract_epi64(a, 1), (unsigned long long)_mm_extract_epi64(a, 0));
  return t;
}
using Bytes = std::vector<unsigned char>;
// plays the peer: answers from a script, keeps what it was sent
struct Scripted final : comm::IPartyCommunicationAgent {
  std::function<void(Bytes&)> onReceive; // fills the bytes the party receives
  Bytes sent;
  std::vector<size_t> sentWhenReceiving;
  size_t received = 0;
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
    return {sent.size(), received};
  }

 private:
  void sendImpl(const void* d, int n) override {
    sent.insert(sent.end(), (const unsigned char*)d, (const unsigned char*)d + n);
  }
  void recvImpl(void* d, int n) override {
    sentWhenReceiving.push_back(sent.size());
    received += n;
    Bytes b(n);
    onReceive(b);
    memcpy(d, b.data(), n);
  }
};
Bytes sha(const Bytes& x) {
  Bytes d(SHA256_DIGEST_LENGTH);
  SHA256(x.data(), x.size(), d.data());
  return d;
}
__m128i load(const Bytes& b, size_t at) {
  __m128i r;
  memcpy(&r, b.data() + at, 16);
  return r;
}
PROPERTY(seedTogether, 800, 20000) {
  bool flip = s.coin();
  int times = 1 + s.below(4);
  c.desc = cat(times, " seeds, party ", flip ? 1 : 0, " first");
  c.nontrivial = true;
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::array<std::vector<std::string>, 2> got;
  runParties(*net, 2, c.caseSeed, [&](int me) {
    auto a = net->factory(me, 2)->create(1 - me, "seed");
    for (int i = 0; i < times; i++) {
      got[me].push_back(hex(mu::secureSamplePublicSeed((me == 0) != flip, *a)));
    }
  });
  for (int i = 0; i < times; i++) {
    requireEq(got[0][i], got[1][i], "seed ", i, " of the parties");
  }
  std::set<std::string> all(got[0].begin(), got[0].end());
  requireEq(all.size(), (size_t)times, "different seeds");
}
PROPERTY(seedFirst, 2000, 60000) {
  Bytes share = s.bytes(16);
  seedThreadRandom(c.caseSeed);
  c.desc = "first party, peer's share " + hex(load(share, 0));
  c.nontrivial = true;
  Scripted a;
  a.onReceive = [&](Bytes& b) {
    requireEq(b.size(), (size_t)16, "bytes the first party waits for");
    b = share;
  };
  auto r = mu::secureSamplePublicSeed(true, a);
  requireEq(a.sent.size(), (size_t)64, "bytes sent");
  requireEq(a.sentWhenReceiving.size(), (size_t)1, "receptions");
  requireEq(a.sentWhenReceiving[0], (size_t)32, "bytes sent before the peer's share has come (the commitment alone)");
  Bytes d(a.sent.begin(), a.sent.begin() + 32), o(a.sent.begin() + 32, a.sent.end());
  require(d == sha(o), "the commitment is not the hash of what is opened");
  auto mine = load(o, 0);
  requireEq(hex(r), hex(_mm_xor_si128(mine, load(share, 0))), "seed");
  require(hex(mine) != hex(load(o, 16)), "share and salt are equal");
  // another run commits to something else
  Scripted b;
  b.onReceive = a.onReceive;
  mu::secureSamplePublicSeed(true, b);
  require(Bytes(b.sent.begin() + 32, b.sent.begin() + 48) != Bytes(o.begin(), o.begin() + 16), "the same share again");
  require(Bytes(b.sent.begin() + 48, b.sent.end()) != Bytes(o.begin() + 16, o.end()), "the same salt again");
}
PROPERTY(seedSecond, 3000, 100000) {
  Bytes open = s.bytes(32), digest = sha(open);
  seedThreadRandom(c.caseSeed);
  int cheat = s.below(4);
  std::string how;
  if (cheat == 1) { // opens another share or salt
    size_t bit = s.below(256);
    open[bit / 8] ^= 1 << (bit % 8);
    how = cat("bit ", bit, " of the opening changed");
  } else if (cheat == 2) {
    size_t bit = s.below(256);
    digest[bit / 8] ^= 1 << (bit % 8);
    how = cat("bit ", bit, " of the commitment changed");
  } else if (cheat == 3) {
    std::swap_ranges(open.begin(), open.begin() + 16, open.begin() + 16);
    how = "share and salt swapped";
  }
  c.desc = cat("second party ", how);
  c.nontrivial = true;
  c.label(cheat ? "cheating" : "honest");
  Scripted a;
  int step = 0;
  a.onReceive = [&](Bytes& b) {
    requireEq(b.size(), (size_t)32, "bytes the second party waits for");
    b = step++ == 0 ? digest : open;
  };
  if (cheat) {
    requireThrows<std::runtime_error>([&] { mu::secureSamplePublicSeed(false, a); }, "broken commitment");
  } else {
    auto r = mu::secureSamplePublicSeed(false, a);
    requireEq(a.sent.size(), (size_t)16, "bytes sent");
    requireEq(list(a.sentWhenReceiving), list(std::vector<size_t>{0, 16}), "bytes sent at each reception");
    requireEq(hex(r), hex(_mm_xor_si128(load(a.sent, 0), load(open, 0))), "seed");
    Scripted b; // another run contributes something else
    step = 0;
    b.onReceive = a.onReceive;
    mu::secureSamplePublicSeed(false, b);
    require(a.sent != b.sent, "the same share again");
  }
}
} // namespace
