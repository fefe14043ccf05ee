// Data sets for unified data processing, and what decrypts them.
#pragma once
#include <openssl/evp.h>
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.h"
#include "m128.h"
#include "net.h"
namespace pbt {
namespace udp = fbpcf::mpc_std_lib::unified_data_process::data_processor;
using Bytes = std::vector<unsigned char>;
inline std::string hexOf(const Bytes& b) {
  std::string r;
  char t[4];
  for (auto x : b) {
    snprintf(t, sizeof t, "%02x", x);
    r += t;
  }
  return r;
}
inline Bytes bytesOf(__m128i x) {
  Bytes b(16);
  _mm_storeu_si128((__m128i*)b.data(), x);
  return b;
}
inline Bytes aesBlocks(const Bytes& key, const Bytes& in) {
  Bytes out(in.size() + 32);
  auto* c = EVP_CIPHER_CTX_new();
  int n = 0;
  EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), nullptr, key.data(), nullptr);
  EVP_CIPHER_CTX_set_padding(c, 0);
  EVP_EncryptUpdate(c, out.data(), &n, in.data(), in.size());
  EVP_CIPHER_CTX_free(c);
  out.resize(n);
  return out;
}
// row at the index, from its ciphertext: counters are the nonce plus the number
// of the block in the whole data set (in its low 64 bits)
inline Bytes openRow(const Bytes& key, __m128i nonce, uint64_t index, const Bytes& text) {
  size_t blocks = (text.size() + 15) / 16;
  Bytes ctr;
  uint64_t w[2];
  std::memcpy(w, &nonce, 16);
  for (size_t j = 0; j < blocks; j++) {
    uint64_t v[2] = {w[0] + index * blocks + j, w[1]};
    auto* p = (const unsigned char*)v;
    ctr.insert(ctr.end(), p, p + 16);
  }
  Bytes m = aesBlocks(key, ctr), r = text;
  for (size_t i = 0; i < r.size(); i++) {
    r[i] ^= m[i];
  }
  return r;
}
// distinct indexes
inline std::vector<uint64_t> genIndexes(Src& s, size_t n, std::string& how) {
  std::vector<uint64_t> v;
  std::set<uint64_t> seen;
  int mode = s.below(6);
  uint64_t base = mode == 1 ? s.below(1000)
      : mode == 2           ? (1ull << s.pick({31, 32, 33, 63, 60})) - s.below(n + 2)
      : mode == 3           ? UINT64_MAX - n - s.below(5)
                            : 0;
  how = std::array{"from 0", "from an offset", "around a power of two", "near 2^64", "that agree modulo 2^32", "scattered"}[mode];
  Rng r = s.rng();
  for (uint64_t i = 0; v.size() < n; i++) {
    uint64_t x = base + i;
    if (mode == 4) { // many share their low bits
      x = (uint64_t)r.below(1 + n / 2) | (uint64_t)r.below(8) << s.pick({31, 32, 32, 40});
      x += i > 20 * n + 100 ? i << 44 : 0;
    } else if (mode == 5) {
      x = r.below(3) ? r.u64() : r.below(100 * n);
    }
    if (seen.insert(x).second) {
      v.push_back(x);
    }
  }
  if (s.coin()) {
    r.shuffle(v);
  }
  return v;
}
inline std::vector<Bytes> genTable(Src& s, size_t n, size_t width) {
  std::vector<Bytes> t;
  bool same = s.chance(1, 6);
  for (size_t i = 0; i < n; i++) {
    t.push_back(same && i ? t[0] : s.bytes(width));
  }
  return t;
}
} // namespace pbt
