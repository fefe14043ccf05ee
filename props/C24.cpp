// C24: AES-CMAC (RFC 4493) and S2V without associated data (RFC 5297).
#include <openssl/evp.h>
#include "fbpcf/primitive/mac/AesCmacFactory.h"
#include "fbpcf/primitive/mac/S2vFactory.h"
#include "m128.h"
using namespace pbt;
namespace {
namespace mac = fbpcf::primitive::mac;
using B = std::vector<unsigned char>;
using Block = std::array<unsigned char, 16>;
std::string hexOf(const B& b) {
  std::string r;
  char t[4];
  for (auto x : b) {
    snprintf(t, sizeof t, "%02x", x);
    r += t;
  }
  return r;
}
// The published algorithms, on one-block AES calls only.
Block aes(const B& key, const Block& in) {
  Block out{};
  auto* c = EVP_CIPHER_CTX_new();
  int n = 0;
  EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), nullptr, key.data(), nullptr);
  EVP_CIPHER_CTX_set_padding(c, 0);
  EVP_EncryptUpdate(c, out.data(), &n, in.data(), 16);
  EVP_CIPHER_CTX_free(c);
  return out;
}
Block dbl(const Block& b) {
  Block r{};
  for (int i = 0; i < 16; i++) {
    r[i] = (unsigned char)(b[i] << 1 | (i < 15 ? b[i + 1] >> 7 : 0));
  }
  if (b[0] & 0x80) {
    r[15] ^= 0x87;
  }
  return r;
}
B cmac(const B& key, const B& m) {
  Block k1 = dbl(aes(key, Block{})), k2 = dbl(k1), x{};
  size_t n = m.empty() ? 1 : (m.size() + 15) / 16;
  for (size_t i = 0; i < n; i++) {
    Block b{};
    size_t have = std::min<size_t>(16, m.size() - 16 * i);
    std::copy_n(m.begin() + 16 * i, have, b.begin());
    if (i + 1 == n) {
      if (have < 16) {
        b[have] = 0x80;
      }
      auto& k = have < 16 ? k2 : k1;
      for (int j = 0; j < 16; j++) {
        b[j] ^= k[j];
      }
    }
    for (int j = 0; j < 16; j++) {
      x[j] ^= b[j];
    }
    x = aes(key, x);
  }
  return B(x.begin(), x.end());
}
B s2v(const B& key, const B& m) {
  auto d = cmac(key, B(16));
  B t = m;
  if (m.size() < 16) {
    Block db;
    std::copy(d.begin(), d.end(), db.begin());
    db = dbl(db);
    d.assign(db.begin(), db.end());
    t.push_back(0x80);
    t.resize(16);
  }
  for (int j = 0; j < 16; j++) {
    t[t.size() - 16 + j] ^= d[j];
  }
  return cmac(key, t);
}
std::unique_ptr<mac::IMac> make(bool s2, const B& key) {
  if (s2) {
    return mac::S2vFactory().create(key);
  }
  return mac::AesCmacFactory().create(key);
}
B message(Src& s, size_t len) {
  auto m = s.bytes(len);
  if (s.chance(25, 100)) { // only one repeated byte, or a tail of zeros
    std::fill(m.begin(), m.end(), s.coin() ? 0x00 : 0xff);
  }
  if (s.chance(15, 100) && len) { // looks padded
    size_t z = s.below(len);
    std::fill(m.begin() + z, m.end(), 0);
    m[z] = 0x80;
  }
  return m;
}
size_t length(Src& s) {
  if (s.chance(70, 100)) { // a few bytes either side of a block boundary
    int64_t n = 16 * (int64_t)s.below(7) + s.range(-2, 2);
    return n < 0 ? 0 : n;
  }
  return s.chance(8, 100) ? s.below(5000) : s.below(120);
}
B keyOf(Src& s) {
  B k = s.bytes(16);
  if (s.chance(15, 100)) {
    std::fill(k.begin(), k.end(), s.coin() ? 0 : 0xff);
  }
  return k;
}
PROPERTY(mac_of_messages, 6000, 400000) {
  bool s2 = s.coin();
  auto key = keyOf(s);
  auto m = make(s2, key);
  // one object and a second one of another key, used alternately
  auto key2 = keyOf(s);
  auto m2 = make(s2, key2);
  size_t count = 1 + s.below(4);
  c.desc += cat(s2 ? "S2V" : "CMAC", " key ", hexOf(key));
  c.label(s2 ? "S2V" : "CMAC");
  for (size_t i = 0; i < count; i++) {
    size_t len = length(s);
    auto text = message(s, len);
    c.desc += cat("; ", len, " bytes");
    c.label(len == 0 ? "empty" : len < 16 ? "less than a block" : len % 16 ? "whole blocks and a rest" : "whole blocks");
    c.nontrivial |= len % 16 <= 2 || len % 16 >= 14;
    bool other = s.chance(30, 100);
    auto& k = other ? key2 : key;
    auto& o = other ? m2 : m;
    auto want = s2 ? s2v(k, text) : cmac(k, text);
    require(o->getMac128(text) == want,
            cat("code of ", len, " bytes ", hexOf(text), " is ", hexOf(o->getMac128(text)), ", not ", hexOf(want)));
    B got(16);
    _mm_storeu_si128((__m128i*)got.data(), o->getMacM128i(text));
    require(got == want, cat("128-bit code of ", len, " bytes ", hexOf(text), " is ", hexOf(got), ", not ", hexOf(want)));
  }
}
PROPERTY(messages_that_look_padded, 3000, 100000) {
  bool s2 = s.coin();
  auto key = keyOf(s);
  auto m = make(s2, key);
  size_t len = s.chance(60, 100) ? s.below(16) : s.below(64);
  auto text = message(s, len);
  c.desc += cat(s2 ? "S2V" : "CMAC", " of ", len, " bytes");
  c.label(s2 ? "S2V" : "CMAC");
  c.label(len < 16 ? "less than a block" : "longer");
  c.nontrivial |= len % 16 != 0;
  auto a = m->getMac128(text);
  // padded to the block, partly padded, zero-extended
  B full = text;
  full.push_back(0x80);
  if (s.coin()) {
    full.resize((full.size() + 15) / 16 * 16);
  } else {
    full.resize(full.size() + s.below(17));
  }
  require(m->getMac128(full) != a, cat(hexOf(text), " and ", hexOf(full), " share the code ", hexOf(a)));
  B zero = text;
  zero.resize(zero.size() + 1 + s.below(16));
  require(m->getMac128(zero) != a, cat(hexOf(text), " and ", hexOf(zero), " share the code ", hexOf(a)));
}
// The references against the published vectors.
B unhex(const std::string& h) {
  B r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) {
    r.push_back((unsigned char)std::stoi(h.substr(i, 2), nullptr, 16));
  }
  return r;
}
PROPERTY(published_vectors, 4, 4) {
  static const char* M =
      "6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51"
      "30c81c46a35ce411e5fbc1191a0a52eff69f2445df4f9b17ad2b417be66c3710";
  static const std::pair<size_t, const char*> v[] = {
      {0, "bb1d6929e95937287fa37d129b756746"},
      {16, "070a16b46b4d4144f79bdd9dd04a287c"},
      {40, "dfa66747de9ae63030ca32611497c827"},
      {64, "51f0bebf7e3b9d92fc49741779363cfe"}};
  auto& [n, want] = v[s.below(4)];
  auto key = unhex("2b7e151628aed2a6abf7158809cf4f3c");
  auto text = unhex(M);
  text.resize(n);
  c.desc += cat("RFC 4493 vector of ", n, " bytes");
  c.nontrivial |= true;
  requireEq(hexOf(cmac(key, text)), std::string(want), "reference CMAC");
  requireEq(hexOf(make(false, key)->getMac128(text)), std::string(want), "CMAC");
}
} // namespace
