// C10: random streams, the AES helper and the 128-bit helpers.
#include <openssl/evp.h>
#include "fbpcf/engine/util/AesPrg.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/engine/util/aes.h"
#include "fbpcf/engine/util/util.h"
#include "m128.h"
#include "pbt.h"
using namespace pbt;
namespace fu = fbpcf::engine::util;
using Bytes = std::vector<unsigned char>;

namespace {
u128 le(const unsigned char* p, size_t n = 16) {
  u128 v = 0;
  for (size_t i = n; i > 0; i--) {
    v = v << 8 | p[i - 1];
  }
  return v;
}
u128 standardAes(u128 key, u128 block, bool decrypt = false) {
  unsigned char k[16], in[16], out[32];
  for (int i = 0; i < 16; i++) {
    k[i] = (unsigned char)(key >> (8 * i));
    in[i] = (unsigned char)(block >> (8 * i));
  }
  static thread_local EVP_CIPHER_CTX* ctx = EVP_CIPHER_CTX_new();
  int n = 0;
  EVP_CipherInit_ex(ctx, EVP_aes_128_ecb(), nullptr, k, nullptr, decrypt ? 0 : 1);
  EVP_CIPHER_CTX_set_padding(ctx, 0);
  EVP_CipherUpdate(ctx, out, &n, in, 16);
  return le(out);
}
std::vector<__m128i> toMs(const std::vector<u128>& v) {
  std::vector<__m128i> r;
  for (auto& x : v) {
    r.push_back(toM(x));
  }
  return r;
}
std::vector<u128> blocksOf(Src& s, size_t n) {
  std::vector<u128> v;
  Rng r = s.rng();
  for (size_t i = 0; i < n; i++) {
    v.push_back(i < 3 ? gen128(s) : rand128(r));
  }
  return v;
}
bool bitOf(const Bytes& b, size_t i) {
  return b[i / 8] >> (i % 8) & 1;
}
} // namespace

PROPERTY(cipher, 4000, 60000) {
  u128 key = gen128(s);
  auto in = blocksOf(s, s.size(0, 70));
  c.desc = cat("key ", hex(key), ", ", in.size(), " blocks", in.size() ? " from " + hex(in[0]) : "");
  c.nontrivial = in.size() >= 2;
  c.labelIf(in.size() > 24, "more than 24 blocks");
  fu::Aes aes(toM(key));
  auto a = toMs(in), h = toMs(in);
  aes.encryptInPlace(a);
  aes.inPlaceHash(h);
  requireEq(a.size(), in.size(), "number of blocks after encryption");
  requireEq(h.size(), in.size(), "number of blocks after hashing");
  for (size_t i = 0; i < in.size(); i++) {
    u128 e = standardAes(key, in[i]);
    requireEq(hex(toU(a[i])), hex(e), "encryption of block ", i, " of ", in.size());
    requireEq(hex(toU(h[i])), hex(e ^ in[i]), "hash of block ", i, " of ", in.size());
  }
}

// as many blocks in one call as more than 16 bits number
PROPERTY(manyBlocks, 8, 200) {
  u128 key = gen128(s);
  size_t n = s.chance(2, 3) ? 65537 + s.below(70000) : 1000 + s.below(9000);
  auto in = blocksOf(s, n);
  c.desc = cat("key ", hex(key), ", ", n, " blocks");
  c.nontrivial = true;
  c.labelIf(n > 65536, "more than 65536 blocks");
  fu::Aes aes(toM(key));
  fu::Expander e((int64_t)s.u64());
  auto a = toMs(in), h = toMs(in), x = e.expand(toMs(in));
  aes.encryptInPlace(a);
  aes.inPlaceHash(h);
  requireEq(a.size(), n, "number of blocks after encryption");
  requireEq(h.size(), n, "number of blocks after hashing");
  requireEq(x.size(), 2 * n, "nodes after expansion");
  fu::AesPrg stream(toM(key), 4096);
  auto drawn = stream.getRandomBytes(16 * n);
  requireEq(drawn.size(), 16 * n, "random bytes");
  Bytes words;
  fu::AesPrg again(toM(key), 500 + s.below(200));
  for (size_t left = 16 * n; left;) {
    size_t k = std::min<size_t>(left, 1 + s.below(200000));
    auto more = again.getRandomBytes(k);
    words.insert(words.end(), more.begin(), more.end());
    left -= k;
  }
  require(drawn == words, "the stream drawn at once and in parts differs");
  for (size_t i = 0; i < n; i++) {
    u128 want = standardAes(key, in[i]);
    if (toU(a[i]) != want) {
      requireEq(hex(toU(a[i])), hex(want), "encryption of block ", i, " of ", n);
    }
    if (toU(h[i]) != (want ^ in[i])) {
      requireEq(hex(toU(h[i])), hex(want ^ in[i]), "hash of block ", i, " of ", n);
    }
  }
  auto distinct = [](std::vector<u128> v) {
    std::sort(v.begin(), v.end());
    return std::unique(v.begin(), v.end()) - v.begin();
  };
  std::vector<u128> kids;
  for (auto& y : x) {
    kids.push_back(toU(y));
  }
  auto uniq = distinct(in);
  requireEq(distinct(kids), 2 * uniq, "distinct children of ", uniq, " distinct nodes");
  for (size_t k = 0; k < 50; k++) { // nodes are expanded on their own
    size_t i = k < 2 ? (k ? n - 1 : 0) : s.below(n);
    auto one = e.expand({toM(in[i])});
    requireEq(hex(toU(x[2 * i])), hex(toU(one[0])), "first child of node ", i, " of ", n);
    requireEq(hex(toU(x[2 * i + 1])), hex(toU(one[1])), "second child of node ", i, " of ", n);
  }
}

PROPERTY(keySchedule, 3000, 40000) {
  u128 key = gen128(s), block = gen128(s);
  c.desc = cat("key ", hex(key), " block ", hex(block));
  c.nontrivial = key != 0 && block != 0;
  auto ek = fu::Aes::expandEncryptionKey(toM(key));
  auto dk = fu::Aes::expandDecryptionKey(toM(key));
  requireEq(hex(toU(ek[0])), hex(key), "first round key");
  __m128i x = _mm_xor_si128(toM(block), ek[0]);
  for (int i = 1; i < 10; i++) {
    x = _mm_aesenc_si128(x, ek[i]);
  }
  x = _mm_aesenclast_si128(x, ek[10]);
  requireEq(hex(toU(x)), hex(standardAes(key, block)), "encryption with the expanded key");
  __m128i y = _mm_xor_si128(toM(block), dk[0]);
  for (int i = 1; i < 10; i++) {
    y = _mm_aesdec_si128(y, dk[i]);
  }
  y = _mm_aesdeclast_si128(y, dk[10]);
  requireEq(
      hex(toU(y)), hex(standardAes(key, block, true)), "decryption with the expanded key");
}

PROPERTY(stream, 700, 12000) {
  u128 key = gen128(s);
  bool factory = s.coin();
  int buffer = s.pick({1, 2, 3, 7, 16, 64, 500});
  struct Step {
    int kind; // bits, bytes, words, one 128-bit value
    size_t n;
  };
  std::vector<Step> steps(1 + s.size(0, 40));
  size_t total = 0, cross = 0, odd = 0;
  static const char* nm[] = {"bits", "bytes", "words", "block"};
  for (auto& st : steps) {
    st.kind = s.below(4);
    size_t room = (size_t)buffer * 40 + 20;
    st.n = st.kind == 3 ? 1
        : st.kind == 2  ? s.size(0, std::min<size_t>(room / 8, 300))
                        : s.size(0, std::min<size_t>(room, 2500));
    size_t use = st.kind == 0 ? (st.n + 7) / 8
        : st.kind == 1        ? st.n
        : st.kind == 2        ? 8 * st.n
                              : 16;
    size_t b = 16 * (size_t)buffer;
    cross += use && total / b != (total + use - 1) / b;
    total += use;
    odd += st.kind == 0 && st.n % 8;
    c.desc += cat(" ", nm[st.kind], st.n);
  }
  c.desc = cat("key ", hex(key), " buffer ", buffer, factory ? " (factory)" : "", ":", c.desc);
  c.nontrivial = steps.size() >= 2 && cross;
  c.labelIf(cross, "a request crosses the end of a buffer");
  c.labelIf(odd, "bits that do not fill a byte");
  // reference: the whole stream at once, from a buffer of another size
  Bytes ref;
  {
    fu::AesPrg whole(toM(key), s.pick({1024, 5, 100}));
    ref = whole.getRandomBytes(total + 16);
  }
  std::unique_ptr<fu::IPrg> prg = factory ? fu::AesPrgFactory(buffer).create(toM(key))
                                          : std::make_unique<fu::AesPrg>(toM(key), buffer);
  size_t pos = 0;
  for (size_t i = 0; i < steps.size(); i++) {
    auto& st = steps[i];
    auto where = cat("request ", i, " (", nm[st.kind], " ", st.n, ") at byte ", pos, ": ");
    if (st.kind == 0) {
      auto v = prg->getRandomBits(st.n);
      requireEq(v.size(), st.n, where, "size");
      for (size_t j = 0; j < st.n; j++) {
        requireEq((bool)v[j], bitOf(ref, 8 * pos + j), where, "bit ", j);
      }
      pos += (st.n + 7) / 8;
    } else if (st.kind == 1) {
      auto v = prg->getRandomBytes(st.n);
      requireEq(v.size(), st.n, where, "size");
      require(std::equal(v.begin(), v.end(), ref.begin() + pos), where, "the bytes differ");
      pos += st.n;
    } else if (st.kind == 2) {
      auto v = prg->getRandomUInt64(st.n);
      requireEq(v.size(), st.n, where, "size");
      for (size_t j = 0; j < st.n; j++) {
        uint64_t w = 0;
        for (int k = 0; k < 8; k++) {
          w = w << 8 | ref[pos + 8 * j + k];
        }
        requireEq(v[j], w, where, "word ", j);
      }
      pos += 8 * st.n;
    } else {
      requireEq(hex(toU(prg->getRandomM128i())), hex(le(&ref[pos])), where, "value");
      pos += 16;
    }
  }
}

PROPERTY(inPlace, 1500, 20000) {
  u128 key = gen128(s);
  struct Step {
    bool bits;
    size_t n;
  };
  std::vector<Step> steps(1 + s.size(0, 20));
  size_t blocks = 0, odd = 0;
  for (auto& st : steps) {
    st.bits = s.coin();
    st.n = st.bits ? s.size(0, 700) : s.size(0, 40);
    blocks += st.bits ? (st.n + 127) / 128 : st.n;
    odd += st.bits && st.n % 128;
    c.desc += cat(st.bits ? " bits" : " blocks", st.n);
  }
  c.desc = cat("key ", hex(key), ":", c.desc);
  c.nontrivial = steps.size() >= 2 && blocks >= 3;
  c.labelIf(odd, "bits that do not fill a block");
  Bytes ref;
  {
    fu::AesPrg whole(toM(key), 64);
    ref = whole.getRandomBytes(16 * blocks + 16);
  }
  fu::AesPrg prg(toM(key));
  size_t pos = 0;
  for (size_t i = 0; i < steps.size(); i++) {
    auto& st = steps[i];
    if (s.chance(1, 8)) { // a buffered request is refused and consumes nothing
      requireThrows<std::runtime_error>([&] { prg.getRandomBytes(3); }, "buffered bytes");
      requireThrows<std::runtime_error>([&] { prg.getRandomBits(3); }, "buffered bits");
      requireThrows<std::runtime_error>([&] { prg.getRandomUInt64(3); }, "buffered words");
      c.label("refused request");
    }
    if (st.bits) {
      std::vector<bool> v(st.n, i & 1);
      prg.getRandomBitsInPlace(v);
      requireEq(v.size(), st.n, "request ", i, ": size");
      for (size_t j = 0; j < st.n; j++) {
        requireEq((bool)v[j], bitOf(ref, 8 * pos + j), "request ", i, ": bit ", j);
      }
      pos += 16 * ((st.n + 127) / 128);
    } else {
      std::vector<__m128i> v(st.n, _mm_set1_epi8(0x5a));
      prg.getRandomDataInPlace(v);
      requireEq(v.size(), st.n, "request ", i, ": size");
      for (size_t j = 0; j < st.n; j++) {
        requireEq(hex(toU(v[j])), hex(le(&ref[pos + 16 * j])), "request ", i, ": block ", j);
      }
      pos += 16 * st.n;
    }
  }
}

// different keys give unrelated streams; a stream never repeats a block
PROPERTY(distinct, 500, 8000) {
  u128 key = gen128(s);
  unsigned bit = s.below(128);
  u128 other = key ^ (u128)1 << bit;
  size_t n = 8 + s.size(0, 500);
  int b1 = s.pick({1, 16, 64, 1000}), b2 = s.pick({1, 16, 64, 1000});
  c.desc = cat("keys ", hex(key), " and bit ", bit, " flipped, ", n, " blocks, buffers ", b1, ",", b2);
  c.nontrivial = n > (size_t)std::min(b1, b2);
  fu::AesPrg p1(toM(key), b1), p2(toM(other), b2);
  std::set<u128> seen;
  std::vector<u128> v;
  for (auto* p : {&p1, &p2}) {
    auto b = p->getRandomBytes(16 * n);
    for (size_t i = 0; i < n; i++) {
      v.push_back(le(&b[16 * i]));
      require(seen.insert(v.back()).second, "block ", i, " of the stream repeats an earlier one");
    }
  }
  size_t diff = 0;
  for (size_t i = 0; i < n; i++) {
    u128 x = v[i] ^ v[n + i];
    diff += __builtin_popcountll((uint64_t)x) + __builtin_popcountll((uint64_t)(x >> 64));
  }
  // 128 n fair coins: ten standard deviations around the mean
  double sd = std::sqrt(32.0 * n);
  require(
      std::abs((double)diff - 64.0 * n) < 10 * sd, "streams of related keys differ in ", diff,
      " of ", 128 * n, " bits");
}

PROPERTY(words128, 6000, 100000) {
  u128 x = gen128(s);
  int shift = s.below(128);
  size_t n = s.size(0, 128);
  c.desc = cat(hex(x), " shift ", shift, " low ", n);
  c.nontrivial = x != 0 && shift != 0;
  c.labelIf(shift >= 64, "shift of 64 or more");
  c.labelIf(n > 64, "more than 64 bits extracted");
  auto m = toM(x);
  requireEq(fu::getLsb(m), (bool)(x & 1), "lowest bit");
  requireEq(fu::getMsb(m), (bool)(x >> 127), "highest bit");
  requireEq(fu::getLast64Bits(m), (uint64_t)x, "low word");
  auto y = m;
  fu::lShiftByBitsInPlace(y, shift);
  requireEq(hex(toU(y)), hex(x << shift), "shifted left by ", shift);
  auto z = m;
  fu::setLsbTo0(z);
  requireEq(hex(toU(z)), hex(x & ~(u128)1), "lowest bit cleared");
  z = m;
  fu::setLsbTo1(z);
  requireEq(hex(toU(z)), hex(x | 1), "lowest bit set");
  std::vector<bool> low(n, s.coin());
  fu::extractLnbToVector(m, low);
  requireEq(low.size(), n, "number of extracted bits");
  for (size_t i = 0; i < n; i++) {
    requireEq((bool)low[i], (bool)(x >> i & 1), "extracted bit ", i, " of ", n);
  }
  Bytes b(16);
  for (int i = 0; i < 16; i++) {
    b[i] = (unsigned char)(x >> (8 * i));
  }
  requireEq(hex(toU(fu::buildM128i(b))), hex(x), "built from bytes");
  std::vector<bool> big(129 + s.below(200));
  requireThrows<std::runtime_error>(
      [&] { fu::extractLnbToVector(m, big); }, "extracting more than 128 bits");
}

PROPERTY(modulo, 4000, 60000) {
  auto data = s.bytes(s.size(0, 80));
  uint32_t m = (uint32_t)s.edgyU(UINT32_MAX);
  c.desc = cat(data.size(), " bytes mod ", m);
  c.nontrivial = data.size() > 8 && m > 1;
  c.labelIf(m > 0x7fffffffu, "modulus above 2^31");
  c.labelIf(data.size() > 16, "more than 16 bytes");
  static BN_CTX* ctx = BN_CTX_new();
  if (m == 0) {
    c.label("modulus 0");
    requireThrows<std::runtime_error>([&] { fu::mod(data, 0, ctx); }, "modulus 0");
    return;
  }
  uint64_t want = 0;
  for (size_t i = data.size(); i > 0; i--) {
    want = (want * 256 + data[i - 1]) % m;
  }
  requireEq((uint64_t)fu::mod(data, m, ctx), want, "remainder");
  BIGNUM* b = BN_new();
  fu::loadBytesIntoBignum(data, b);
  Bytes back(data.size() + 3);
  int n = BN_bn2lebinpad(b, back.data(), back.size());
  BN_free(b);
  requireEq((size_t)n, back.size(), "the loaded number needs more bytes than were given");
  require(std::equal(data.begin(), data.end(), back.begin()), "loaded number differs");
}

PROPERTY(expander, 1500, 20000) {
  int64_t index = s.edgy(INT64_MIN, INT64_MAX);
  auto in = blocksOf(s, 1 + s.size(0, 40));
  std::set<u128> uniq(in.begin(), in.end());
  size_t cut = s.below(in.size() + 1);
  c.desc = cat("index ", index, ", ", in.size(), " nodes, cut at ", cut);
  c.nontrivial = in.size() >= 3 && cut > 0 && cut < in.size();
  fu::Expander e(index), again(index), other(index ^ (1ll << s.below(63)));
  auto all = e.expand(toMs(in));
  requireEq(all.size(), 2 * in.size(), "nodes after expansion");
  std::vector<u128> a(in.begin(), in.begin() + cut), b(in.begin() + cut, in.end());
  auto l = again.expand(toMs(a)), r = again.expand(toMs(b));
  requireEq(l.size() + r.size(), all.size(), "nodes after expansion in two parts");
  std::set<u128> kids;
  for (size_t i = 0; i < all.size(); i++) {
    auto& part = i < l.size() ? l[i] : r[i - l.size()];
    requireEq(hex(toU(all[i])), hex(toU(part)), "node ", i, " when expanded in two parts");
    kids.insert(toU(all[i]));
  }
  requireEq(kids.size(), 2 * uniq.size(), "distinct children of ", uniq.size(), " distinct nodes");
  auto o = other.expand(toMs(in));
  for (size_t i = 0; i < all.size(); i++) {
    require(!kids.count(toU(o[i])), "another index gives the same child");
  }
}
