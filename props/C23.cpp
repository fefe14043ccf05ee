// C23: the AES circuits compute AES-128; counter mode is standard.
#include <openssl/evp.h>
#include "fbpcf/engine/util/aes.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitCtrFactory.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitFactory.h"
#include "front.h"
#include "m128.h"
using namespace pbt;
namespace {
namespace ac = fbpcf::mpc_std_lib::aes_circuit;
using B = std::vector<unsigned char>;
std::string hexOf(const B& b) {
  std::string r;
  char t[4];
  for (auto x : b) {
    snprintf(t, sizeof t, "%02x", x);
    r += t;
  }
  return r;
}
// OpenSSL's AES-128
B ossl(const EVP_CIPHER* k, bool enc, const B& key, const B& in, const B& iv = {}) {
  B out(in.size() + 32);
  auto* c = EVP_CIPHER_CTX_new();
  int n = 0;
  EVP_CipherInit_ex(c, k, nullptr, key.data(), iv.empty() ? nullptr : iv.data(), enc);
  EVP_CIPHER_CTX_set_padding(c, 0);
  EVP_CipherUpdate(c, out.data(), &n, in.data(), in.size());
  EVP_CIPHER_CTX_free(c);
  out.resize(n);
  return out;
}
unsigned char xt(unsigned char a) {
  return (unsigned char)(a << 1 ^ (a & 0x80 ? 0x1b : 0));
}
unsigned char mul(unsigned char a, unsigned char b) {
  unsigned char r = 0;
  for (; b; b >>= 1, a = xt(a)) {
    if (b & 1) {
      r ^= a;
    }
  }
  return r;
}
unsigned char sub(unsigned char a) { // FIPS 197, 5.1.1
  unsigned char inv = 0;
  for (int x = 1; x < 256 && a; x++) {
    if (mul(a, (unsigned char)x) == 1) {
      inv = (unsigned char)x;
    }
  }
  unsigned char r = 0x63;
  for (int i = 0; i < 5; i++) {
    r ^= (unsigned char)(inv << i | inv >> (8 - i));
  }
  return r;
}
const std::array<unsigned char, 256>& sbox() {
  static auto t = [] {
    std::array<unsigned char, 256> r;
    for (int i = 0; i < 256; i++) {
      r[i] = sub((unsigned char)i);
    }
    return r;
  }();
  return t;
}
B expandEnc(const B& key) { // FIPS 197, 5.2
  B w = key;
  unsigned char rcon = 1;
  for (size_t i = 16; i < 176; i += 4) {
    std::array<unsigned char, 4> t{w[i - 4], w[i - 3], w[i - 2], w[i - 1]};
    if (i % 16 == 0) {
      t = {(unsigned char)(sbox()[t[1]] ^ rcon), sbox()[t[2]], sbox()[t[3]], sbox()[t[0]]};
      rcon = xt(rcon);
    }
    for (int j = 0; j < 4; j++) {
      w.push_back(w[i + j - 16] ^ t[j]);
    }
  }
  return w;
}
B expandDec(const B& enc) { // equivalent inverse cipher, 5.3.5
  B r;
  for (int k = 10; k >= 0; k--) {
    for (int col = 0; col < 4; col++) {
      const unsigned char* a = &enc[16 * k + 4 * col];
      for (int j = 0; j < 4; j++) {
        r.push_back(
            k == 0 || k == 10 ? a[j]
                              : (unsigned char)(mul(a[j], 14) ^ mul(a[(j + 1) % 4], 11) ^ mul(a[(j + 2) % 4], 13) ^
                                                mul(a[(j + 3) % 4], 9)));
      }
    }
  }
  return r;
}
std::vector<bool> toBits(const B& b) { // the highest bit of a byte first
  std::vector<bool> r;
  for (auto x : b) {
    for (int i = 7; i >= 0; i--) {
      r.push_back(x >> i & 1);
    }
  }
  return r;
}
B toBytes(const std::vector<bool>& v) {
  B r(v.size() / 8);
  for (size_t i = 0; i < v.size(); i++) {
    r.at(i / 8) |= (unsigned char)(v[i] << (7 - i % 8));
  }
  return r;
}
B fromM(const std::array<__m128i, 11>& k) {
  B r(176);
  for (int i = 0; i < 11; i++) {
    _mm_storeu_si128((__m128i*)&r[16 * i], k[i]);
  }
  return r;
}
enum Op { Enc, Dec, CtrEnc, CtrDec };
const char* opName[] = {"encrypt", "decrypt", "counter encrypt", "counter decrypt"};
struct Rec { // one record of a batch
  B key, text, ctr, want;
};
B counters(Src& s, size_t blocks, B& iv) {
  iv = s.bytes(16);
  if (s.chance(1, 3)) { // carries
    std::fill(iv.begin() + s.below(16), iv.end(), 0xff);
  }
  B m, x = iv;
  for (size_t i = 0; i < blocks; i++) {
    m.insert(m.end(), x.begin(), x.end());
    for (int j = 15; j >= 0 && ++x[j] == 0; j--) {
    }
  }
  return m;
}
Rec record(Src& s, Op op, size_t blocks) {
  Rec r;
  r.key = s.bytes(16);
  r.text = s.bytes(16 * blocks);
  B iv;
  if (op >= CtrEnc) {
    r.ctr = counters(s, blocks, iv);
  }
  r.want = op == Enc ? ossl(EVP_aes_128_ecb(), true, r.key, r.text)
      : op == Dec    ? ossl(EVP_aes_128_ecb(), false, r.key, r.text)
                     : ossl(EVP_aes_128_ctr(), true, r.key, r.text, iv);
  return r;
}
B schedule(Op op, const B& key) {
  auto e = expandEnc(key);
  return op == Dec ? expandDec(e) : e;
}
template <typename Bit>
std::vector<Bit> apply(Op op, const std::vector<Bit>& text, const std::vector<Bit>& key, const std::vector<Bit>& ctr) {
  switch (op) {
    case Enc: return ac::AesCircuitFactory<Bit>().create()->encrypt(text, key);
    case Dec: return ac::AesCircuitFactory<Bit>().create()->decrypt(text, key);
    case CtrEnc: return ac::AesCircuitCtrFactory<Bit>().create()->encrypt(text, key, ctr);
    default: return ac::AesCircuitCtrFactory<Bit>().create()->decrypt(text, key, ctr);
  }
}
void clear(Src& s, Ctx& c, size_t blocks) {
  auto op = (Op)s.below(4);
  auto r = record(s, op, blocks);
  c.desc = cat(opName[op], " ", blocks, " blocks key ", hexOf(r.key), " text ", hexOf(r.text), " counters ", hexOf(r.ctr));
  c.nontrivial = blocks > 0;
  c.label(opName[op]);
  c.labelIf(blocks > 1, "several blocks");
  c.labelIf(blocks == 0, "no block");
  auto key = toBits(schedule(op, r.key));
  auto got = toBytes(apply<bool>(op, toBits(r.text), key, toBits(r.ctr)));
  require(got == r.want, cat(opName[op], " gives ", hexOf(got), ", not ", hexOf(r.want)));
  // and back
  Op inv = op == Enc ? Dec : op == Dec ? Enc : op == CtrEnc ? CtrDec : CtrEnc;
  auto back = toBytes(apply<bool>(inv, toBits(got), toBits(schedule(inv, r.key)), toBits(r.ctr)));
  require(back == r.text, cat(opName[inv], " gives back ", hexOf(back), ", not ", hexOf(r.text)));
}
PROPERTY(bits_in_the_clear, 600, 30000) {
  clear(s, c, s.chance(1, 12) ? 0 : s.chance(1, 10) ? 1 + s.below(12) : 1 + s.below(3));
}
PROPERTY(many_blocks, 24, 400) {
  clear(s, c, s.chance(1, 3) ? s.pick({255, 256, 511, 512}) + s.range(1, 9) : 13 + s.below(120));
}
PROPERTY(key_schedule, 600, 30000) {
  auto key = s.bytes(16);
  if (s.chance(1, 8)) {
    std::fill(key.begin(), key.end(), s.coin() ? 0 : 0xff);
  }
  c.desc = cat("key ", hexOf(key));
  c.nontrivial = true;
  __m128i k = _mm_loadu_si128((const __m128i*)key.data());
  auto e = expandEnc(key);
  auto got = fromM(fe::util::Aes::expandEncryptionKey(k));
  require(got == e, cat("encryption schedule ", hexOf(got), ", not ", hexOf(e)));
  auto gd = fromM(fe::util::Aes::expandDecryptionKey(k)), d = expandDec(e);
  require(gd == d, cat("decryption schedule ", hexOf(gd), ", not ", hexOf(d)));
}
template <bool batched>
void secret(Src& s, Ctx& c, const SchedCfg& g, size_t maxBlocks, size_t maxBatch) {
  auto op = (Op)s.below(4);
  size_t blocks = 1 + s.below(maxBlocks), n = batched ? 1 + s.below(maxBatch) : 1;
  bool oneKey = s.coin(), mixed = s.coin();
  std::vector<Rec> recs;
  for (size_t i = 0; i < n; i++) {
    recs.push_back(record(s, op, blocks));
  }
  if (oneKey) {
    auto iv = recs[0].ctr.empty() ? B() : B(recs[0].ctr.begin(), recs[0].ctr.begin() + 16);
    for (auto& r : recs) {
      r.key = recs[0].key;
      r.ctr = recs[0].ctr;
      r.want = op == Enc ? ossl(EVP_aes_128_ecb(), true, r.key, r.text)
          : op == Dec    ? ossl(EVP_aes_128_ecb(), false, r.key, r.text)
                         : ossl(EVP_aes_128_ctr(), true, r.key, r.text, iv);
    }
  }
  int keyOwner = s.below(2), textOwner = mixed ? 1 - keyOwner : keyOwner, to = s.below(2);
  c.desc = cat(show(g), " ", opName[op], " ", blocks, " blocks x ", n, batched ? "" : " (no batch)", " key of ", keyOwner, " text of ", textOwner);
  for (auto& r : recs) {
    c.desc += cat("; key ", hexOf(r.key), " text ", hexOf(r.text), " counters ", hexOf(r.ctr));
  }
  c.nontrivial = blocks > 1 || n > 1;
  c.label(opName[op]);
  c.label(name(g.k));
  c.labelIf(n > 1, "batch");
  c.labelIf(blocks > 1, "several blocks");
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    using Bit = ff::Bit<true, sid, batched>;
    auto in = [&](auto&& bytesOf, int owner) {
      std::vector<std::vector<bool>> cols;
      for (auto& r : recs) {
        cols.push_back(toBits(bytesOf(r)));
      }
      std::vector<Bit> v;
      for (size_t i = 0; i < cols[0].size(); i++) {
        if constexpr (batched) {
          std::vector<bool> b;
          for (auto& col : cols) {
            b.push_back(col[i]);
          }
          v.push_back(Bit(b, owner));
        } else {
          v.push_back(Bit(cols[0][i], owner));
        }
      }
      return v;
    };
    auto key = in([&](auto& r) { return schedule(op, r.key); }, keyOwner);
    auto text = in([](auto& r) { return r.text; }, textOwner);
    auto ctr = in([](auto& r) { return r.ctr; }, keyOwner);
    auto out = apply<Bit>(op, text, key, ctr);
    requireEq(out.size(), text.size(), "size of the result");
    std::vector<std::vector<bool>> got(n, std::vector<bool>(out.size()));
    std::vector<ff::Bit<false, sid, batched>> o;
    for (auto& b : out) {
      o.push_back(b.openToParty(to));
    }
    for (size_t i = 0; i < o.size(); i++) {
      if constexpr (batched) {
        auto v = o[i].getValue();
        requireEq(v.size(), n, "batch size");
        for (size_t j = 0; j < n; j++) {
          got[j][i] = v[j];
        }
      } else {
        got[0][i] = o[i].getValue();
      }
    }
    if (me == to) {
      for (size_t j = 0; j < n; j++) {
        auto b = toBytes(got[j]);
        require(b == recs[j].want, cat(opName[op], " of record ", j, " gives ", hexOf(b), ", not ", hexOf(recs[j].want)));
      }
    }
  });
}
PROPERTY(secret_bits_of_a_batch, 40, 1500) {
  auto g = genSched(s, {Sched::NetPlain, Sched::Plain, Sched::Lazy, Sched::Eager}, 2, false);
  g.eng.e = Eng::Dummy;
  secret<true>(s, c, g, 2, 6);
}
PROPERTY(secret_bits, 16, 500) {
  auto g = genSched(s, {Sched::NetPlain, Sched::Lazy, Sched::Eager}, 2, false);
  g.eng.e = Eng::Dummy;
  secret<false>(s, c, g, 2, 1);
}
PROPERTY(secret_bits_of_many_blocks, 2, 40) {
  SchedCfg g;
  g.k = s.coin() ? Sched::NetPlain : Sched::Plain;
  g.eng.parties = g.k == Sched::Plain ? 1 : 2;
  secret<true>(s, c, g, 40, 2);
}
PROPERTY(secret_bits_over_tuples, 4, 150) {
  auto g = genSched(s, {Sched::Lazy}, 2, false);
  g.eng.e = Eng::Dealer;
  g.eng.buffer = 4000;
  secret<true>(s, c, g, 1, 3);
}
PROPERTY(wrong_sizes, 400, 5000) {
  auto op = (Op)s.below(4);
  size_t text = 128 * s.below(4), key = 1408, mask;
  int what = s.below(op >= CtrEnc ? 4 : 3);
  auto off = [&](size_t n) {
    if (s.coin()) { // what a coarser check would miss
      int64_t d = s.pick({1, 4, 8, 16, 32, 64, 96});
      return n && s.coin() ? n - d : n + d;
    }
    return n + (n && s.coin() ? -(int64_t)(1 + s.below(std::min<size_t>(n, 127))) : 1 + s.below(127));
  };
  mask = text;
  if (what == 1) {
    mask = text = off(text);
  } else if (what == 2) {
    key = s.coin() ? off(key) : s.pick({0ul, 128ul, 1280ul, 1536ul, 2816ul});
  } else if (what == 3) {
    mask = s.coin() ? off(text) : text + 128;
  }
  c.desc = cat(opName[op], " text ", text, " key ", key, " counters ", mask);
  c.nontrivial = what != 0;
  c.label(what == 0 ? "right sizes" : what == 1 ? "part of a block" : what == 2 ? "not a key schedule" : "counters of another size");
  std::vector<bool> t(text), k(key), m(mask);
  if (what == 0) {
    requireEq(apply<bool>(op, t, k, m).size(), text, "size of the result");
  } else {
    requireThrows<std::runtime_error>([&] { apply<bool>(op, t, k, m); }, c.desc);
  }
}
} // namespace
