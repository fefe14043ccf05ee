// The only entropy sources of fbpcf are OpenSSL's RAND_bytes and
// BN_rand_range.  These definitions take precedence over libcrypto's for the
// code under test, so a case is a function of its tape.
#include <openssl/bn.h>
#include <openssl/rand.h>
#include <mutex>
#include "pbt.h"
namespace {
std::mutex gm;
uint64_t gstate = 1;
thread_local bool seeded = false;
thread_local uint64_t tstate = 0;
thread_local uint64_t tgen = 0;
std::atomic<uint64_t> generation{1};
uint64_t next() {
  if (seeded) {
    tstate += 0x9e3779b97f4a7c15ull;
    return pbt::mix64(tstate ^ 0x5bd1e995u);
  }
  std::lock_guard<std::mutex> l(gm);
  gstate += 0x9e3779b97f4a7c15ull;
  return pbt::mix64(gstate ^ 0x1234567u);
}
} // namespace
namespace pbt {
void seedThreadRandom(uint64_t seed) {
  seeded = true;
  tstate = mix64(seed);
}
void seedGlobalRandom(uint64_t seed) {
  std::lock_guard<std::mutex> l(gm);
  gstate = mix64(seed);
}
} // namespace pbt
extern "C" int RAND_bytes(unsigned char* buf, int num) {
  for (int i = 0; i < num;) {
    uint64_t v = next();
    for (int k = 0; k < 8 && i < num; k++, i++) {
      buf[i] = v >> (8 * k);
    }
  }
  return 1;
}
extern "C" int BN_rand_range(BIGNUM* rnd, const BIGNUM* range) {
  int n = BN_num_bytes(range) + 8;
  std::vector<unsigned char> b(n);
  RAND_bytes(b.data(), n);
  BN_CTX* ctx = BN_CTX_new();
  BIGNUM* t = BN_bin2bn(b.data(), n, nullptr);
  int ok = BN_mod(rnd, t, range, ctx);
  BN_free(t);
  BN_CTX_free(ctx);
  return ok;
}
// This OpenSSL build has no rdrand engine, which fbpcf insists on; RAND_bytes is
// ours anyway, so the engine is a stand-in that always initialises.
struct engine_st;
static char fakeEngine[8];
extern "C" engine_st* ENGINE_by_id(const char*) {
  return (engine_st*)fakeEngine;
}
extern "C" int ENGINE_init(engine_st*) {
  return 1;
}
extern "C" int ENGINE_set_default(engine_st*, unsigned) {
  return 1;
}
extern "C" int ENGINE_finish(engine_st*) {
  return 1;
}
extern "C" int ENGINE_free(engine_st*) {
  return 1;
}
