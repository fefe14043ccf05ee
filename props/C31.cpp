// C31: the generic value types are modular integers and survive conversions.
#include "m128.h"
#include "stdkit.h"
using namespace pbt;
namespace {
namespace mu = msl::util;
using AV = mu::AggregationValue;
using u128 = unsigned __int128;
using i128 = __int128;
template <bool S, int8_t W>
i128 wrap(i128 v) { // the representative of v modulo 2^W
  u128 m = ((u128)1 << W) - 1, u = (u128)v & m;
  if (S && (u >> (W - 1)) & 1) {
    return (i128)u - ((i128)1 << W);
  }
  return (i128)u;
}
std::string str(i128 v) {
  return v < 0 ? "-" + std::to_string((uint64_t)-v) : std::to_string((uint64_t)v);
}
template <bool S, int8_t W>
i128 genValue(Src& s) {
  return wrap<S, W>(s.chance(1, 3) ? (i128)s.u64() : (i128)s.edgyU(W == 64 ? UINT64_MAX : (1ull << W % 64) - 1));
}
template <bool S, int8_t W>
i128 get(const Intp<S, W>& x) {
  return (typename Intp<S, W>::NativeType)x;
}
template <bool S, int8_t W>
void arithmetic(Src& s, Ctx& c) {
  using I = Intp<S, W>;
  using N = typename I::NativeType;
  i128 a = genValue<S, W>(s), b = genValue<S, W>(s);
  if (s.chance(1, 6)) {
    b = s.coin() ? a : wrap<S, W>(-a);
  }
  c.desc = cat(S ? "int" : "uint", W, " ", str(a), " ", str(b));
  c.nontrivial = a != 0 && b != 0;
  c.labelIf(wrap<S, W>(a + b) != a + b, "sum wraps");
  c.labelIf(wrap<S, W>(a - b) != a - b, "difference wraps");
  I x((N)a), y((N)b);
  requireEq(str(get(x)), str(a), "value");
  requireEq(str(get(x + y)), str(wrap<S, W>(a + b)), "sum");
  requireEq(str(get(x - y)), str(wrap<S, W>(a - b)), "difference");
  requireEq(str(get(-x)), str(wrap<S, W>(-a)), "negation");
  requireEq(str(get(-(-x))), str(a), "negation twice");
  requireEq(str(get((x + y) - y)), str(a), "sum and difference");
  requireEq(str(get(I())), "0", "default");
  // native values outside of the range
  i128 lo = S ? -((i128)1 << (W - 1)) : 0, hi = ((i128)1 << (S ? W - 1 : W)) - 1;
  i128 nlo = S ? (i128)std::numeric_limits<N>::min() : 0, nhi = std::numeric_limits<N>::max();
  requireEq(str(I::kMin), str(lo), "kMin");
  requireEq(str(I::kMax), str(hi), "kMax");
  require(get(I((N)lo)) == lo && get(I((N)hi)) == hi, "the extreme values");
  for (i128 v : {hi + 1, nhi, hi + 1 + (i128)(s.u64() & 0xffff), lo - 1, nlo}) {
    if (v >= nlo && v <= nhi && (v < lo || v > hi)) {
      requireThrows<std::runtime_error>([&] { I z((N)v); }, cat("construction from ", str(v)));
    }
  }
  // bits
  std::vector<bool> bits(W);
  for (int i = 0; i < W; i++) {
    bits[i] = ((u128)a >> i) & 1;
  }
  requireEq(list(mu::Adapters<I>::convertToBits(x)), list(bits), "bits of ", str(a));
  requireEq(str(get(mu::Adapters<I>::convertFromBits(bits))), str(a), "value of its bits");
  std::vector<bool> few(bits.begin(), bits.begin() + s.below(W + 1));
  i128 fv = 0;
  for (size_t i = 0; i < few.size(); i++) {
    fv |= (i128)few[i] << i;
  }
  requireEq(str(get(mu::Adapters<I>::convertFromBits(few))), str(wrap<S, W>(fv)), "value of ", few.size(), " bits");
  auto many = bits;
  many.resize(W + 1 + s.below(3));
  requireThrows<std::invalid_argument>([&] { mu::Adapters<I>::convertFromBits(many); }, "too many bits");
}
template <bool S, int8_t W>
void keys(Src& s, Ctx& c) {
  using I = Intp<S, W>;
  Rng r = s.rng();
  c.desc = cat(S ? "int" : "uint", W, " from random keys");
  c.nontrivial = true;
  std::vector<int> ones(W);
  for (int t = 0; t < 100; t++) {
    __m128i k = _mm_set_epi64x(r.u64(), r.u64());
    i128 v = get(mu::Adapters<I>::generateFromKey(k));
    require(wrap<S, W>(v) == v, "value ", str(v), " out of range");
    requireEq(str(get(mu::Adapters<I>::generateFromKey(k))), str(v), "the same key");
    for (int i = 0; i < W; i++) {
      ones[i] += ((u128)v >> i) & 1;
    }
  }
  for (int i = 0; i < W; i++) { // 100 fair bits: chance of failing below 2^-50
    require(ones[i] > 5 && ones[i] < 95, "bit ", i, " of the generated values is set ", ones[i], " times in 100");
  }
}
template <int8_t W>
void pickSign(bool sign, int op, Src& s, Ctx& c) {
  if (op == 0) {
    sign ? arithmetic<true, W>(s, c) : arithmetic<false, W>(s, c);
  } else {
    sign ? keys<true, W>(s, c) : keys<false, W>(s, c);
  }
}
void everyWidth(Src& s, Ctx& c, int op) {
  int w = s.range(1, 64);
  bool sign = s.coin();
  [&]<int... I>(std::integer_sequence<int, I...>) {
    ((w == I + 1 ? pickSign<I + 1>(sign, op, s, c) : void()), ...);
  }(std::make_integer_sequence<int, 64>());
}
PROPERTY(arithmetic, 30000, 2000000) {
  everyWidth(s, c, 0);
}
PROPERTY(fromKeys, 1500, 50000) {
  everyWidth(s, c, 1);
}
template <typename T>
void keyBits(Src& s, const char* what) {
  Rng r = s.rng();
  std::vector<std::vector<bool>> v;
  for (int t = 0; t < 300; t++) {
    __m128i k = _mm_set_epi64x(r.u64(), r.u64());
    v.push_back(mu::Adapters<T>::convertToBits(mu::Adapters<T>::generateFromKey(k)));
    requireEq(list(mu::Adapters<T>::convertToBits(mu::Adapters<T>::generateFromKey(k))), list(v.back()), what, ": the same key");
  }
  size_t w = v[0].size();
  for (size_t i = 0; i < w; i++) {
    for (size_t j = 0; j <= i; j++) { // j == i: the bit itself
      int n = 0;
      for (auto& x : v) {
        n += j == i ? x[i] : x[i] == x[j];
      }
      // 300 fair bits: chance of failing below 2^-70
      require(n > 60 && n < 240, what, ": bits ", i, " and ", j, " of the generated values agree ", n, " times in 300");
    }
  }
}
PROPERTY(keysToTypes, 30, 300) {
  int t = s.below(4);
  c.nontrivial = true;
  c.desc = std::array{"word", "aggregation value", "int64", "uint33"}[t];
  switch (t) {
    case 0: return keyBits<uint32_t>(s, "word");
    case 1: return keyBits<AV>(s, "aggregation value");
    case 2: return keyBits<Intp<true, 64>>(s, "int64");
    default: return keyBits<Intp<false, 33>>(s, "uint33");
  }
}
PROPERTY(plainAdapters, 4000, 200000) {
  uint32_t a = s.edgyU(UINT32_MAX), b = s.edgyU(UINT32_MAX), a2 = s.edgyU(UINT32_MAX), b2 = s.edgyU(UINT32_MAX);
  c.desc = cat(a, ",", b, " ", a2, ",", b2);
  c.nontrivial = a && b;
  AV x(a, b), y(a2, b2);
  auto is = [](const AV& v, uint32_t p, uint32_t q, const char* what) {
    requireEq(v.conversionCount, p, what, " (count)");
    requireEq(v.conversionValue, q, what, " (value)");
  };
  is(x + y, a + a2, b + b2, "sum");
  is(x - y, a - a2, b - b2, "difference");
  is(-x, -a, -b, "negation");
  AV z = x;
  z += y;
  is(z, a + a2, b + b2, "increment");
  is(AV(b), b > 0, b, "from one value");
  require(x == AV(a, b), "equality");
  require((x == y) == (a == a2 && b == b2), "comparison");
  std::vector<bool> bits;
  for (uint32_t v : {a, b}) {
    for (int i = 0; i < 32; i++) {
      bits.push_back((v >> i) & 1);
    }
  }
  requireEq(list(mu::Adapters<AV>::convertToBits(x)), list(bits), "bits");
  is(mu::Adapters<AV>::convertFromBits(bits), a, b, "from bits");
  auto bad = bits;
  bad.resize(s.coin() ? s.below(64) : 65 + s.below(5));
  requireThrows<std::invalid_argument>([&] { mu::Adapters<AV>::convertFromBits(bad); }, "wrong number of bits");
  std::vector<bool> low(bits.begin(), bits.begin() + 32);
  requireEq(list(mu::Adapters<uint32_t>::convertToBits(a)), list(low), "bits of a word");
  requireEq(mu::Adapters<uint32_t>::convertFromBits(low), a, "word from bits");
  size_t n = s.below(33);
  low.resize(n);
  requireEq(mu::Adapters<uint32_t>::convertFromBits(low), n == 32 ? a : a & ((1u << n) - 1), "word from ", n, " bits");
  low.resize(33);
  requireThrows<std::invalid_argument>([&] { mu::Adapters<uint32_t>::convertFromBits(low); }, "too many bits for a word");
}
PROPERTY(blocks, 600, 30000) {
  size_t n = s.chance(1, 8) ? 0 : 1 + s.below(70);
  Rng r = s.rng();
  std::vector<__m128i> v(n);
  for (auto& x : v) {
    x = s.chance(1, 3) ? _mm_set_epi64x(r.bit() ? 1ull << 63 : 1, r.bit() ? 1ull << 63 : 1) : _mm_set_epi64x(r.u64(), r.u64());
  }
  c.desc = cat(n, " blocks");
  c.nontrivial = n > 1;
  auto bits = mu::convertToBits(v);
  requireEq(bits.size(), (size_t)128, "bits");
  for (size_t i = 0; i < 128; i++) {
    requireEq(bits[i].size(), n, "batch of bit ", i);
    for (size_t j = 0; j < n; j++) {
      uint64_t q = i < 64 ? _mm_extract_epi64(v[j], 0) : _mm_extract_epi64(v[j], 1);
      requireEq((bool)bits[i][j], (bool)((q >> (i % 64)) & 1), "bit ", i, " of block ", j);
    }
  }
  auto back = mu::convertFromBits(bits);
  requireEq(back.size(), n, "blocks back");
  for (size_t j = 0; j < n; j++) {
    require(_mm_testc_si128(_mm_cmpeq_epi8(back[j], v[j]), _mm_set1_epi8(-1)), "block ", j, " changed");
  }
  bits.resize(s.coin() ? s.below(128) : 129);
  requireThrows<std::runtime_error>([&] { mu::convertFromBits(bits); }, "wrong number of rows");
}

// --- secret values
template <typename T>
struct Val;
template <>
struct Val<bool> {
  static size_t width(size_t) {
    return 1;
  }
  static bool of(const std::vector<bool>& b) {
    return b[0];
  }
  static std::vector<bool> bits(bool v) {
    return {v};
  }
  static constexpr bool shares = false;
};
template <>
struct Val<std::vector<bool>> {
  static size_t width(size_t len) {
    return len;
  }
  static std::vector<bool> of(const std::vector<bool>& b) {
    return b;
  }
  static std::vector<bool> bits(const std::vector<bool>& v) {
    return v;
  }
  static constexpr bool shares = false;
};
template <>
struct Val<uint32_t> {
  static size_t width(size_t) {
    return 32;
  }
  static uint32_t of(const std::vector<bool>& b) {
    uint32_t r = 0;
    for (size_t i = 0; i < 32; i++) {
      r |= (uint32_t)b[i] << i;
    }
    return r;
  }
  static std::vector<bool> bits(uint32_t v) {
    std::vector<bool> r(32);
    for (size_t i = 0; i < 32; i++) {
      r[i] = (v >> i) & 1;
    }
    return r;
  }
  static constexpr bool shares = true;
};
template <bool S, int8_t W>
struct Val<Intp<S, W>> {
  static size_t width(size_t) {
    return W;
  }
  static Intp<S, W> of(const std::vector<bool>& b) {
    i128 r = 0;
    for (size_t i = 0; i < W; i++) {
      r |= (i128)b[i] << i;
    }
    return Intp<S, W>((typename Intp<S, W>::NativeType)wrap<S, W>(r));
  }
  static std::vector<bool> bits(const Intp<S, W>& v) {
    std::vector<bool> r(W);
    for (size_t i = 0; i < W; i++) {
      r[i] = ((u128)get(v) >> i) & 1;
    }
    return r;
  }
  static constexpr bool shares = true;
};
template <>
struct Val<AV> {
  static size_t width(size_t) {
    return 64;
  }
  static AV of(const std::vector<bool>& b) {
    return AV(Val<uint32_t>::of(b), Val<uint32_t>::of({b.begin() + 32, b.end()}));
  }
  static std::vector<bool> bits(const AV& v) {
    auto a = Val<uint32_t>::bits(v.conversionCount), b = Val<uint32_t>::bits(v.conversionValue);
    a.insert(a.end(), b.begin(), b.end());
    return a;
  }
  static constexpr bool shares = true;
};
template <typename A, typename B>
struct Val<std::pair<A, B>> {
  static size_t width(size_t len) {
    return Val<A>::width(len) + Val<B>::width(len);
  }
  static std::pair<A, B> of(const std::vector<bool>& b) {
    size_t second = std::is_same_v<B, bool> ? 1 : Val<B>::width(0);
    return {Val<A>::of({b.begin(), b.end() - second}), Val<B>::of({b.end() - second, b.end()})};
  }
  static std::vector<bool> bits(const std::pair<A, B>& v) {
    auto a = Val<A>::bits(v.first), b = Val<B>::bits(v.second);
    a.insert(a.end(), b.begin(), b.end());
    return a;
  }
  static constexpr bool shares = false;
};
template <typename F>
void withType(Src& s, F&& f) {
  switch (s.below(14)) {
    case 0: return f(std::type_identity<bool>{}, "bit");
    case 1: return f(std::type_identity<std::vector<bool>>{}, "string");
    case 2: return f(std::type_identity<uint32_t>{}, "uint32");
    case 3: return f(std::type_identity<AV>{}, "aggregation");
    case 4: return f(std::type_identity<Intp<false, 7>>{}, "uint7");
    case 5: return f(std::type_identity<Intp<true, 16>>{}, "int16");
    case 6: return f(std::type_identity<Intp<false, 64>>{}, "uint64");
    case 7: return f(std::type_identity<Intp<true, 64>>{}, "int64");
    case 8: return f(std::type_identity<Intp<true, 37>>{}, "int37");
    case 9: return f(std::type_identity<std::pair<uint32_t, bool>>{}, "uint32+bit");
    case 10: return f(std::type_identity<std::pair<bool, bool>>{}, "bit+bit");
    case 11: return f(std::type_identity<std::pair<uint32_t, Intp<true, 16>>>{}, "uint32+int16");
    case 12: return f(std::type_identity<std::pair<std::pair<uint32_t, Intp<false, 64>>, bool>>{}, "(uint32+uint64)+bit");
    default: return f(std::type_identity<std::pair<bool, Intp<false, 7>>>{}, "bit+uint7");
  }
}
template <typename T>
std::string asColumns(const std::vector<T>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) {
    std::string t;
    for (bool b : Val<T>::bits(v[i])) {
      t += b ? '1' : '0';
    }
    r += (i ? " " : "") + t;
  }
  return r + "]";
}
void secret(Src& s, Ctx& c, const SchedCfg& g, size_t most) {
  size_t n = s.chance(1, 4) ? 1 + s.below(3) : 1 + s.below(most);
  withType(s, [&]<typename T>(std::type_identity<T>, const char* what) {
    using V = Val<T>;
    size_t len = s.chance(1, 5) ? 60 + s.below(140) : s.pick({1, 3, 20}), w = V::width(len);
    Rows x = genRows(s, w, n), y = genRows(s, w, n), mask = genRows(s, w, n);
    std::vector<bool> ind = s.bits(n);
    int fx = s.below(2), fy = s.below(2), to = s.below(2);
    // a split of the batch
    auto split = std::make_shared<std::vector<uint32_t>>();
    for (uint32_t left = n; left;) {
      uint32_t k = 1 + s.below(left);
      split->push_back(k);
      left -= k;
    }
    c.desc = cat(show(g), " ", what, "/", w, " n ", n, " split ", list(*split), " ", list(columns(x)).substr(0, 200), " / ", list(columns(y)).substr(0, 200), " by ", list(ind));
    c.nontrivial = n > 1;
    c.label(what);
    auto typed = [&](const Rows& r) {
      if constexpr (std::is_same_v<T, std::vector<bool>>) {
        return r; // strings are given bit by bit: row i has bit i of the whole batch
      } else {
      std::vector<T> v;
      for (size_t j = 0; j < n; j++) {
        std::vector<bool> b;
        for (auto& row : r) {
          b.push_back(row[j]);
        }
        v.push_back(V::of(b));
      }
      return v;
      }
    };
    Rows sw0 = x, sw1 = x;
    for (size_t i = 0; i < w; i++) {
      for (size_t j = 0; j < n; j++) {
        sw0[i][j] = ind[j] ? y[i][j] : x[i][j];
        sw1[i][j] = ind[j] ? x[i][j] : y[i][j];
      }
    }
    runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
      using M = mu::MpcAdapters<T, sid>;
      auto opened = [&](const auto& v, const Rows& want, const char* name) {
        auto got = M::openToParty(v, to);
        if (me == to) {
          if constexpr (std::is_same_v<T, std::vector<bool>>) {
            requireEq(list(columns(got)), list(columns(want)), name);
          } else {
            requireEq(asColumns(got), list(columns(want)), name);
          }
        }
      };
      // the party that does not own the input has the right number of any values
      auto blank = Rows(w, std::vector<bool>(n));
      auto sx = M::processSecretInputs(typed(me == fx ? x : blank), fx);
      auto sy = M::processSecretInputs(typed(me == fy ? y : blank), fy);
      auto si = mu::MpcAdapters<bool, sid>::processSecretInputs(me == 1 ? ind : std::vector<bool>(n), 1);
      opened(sx, x, "input opened");
      auto [a, b] = M::obliviousSwap(sx, sy, si);
      opened(a, sw0, "first of the swapped");
      opened(b, sw1, "second of the swapped");
      opened(sx, x, "input after the swap");
      if constexpr (!std::is_same_v<T, AV>) {
        auto parts = M::unbatching(sy, split);
        requireEq(parts.size(), split->size(), "parts");
        size_t at = 0;
        for (size_t p = 0; p < parts.size(); p++) {
          Rows want(w);
          for (size_t i = 0; i < w; i++) {
            want[i].assign(y[i].begin() + at, y[i].begin() + at + split->at(p));
          }
          at += split->at(p);
          if (p < 3) {
            opened(parts[p], want, "part of the batch");
          }
        }
        auto joined = M::batchingWith(sx, parts);
        Rows want = x;
        for (size_t i = 0; i < w; i++) {
          want[i].insert(want[i].end(), y[i].begin(), y[i].end());
        }
        opened(joined, want, "joined batch");
      }
      if constexpr (V::shares) {
        Rows mine = mask;
        if (me == 0) {
          for (size_t i = 0; i < w; i++) {
            for (size_t j = 0; j < n; j++) {
              mine[i][j] = mine[i][j] != y[i][j];
            }
          }
        }
        opened(M::recoverBatchSharedSecrets(mine), y, "recovered from shares");
      }
    });
  });
}
PROPERTY(networked, 500, 15000) {
  secret(s, c, genSched(s, {Sched::NetPlain}, 2, false), 60);
}
PROPERTY(eager, 200, 6000) {
  secret(s, c, genSched(s, {Sched::Eager}, 2, false), 30);
}
PROPERTY(lazy, 200, 6000) {
  secret(s, c, genSched(s, {Sched::Lazy}, 2, false), 30);
}
} // namespace
