// C21: single-point arrays, the delta and the difference calculator.
#include "fbpcf/mpc_std_lib/oram/DifferenceCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummyDifferenceCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummyObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummySinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/ObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/SinglePointArrayGeneratorFactory.h"
#include "m128.h"
#include "stdkit.h"
using namespace pbt;
namespace {
namespace om = msl::oram;
using AV = msl::util::AggregationValue;
bool same(__m128i a, __m128i b) {
  return _mm_extract_epi64(a, 0) == _mm_extract_epi64(b, 0) && _mm_extract_epi64(a, 1) == _mm_extract_epi64(b, 1);
}
std::string hex(__m128i a) {
  char t[40];
  snprintf(t, sizeof t, "%016llx%016llx", (unsigned long long)_mm_extract_epi64(a, 1), (unsigned long long)_mm_extract_epi64(a, 0));
  return t;
}
// --- single-point arrays
void arrays(Src& s, Ctx& c, const SchedCfg& g, size_t mostLen, size_t mostBatch) {
  size_t length = s.chance(1, 4) ? 1 + s.below(4) : s.sizeUpTo(mostLen);
  if (s.chance(1, 4)) {
    length = std::max<size_t>(1, std::min<size_t>(mostLen, (1u << s.below(mostLen > 1024 ? 13 : 10)) + s.below(3) - 1));
  }
  int need = 0;
  while ((1ull << need) < length) {
    need++;
  }
  int width = std::max(1, need) + (s.chance(1, 4) ? s.below(5) : 0);
  size_t n = s.chance(1, 4) ? 1 + s.below(3) : 1 + s.below(mostBatch);
  int kind = s.below(4); // 0 dummy arrays, 1 dummy delta, else the real thing
  bool flip = s.coin(), twice = s.chance(1, 4);
  std::vector<size_t> idx;
  Rows bits(width, std::vector<bool>(n));
  for (size_t j = 0; j < n; j++) {
    idx.push_back(s.chance(1, 4) ? length - 1 : s.chance(1, 4) ? 0 : s.below(length));
    for (int b = 0; b < width; b++) {
      bits[b][j] = (idx[j] >> b) & 1;
    }
  }
  std::array<Rows, 2> sh;
  sh[1] = genRows(s, width, n);
  sh[0] = bits;
  for (int b = 0; b < width; b++) {
    for (size_t j = 0; j < n; j++) {
      sh[0][b][j] = bits[b][j] != sh[1][b][j];
    }
  }
  int bad = s.chance(1, 12) ? 1 + s.below(3) : 0;
  if (bad == 3 && (width < 2 || kind == 0)) {
    bad = 1;
  }
  int badRow = bad == 3 ? s.below(width) : 0;
  bool longer = bad == 3 && s.coin();
  if (kind == 0 && bad == 1) {
    bad = 2; // the stand-in looks at the first row before it counts them
  }
  c.desc = cat(show(g), kind == 0 ? " dummy arrays" : kind == 1 ? " dummy delta" : "", flip ? " flipped" : "", " length ", length, " index bits ", width, " ", list(idx), bad ? cat(" bad ", bad) : "", twice ? " twice" : "");
  c.nontrivial = length > 1 && !bad;
  c.labelIf(length == 1, "length 1");
  c.labelIf(bad, "rejection");
  c.labelIf((length & (length - 1)) == 0, "power of two");
  c.labelIf(width > need, "more index bits than needed");
  using Arr = std::vector<std::pair<std::vector<bool>, std::vector<__m128i>>>;
  std::array<std::vector<Arr>, 2> out;
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto af = net->factory(me, 2);
    bool first = (me == 0) != flip;
    int p0 = flip, p1 = !flip;
    std::unique_ptr<om::ISinglePointArrayGenerator> q;
    if (kind == 0) {
      q = om::insecure::DummySinglePointArrayGeneratorFactory(first, 1 - me, *af).create();
    } else if (kind == 1) {
      q = om::SinglePointArrayGeneratorFactory(first, std::make_unique<om::insecure::DummyObliviousDeltaCalculatorFactory>(1 - me, *af)).create();
    } else {
      q = om::SinglePointArrayGeneratorFactory(first, std::make_unique<om::ObliviousDeltaCalculatorFactory<sid>>(first, p0, p1)).create();
    }
    if (bad) {
      Rows in = sh[me];
      if (bad == 1) {
        in.clear();
      } else if (bad == 2) {
        in.assign(width, {});
      } else { // the batches of the bits differ in size
        if (longer) {
          in[badRow].push_back(false);
        } else {
          in[badRow].pop_back();
        }
      }
      requireThrows<std::invalid_argument>([&] { q->generateSinglePointArrays(in, length); }, "malformed indexes");
      if (kind > 1 && bad != 3) {
        requireThrows<std::invalid_argument>([&] { q->generateSinglePointArrays(Rows(64, std::vector<bool>(n)), length); }, "64 index bits");
      }
    }
    for (int t = 0; t < 1 + twice && bad != 3; t++) {
      out[me].push_back(q->generateSinglePointArrays(sh[me], length));
    }
  }, net);
  std::set<std::string> keys;
  for (size_t t = 0; t < out[0].size(); t++) {
    auto &a = out[0][t], &b = out[1][t];
    requireEq(a.size(), n, "arrays of party 0");
    requireEq(b.size(), n, "arrays of party 1");
    for (size_t j = 0; j < n; j++) {
      for (auto* x : {&a[j], &b[j]}) {
        requireEq(x->first.size(), length, "indicators");
        requireEq(x->second.size(), length, "keys");
      }
      for (size_t i = 0; i < length; i++) {
        bool hot = i == idx[j];
        requireEq(a[j].first[i] != b[j].first[i], hot, "array ", j, ": indicators differ at ", i, " (index ", idx[j], ")");
        requireEq(same(a[j].second[i], b[j].second[i]), !hot, "array ", j, ": keys agree at ", i, " (index ", idx[j], ") ", hex(a[j].second[i]), " ", hex(b[j].second[i]));
        if (kind != 0) { // keys seed masks: a key may not come twice
          require(keys.insert(hex(a[j].second[i])).second, "array ", j, ": key ", i, " of party 0 was seen before");
          if (hot) {
            require(keys.insert(hex(b[j].second[i])).second, "array ", j, ": key ", i, " of party 1 was seen before");
          }
        }
      }
    }
  }
}
PROPERTY(arraysNetworked, 300, 12000) {
  arrays(s, c, genSched(s, {Sched::NetPlain}, 2, false), 520, 30);
}
PROPERTY(longArrays, 10, 200) {
  arrays(s, c, genSched(s, {Sched::NetPlain}, 2, false), 6000, 6);
}
PROPERTY(manyArrays, 10, 200) {
  arrays(s, c, genSched(s, {Sched::NetPlain}, 2, false), 40, 700);
}
PROPERTY(arraysEager, 80, 2500) {
  arrays(s, c, genSched(s, {Sched::Eager}, 2, false), 40, 10);
}
PROPERTY(arraysLazy, 80, 2500) {
  arrays(s, c, genSched(s, {Sched::Lazy}, 2, false), 40, 10);
}
// --- delta
void delta(Src& s, Ctx& c, const SchedCfg& g, size_t most = 80) {
  size_t n = s.chance(1, 4) ? 1 + s.below(3) : 1 + s.below(most);
  bool dummy = s.chance(1, 4), flip = s.coin();
  Rng r = s.rng();
  std::array<std::array<std::vector<__m128i>, 2>, 2> d; // party, which
  std::array<std::vector<bool>, 2> al;
  auto block = [&] {
    return r.u64() % 8 == 0 ? _mm_set_epi64x(0, 0) : _mm_set_epi64x(r.u64(), r.u64());
  };
  for (int p = 0; p < 2; p++) {
    for (auto& v : d[p]) {
      v.resize(n);
      for (auto& x : v) {
        x = block();
      }
    }
    al[p] = s.bits(n);
  }
  c.desc = cat(show(g), dummy ? " dummy" : "", flip ? " flipped" : "", " n ", n, " ", list(al[0]), list(al[1]));
  c.nontrivial = n > 1;
  c.labelIf(dummy, "dummy");
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto af = net->factory(me, 2);
    bool first = (me == 0) != flip;
    std::unique_ptr<om::IObliviousDeltaCalculator> q;
    if (dummy) {
      q = om::insecure::DummyObliviousDeltaCalculatorFactory(1 - me, *af).create();
    } else {
      q = om::ObliviousDeltaCalculatorFactory<sid>(first, flip, !flip).create();
    }
    auto [dl, t0, t1] = q->calculateDelta(d[me][0], d[me][1], al[me]);
    requireEq(dl.size(), n, "deltas");
    requireEq(t0.size(), n, "t0");
    requireEq(t1.size(), n, "t1");
    for (size_t i = 0; i < n; i++) {
      auto x0 = _mm_xor_si128(d[0][0][i], d[1][0][i]), x1 = _mm_xor_si128(d[0][1][i], d[1][1][i]);
      bool a = al[0][i] != al[1][i];
      requireEq(hex(dl[i]), hex(a ? x0 : x1), "delta ", i, " for choice ", a);
      bool l0 = _mm_extract_epi64(x0, 0) & 1, l1 = _mm_extract_epi64(x1, 0) & 1;
      requireEq((bool)t0[i], (l0 != a) != true, "t0 ", i);
      requireEq((bool)t1[i], l1 != a, "t1 ", i);
    }
  }, net);
}
PROPERTY(deltaNetworked, 300, 12000) {
  delta(s, c, genSched(s, {Sched::NetPlain}, 2, false));
}
PROPERTY(manyDeltas, 12, 300) {
  delta(s, c, genSched(s, {Sched::NetPlain}, 2, false), 5000);
}
PROPERTY(deltaEngine, 80, 2500) {
  delta(s, c, genSched(s, {Sched::Eager, Sched::Lazy}, 2, false));
}
// --- difference
template <bool S, int8_t W>
std::vector<uint64_t> words(const Intp<S, W>& x) {
  return {(uint64_t)(typename Intp<S, W>::NativeType)x & (~0ull >> (64 - W))};
}
std::vector<uint64_t> words(uint32_t x) {
  return {x};
}
std::vector<uint64_t> words(const AV& x) {
  return {x.conversionCount, x.conversionValue};
}
template <typename T>
struct Shape {
  static std::vector<int> widths() {
    return {32};
  }
  static T of(const std::vector<uint64_t>& w) {
    return w[0];
  }
};
template <bool S, int8_t W>
struct Shape<Intp<S, W>> {
  static std::vector<int> widths() {
    return {W};
  }
  static Intp<S, W> of(const std::vector<uint64_t>& w) {
    int64_t v = w[0] << (64 - W);
    return Intp<S, W>((typename Intp<S, W>::NativeType)(S ? v >> (64 - W) : (int64_t)w[0]));
  }
};
template <>
struct Shape<AV> {
  static std::vector<int> widths() {
    return {32, 32};
  }
  static AV of(const std::vector<uint64_t>& w) {
    return AV(w[0], w[1]);
  }
};
uint64_t maskOf(int w) {
  return ~0ull >> (64 - w);
}
template <typename T, int8_t SW>
void difference(Src& s, Ctx& c, const SchedCfg& g, const char* what) {
  auto ws = Shape<T>::widths();
  int total = 0;
  for (int w : ws) {
    total += w;
  }
  size_t n = s.chance(1, 4) ? 1 + s.below(3) : 1 + s.below(50);
  bool dummy = s.chance(1, 4), flip = s.coin();
  std::array<std::vector<uint32_t>, 2> ind;
  std::array<std::vector<T>, 2> sub;
  std::array<Rows, 2> min;
  std::vector<std::vector<uint64_t>> want;
  for (auto& m : min) {
    m.assign(total, std::vector<bool>(n));
  }
  int neg = 0;
  for (size_t j = 0; j < n; j++) {
    bool minus = s.coin();
    neg += minus;
    uint32_t top = (1u << SW) - 1, lo = s.chance(1, 3) ? (s.coin() ? 0 : top - 1) : s.below(top);
    int p0 = flip ? 1 : 0;
    ind[p0].push_back(minus ? lo : lo + 1);
    ind[1 - p0].push_back(minus ? lo + 1 : lo);
    std::vector<uint64_t> a, x, y, w;
    int b = 0;
    for (int wd : ws) {
      uint64_t m = s.edgyU(maskOf(wd)), share = s.u64() & maskOf(wd), s0 = s.edgyU(maskOf(wd)), s1 = s.edgyU(maskOf(wd));
      for (int t = 0; t < wd; t++, b++) {
        min[1][b][j] = (share >> t) & 1;
        min[0][b][j] = ((share ^ m) >> t) & 1;
      }
      x.push_back(s0);
      y.push_back(s1);
      uint64_t d = m - (p0 == 0 ? s0 - s1 : s1 - s0);
      w.push_back((minus ? 0 - d : d) & maskOf(wd));
    }
    sub[0].push_back(Shape<T>::of(x));
    sub[1].push_back(Shape<T>::of(y));
    want.push_back(w);
  }
  c.desc = cat(show(g), dummy ? " dummy " : " ", what, flip ? " flipped" : "", " indicator bits ", (int)SW, " n ", n, " ", list(ind[0]), list(ind[1]));
  c.nontrivial = neg > 0 && neg < (int)n;
  c.labelIf(dummy, "dummy");
  c.label(what);
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto af = net->factory(me, 2);
    bool first = (me == 0) != flip;
    std::unique_ptr<om::IDifferenceCalculator<T>> q;
    if (dummy) {
      q = om::insecure::DummyDifferenceCalculatorFactory<T, SW>(first, 1 - me, *af).create();
    } else {
      q = om::DifferenceCalculatorFactory<T, SW, sid>(first, flip, !flip).create();
    }
    auto got = q->calculateDifferenceBatch(ind[me], min[me], sub[me]);
    requireEq(got.size(), n, "differences");
    for (size_t j = 0; j < n; j++) {
      requireEq(list(words(got[j])), list(want[j]), "difference ", j);
    }
  }, net);
}
void anyDifference(Src& s, Ctx& c, const SchedCfg& g) {
  switch (s.below(6)) {
    case 0: return difference<uint32_t, 12>(s, c, g, "uint32");
    case 1: return difference<AV, 12>(s, c, g, "aggregation");
    case 2: return difference<Intp<false, 7>, 4>(s, c, g, "uint7");
    case 3: return difference<Intp<true, 16>, 20>(s, c, g, "int16");
    case 4: return difference<Intp<true, 64>, 12>(s, c, g, "int64");
    default: return difference<Intp<true, 5>, 2>(s, c, g, "int5");
  }
}
PROPERTY(differenceNetworked, 300, 12000) {
  anyDifference(s, c, genSched(s, {Sched::NetPlain}, 2, false));
}
PROPERTY(differenceEngine, 80, 2500) {
  anyDifference(s, c, genSched(s, {Sched::Eager, Sched::Lazy}, 2, false));
}
} // namespace
