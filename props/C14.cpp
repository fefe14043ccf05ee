// C14: fixed-width integers follow two's-complement arithmetic.
// Compiled in PARTS parts: part 0 generates and judges, each part runs the
// programs for the widths that fall to it.
#include "front.h"
using namespace pbt;
namespace ic14 {
enum Op { InSec, InPub, BitSec, BitPub, Add, Sub, Neg, Lt, Le, Gt, Ge, Eq, Mux, Max, Min, Abs, Cast, Trip, Get, Set, And, Xor, Or, Not, Join, Split, Copy, kOps };
struct Step {
  Op op;
  int d = -1; // value defined (ints and bits are numbered separately)
  int a = -1, b = -1, c = -1;
  int k = 0; // width index, element, party
  std::vector<uint64_t> v;
  std::vector<int> more;
  std::vector<uint32_t> sizes;
};
struct Val {
  bool secret;
  std::vector<uint64_t> v;
};
struct Prog {
  bool sign, batch;
  int width, parties;
  std::vector<Step> steps;
  std::vector<Val> ints, bits;
  // out of range inputs and elements to be refused along the way
  std::vector<uint64_t> badIn;
  std::vector<int> badAt;
};
struct Out { // what a party read
  std::vector<std::vector<uint64_t>> ints, bits;
  std::vector<std::vector<uint64_t>> cast; // of each Cast step
};
inline constexpr int kCast[] = {1, 7, 33, 64};
inline int castWidth(int w, int k) {
  return k < 4 ? kCast[k] : k == 4 ? (w > 1 ? w - 1 : 1) : (w < 64 ? w + 1 : 64);
}
constexpr int kTwo[] = {1, 2, 5, 8, 32, 33, 63, 64};
constexpr bool full(int w) {
  for (int x : kTwo) {
    if (x == w) {
      return true;
    }
  }
  return false;
}
using Runner = Out (*)(const Prog&, int me);
void registerRunner(int width, bool sign, bool batch, int sid, Runner r);
} // namespace ic14
using namespace ic14;

// ---------------------------------------------------------------- execution
namespace {
template <bool S, int W, bool Bt, int sid>
struct Exec {
  template <bool sec>
  using I = ff::Int<S, W, sec, sid, Bt>;
  template <bool sec>
  using B = ff::Bit<sec, sid, Bt>;
  using Unit = std::conditional_t<S, int64_t, uint64_t>;
  const Prog& p;
  int me;
  std::vector<I<true>> si;
  std::vector<I<false>> pi;
  std::vector<B<true>> sb;
  std::vector<B<false>> pb;
  Out out;

  static uint64_t sext(uint64_t x) {
    if (S && W < 64) {
      x = (uint64_t)((int64_t)(x << (64 - W)) >> (64 - W));
    }
    return x;
  }
  static auto value(const std::vector<uint64_t>& v) {
    if constexpr (Bt) {
      std::vector<Unit> r;
      for (auto x : v) {
        r.push_back((Unit)sext(x));
      }
      return r;
    } else {
      return (Unit)sext(v[0]);
    }
  }
  static auto bit(const std::vector<uint64_t>& v) {
    if constexpr (Bt) {
      return std::vector<bool>(v.begin(), v.end());
    } else {
      return (bool)v[0];
    }
  }
  template <typename T>
  static std::vector<uint64_t> words(const T& x) {
    if constexpr (Bt) {
      std::vector<uint64_t> r;
      for (auto y : x) {
        r.push_back((uint64_t)y);
      }
      return r;
    } else {
      return {(uint64_t)x};
    }
  }
  template <typename F>
  void ints(int i, F&& f) {
    p.ints[i].secret ? f(si[i]) : f(pi[i]);
  }
  template <typename F>
  void bits(int i, F&& f) {
    p.bits[i].secret ? f(sb[i]) : f(pb[i]);
  }
  template <int8_t w>
  void put(int d, const ff::Int<S, w, true, sid, Bt>& x) {
    si[d] = x;
  }
  template <int8_t w>
  void put(int d, const ff::Int<S, w, false, sid, Bt>& x) {
    pi[d] = x;
  }
  void put(int d, const B<true>& x) {
    sb[d] = x;
  }
  void put(int d, const B<false>& x) {
    pb[d] = x;
  }
  template <typename F>
  void two(const Step& t, F&& f) {
    ints(t.a, [&](auto& x) { ints(t.b, [&](auto& y) { put(t.d, f(x, y)); }); });
  }
  template <typename F>
  void two2(const Step& t, F&& f) {
    bits(t.a, [&](auto& x) { bits(t.b, [&](auto& y) { put(t.d, f(x, y)); }); });
  }
  template <typename T>
  std::vector<uint64_t> openInt(const T& x) {
    return words(x.openToParty(0).getValue());
  }
  template <int8_t w>
  void cast(const Step& t, bool back) {
    ints(t.a, [&](auto& x) {
      auto y = x.template cast<w>();
      if (back) {
        put(t.d, y.template cast<W>());
      } else if constexpr (std::is_same_v<std::decay_t<decltype(x)>, I<true>>) {
        out.cast.push_back(openInt(y));
      } else {
        out.cast.push_back(words(y.getValue()));
      }
    });
  }
  void castK(const Step& t, bool back) {
    switch (t.k) {
      case 0: return cast<1>(t, back);
      case 1: return cast<7>(t, back);
      case 2: return cast<33>(t, back);
      case 3: return cast<64>(t, back);
      case 4: return cast<(W > 1 ? W - 1 : 1)>(t, back);
      default: return cast<(W < 64 ? W + 1 : 64)>(t, back);
    }
  }
  void step(const Step& t) {
    switch (t.op) {
      case InSec: si[t.d] = I<true>(value(t.v), t.k); break;
      case InPub: pi[t.d] = I<false>(value(t.v)); break;
      case BitSec: sb[t.d] = B<true>(bit(t.v), t.k); break;
      case BitPub: pb[t.d] = B<false>(bit(t.v)); break;
      case Add: two(t, [](auto& x, auto& y) { return x + y; }); break;
      case Sub: two(t, [](auto& x, auto& y) { return x - y; }); break;
      case Lt: two(t, [](auto& x, auto& y) { return x < y; }); break;
      case Le: two(t, [](auto& x, auto& y) { return x <= y; }); break;
      case Gt: two(t, [](auto& x, auto& y) { return x > y; }); break;
      case Ge: two(t, [](auto& x, auto& y) { return x >= y; }); break;
      case Eq: two(t, [](auto& x, auto& y) { return x == y; }); break;
      case Max: two(t, [](auto& x, auto& y) { return ff::max(x, y); }); break;
      case Min: two(t, [](auto& x, auto& y) { return ff::min(x, y); }); break;
      case Neg:
        if constexpr (S) {
          ints(t.a, [&](auto& x) { put(t.d, -x); });
        }
        break;
      case Abs:
        if constexpr (S) {
          ints(t.a, [&](auto& x) { put(t.d, ff::abs(x)); });
        }
        break;
      case Mux:
        ints(t.a, [&](auto& x) {
          ints(t.b, [&](auto& y) {
            bits(t.c, [&](auto& z) { put(t.d, x.mux(z, y)); });
          });
        });
        break;
      case Cast: castK(t, false); break;
      case Trip: castK(t, true); break;
      case Get:
        ints(t.a, [&](auto& x) { put(t.d, std::as_const(x)[t.k]); });
        break;
      case Set:
        if (p.ints[t.a].secret) {
          si[t.d] = si[t.a];
          si[t.d][t.k] = sb[t.b];
        } else {
          pi[t.d] = pi[t.a];
          pi[t.d][t.k] = pb[t.b];
        }
        break;
      case Copy:
        ints(t.a, [&](auto& x) {
          auto y(x);
          put(t.d, y);
        });
        break;
      case And: two2(t, [](auto& x, auto& y) { return x & y; }); break;
      case Xor: two2(t, [](auto& x, auto& y) { return x ^ y; }); break;
      case Or: two2(t, [](auto& x, auto& y) { return x | y; }); break;
      case Not: bits(t.a, [&](auto& x) { put(t.d, !x); }); break;
      case Join:
        if constexpr (Bt) {
          std::vector<I<true>> o;
          for (int i : t.more) {
            o.push_back(si[i]);
          }
          si[t.d] = si[t.a].batchingWith(o);
          requireEq(si[t.d].getBatchSize(), p.ints[t.d].v.size(), "batch size after joining");
        }
        break;
      case Split:
        if constexpr (Bt) {
          auto v = si[t.a].unbatching(std::make_shared<std::vector<uint32_t>>(t.sizes));
          requireEq(v.size(), t.sizes.size(), "parts after splitting");
          for (size_t i = 0; i < v.size(); i++) {
            requireEq(v[i].getBatchSize(), (size_t)t.sizes[i], "batch size of part ", i);
            si[t.d + i] = v[i];
          }
        }
        break;
      default: break;
    }
  }
  void refusals() {
    for (auto x : p.badIn) {
      Unit u = (Unit)x;
      if constexpr (Bt) {
        std::vector<Unit> in(3);
        in[x % 3] = u;
        requireThrows<std::runtime_error>([&] { I<true>(in, 0); }, "a secret batch input out of range");
        requireThrows<std::runtime_error>([&] { I<false>{in}; }, "a public batch input out of range");
      } else {
        requireThrows<std::runtime_error>([&] { I<true>(u, 0); }, cat("secret input ", (int64_t)x));
        requireThrows<std::runtime_error>([&] { I<false>{u}; }, cat("public input ", (int64_t)x));
      }
    }
    for (int i : p.badAt) {
      I<false> z;
      requireThrows<std::invalid_argument>([&] { z[i]; }, "an element past the width");
      requireThrows<std::invalid_argument>([&] { std::as_const(z)[i]; }, "an element past the width");
    }
  }
  Out run() {
    si.resize(p.ints.size());
    pi.resize(p.ints.size());
    sb.resize(p.bits.size());
    pb.resize(p.bits.size());
    for (auto& t : p.steps) {
      step(t);
    }
    refusals();
    // lazily scheduled results are all opened before the first is read
    std::vector<I<false>> oi(p.ints.size());
    std::vector<B<false>> ob(p.bits.size());
    for (size_t i = 0; i < oi.size(); i++) {
      oi[i] = p.ints[i].secret ? si[i].openToParty(0) : pi[i];
    }
    for (size_t i = 0; i < ob.size(); i++) {
      ob[i] = p.bits[i].secret ? sb[i].openToParty(0) : pb[i];
    }
    for (auto& x : oi) {
      out.ints.push_back(words(x.getValue()));
    }
    for (auto& x : ob) {
      out.bits.push_back(words(x.getValue()));
    }
    return out;
  }
};
template <bool S, int W, bool Bt, int sid>
Out runOne(const Prog& p, int me) {
  Exec<S, W, Bt, sid> e{p, me};
  return e.run();
}
// all four kinds for the widths run by two parties, two of them for the others
template <int W, int sid>
void reg() {
  constexpr bool all = full(W);
  if constexpr (all || W % 2) {
    registerRunner(W, true, false, sid, runOne<true, W, false, sid>);
    registerRunner(W, false, true, sid, runOne<false, W, true, sid>);
  }
  if constexpr (all || W % 2 == 0) {
    registerRunner(W, false, false, sid, runOne<false, W, false, sid>);
    registerRunner(W, true, true, sid, runOne<true, W, true, sid>);
  }
}
} // namespace
#ifndef PARTS
#define PARTS 8
#endif
#define NAME2(x) ic14_part_##x
#define NAME1(x) NAME2(x)
int NAME1(PART) = PART; // one name of its own per part, as ASan requires
namespace {
// widths PART+1, PART+1+PARTS, ... for one party; one width for two
template <int w>
void regW() {
  if constexpr (w <= 64) {
    reg<w, 0>();
    regW<w + PARTS>();
  }
}
struct Register {
  Register() {
    regW<PART + 1>();
    if constexpr (PART < sizeof kTwo / sizeof kTwo[0]) {
      reg<kTwo[PART], 1>();
    }
  }
} registration;
} // namespace

#if PART == 0
namespace ic14 {
static auto& table() {
  static std::map<std::array<int, 4>, Runner> t;
  return t;
}
void registerRunner(int width, bool sign, bool batch, int sid, Runner r) {
  table()[{width, sign, batch, sid}] = r;
}
// --------------------------------------------------------------- generation
struct Gen {
  Src& s;
  Prog& p;
  uint64_t mask;
  size_t most = 0; // batch size of the inputs
  int secure = 0, cmp = 0;
  bool many = false; // operands of one operation
  std::set<int> used;

  int64_t sg(uint64_t x) const {
    return p.width == 64 ? (int64_t)x : (int64_t)(x << (64 - p.width)) >> (64 - p.width);
  }
  bool less(uint64_t a, uint64_t b) const {
    return p.sign ? sg(a) < sg(b) : a < b;
  }
  uint64_t resize(uint64_t x, int from, int to) const {
    uint64_t y = p.sign && from < 64 ? (uint64_t)((int64_t)(x << (64 - from)) >> (64 - from)) : x;
    return to == 64 ? y : y & ((1ull << to) - 1);
  }
  // as read by getValue
  uint64_t shown(uint64_t x, int w) const {
    return p.sign && w < 64 ? (uint64_t)((int64_t)(x << (64 - w)) >> (64 - w)) : x;
  }
  uint64_t value() {
    if (p.sign) {
      int64_t hi = p.width == 64 ? INT64_MAX : (1ll << (p.width - 1)) - 1;
      return (uint64_t)s.edgy(-hi - 1, hi) & mask;
    }
    return s.edgyU(mask);
  }
  std::vector<uint64_t> values(size_t n) {
    std::vector<uint64_t> v(n);
    if (n > 100) { // one seed for all, and edge values here and there
      auto r = s.rng();
      for (auto& x : v) {
        x = (r.below(4) ? r.u64() >> r.below(64) : 0 - r.below(4)) & mask;
      }
      return v;
    }
    for (size_t i = 0; i < n; i++) {
      // now and then a value next to the one before
      v[i] = i && s.chance(1, 4) ? (v[i - 1] + s.below(3) - 1) & mask : value();
    }
    return v;
  }
  int addInt(bool sec, std::vector<uint64_t> v) {
    p.ints.push_back({sec, std::move(v)});
    return p.ints.size() - 1;
  }
  int addBit(bool sec, std::vector<uint64_t> v) {
    p.bits.push_back({sec, std::move(v)});
    return p.bits.size() - 1;
  }
  int pickInt(size_t size = 0, int secret = -1) {
    std::vector<int> c;
    for (size_t i = 0; i < p.ints.size(); i++) {
      if ((!size || p.ints[i].v.size() == size) && (secret < 0 || p.ints[i].secret == secret)) {
        c.push_back(i);
      }
    }
    // favour recent values, so that results are used again
    return c.empty() ? -1 : s.coin() ? c[c.size() - 1 - s.below(std::min<size_t>(c.size(), 3))] : c[s.below(c.size())];
  }
  int pickBit(size_t size, int secret = -1) {
    std::vector<int> c;
    for (size_t i = 0; i < p.bits.size(); i++) {
      if (p.bits[i].v.size() == size && (secret < 0 || p.bits[i].secret == secret)) {
        c.push_back(i);
      }
    }
    return c.empty() ? -1 : c[s.below(c.size())];
  }
  void step(Op op, size_t n) {
    Step t;
    t.op = op;
    auto map2 = [&](auto f) {
      std::vector<uint64_t> r;
      for (size_t i = 0; i < p.ints[t.a].v.size(); i++) {
        r.push_back(f(p.ints[t.a].v[i], t.b < 0 ? 0 : p.ints[t.b].v[i]) & mask);
      }
      return r;
    };
    switch (op) {
      case InSec:
      case InPub:
        t.v = values(n);
        t.k = s.below(p.parties);
        t.d = addInt(op == InSec, t.v);
        break;
      case BitSec:
      case BitPub: {
        auto b = s.bits(n);
        t.v.assign(b.begin(), b.end());
        t.k = s.below(p.parties);
        t.d = addBit(op == BitSec, t.v);
        break;
      }
      case Add: case Sub: case Max: case Min: {
        t.a = pickInt();
        t.b = pickInt(p.ints[t.a].v.size());
        bool sec = p.ints[t.a].secret || p.ints[t.b].secret;
        t.d = addInt(sec, map2([&](uint64_t x, uint64_t y) {
          return op == Add ? x + y : op == Sub ? x - y : op == Max ? (less(x, y) ? y : x) : (less(x, y) ? x : y);
        }));
        secure += sec;
        break;
      }
      case Neg: case Abs:
        if (!p.sign) {
          return;
        }
        t.a = pickInt();
        t.d = addInt(p.ints[t.a].secret, map2([&](uint64_t x, uint64_t) {
          return op == Neg || sg(x) < 0 ? 0 - x : x;
        }));
        secure += p.ints[t.a].secret;
        break;
      case Lt: case Le: case Gt: case Ge: case Eq: {
        t.a = pickInt();
        t.b = pickInt(p.ints[t.a].v.size());
        bool sec = p.ints[t.a].secret || p.ints[t.b].secret;
        auto v = map2([&](uint64_t x, uint64_t y) -> uint64_t {
          return op == Lt ? less(x, y) : op == Le ? !less(y, x) : op == Gt ? less(y, x) : op == Ge ? !less(x, y) : x == y;
        });
        t.d = addBit(sec, v);
        secure += sec;
        cmp++;
        break;
      }
      case Mux: {
        t.a = pickInt();
        size_t m = p.ints[t.a].v.size();
        t.b = pickInt(m);
        t.c = pickBit(m);
        if (t.c < 0) {
          return;
        }
        bool sec = p.ints[t.a].secret || p.ints[t.b].secret || p.bits[t.c].secret;
        std::vector<uint64_t> r;
        for (size_t i = 0; i < m; i++) {
          r.push_back(p.bits[t.c].v[i] ? p.ints[t.b].v[i] : p.ints[t.a].v[i]);
        }
        t.d = addInt(sec, r);
        secure += sec;
        break;
      }
      case Cast: case Trip: {
        t.a = pickInt();
        t.k = s.below(6);
        int w = castWidth(p.width, t.k);
        std::vector<uint64_t> r;
        for (auto x : p.ints[t.a].v) {
          x = resize(x, p.width, w);
          r.push_back(op == Cast ? shown(x, w) : resize(x, w, p.width));
        }
        if (op == Cast) {
          t.v = r; // expected
        } else {
          t.d = addInt(p.ints[t.a].secret, r);
        }
        break;
      }
      case Get: {
        t.a = pickInt();
        t.k = s.below(p.width);
        std::vector<uint64_t> r;
        for (auto x : p.ints[t.a].v) {
          r.push_back(x >> t.k & 1);
        }
        t.d = addBit(p.ints[t.a].secret, r);
        break;
      }
      case Set: {
        t.a = pickInt();
        t.b = pickBit(p.ints[t.a].v.size(), p.ints[t.a].secret);
        if (t.b < 0) {
          return;
        }
        t.k = s.below(p.width);
        auto r = p.ints[t.a].v;
        for (size_t i = 0; i < r.size(); i++) {
          r[i] = (r[i] & ~(1ull << t.k)) | p.bits[t.b].v[i] << t.k;
        }
        t.d = addInt(p.ints[t.a].secret, r);
        break;
      }
      case Copy:
        t.a = pickInt();
        t.d = addInt(p.ints[t.a].secret, p.ints[t.a].v);
        break;
      case And: case Xor: case Or: case Not: {
        t.a = p.bits.empty() ? -1 : (int)s.below(p.bits.size());
        if (t.a < 0) {
          return;
        }
        t.b = op == Not ? t.a : pickBit(p.bits[t.a].v.size());
        std::vector<uint64_t> r;
        for (size_t i = 0; i < p.bits[t.a].v.size(); i++) {
          uint64_t x = p.bits[t.a].v[i], y = p.bits[t.b].v[i];
          r.push_back(op == And ? x & y : op == Xor ? x ^ y : op == Or ? x | y : !x);
        }
        t.d = addBit(p.bits[t.a].secret || p.bits[t.b].secret, r);
        break;
      }
      case Join: {
        if (!p.batch || (t.a = pickInt(0, 1)) < 0) {
          return;
        }
        auto r = p.ints[t.a].v;
        size_t k = many ? 4 + s.below(300) : s.below(4);
        for (size_t i = 0; i < k; i++) {
          t.more.push_back(pickInt(0, 1));
          auto& o = p.ints[t.more.back()].v;
          r.insert(r.end(), o.begin(), o.end());
        }
        if (r.size() > 200 && r.size() > 3 * most && (!many || r.size() > 9000)) {
          return;
        }
        t.d = addInt(true, r);
        break;
      }
      case Split: {
        if (!p.batch || (t.a = pickInt(0, 1)) < 0) {
          return;
        }
        auto v = p.ints[t.a].v;
        size_t at = 0;
        while (at < v.size()) {
          size_t k = t.sizes.size() < (many ? 250 : 4) ? 1 + s.below(many ? std::min<size_t>(3, v.size() - at) : v.size() - at) : v.size() - at;
          t.sizes.push_back(k);
          int d = addInt(true, {v.begin() + at, v.begin() + at + k});
          t.d = t.d < 0 ? d : t.d;
          at += k;
        }
        break;
      }
      default: return;
    }
    used.insert(op);
    p.steps.push_back(t);
  }
};
static void go(Src& s, Ctx& c, const SchedCfg& g, int width, size_t most, size_t wide = 0, bool many = false) {
  static const char* nm[] = {"in", "pub", "bit", "pubbit", "+", "-", "neg", "<", "<=", ">", ">=", "==", "mux", "max", "min", "abs", "cast", "trip", "get", "set", "and", "xor", "or", "not", "join", "split", "copy"};
  Prog p;
  p.width = width;
  p.sign = s.coin();
  p.batch = wide || many || s.coin();
  if ((wide || many) && !full(width)) {
    p.sign = width % 2 == 0;
  } else if (!full(width)) {
    p.batch = p.sign == (width % 2 == 0);
  }
  p.parties = g.eng.parties;
  Gen gen{s, p, width == 64 ? ~0ull : (1ull << width) - 1};
  size_t n = wide ? wide : p.batch ? 1 + s.size(0, 12) : 1;
  gen.most = n;
  gen.many = many;
  gen.step(InSec, n);
  gen.step(s.coin() ? InSec : InPub, n);
  size_t len = 2 + s.below(most);
  for (size_t i = 0; i < len; i++) {
    gen.step(many && s.coin() ? s.pick({Join, Split}) : (Op)s.below(kOps), n);
  }
  if (s.coin()) {
    if (width < 64) {
      uint64_t one = 1;
      std::vector<uint64_t> bad = p.sign
          ? std::vector<uint64_t>{one << (width - 1), 0 - (one << (width - 1)) - 1, (uint64_t)INT64_MAX, (uint64_t)INT64_MIN, one << width}
          : std::vector<uint64_t>{one << width, ~0ull, one << 63, (one << width) + s.below(1000)};
      for (auto x : bad) {
        if (s.coin()) {
          p.badIn.push_back(x);
        }
      }
    }
    p.badAt = {width, width + (int)s.below(100), 127};
  }
  c.desc = cat(show(g), p.sign ? " signed" : " unsigned", width, p.batch ? cat("x", n) : "", ":");
  for (auto& t : p.steps) {
    c.desc += cat(" ", nm[t.op]);
    if (t.op <= BitPub && t.v.size() <= 3) {
      for (auto x : t.v) {
        c.desc += cat(",", gen.shown(x, t.op <= InPub ? width : 64));
      }
    }
  }
  c.nontrivial = gen.secure >= 2 && p.steps.size() >= 5;
  c.labelIf(p.batch, "batched");
  c.labelIf(gen.cmp, "a comparison");
  c.labelIf(width >= 63, "width 63 or 64");
  c.labelIf(!p.badIn.empty(), "refused inputs");
  auto* run0 = table().at({width, p.sign, p.batch, 0});
  std::vector<Out> out(2);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    out[me] = (me == 0 ? run0 : table().at({width, p.sign, p.batch, sid}))(p, me);
  });
  auto where = [&](bool isInt, size_t i) {
    for (auto& t : p.steps) {
      bool defInt = t.op <= InPub || (t.op >= Add && t.op <= Neg) || (t.op >= Mux && t.op <= Abs) || t.op == Trip || t.op == Set || t.op >= Join;
      int last = t.op == Split ? t.d + (int)t.sizes.size() - 1 : t.d;
      if (defInt == isInt && (int)i >= t.d && (int)i <= last) {
        std::string r = nm[t.op];
        for (int x : {t.a, t.b}) {
          if (x >= 0) {
            bool ai = t.op < And || t.op > Not;
            ai &= !(t.op == Set && x == t.b);
            r += cat(" ", show(ai ? p.ints[x].v : p.bits[x].v));
          }
        }
        return r;
      }
    }
    return std::string("?");
  };
  auto cmpv = [&](const std::vector<uint64_t>& got, std::vector<uint64_t> want, bool isInt, size_t i, int w, const std::string& party) {
    for (auto& x : want) {
      x = isInt ? gen.shown(x, w) : x;
    }
    if (got != want) {
      fail(cat(party, isInt ? " integer " : " bit ", i, " = ", where(isInt, i), ": got ", show(got), " want ", show(want)));
    }
  };
  for (int me = 0; me < g.eng.parties; me++) {
    bool real = g.k == Sched::Eager || g.k == Sched::Lazy;
    auto who = cat("party ", me, ", ");
    for (size_t i = 0; i < p.ints.size(); i++) {
      if (!p.ints[i].secret || me == 0) {
        cmpv(out[me].ints[i], p.ints[i].v, true, i, width, who);
      }
    }
    for (size_t i = 0; i < p.bits.size(); i++) {
      if (!p.bits[i].secret || me == 0) {
        cmpv(out[me].bits[i], p.bits[i].v, false, i, 64, who);
      }
    }
    size_t k = 0;
    for (auto& t : p.steps) {
      if (t.op == Cast) {
        if (!p.ints[t.a].secret || me == 0) {
          auto& got = out[me].cast.at(k);
          if (got != t.v) {
            fail(cat(who, "cast of ", show(p.ints[t.a].v), " from ", width, " to ", castWidth(width, t.k), " bits: got ", show(got), " want ", show(t.v)));
          }
        }
        k++;
      }
    }
  }
}
} // namespace ic14
PROPERTY(plaintext, 6000, 150000) {
  auto g = genSched(s, {Sched::Plain}, 2, false);
  go(s, c, g, 1 + s.below(64), 25);
}
// batches of thousands of elements: what goes through in blocks must not show
PROPERTY(wideBatches, 60, 3000) {
  auto g = genSched(s, {Sched::Plain, Sched::Plain, Sched::Lazy, Sched::Eager}, 2, false);
  bool real = g.k != Sched::Plain;
  if (real) {
    g.eng.e = Eng::Dummy;
  }
  size_t n = s.pick({1000, 1023, 1024, 1025, 2048, 4095, 4097, 5000}) + s.below(3);
  int w = real ? kTwo[s.below(5)] : 1 + s.below(64);
  go(s, c, g, w, 6, n);
}
// hundreds of integers into one, one into hundreds
PROPERTY(manyOperands, 60, 2000) {
  auto g = genSched(s, {Sched::Plain, Sched::Plain, Sched::Lazy, Sched::Eager}, 2, false);
  bool real = g.k != Sched::Plain;
  if (real) {
    g.eng.e = Eng::Dummy;
  }
  go(s, c, g, real ? kTwo[s.below(5)] : 1 + s.below(64), 5, 0, true);
}
PROPERTY(twoParties, 400, 10000) {
  auto g = genSched(s, {Sched::Eager, Sched::Lazy, Sched::NetPlain}, 2, false);
  if (g.eng.e > Eng::Product && !s.chance(1, 4)) {
    g.eng.e = Eng::Product;
  }
  go(s, c, g, kTwo[s.below(8)], 12);
}
#endif
