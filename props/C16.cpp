// C16: shares exported from a computation combine to the secret and re-import to
// it, also into another computation on another scheduler.
#include "front.h"
using namespace pbt;
namespace {
using Rows = std::vector<std::vector<bool>>; // [bit][position in the batch]
enum Kind { B1, Str, IntK };
struct IntType {
  bool sign;
  int w;
};
constexpr IntType kInts[] = {{true, 7}, {true, 32}, {true, 64}, {false, 1}, {false, 8}, {false, 33}, {false, 64}};
struct Item {
  Kind k = B1;
  int type = 0;
  Rows v, v2; // the value entered, and a second operand
  int from = 0, from2 = 0;
  bool op = false; // export the result of an AND (a negation for integers)
  Rows want; // what is exported
  // how it comes back
  bool handmade = false; // shares split by the harness instead of the exported ones
  int form = 0; // integers: by value, or bit by bit
  bool post = false;
  Rows back; // what the second computation opens
  int to = 0;
  std::vector<Rows> shares, again;
  std::vector<Rows> opened;
};
struct Plan {
  SchedCfg a, b;
  bool batch;
  size_t n;
  std::vector<Item> items;
};
Rows xorAll(const std::vector<Rows>& s) {
  Rows r = s.at(0);
  for (size_t p = 1; p < s.size(); p++) {
    requireEq(s[p].size(), r.size(), "number of bits in party ", p, "'s share");
    for (size_t i = 0; i < r.size(); i++) {
      requireEq(s[p][i].size(), r[i].size(), "batch size in party ", p, "'s share");
      for (size_t j = 0; j < r[i].size(); j++) {
        r[i][j] = r[i][j] ^ s[p][i][j];
      }
    }
  }
  return r;
}
std::string text(const Rows& r) {
  std::string o;
  for (auto& x : r) {
    for (bool b : x) {
      o += b ? '1' : '0';
    }
    o += ' ';
  }
  return o;
}
void same(const Rows& got, const Rows& want, const std::string& what) {
  requireEq(got.size(), want.size(), what, ": number of bits");
  requireEq(text(got), text(want), what);
}

template <bool Bt, int sid>
struct Exec {
  template <int t>
  using I = ff::Int<kInts[t].sign, kInts[t].w, true, sid, Bt>;
  using B = ff::Bit<true, sid, Bt>;
  using S = ff::BitString<true, sid, Bt>;

  static auto bit(const std::vector<bool>& v) {
    if constexpr (Bt) {
      return v;
    } else {
      return (bool)v.at(0);
    }
  }
  static auto bits(const Rows& r) {
    if constexpr (Bt) {
      return r;
    } else {
      std::vector<bool> o;
      for (auto& x : r) {
        o.push_back(x.at(0));
      }
      return o;
    }
  }
  static std::vector<bool> row(bool b) {
    return {b};
  }
  static std::vector<bool> row(const std::vector<bool>& b) {
    return b;
  }
  static Rows rows(const Rows& r) {
    return r;
  }
  static Rows rows(const std::vector<bool>& r) {
    Rows o;
    for (bool b : r) {
      o.push_back({b});
    }
    return o;
  }
  template <int t>
  static auto number(const Rows& r) {
    using U = std::conditional_t<kInts[t].sign, int64_t, uint64_t>;
    constexpr int w = kInts[t].w;
    std::vector<U> o(r.at(0).size());
    for (size_t j = 0; j < o.size(); j++) {
      uint64_t x = 0;
      for (int i = 0; i < w; i++) {
        x |= uint64_t(r[i][j]) << i;
      }
      if (kInts[t].sign && w < 64) {
        x = (uint64_t)((int64_t)(x << (64 - w)) >> (64 - w));
      }
      o[j] = (U)x;
    }
    if constexpr (Bt) {
      return o;
    } else {
      return o[0];
    }
  }
  template <typename T>
  static Rows numberRows(const T& v, int w) {
    Rows r(w);
    auto one = [&](uint64_t x) {
      for (int i = 0; i < w; i++) {
        r[i].push_back((x >> i) & 1);
      }
    };
    if constexpr (Bt) {
      for (auto x : v) {
        one((uint64_t)x);
      }
    } else {
      one((uint64_t)v);
    }
    return r;
  }
  template <typename F>
  static auto withType(int t, F&& f) {
    switch (t) {
      case 0: return f.template operator()<0>();
      case 1: return f.template operator()<1>();
      case 2: return f.template operator()<2>();
      case 3: return f.template operator()<3>();
      case 4: return f.template operator()<4>();
      case 5: return f.template operator()<5>();
      default: return f.template operator()<6>();
    }
  }
  template <int t> // minus x, or twice x where there is no minus
  static I<t> turn(const I<t>& x) {
    if constexpr (kInts[t].sign) {
      return -x;
    } else {
      return x + x;
    }
  }
  template <int t>
  static Rows exported(const I<t>& x) {
    auto e = x.extractIntShare();
    Rows r;
    for (auto b : e.getBooleanShares()) {
      r.push_back(row(b));
    }
    // both readings of a share agree
    if (!(Bt && (r.empty() || r[0].empty()))) {
      same(numberRows(e.getValue(), kInts[t].w), r, "the share as a number");
    }
    return r;
  }
  // the parties queue everything first, so that lazy schedulers have pending gates
  static void exportAll(Plan& p, int me) {
    std::vector<std::function<void()>> later;
    for (auto& it : p.items) {
      switch (it.k) {
        case B1: {
          B x(bit(it.v[0]), it.from);
          if (it.op) {
            x = x & B(bit(it.v2[0]), it.from2);
          }
          later.push_back([&it, me, x] { it.shares[me] = {row(x.extractBit().getValue())}; });
          break;
        }
        case Str: {
          S x(bits(it.v), it.from);
          if (it.op) {
            x = x & S(bits(it.v2), it.from2);
          }
          later.push_back([&it, me, x] { it.shares[me] = rows(x.extractStringShare().getValue()); });
          break;
        }
        case IntK:
          withType(it.type, [&]<int t>() {
            I<t> x(number<t>(it.v), it.from);
            if (it.op) {
              x = turn<t>(x);
            }
            later.push_back([&it, me, x] { it.shares[me] = exported<t>(x); });
          });
          break;
      }
    }
    for (auto& f : later) {
      f();
    }
  }
  static void importAll(Plan& p, int me) {
    std::vector<std::function<void()>> later;
    for (auto& it : p.items) {
      auto& sh = it.shares[me];
      switch (it.k) {
        case B1: {
          B x(typename B::ExtractedBit(bit(sh[0])));
          if (it.post) {
            x = !x;
          }
          later.push_back([&it, me, x] {
            it.again[me] = {row(x.extractBit().getValue())};
            it.opened[me] = {row(x.openToParty(it.to).getValue())};
          });
          break;
        }
        case Str: {
          S x(typename S::ExtractedString(bits(sh)));
          if (it.post) {
            x = !x;
          }
          later.push_back([&it, me, x] {
            it.again[me] = rows(x.extractStringShare().getValue());
            it.opened[me] = rows(x.openToParty(it.to).getValue());
          });
          break;
        }
        case IntK:
          withType(it.type, [&]<int t>() {
            typename I<t>::ExtractedInt e;
            if (it.form == 0) {
              e = typename I<t>::ExtractedInt(number<t>(sh));
            } else {
              for (int i = 0; i < kInts[t].w; i++) {
                e[i] = typename B::ExtractedBit(bit(sh[i]));
              }
            }
            I<t> x(std::move(e));
            if (it.post) {
              x = turn<t>(x);
            }
            later.push_back([&it, me, x] {
              it.again[me] = exported<t>(x);
              it.opened[me] = numberRows(x.openToParty(it.to).getValue(), kInts[t].w);
            });
          });
          break;
      }
    }
    for (auto& f : later) {
      f();
    }
  }
};

Rows genRows(Src& s, size_t w, size_t n) {
  Rows r(w);
  bool edge = s.chance(1, 3);
  for (auto& x : r) {
    x = edge ? std::vector<bool>(n, s.coin()) : s.bits(n);
  }
  return r;
}
Rows notRows(Rows r) {
  for (auto& x : r) {
    x.flip();
  }
  return r;
}
Rows negRows(Rows r) {
  for (size_t j = 0; j < r.at(0).size(); j++) {
    bool carry = true;
    for (auto& x : r) {
      bool b = !x[j];
      x[j] = b ^ carry;
      carry = b && carry;
    }
  }
  return r;
}
Rows turned(const Rows& r, int type) {
  if (kInts[type].sign) {
    return negRows(r);
  }
  auto o = r;
  for (size_t i = 0; i < r.size(); i++) {
    o[i] = i ? r[i - 1] : std::vector<bool>(r[0].size());
  }
  return o;
}
SchedCfg other(Src& s, int parties) { // another scheduler for as many parties
  if (parties == 1) {
    return genSched(s, {Sched::Plain}, 1, false);
  }
  auto g = genSched(s, {Sched::NetPlain, Sched::Eager, Sched::Lazy}, 2, false);
  g.eng.parties = parties;
  if (parties > 2 && g.eng.e != Eng::Dummy) {
    g.eng.e = Eng::Product;
  }
  return g;
}
void go(Src& s, Ctx& c, SchedCfg a, int most, size_t batch = 0) {
  Plan p;
  p.a = a;
  int n = a.eng.parties;
  p.b = other(s, n);
  p.batch = batch || s.coin();
  // the engines take no empty inputs
  p.n = batch ? batch : p.batch ? (a.k < Sched::Eager && s.chance(1, 12) ? 0 : 1 + s.size(0, 20)) : 1;
  size_t k = 1 + s.below(most);
  c.desc = cat(show(p.a), " then ", show(p.b), p.batch ? cat(" batch ", p.n) : "", ":");
  static const char* nm[] = {"bit", "string", "int"};
  bool wide = false;
  for (size_t i = 0; i < k; i++) {
    Item it;
    it.k = s.pick({B1, Str, IntK, IntK});
    it.type = s.below(7);
    size_t w = it.k == B1 ? 1 : it.k == Str ? s.size(0, 20) : kInts[it.type].w;
    it.v = genRows(s, w, p.n);
    it.from = s.below(n);
    it.op = s.coin();
    it.want = it.v;
    if (it.op) {
      it.from2 = s.below(n);
      if (it.k == IntK) {
        it.want = turned(it.v, it.type);
      } else {
        it.v2 = genRows(s, w, p.n);
        for (size_t x = 0; x < w; x++) {
          for (size_t j = 0; j < p.n; j++) {
            it.want[x][j] = it.v[x][j] && it.v2[x][j];
          }
        }
      }
    }
    it.handmade = s.chance(1, 4);
    it.form = s.below(2);
    it.post = s.coin();
    it.back = !it.post ? it.want : it.k == IntK ? turned(it.want, it.type) : notRows(it.want);
    it.to = s.below(n);
    it.shares.resize(n);
    it.again.resize(n);
    it.opened.resize(n);
    c.desc += cat(" ", nm[it.k], w, it.op ? " computed" : "", it.handmade ? " handmade" : "", it.form ? "" : " v", it.post ? " post" : "", " ", text(it.v), "->", it.to, ";");
    wide = wide || w * p.n > 1;
    p.items.push_back(std::move(it));
  }
  Rng r = s.rng();
  c.nontrivial = wide && n > 1;
  c.labelIf(p.a.k != p.b.k, "into another kind of scheduler");
  c.labelIf(n == 1, "plaintext");
  c.labelIf(n > 2, "three parties");
  c.labelIf(p.batch && p.n == 0, "empty batch");
  auto run = [&](const SchedCfg& g, uint64_t seed, bool first) {
    runGame<3>(g, seed, [&]<int sid>(int me) {
      if (p.batch) {
        first ? Exec<true, sid>::exportAll(p, me) : Exec<true, sid>::importAll(p, me);
      } else {
        first ? Exec<false, sid>::exportAll(p, me) : Exec<false, sid>::importAll(p, me);
      }
    });
  };
  run(p.a, c.caseSeed, true);
  for (size_t i = 0; i < k; i++) {
    auto& it = p.items[i];
    same(xorAll(it.shares), it.want, cat("shares of item ", i, " combined"));
    if (it.handmade) {
      for (int q = 1; q < n; q++) {
        for (auto& x : it.shares[q]) {
          for (size_t j = 0; j < x.size(); j++) {
            x[j] = r.bit();
          }
        }
      }
      it.shares[0] = it.want;
      it.shares[0] = xorAll(it.shares);
    }
  }
  run(p.b, c.caseSeed + 1, false);
  for (size_t i = 0; i < k; i++) {
    auto& it = p.items[i];
    same(it.opened[it.to], it.back, cat("item ", i, " imported and opened"));
    same(xorAll(it.again), it.back, cat("item ", i, " imported and exported again"));
  }
}
PROPERTY(plaintext, 1500, 40000) {
  go(s, c, genSched(s, {Sched::Plain}, 1, false), 6);
}
PROPERTY(networked, 500, 15000) {
  go(s, c, genSched(s, {Sched::NetPlain}, 3, false), 5);
}
PROPERTY(widestBatches, 4, 60) {
  go(s, c, genSched(s, {Sched::Plain}, 1, false), 2, 65530 + s.below(2000));
}
PROPERTY(wideBatches, 40, 1500) {
  auto g = genSched(s, {Sched::Plain, Sched::NetPlain, Sched::Eager, Sched::Lazy}, 3, false);
  if (g.eng.e == Eng::Iknp || g.eng.e == Eng::Ferret) {
    g.eng.e = Eng::Dealer;
  }
  go(s, c, g, 2, s.pick({64, 65, 255, 257, 600, 1025}) + s.below(2));
}
PROPERTY(eager, 450, 10000) {
  go(s, c, genSched(s, {Sched::Eager}, 3, false), 4);
}
PROPERTY(lazy, 500, 15000) {
  go(s, c, genSched(s, {Sched::Lazy}, 3, false), 6);
}

// 64-bit arithmetic wires, through the scheduler interface
void arith(Src& s, Ctx& c, SchedCfg a, size_t wide = 0) {
  int n = a.eng.parties;
  auto b = other(s, n);
  b.eng.arithmetic = true;
  b.eng.buffer = std::min(b.eng.buffer, 100);
  bool batch = wide || s.coin();
  size_t len = wide ? wide : batch ? (a.k < Sched::Eager && s.chance(1, 12) ? 0 : 1 + s.size(0, 12)) : 1;
  size_t k = 1 + s.below(4);
  struct It {
    std::vector<uint64_t> x, y, want, back;
    int fx, fy, to;
    bool mul, post, handmade;
    std::vector<std::vector<uint64_t>> sh, again, opened;
  };
  std::vector<It> items(k);
  c.desc = cat(show(a), " then ", show(b), batch ? cat(" batch ", len) : "", ":");
  for (auto& it : items) {
    it.mul = s.coin();
    it.post = s.coin();
    it.handmade = s.chance(1, 4);
    it.fx = s.below(n);
    it.fy = s.below(n);
    it.to = s.below(n);
    auto many = s.rng();
    for (size_t j = 0; j < len; j++) {
      it.x.push_back(wide ? many.u64() : s.edgyU(UINT64_MAX));
      it.y.push_back(wide ? many.u64() : s.edgyU(UINT64_MAX));
      it.want.push_back(it.mul ? it.x[j] * it.y[j] : it.x[j]);
      it.back.push_back(it.post ? -it.want[j] : it.want[j]);
    }
    it.sh.resize(n);
    it.again.resize(n);
    it.opened.resize(n);
    c.desc += cat(it.mul ? " product" : " input", it.post ? " negated" : "", it.handmade ? " handmade" : "", " ", it.x.empty() ? 0 : it.x[0], ";");
  }
  Rng r = s.rng();
  c.nontrivial = n > 1 && len > 0;
  c.labelIf(a.k != b.k, "into another kind of scheduler");
  auto run = [&](const SchedCfg& g, uint64_t seed, auto&& f) {
    auto net = std::make_shared<Net>(seed | 1);
    std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
    for (int i = 0; i < n; i++) {
      af.push_back(net->factory(i, std::max(n, 2)));
    }
    runParties(*net, n, seed, [&](int me) {
      auto d = makeScheduler(g, me, *af[me]);
      f(me, *d);
    });
  };
  using W = fs::IScheduler::WireId<fs::IScheduler::Arithmetic>;
  auto take = [&](fs::IArithmeticScheduler& d, W w) {
    return batch ? d.extractIntegerSecretShareBatch(w) : std::vector<uint64_t>{d.extractIntegerSecretShare(w)};
  };
  run(a, c.caseSeed, [&](int me, fs::IArithmeticScheduler& d) {
    std::vector<W> out;
    for (auto& it : items) {
      auto x = batch ? d.privateIntegerInputBatch(it.x, it.fx) : d.privateIntegerInput(it.x[0], it.fx);
      if (it.mul) {
        auto y = batch ? d.privateIntegerInputBatch(it.y, it.fy) : d.privateIntegerInput(it.y[0], it.fy);
        x = batch ? d.privateMultPrivateBatch(x, y) : d.privateMultPrivate(x, y);
      }
      out.push_back(x);
    }
    for (size_t i = 0; i < k; i++) {
      items[i].sh[me] = take(d, out[i]);
    }
  });
  auto sum = [&](const std::vector<std::vector<uint64_t>>& sh) {
    auto t = sh[0];
    for (int q = 1; q < n; q++) {
      requireEq(sh[q].size(), t.size(), "size of party ", q, "'s share");
      for (size_t j = 0; j < t.size(); j++) {
        t[j] += sh[q][j];
      }
    }
    return t;
  };
  for (auto& it : items) {
    requireEq(sum(it.sh), it.want, "exported shares combined");
    if (it.handmade) {
      it.sh[0] = it.want;
      for (int q = 1; q < n; q++) {
        for (size_t j = 0; j < len; j++) {
          it.sh[q][j] = r.u64();
          it.sh[0][j] -= it.sh[q][j];
        }
      }
    }
  }
  run(b, c.caseSeed + 1, [&](int me, fs::IArithmeticScheduler& d) {
    std::vector<W> out;
    for (auto& it : items) {
      auto x = batch ? d.recoverIntegerWireBatch(it.sh[me]) : d.recoverIntegerWire(it.sh[me][0]);
      if (it.post) {
        x = batch ? d.negPrivateBatch(x) : d.negPrivate(x);
      }
      out.push_back(x);
    }
    for (size_t i = 0; i < k; i++) {
      auto& it = items[i];
      it.again[me] = take(d, out[i]);
      auto o = batch ? d.openIntegerValueToPartyBatch(out[i], it.to) : d.openIntegerValueToParty(out[i], it.to);
      it.opened[me] = batch ? d.getIntegerValueBatch(o) : std::vector<uint64_t>{d.getIntegerValue(o)};
    }
  });
  for (auto& it : items) {
    requireEq(it.opened[it.to], it.back, "imported and opened");
    requireEq(sum(it.again), it.back, "imported and exported again");
  }
}
PROPERTY(words, 450, 20000) {
  arith(s, c, genSched(s, {Sched::Plain, Sched::NetPlain, Sched::Eager, Sched::Lazy}, 3, true));
}

PROPERTY(wideWords, 30, 600) {
  auto g = genSched(s, {Sched::Plain, Sched::NetPlain, Sched::NetPlain, Sched::Eager, Sched::Lazy}, 3, true);
  bool real = g.k >= Sched::Eager;
  if (g.eng.e == Eng::Iknp || g.eng.e == Eng::Ferret) {
    g.eng.e = Eng::Dealer;
  }
  arith(s, c, g, real ? s.pick({64, 255, 257}) : s.pick({64, 257, 1023, 1025, 4097, 20000}));
}
// Rows of different batch sizes do not make a string.
PROPERTY(ragged, 300, 5000) {
  size_t len = 1 + s.below(8);
  std::vector<std::vector<bool>> v(len);
  std::set<size_t> sizes;
  size_t base = s.below(5);
  for (auto& x : v) {
    x = s.bits(s.chance(1, 3) ? s.below(5) : base);
    sizes.insert(x.size());
    c.desc += cat(x.size(), " ");
  }
  c.nontrivial = sizes.size() > 1;
  using E = ff::BitString<true, 0, true>::ExtractedString;
  if (sizes.size() > 1) {
    requireThrows<std::runtime_error>([&] { E e(v); }, "rows of different batch sizes");
  } else {
    E e(v);
    requireEq(e.size(), len, "length");
    require(e.getValue() == v, "value differs");
  }
}
} // namespace
