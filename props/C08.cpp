// C08: point correlated OT and matrix expansion are exact.
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyMatrixMultiplierFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyMultiPointCotFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummySinglePointCotFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RcotExtenderFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RegularErrorMultiPointCotFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/SinglePointCotFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/TenLocalLinearMatrixMultiplierFactory.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "m128.h"
#include "schedkit.h"
using namespace pbt;
namespace fr = ot::ferret;

namespace {
struct Base { // correlated inputs of both sides
  std::vector<__m128i> snd, rcv;
  std::vector<bool> choice;
};
Base base(Src& s, u128 delta, size_t n) {
  Base b;
  b.choice = s.bits(n);
  Rng r = s.rng();
  for (size_t i = 0; i < n; i++) {
    u128 x = rand128(r) & ~(u128)1;
    b.snd.push_back(toM(x));
    b.rcv.push_back(toM(b.choice[i] ? x ^ delta : x));
  }
  return b;
}
using VV = std::vector<std::vector<u128>>;
// runs both sides over one connection
template <typename S, typename R>
std::pair<VV, VV> both(Ctx& c, S snd, R rcv, uint64_t noise = 0) {
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::unique_ptr<comm::IPartyCommunicationAgent> ag[2] = {
      net->agent(0, 1), net->agent(1, 0)};
  auto r = runPartiesR<VV>(*net, 2, c.caseSeed + noise, [&](int me) {
    return me == 0 ? snd(ag[0]) : rcv(ag[1]);
  });
  requireEq(net->leftover(), 0u, "bytes sent that nobody read");
  return {r[0], r[1]};
}
// one bucket: differ by delta at `at` only
void checkBucket(
    const u128* a,
    const u128* b,
    size_t n,
    size_t at,
    u128 delta,
    const std::string& what) {
  for (size_t i = 0; i < n; i++) {
    require(!(a[i] & 1), what, ": lowest bit of the sender's value ", i, " is 1");
    require(
        (a[i] ^ b[i]) == (i == at ? delta : 0), what, ": position ", i, " of ", n,
        " with the point at ", at, ": sender ", hex(a[i]), " receiver ", hex(b[i]),
        " offset ", hex(delta));
  }
}
size_t point(const std::vector<bool>& choice, size_t from, size_t n) {
  size_t p = 0;
  for (size_t i = 0; i < n; i++) {
    p = p << 1 | !choice[from + i];
  }
  return p;
}
void fresh(const VV& v) {
  std::set<u128> seen;
  for (auto& x : v) {
    for (auto& y : x) {
      require(seen.insert(y).second, "the sender's values repeat");
    }
  }
}
} // namespace
PROPERTY(single_point, 1500, 20000) {
  u128 delta = gen128(s) | 1;
  bool dummy = s.chance(1, 8);
  int runs = 1 + s.below(5);
  std::vector<Base> b;
  c.desc = cat(dummy ? "dummy " : "", "offset ", hex(delta), " choices");
  size_t depth = 0;
  for (int i = 0; i < runs; i++) {
    b.push_back(base(s, delta, s.below(3) == 0 ? s.below(11) : s.below(7)));
    c.desc += " " + show(b.back().choice);
    depth = std::max(depth, b.back().choice.size());
  }
  c.nontrivial = depth >= 2;
  c.labelIf(runs > 1, "several extensions");
  c.labelIf(depth > 6, "more than 64 positions");
  auto make = [&](std::unique_ptr<comm::IPartyCommunicationAgent>& a)
      -> std::unique_ptr<fr::ISinglePointCot> {
    if (dummy) {
      return fr::insecure::DummySinglePointCotFactory(
                 std::make_unique<fe::util::AesPrgFactory>(128)).create(a);
    }
    return fr::SinglePointCotFactory().create(a);
  };
  auto session = [&](uint64_t noise) { return both(
      c,
      [&](auto& a) {
        auto o = make(a);
        o->senderInit(toM(delta));
        VV r;
        for (auto& q : b) {
          auto in = q.snd;
          r.push_back(toU(o->senderExtend(std::move(in))));
        }
        return r;
      },
      [&](auto& a) {
        auto o = make(a);
        o->receiverInit();
        VV r;
        for (auto& q : b) {
          auto in = q.rcv;
          r.push_back(toU(o->receiverExtend(std::move(in))));
        }
        return r;
      },
      noise); };
  auto [x, y] = session(0);
  for (int i = 0; i < runs; i++) {
    size_t n = (size_t)1 << b[i].choice.size();
    requireEq(x[i].size(), n, "sender's length in extension ", i);
    requireEq(y[i].size(), n, "receiver's length in extension ", i);
    checkBucket(
        x[i].data(), y[i].data(), n, point(b[i].choice, 0, b[i].choice.size()),
        delta, cat("extension ", i));
  }
  fresh(x);
  if (s.chance(1, 4)) { // on the same base correlations again
    auto [z, u] = session(1);
    x.insert(x.end(), z.begin(), z.end());
    fresh(x);
  }
}
PROPERTY(regular_error, 1500, 12000) {
  u128 delta = gen128(s) | 1;
  int lg = s.below(7);
  size_t weight = s.coin() ? (size_t)1 << s.below(5) : 1 + s.below(12);
  size_t len = weight << lg;
  int runs = 1 + s.below(3);
  bool dummy = s.chance(1, 8); // over the dummy single-point
  std::vector<Base> b;
  c.desc = cat(dummy ? "dummy " : "", "offset ", hex(delta), " length ", len,
               " weight ", weight, " choices");
  for (int i = 0; i < runs; i++) {
    b.push_back(base(s, delta, weight * lg));
    c.desc += " " + show(b.back().choice);
  }
  c.nontrivial = weight >= 2 && lg >= 1;
  c.labelIf(runs > 1, "several extensions");
  c.labelIf(weight & (weight - 1), "weight not a power of two");
  auto make = [&](std::unique_ptr<comm::IPartyCommunicationAgent>& a) {
    std::unique_ptr<fr::ISinglePointCotFactory> f;
    if (dummy) {
      f = std::make_unique<fr::insecure::DummySinglePointCotFactory>(
          std::make_unique<fe::util::AesPrgFactory>(128));
    } else {
      f = std::make_unique<fr::SinglePointCotFactory>();
    }
    return fr::RegularErrorMultiPointCotFactory(std::move(f)).create(a);
  };
  auto run = [&](auto& o, bool sender) {
    requireEq((size_t)o->getBaseCotNeeds(), weight * lg, "base correlations needed");
    VV r;
    for (auto& q : b) {
      // a wrong number of base correlations is refused and changes nothing
      auto bad = sender ? q.snd : q.rcv;
      bad.push_back(toM(0));
      requireThrows<std::invalid_argument>(
          [&] {
            sender ? o->senderExtend(std::move(bad)) : o->receiverExtend(std::move(bad));
          },
          "one base correlation too many");
      auto in = sender ? q.snd : q.rcv;
      r.push_back(
          toU(sender ? o->senderExtend(std::move(in)) : o->receiverExtend(std::move(in))));
    }
    return r;
  };
  auto [x, y] = both(
      c,
      [&](auto& a) {
        auto o = make(a);
        requireThrows<std::invalid_argument>(
            [&] { o->senderInit(toM(delta ^ 1), len, weight); }, "an even offset");
        o->senderInit(toM(delta), len, weight);
        return run(o, true);
      },
      [&](auto& a) {
        auto o = make(a);
        o->receiverInit(len, weight);
        return run(o, false);
      });
  for (int i = 0; i < runs; i++) {
    requireEq(x[i].size(), len, "sender's length");
    requireEq(y[i].size(), len, "receiver's length");
    size_t n = (size_t)1 << lg;
    for (size_t w = 0; w < weight; w++) {
      checkBucket(
          x[i].data() + w * n, y[i].data() + w * n, n, point(b[i].choice, w * lg, lg),
          delta, cat("extension ", i, " bucket ", w));
    }
  }
  fresh(x);
}
PROPERTY(dummy_multi_point, 60, 1000) {
  u128 delta = gen128(s) | 1;
  size_t len = 1 + s.below(200), weight = s.below(std::min<size_t>(len, 20) + 1);
  c.desc = cat("offset ", hex(delta), " length ", len, " weight ", weight);
  c.nontrivial = weight >= 2;
  auto [x, y] = both(
      c,
      [&](auto& a) {
        auto o = fr::insecure::DummyMultiPointCotFactory(
                     std::make_unique<fe::util::AesPrgFactory>(128)).create(a);
        o->senderInit(toM(delta), len, weight);
        std::vector<__m128i> in(o->getBaseCotNeeds());
        return VV{toU(o->senderExtend(std::move(in)))};
      },
      [&](auto& a) {
        auto o = fr::insecure::DummyMultiPointCotFactory(
                     std::make_unique<fe::util::AesPrgFactory>(128)).create(a);
        o->receiverInit(len, weight);
        std::vector<__m128i> in(o->getBaseCotNeeds());
        return VV{toU(o->receiverExtend(std::move(in)))};
      });
  requireEq(x[0].size(), len, "sender's length");
  requireEq(y[0].size(), len, "receiver's length");
  size_t pts = 0;
  for (size_t i = 0; i < len; i++) {
    u128 d = x[0][i] ^ y[0][i];
    require(!(x[0][i] & 1), "lowest bit of the sender's value ", i);
    require(d == 0 || d == delta, "position ", i, " differs by ", hex(d));
    pts += d != 0;
  }
  requireEq(pts, weight, "positions that differ");
}
PROPERTY(matrix, 3000, 20000) {
  bool dummy = s.chance(1, 8);
  size_t n = s.below(3) ? 1 + s.size(0, 300) : ((size_t)1 << s.below(9)) + s.below(3);
  size_t m = s.size(0, 600);
  u128 seed = gen128(s), delta = gen128(s) | 1;
  c.desc = cat(dummy ? "dummy " : "", "from ", n, " to ", m, " seed ", hex(seed));
  c.nontrivial = n >= 2 && m >= 5;
  c.labelIf(m % 4, "result length not a multiple of 4");
  Rng r = s.rng();
  std::unique_ptr<fr::IMatrixMultiplier> o[2];
  for (auto& x : o) {
    if (dummy) {
      x = fr::insecure::DummyMatrixMultiplierFactory().create();
    } else {
      x = fr::TenLocalLinearMatrixMultiplierFactory().create();
    }
  }
  auto mul = [&](int k, const std::vector<u128>& v, size_t len) {
    std::vector<__m128i> in;
    for (auto x : v) {
      in.push_back(toM(x));
    }
    auto res = toU(o[k]->multiplyWithRandomMatrix(toM(seed), len, in));
    requireEq(res.size(), len, "length of the product");
    return res;
  };
  std::vector<u128> a(n), b(n), ab(n), k(n), kd(n);
  std::vector<bool> ch(n);
  for (size_t i = 0; i < n; i++) {
    a[i] = rand128(r);
    b[i] = rand128(r);
    ab[i] = a[i] ^ b[i];
    k[i] = rand128(r) & ~(u128)1;
    ch[i] = r.bit();
    kd[i] = ch[i] ? k[i] ^ delta : k[i];
  }
  auto ra = mul(0, a, m), rb = mul(1, b, m), rab = mul(0, ab, m);
  auto rk = mul(0, k, m), rkd = mul(1, kd, m);
  auto shorter = mul(1, a, m / 2);
  std::vector<u128> zero = mul(0, std::vector<u128>(n, 0), m);
  for (size_t i = 0; i < m; i++) {
    require((ra[i] ^ rb[i]) == rab[i], "row ", i, ": M(a)+M(b) is not M(a+b)");
    require(zero[i] == 0, "row ", i, ": M(0) is not 0");
    require(
        (rk[i] ^ rkd[i]) == ((rkd[i] & 1) ? delta : 0), "row ", i,
        ": the correlation is lost");
    if (i < m / 2) {
      require(shorter[i] == ra[i], "row ", i, " depends on the number of rows asked for");
    }
  }
  // which inputs each row reads, 128 inputs at a time
  if (!dummy && n <= 512) {
    std::vector<int> weight(m, 0);
    std::set<std::vector<u128>> rows;
    std::vector<std::vector<u128>> row(m);
    std::vector<char> used(n, 0);
    for (size_t blk = 0; blk < n; blk += 128) {
      std::vector<u128> e(n, 0);
      for (size_t i = blk; i < n && i < blk + 128; i++) {
        e[i] = (u128)1 << (i - blk);
      }
      auto re = mul(0, e, m);
      for (size_t i = 0; i < m; i++) {
        weight[i] += __builtin_popcountll(re[i]) + __builtin_popcountll(re[i] >> 64);
        row[i].push_back(re[i]);
        for (size_t j = blk; j < n && j < blk + 128; j++) {
          used[j] |= (re[i] >> (j - blk)) & 1;
        }
      }
    }
    for (size_t i = 0; i < m; i++) {
      // ten draws with replacement: pairs of equal draws cancel
      require(
          weight[i] <= 10 && weight[i] % 2 == 0, "row ", i, " adds ", weight[i],
          " inputs, not ten draws with replacement");
      if (n >= 250) {
        require(rows.insert(row[i]).second, "row ", i, " repeats an earlier one");
      }
    }
    if (m >= 8 * n && m >= 200) {
      for (size_t j = 0; j < n && n > 1; j++) {
        require(used[j], "input ", j, " of ", n, " is never used by ", m, " rows");
      }
    }
  }
}
PROPERTY(extender, 1500, 10000) {
  u128 delta = gen128(s) | 1;
  int lg = s.below(6);
  size_t weight = 1 + s.below(8);
  size_t ext = weight << lg, bs = 1 + s.size(0, 100);
  int rounds = 1 + s.below(3);
  size_t need = bs + weight * lg;
  std::vector<Base> b;
  for (int i = 0; i < rounds; i++) {
    b.push_back(base(s, delta, need));
  }
  c.desc = cat("extender ", ext, "/", bs, "/", weight, " offset ", hex(delta), " ",
               rounds, " rounds");
  c.nontrivial = weight >= 2 && lg >= 1 && rounds >= 2;
  auto make = [&] {
    return fr::RcotExtenderFactory(
               std::make_unique<fr::TenLocalLinearMatrixMultiplierFactory>(),
               std::make_unique<fr::RegularErrorMultiPointCotFactory>(
                   std::make_unique<fr::SinglePointCotFactory>()))
        .create();
  };
  auto run = [&](fr::IRcotExtender& o, int got, bool sender, auto& a) {
    requireEq((size_t)got, need, "base correlations needed");
    requireEq((size_t)o.getBaseCotSize(), need, "base correlations needed later");
    o.setCommunicationAgent(std::move(a));
    VV r;
    for (auto& q : b) {
      auto in = sender ? q.snd : q.rcv;
      r.push_back(toU(
          sender ? o.senderExtendRcot(std::move(in)) : o.receiverExtendRcot(std::move(in))));
    }
    return r;
  };
  auto [x, y] = both(
      c,
      [&](auto& a) {
        auto o = make();
        int n = o->senderInit(toM(delta), ext, bs, weight);
        return run(*o, n, true, a);
      },
      [&](auto& a) {
        auto o = make();
        int n = o->receiverInit(ext, bs, weight);
        return run(*o, n, false, a);
      });
  for (int i = 0; i < rounds; i++) {
    requireEq(x[i].size(), ext, "sender's length");
    requireEq(y[i].size(), ext, "receiver's length");
    for (size_t j = 0; j < ext; j++) {
      require(!(x[i][j] & 1), "lowest bit of the sender's value ", j);
      require(
          (x[i][j] ^ y[i][j]) == ((y[i][j] & 1) ? delta : 0), "round ", i, " value ",
          j, ": sender ", hex(x[i][j]), " receiver ", hex(y[i][j]));
    }
  }
}
// Every base correlation is used in one place only, and nothing else is.
namespace {
struct Uses {
  std::vector<u128> matrix, points;
  std::vector<u128> seeds;
};
struct SpyMatrix final : fr::IMatrixMultiplier {
  std::shared_ptr<Uses> u;
  std::vector<__m128i> multiplyWithRandomMatrix(
      __m128i seed, int64_t n, const std::vector<__m128i>& src) const override {
    u->seeds.push_back(toU(seed));
    for (auto& x : src) {
      u->matrix.push_back(toU(x));
    }
    return std::vector<__m128i>(n, toM(2));
  }
};
struct SpyPoints final : fr::IMultiPointCot {
  std::shared_ptr<Uses> u;
  int needs;
  int64_t n = 0;
  void senderInit(__m128i, int64_t length, int64_t) override {
    n = length;
  }
  void receiverInit(int64_t length, int64_t) override {
    n = length;
  }
  int getBaseCotNeeds() const override {
    return needs;
  }
  std::vector<__m128i> use(std::vector<__m128i>&& v) {
    for (auto& x : v) {
      u->points.push_back(toU(x));
    }
    return std::vector<__m128i>(n, toM(4));
  }
  std::vector<__m128i> senderExtend(std::vector<__m128i>&& v) override {
    return use(std::move(v));
  }
  std::vector<__m128i> receiverExtend(std::vector<__m128i>&& v) override {
    return use(std::move(v));
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
    return {0, 0};
  }
};
struct SpyMatrixFactory final : fr::IMatrixMultiplierFactory {
  std::shared_ptr<Uses> u;
  std::unique_ptr<fr::IMatrixMultiplier> create() override {
    auto o = std::make_unique<SpyMatrix>();
    o->u = u;
    return o;
  }
};
struct SpyPointsFactory final : fr::IMultiPointCotFactory {
  std::shared_ptr<Uses> u;
  int needs = 0;
  std::unique_ptr<fr::IMultiPointCot> create(
      std::unique_ptr<comm::IPartyCommunicationAgent>&) override {
    auto o = std::make_unique<SpyPoints>();
    o->u = u;
    o->needs = needs;
    return o;
  }
};
} // namespace
PROPERTY(extender_parts, 300, 3000) {
  u128 delta = gen128(s) | 1;
  int needs = 1 + s.size(0, 60);
  size_t bs = 1 + s.size(0, 100), ext = 1 + s.below(300), rounds = 1 + s.below(3);
  std::vector<Base> b;
  for (size_t i = 0; i < rounds; i++) {
    b.push_back(base(s, delta, needs + bs));
  }
  c.desc = cat("extender ", ext, "/", bs, "/", needs, " base for points, ", rounds, " rounds");
  c.nontrivial = needs > 1 && bs > 1;
  c.labelIf((size_t)needs != bs, "unequal parts");
  std::shared_ptr<Uses> uses[2] = {std::make_shared<Uses>(), std::make_shared<Uses>()};
  auto run = [&](bool sender, auto& a) {
    auto m = std::make_unique<SpyMatrixFactory>();
    auto q = std::make_unique<SpyPointsFactory>();
    m->u = q->u = uses[!sender];
    q->needs = needs;
    auto o = fr::RcotExtenderFactory(std::move(m), std::move(q)).create();
    int n = sender ? o->senderInit(toM(delta), ext, bs, 1) : o->receiverInit(ext, bs, 1);
    requireEq((size_t)n, bs + needs, "base correlations needed");
    o->setCommunicationAgent(std::move(a));
    VV r;
    for (auto& x : b) {
      auto in = sender ? x.snd : x.rcv;
      r.push_back(toU(sender ? o->senderExtendRcot(std::move(in)) : o->receiverExtendRcot(std::move(in))));
    }
    return r;
  };
  auto [x, y] = both(
      c, [&](auto& a) { return run(true, a); }, [&](auto& a) { return run(false, a); });
  require(uses[0]->seeds == uses[1]->seeds, "the two sides draw their matrices from different seeds");
  requireEq(uses[0]->seeds.size(), rounds, "matrices");
  requireEq(std::set<u128>(uses[0]->seeds.begin(), uses[0]->seeds.end()).size(), rounds, "different matrices");
  for (int p = 0; p < 2; p++) {
    std::multiset<u128> used(uses[p]->matrix.begin(), uses[p]->matrix.end()), all;
    used.insert(uses[p]->points.begin(), uses[p]->points.end());
    for (auto& q : b) {
      for (auto& v : p ? q.rcv : q.snd) {
        all.insert(toU(v));
      }
    }
    requireEq(uses[p]->matrix.size(), rounds * bs, "base correlations in the matrix");
    require(used == all, cat("party ", p, " uses a base correlation twice or not at all"));
    for (auto& v : p ? y : x) {
      requireEq(v.size(), ext, "length");
      for (auto w : v) {
        require(w == 6, "the two parts are not added");
      }
    }
  }
  for (size_t i = 0; i < bs * rounds; i++) { // the same ones on both sides
    auto d = uses[0]->matrix[i] ^ uses[1]->matrix[i];
    require(d == 0 || d == delta, cat("the two sides put base correlation ", i, " of the matrix in different places"));
  }
}
