// C09: bidirectional OT and product shares combine to the cross product.
#include "fbpcf/engine/tuple_generator/DummyProductShareGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/ProductShareGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "schedkit.h"
using namespace pbt;
using B = std::vector<bool>;
using U = std::vector<uint64_t>;

namespace {
enum class Rc { Dealer, DummyOt, Dummy, Iknp, Ferret };
const char* nm(Rc k) {
  static const char* n[] = {"dealer", "dummy-ot", "dummy", "iknp", "ferret"};
  return n[(int)k];
}
std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rcotFactory(Rc k) {
  if (k == Rc::Iknp) {
    return iknpFactory(false);
  }
  if (k == Rc::Ferret) {
    return ferretFactory(false, 1024, 256, 16);
  }
  return std::make_shared<DealerRcotFactory>();
}
std::unique_ptr<ot::IBidirectionObliviousTransferFactory> otFactory(
    Rc k,
    int me,
    comm::IPartyCommunicationAgentFactory& af) {
  if (k == Rc::DummyOt) {
    return std::make_unique<ot::insecure::DummyBidirectionObliviousTransferFactory>(af);
  }
  return std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(
      me, af, rcotFactory(k));
}
struct Run {
  bool ints;
  size_t n;
  // per party
  B b0[2], b1[2];
  U u0[2], u1[2];
  B ch[2];
};
std::vector<Run> runs(Src& s, Ctx& c, size_t max, bool chosen) {
  std::vector<Run> r(1 + s.size(0, 7));
  size_t total = 0, odd = 0;
  for (auto& x : r) {
    x.ints = s.coin();
    x.n = s.size(0, x.ints && !chosen ? max / 8 : max);
    for (int p = 0; p < 2; p++) {
      if (x.ints) {
        x.u0[p] = s.words(x.n);
        x.u1[p] = s.words(x.n);
      } else {
        x.b0[p] = s.bits(x.n);
        x.b1[p] = s.bits(x.n);
      }
      if (chosen) {
        x.ch[p] = s.bits(x.n);
      }
    }
    total += x.n;
    odd += x.n % 8 != 0;
    c.desc += cat(x.ints ? " int" : " bit", x.n);
    if (x.n <= 4) {
      for (int p = 0; p < 2; p++) {
        c.desc += x.ints ? cat(show(x.u0[p]), show(x.u1[p])) : cat(show(x.b0[p]), show(x.b1[p]));
        if (chosen) {
          c.desc += cat("?", show(x.ch[p]));
        }
      }
    }
  }
  c.nontrivial = r.size() >= 2 && total >= 10;
  c.labelIf(odd, "length not a multiple of 8");
  c.labelIf(r.size() > 4, "5+ runs");
  return r;
}
void transfer(Src& s, Ctx& c, std::initializer_list<Rc> ks, size_t max) {
  auto k = s.pick(ks);
  int parties = 2 + s.below(2), first = s.below(parties - 1), second = first + 1;
  c.desc = cat(nm(k), " parties ", first, ",", second, ":");
  auto rs = runs(s, c, max, true);
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::unique_ptr<comm::IPartyCommunicationAgentFactory> af[2] = {
      net->factory(first, 3), net->factory(second, 3)};
  struct Out {
    std::vector<B> b;
    std::vector<U> u;
  };
  auto out = runPartiesR<Out>(*net, 2, c.caseSeed, [&](int me) {
    auto f = otFactory(k, me ? second : first, *af[me]);
    auto o = f->create(me ? first : second);
    Out r;
    for (auto& x : rs) {
      if (x.ints) {
        r.u.push_back(o->biDirectionOT(x.u0[me], x.u1[me], x.ch[me]));
        r.b.push_back({});
      } else {
        r.b.push_back(o->biDirectionOT(x.b0[me], x.b1[me], x.ch[me]));
        r.u.push_back({});
      }
    }
    auto t = o->getTrafficStatistics();
    auto cnt = net->counted(me ? second : first);
    requireEq(t.first, cnt.first, "bytes sent as reported by party ", me);
    requireEq(t.second, cnt.second, "bytes received as reported by party ", me);
    return r;
  });
  for (size_t i = 0; i < rs.size(); i++) {
    auto& x = rs[i];
    for (int p = 0; p < 2; p++) {
      requireEq(
          x.ints ? out[p].u[i].size() : out[p].b[i].size(), x.n, "length of run ", i);
      for (size_t j = 0; j < x.n; j++) {
        if (x.ints) {
          requireEq(
              out[p].u[i][j], x.ch[p][j] ? x.u1[1 - p][j] : x.u0[1 - p][j], "run ", i,
              " position ", j, ": party ", p, " chose ", (int)x.ch[p][j]);
        } else {
          requireEq(
              (bool)out[p].b[i][j], (bool)(x.ch[p][j] ? x.b1[1 - p][j] : x.b0[1 - p][j]),
              "run ", i, " position ", j, ": party ", p, " chose ", (int)x.ch[p][j]);
        }
      }
    }
  }
  requireEq(net->leftover(), 0u, "bytes sent that nobody read");
}
void product(Src& s, Ctx& c, std::initializer_list<Rc> ks, size_t max) {
  auto k = s.pick(ks);
  int first = s.below(2), second = first + 1;
  c.desc = cat(nm(k), " parties ", first, ",", second, ":");
  auto rs = runs(s, c, max, false);
  int prg = s.pick({512, 1, 64, 1024});
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::unique_ptr<comm::IPartyCommunicationAgentFactory> af[2] = {
      net->factory(first, 3), net->factory(second, 3)};
  struct Out {
    std::vector<B> b;
    std::vector<U> u;
  };
  auto out = runPartiesR<Out>(*net, 2, c.caseSeed, [&](int me) {
    std::unique_ptr<tg::IProductShareGeneratorFactory> f;
    if (k == Rc::Dummy) {
      f = std::make_unique<tg::insecure::DummyProductShareGeneratorFactory>(*af[me]);
    } else {
      f = std::make_unique<tg::ProductShareGeneratorFactory>(
          std::make_unique<fe::util::AesPrgFactory>(prg),
          otFactory(k, me ? second : first, *af[me]));
    }
    auto o = f->create(me ? first : second);
    Out r;
    for (auto& x : rs) {
      bool bad = (x.n & 3) == 3; // mismatched lengths are refused, then go on
      if (x.ints) {
        if (bad) {
          auto w = x.u0[me];
          w.push_back(1);
          requireThrows<std::runtime_error>(
              [&] { o->generateIntegerProductShares(w, x.u1[me]); }, "mismatched lengths");
        }
        r.u.push_back(o->generateIntegerProductShares(x.u0[me], x.u1[me]));
        r.b.push_back({});
      } else {
        if (bad) {
          auto w = x.b1[me];
          w.push_back(true);
          requireThrows<std::runtime_error>(
              [&] { o->generateBooleanProductShares(x.b0[me], w); }, "mismatched lengths");
        }
        r.b.push_back(o->generateBooleanProductShares(x.b0[me], x.b1[me]));
        r.u.push_back({});
      }
    }
    auto t = o->getTrafficStatistics();
    auto cnt = net->counted(me ? second : first);
    requireEq(t.first, cnt.first, "bytes sent as reported by party ", me);
    requireEq(t.second, cnt.second, "bytes received as reported by party ", me);
    return r;
  });
  size_t zeros = 0, total = 0;
  for (size_t i = 0; i < rs.size(); i++) {
    auto& x = rs[i];
    for (int p = 0; p < 2; p++) {
      requireEq(
          x.ints ? out[p].u[i].size() : out[p].b[i].size(), x.n, "length of run ", i);
    }
    for (size_t j = 0; j < x.n; j++) {
      if (x.ints) {
        requireEq(
            out[0].u[i][j] + out[1].u[i][j],
            x.u0[0][j] * x.u1[1][j] + x.u0[1][j] * x.u1[0][j], "run ", i, " position ", j);
        zeros += out[0].u[i][j] == 0;
        total++;
      } else {
        requireEq(
            (bool)(out[0].b[i][j] ^ out[1].b[i][j]),
            (bool)((x.b0[0][j] && x.b1[1][j]) ^ (x.b0[1][j] && x.b1[0][j])), "run ", i,
            " position ", j);
      }
    }
  }
  if (k != Rc::Dummy && total >= 2) {
    require(zeros == 0, "an integer share is 0: the products are not masked");
  }
  requireEq(net->leftover(), 0u, "bytes sent that nobody read");
}
} // namespace
PROPERTY(transfers, 500, 20000) {
  transfer(s, c, {Rc::Dealer, Rc::Dealer, Rc::Dealer, Rc::DummyOt}, 300);
}
PROPERTY(products, 500, 15000) {
  product(s, c, {Rc::Dealer, Rc::Dealer, Rc::Dealer, Rc::DummyOt, Rc::Dummy}, 200);
}
PROPERTY(real_transfers, 4, 150) {
  transfer(s, c, {Rc::Iknp, Rc::Ferret}, 300);
}
PROPERTY(real_products, 4, 150) {
  product(s, c, {Rc::Iknp, Rc::Ferret}, 60);
}
