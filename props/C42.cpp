// C42: the ready-made schedulers and engines, as an application gets them from
// the helper functions, with their shipped sizes and protocols, compute what
// direct evaluation computes.
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/scheduler/EagerSchedulerFactory.h"
#include "fbpcf/scheduler/LazySchedulerFactory.h"
#include "fbpcf/scheduler/NetworkPlaintextSchedulerFactory.h"
#include "fbpcf/scheduler/PlaintextSchedulerFactory.h"
#include "fbpcf/scheduler/SchedulerHelper.h"
#include "program.h"
#include <numeric>
using namespace pbt;
namespace {
using AF = comm::IPartyCommunicationAgentFactory;
using MC = std::shared_ptr<fbpcf::util::MetricCollector>;
using Made = std::vector<std::unique_ptr<fs::IScheduler>>;
struct Ready {
  const char* name;
  bool bits, ints, real, alone;
  int maxParties;
  // `n` schedulers for party `me` of `parties`
  std::function<Made(int me, int parties, AF& af, int n)> make;
  Sched kind;
};
template <typename F>
auto helper(F f) {
  return [f](int me, int, AF& af, int n) {
    Made m;
    for (; n; n--) {
      m.push_back(f(me, af));
    }
    return m;
  };
}
template <typename F>
auto factory(F f) {
  return [f](int me, int, AF& af, int n) {
    Made m;
    auto x = f(me, af);
    for (; n; n--) {
      m.push_back(x->create());
    }
    return m;
  };
}
template <typename F>
auto engine(F f, bool lazy) {
  return [f, lazy](int me, int parties, AF& af, int n) {
    Made m;
    auto x = f(me, parties, af, collector());
    for (; n; n--) {
      if (lazy) {
        std::shared_ptr<fs::IWireKeeper> k = keeper(Keeper::SafeArena);
        m.push_back(std::make_unique<fs::LazyScheduler>(x->create(), k, std::make_unique<fs::GateKeeper>(k)));
      } else {
        m.push_back(std::make_unique<fs::EagerScheduler>(x->create(), keeper(Keeper::SafeArena)));
      }
    }
    return m;
  };
}
const std::vector<Ready>& all() {
#define F(x) [](int me, AF& af) { return x(me, af); }
  static const std::vector<Ready> r = {
      {"createNetworkPlaintextScheduler<true>", true, true, false, false, 2, helper(F(fs::createNetworkPlaintextScheduler<true>)), Sched::NetPlain},
      {"createNetworkPlaintextScheduler<false>", true, true, false, false, 2, helper(F(fs::createNetworkPlaintextScheduler<false>)), Sched::NetPlain},
      {"createArithmeticPlaintextScheduler<true>", true, true, false, true, 2, helper(F(fs::createArithmeticPlaintextScheduler<true>)), Sched::Plain},
      {"createArithmeticPlaintextScheduler<false>", true, true, false, true, 2, helper(F(fs::createArithmeticPlaintextScheduler<false>)), Sched::Plain},
      {"createArithmeticNetworkPlaintextScheduler<true>", true, true, false, false, 2, helper(F(fs::createArithmeticNetworkPlaintextScheduler<true>)), Sched::NetPlain},
      {"createArithmeticNetworkPlaintextScheduler<false>", true, true, false, false, 2, helper(F(fs::createArithmeticNetworkPlaintextScheduler<false>)), Sched::NetPlain},
      {"createEagerSchedulerWithInsecureEngine<true>", true, true, false, false, 2, helper(F(fs::createEagerSchedulerWithInsecureEngine<true>)), Sched::Eager},
      {"createEagerSchedulerWithInsecureEngine<false>", true, true, false, false, 2, helper(F(fs::createEagerSchedulerWithInsecureEngine<false>)), Sched::Eager},
      {"createArithmeticEagerSchedulerWithInsecureEngine<true>", true, true, false, false, 2, helper(F(fs::createArithmeticEagerSchedulerWithInsecureEngine<true>)), Sched::Eager},
      {"createArithmeticEagerSchedulerWithInsecureEngine<false>", true, true, false, false, 2, helper(F(fs::createArithmeticEagerSchedulerWithInsecureEngine<false>)), Sched::Eager},
      {"createLazySchedulerWithInsecureEngine<true>", true, true, false, false, 2, helper(F(fs::createLazySchedulerWithInsecureEngine<true>)), Sched::Lazy},
      {"createLazySchedulerWithInsecureEngine<false>", true, true, false, false, 2, helper(F(fs::createLazySchedulerWithInsecureEngine<false>)), Sched::Lazy},
      {"createArithmeticLazySchedulerWithInsecureEngine<true>", true, true, false, false, 2, helper(F(fs::createArithmeticLazySchedulerWithInsecureEngine<true>)), Sched::Lazy},
      {"createArithmeticLazySchedulerWithInsecureEngine<false>", true, true, false, false, 2, helper(F(fs::createArithmeticLazySchedulerWithInsecureEngine<false>)), Sched::Lazy},
      {"getEagerSchedulerFactoryWithInsecureEngine<true>", true, true, false, false, 2, factory(F(fs::getEagerSchedulerFactoryWithInsecureEngine<true>)), Sched::Eager},
      {"getEagerSchedulerFactoryWithInsecureEngine<false>", true, true, false, false, 2, factory(F(fs::getEagerSchedulerFactoryWithInsecureEngine<false>)), Sched::Eager},
      {"getLazySchedulerFactoryWithInsecureEngine<true>", true, true, false, false, 2, factory(F(fs::getLazySchedulerFactoryWithInsecureEngine<true>)), Sched::Lazy},
      {"getLazySchedulerFactoryWithInsecureEngine<false>", true, true, false, false, 2, factory(F(fs::getLazySchedulerFactoryWithInsecureEngine<false>)), Sched::Lazy},
      {"NetworkPlaintextSchedulerFactory<true>", true, true, false, false, 2,
       factory([](int me, AF& af) { return std::make_unique<fs::NetworkPlaintextSchedulerFactory<true>>(me, af); }), Sched::NetPlain},
      {"NetworkPlaintextSchedulerFactory<false>", true, true, false, false, 2,
       factory([](int me, AF& af) { return std::make_unique<fs::NetworkPlaintextSchedulerFactory<false>>(me, af, collector()); }), Sched::NetPlain},
      {"PlaintextSchedulerFactory<true>", true, true, false, true, 2,
       factory([](int, AF&) { return std::make_unique<fs::PlaintextSchedulerFactory<true>>(); }), Sched::Plain},
      {"PlaintextSchedulerFactory<false>", true, true, false, true, 2,
       factory([](int, AF&) { return std::make_unique<fs::PlaintextSchedulerFactory<false>>(collector()); }), Sched::Plain},
      {"getInsecureEngineFactoryWithDummyTupleGenerator", true, true, false, false, 4, engine(fe::getInsecureEngineFactoryWithDummyTupleGenerator, true), Sched::Lazy},
      // real protocols
      {"createEagerSchedulerWithRealEngine", true, false, true, false, 2, helper(F(fs::createEagerSchedulerWithRealEngine)), Sched::Eager},
      {"createLazySchedulerWithRealEngine", true, false, true, false, 2, helper(F(fs::createLazySchedulerWithRealEngine)), Sched::Lazy},
      {"createEagerSchedulerWithClassicOT", true, false, true, false, 2, helper(F(fs::createEagerSchedulerWithClassicOT)), Sched::Eager},
      {"createLazySchedulerWithClassicOT", true, false, true, false, 2, helper(F(fs::createLazySchedulerWithClassicOT)), Sched::Lazy},
      {"getEagerSchedulerFactoryWithRealEngine", true, false, true, false, 2, factory(F(fs::getEagerSchedulerFactoryWithRealEngine)), Sched::Eager},
      {"getLazySchedulerFactoryWithRealEngine", true, false, true, false, 2, factory(F(fs::getLazySchedulerFactoryWithRealEngine)), Sched::Lazy},
      {"getEagerSchedulerFactoryWithClassicOT", true, false, true, false, 2, factory(F(fs::getEagerSchedulerFactoryWithClassicOT)), Sched::Eager},
      {"getLazySchedulerFactoryWithClassicOT", true, false, true, false, 2, factory(F(fs::getLazySchedulerFactoryWithClassicOT)), Sched::Lazy},
      {"getSecureEngineFactoryWithFERRET", true, false, true, false, 3, engine(fe::getSecureEngineFactoryWithFERRET, true), Sched::Lazy},
      {"getSecureEngineFactoryWithClassicOt", true, false, true, false, 3, engine(fe::getSecureEngineFactoryWithClassicOt, false), Sched::Eager},
      {"getSecureEngineFactoryWithBooleanAndIntegerTupleGenerator", true, true, true, false, 3, engine(fe::getSecureEngineFactoryWithBooleanAndIntegerTupleGenerator, true), Sched::Lazy},
      {"getSecureEngineFactoryWithIntegerOnlyTupleGenerator", false, true, true, false, 3, engine(fe::getSecureEngineFactoryWithIntegerOnlyTupleGenerator, true), Sched::Lazy},
  };
#undef F
  return r;
}
void go(Src& s, Ctx& c, const Ready& r, size_t maxSteps, int most, int parties = 0, bool dealer = false) {
  SchedCfg g;
  g.k = r.kind;
  int net = r.alone ? 2 : parties ? parties : 2 + (int)s.below(r.maxParties - 1);
  g.eng.parties = r.alone ? 1 : net;
  int n = most > 1 && s.coin() ? 2 : 1;
  bool refused = r.bits != r.ints && s.coin();
  std::vector<Program> ps;
  c.desc = cat(r.name, " ", net, " parties, ", n, " schedulers:");
  c.label(r.name);
  c.labelIf(refused, "unsupported product refused");
  c.labelIf(n > 1, "two at once");
  c.labelIf(net > 2, "3+ parties");
  for (int i = 0; i < n; i++) {
    ProgGen gen(s, g.eng.parties, GenOpt{.maxSteps = maxSteps, .ints = r.ints, .bools = r.bits});
    gen.run();
    for (int k = r.real ? 12 : 0; k > 0 && (gen.p.chained < 2 || gen.p.reads < 2); k--) {
      gen.run();
    }
    gen.readAll();
    ps.push_back(gen.p);
    c.desc += cat(" ", gen.p.text());
    c.nontrivial |= gen.p.chained >= 1 && gen.p.reads >= 2;
  }
  std::vector<std::vector<Seen>> seen(n, std::vector<Seen>(g.eng.parties));
  // runs of steps, taken from the programs in turn
  std::vector<std::pair<int, size_t>> turns;
  std::vector<size_t> at(n);
  for (bool more = true; more;) {
    more = false;
    for (int i = 0; i < n; i++) {
      size_t k = n == 1 ? ps[i].steps.size() : std::min<size_t>(1 + s.below(12), ps[i].steps.size() - at[i]);
      k = std::min(k, ps[i].steps.size() - at[i]);
      turns.push_back({i, k});
      at[i] += k;
      more |= at[i] < ps[i].steps.size();
    }
  }
  // plays the programs, and returns how many bytes crossed the network
  auto play = [&](auto&& make, bool judged) {
    auto nw = std::make_shared<Net>(c.caseSeed | 1);
    std::vector<std::unique_ptr<AF>> af;
    for (int i = 0; i < net; i++) {
      af.push_back(nw->factory(i, net));
    }
    std::vector<uint64_t> sent(g.eng.parties);
    using P2 = std::pair<uint64_t, uint64_t>;
    runParties(*nw, g.eng.parties, c.caseSeed, [&](int me) {
      auto m = make(me, g.eng.parties, *af[me], n);
      std::vector<Exec> x;
      for (int i = 0; i < n; i++) {
        auto d = dynamic_cast<fs::IArithmeticScheduler*>(m[i].get());
        require(d, "the scheduler does not compute on integers");
        if (judged) {
          Sched k = dynamic_cast<fs::LazyScheduler*>(d) ? Sched::Lazy
              : dynamic_cast<fs::EagerScheduler*>(d)    ? Sched::Eager
              : dynamic_cast<fs::NetworkPlaintextScheduler*>(d) ? Sched::NetPlain
                                                                : Sched::Plain;
          require(k == r.kind, cat("this is a ", name(k), " scheduler"));
        }
        x.emplace_back(ps[i], me, *d);
      }
      std::vector<size_t> at(n);
      for (auto& [i, k] : turns) {
        x[i].run(at[i], at[i] + k);
        at[i] += k;
      }
      P2 sum{0, 0}, lo = nw->counted(me);
      for (int i = 0; i < n; i++) {
        seen[i][me] = x[i].seen;
        auto t = m[i]->getTrafficStatistics();
        sum = {sum.first + t.first, sum.second + t.second};
      }
      auto hi = nw->counted(me); // streams may be refilled meanwhile
      sent[me] = sum.first;
      require(
          r.kind == Sched::Plain || r.kind == Sched::NetPlain ||
              (lo.first <= sum.first && sum.first <= hi.first && lo.second <= sum.second && sum.second <= hi.second),
          cat("traffic ", show(sum), " of the schedulers, between ", show(lo), " and ", show(hi), " on the network"));
      if (judged && n == 1 && refused) { // a product the engine was not made for
        auto& d = x[0].d;
        requireThrows<std::runtime_error>(
            [&] {
              if (r.bits) {
                auto a = d.privateIntegerInput(3, 0), b = d.privateIntegerInput(5, 1);
                d.extractIntegerSecretShare(d.privateMultPrivate(a, b));
              } else {
                auto a = d.privateBooleanInput(true, 0), b = d.privateBooleanInput(true, 1);
                d.extractBooleanSecretShare(d.privateAndPrivate(a, b));
              }
            },
            r.bits ? "a product of integers" : "a product of bits");
      }
    });
    for (int i = 0; i < n; i++) {
      checkShares(ps[i], seen[i]);
    }
    return std::accumulate(sent.begin(), sent.end(), uint64_t{0});
  };
  auto bytes = play(r.make, true);
  bool multiplies = false;
  for (auto& t : ps[0].steps) {
    multiplies |= t.op == Op::Bin && (t.kind == '&' || t.kind == '*') && t.vis == 0 && !ps[0].w[t.a].v.empty();
  }
  if (r.real && multiplies && !dealer) {
    // a real engine has to transfer at least 128 keys obliviously
    auto insecure = play(engine(fe::getInsecureEngineFactoryWithDummyTupleGenerator, r.kind == Sched::Lazy), false);
    require(bytes >= insecure + 4096, cat(bytes, " bytes of traffic, ", insecure, " with the insecure engine"));
    c.label("real traffic");
  }
}
PROPERTY(cheap, 800, 20000) {
  std::vector<const Ready*> v;
  for (auto& r : all()) {
    if (!r.real) {
      v.push_back(&r);
    }
  }
  go(s, c, *v[s.below(v.size())], 40, 2);
}
// the shipped assemblies, over a dealer's correlated OT
PROPERTY(shipped_sizes, 9, 800) {
  auto rcot = std::make_shared<DealerRcotFactory>();
  bool lazy = s.coin();
  int kind = s.below(3); // bits, both, integers
  auto f = [rcot, kind](int me, int parties, AF& af, MC mc) {
    return kind == 0 ? fe::getSecureEngineFactoryWithBooleanOnlyTupleGenerator(me, parties, af, rcot, mc)
                     : fe::getSecureEngineFactoryWithIntegerTupleGenerator(me, parties, af, rcot, kind == 1, mc);
  };
  const char* names[] = {"getSecureEngineFactoryWithBooleanOnlyTupleGenerator",
                         "getSecureEngineFactoryWithIntegerTupleGenerator(true)",
                         "getSecureEngineFactoryWithIntegerTupleGenerator(false)"};
  Ready r{names[kind], kind < 2, kind > 0, true, false, 3, engine(f, lazy), lazy ? Sched::Lazy : Sched::Eager};
  go(s, c, r, 40, s.chance(1, 3) ? 2 : 1, s.chance(1, 4) ? 3 : 2, true);
}
void real(Src& s, Ctx& c, const char* name, int parties) {
  for (auto& r : all()) {
    if (std::string(r.name) == name) {
      go(s, c, r, 30, 1, parties);
    }
  }
}
// these take seconds each, so each has its own number of cases
PROPERTY(ferret_for_three, 0, 10) {
  real(s, c, "getSecureEngineFactoryWithFERRET", 3);
}
PROPERTY(classic_for_three, 0, 10) {
  real(s, c, "getSecureEngineFactoryWithClassicOt", 3);
}
PROPERTY(bits_and_integers_for_three, 0, 10) {
  real(s, c, "getSecureEngineFactoryWithBooleanAndIntegerTupleGenerator", 3);
}
PROPERTY(integers_for_three, 0, 10) {
  real(s, c, "getSecureEngineFactoryWithIntegerOnlyTupleGenerator", 3);
}
#define REAL(f) \
  PROPERTY(f, 1, 30) { real(s, c, #f, 2); }
REAL(createEagerSchedulerWithRealEngine)
REAL(createLazySchedulerWithRealEngine)
REAL(createEagerSchedulerWithClassicOT)
REAL(createLazySchedulerWithClassicOT)
REAL(getEagerSchedulerFactoryWithRealEngine)
REAL(getLazySchedulerFactoryWithRealEngine)
REAL(getEagerSchedulerFactoryWithClassicOT)
REAL(getLazySchedulerFactoryWithClassicOT)
REAL(getSecureEngineFactoryWithBooleanAndIntegerTupleGenerator)
REAL(getSecureEngineFactoryWithIntegerOnlyTupleGenerator)
} // namespace
