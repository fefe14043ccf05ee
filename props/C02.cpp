// C02: gate counts and traffic counts are exact and scheduler-independent.
#include "program.h"
using namespace pbt;
using P2 = std::pair<uint64_t, uint64_t>;

// Runs the program and then enough dependent ANDs for a lazy scheduler to have
// nothing queued; returns the counters.
static P2 counters(const SchedCfg& g, const Program& p, uint64_t seed, Ctx& c, size_t filled = 0, size_t fillAt = 0) {
  std::vector<P2> got(g.eng.parties), released(g.eng.parties);
  std::atomic<int> mid{0};
  auto net = std::make_shared<Net>(seed | 1);
  std::vector<P2> low(g.eng.parties), final(g.eng.parties);
  int levels = p.nonFreeOps + 2;
  runSched(
      g,
      seed,
      [&](int me, fs::IArithmeticScheduler& d) {
        auto check = [&](const char* when) {
          auto lo = net->counted(me);
          auto t = d.getTrafficStatistics();
          auto hi = net->counted(me);
          require(
              lo.first <= t.first && t.first <= hi.first,
              when, ": party ", me, " reports ", t.first,
              " bytes sent, really sent ", lo.first, "..", hi.first);
          require(
              lo.second <= t.second && t.second <= hi.second,
              when, ": party ", me, " reports ", t.second,
              " bytes received, really received ", lo.second, "..", hi.second);
          return lo;
        };
        if (g.k != Sched::Plain) {
          check("before the program");
        }
        if (filled) {
          Exec x(p, me, d);
          x.run(0, fillAt);
          fill(d, filled);
          x.run(fillAt, p.steps.size());
        } else {
          execute(p, me, d);
        }
        if (g.k != Sched::Plain) {
          check("after the program");
        }
        drain(d, levels);
        got[me] = d.getGateStatistics();
        if (g.k != Sched::Plain) {
          low[me] = check("at the end");
          d.deleteEngine();
          released[me] = d.getTrafficStatistics();
          requireEq(
              d.getTrafficStatistics(), released[me], "second read after release");
          requireEq(d.getGateStatistics(), got[me], "gate counts after release");
        } else {
          requireEq(d.getTrafficStatistics(), P2(0, 0), "plaintext traffic");
        }
      },
      net);
  P2 sum{0, 0};
  for (int me = 0; me < g.eng.parties; me++) {
    requireEq(got[me], got[0], "gate counters of party ", me, " and party 0");
    if (g.k == Sched::Plain) {
      continue;
    }
    auto hi = net->counted(me);
    require(
        low[me].first <= released[me].first && released[me].first <= hi.first &&
            low[me].second <= released[me].second &&
            released[me].second <= hi.second,
        "after release party ", me, " reports ", released[me],
        ", counted before the release ", low[me], ", in the end ", hi);
    if (g.k == Sched::NetPlain || g.eng.e == Eng::Dummy) {
      // nothing runs in the background
      requireEq(released[me], hi, "traffic of party ", me);
    }
    sum.first += hi.first;
    sum.second += hi.second;
    requireEq(hi.first, net->totalSent(me), "bytes sent by party ", me);
    requireEq(hi.second, net->totalReceived(me), "bytes received by ", me);
  }
  requireEq(sum.first, sum.second, "bytes sent and bytes received overall");
  requireEq(net->leftover(), 0u, "bytes sent but never received");
  requireEq(got[0].first, p.nonFree + levels, name(g.k), ": non-free gates");
  requireEq(got[0].second, p.free + 1 + (filled ? filled + 1 : 0), name(g.k), ": free gates");
  return got[0];
}
static void general(Src& s, Ctx& c, std::initializer_list<Sched> kinds, GenOpt o) {
  o.ints = s.chance(1, 2);
  auto g = genSched(s, kinds, 4, o.ints);
  ProgGen gen(s, g.eng.parties, o);
  gen.run();
  if (s.coin()) {
    gen.readAll();
  }
  if (s.coin()) {
    gen.dropAll();
  }
  Program& p = gen.p;
  describe(c, p, g);
  c.desc += cat(" [", p.nonFree, " non-free, ", p.free, " free]");
  c.nontrivial = p.nonFreeOps >= 2 && p.nonFree != (uint64_t)p.nonFreeOps;
  counters(g, p, c.caseSeed, c);
}
PROPERTY(plaintext, 2000, 40000) {
  general(s, c, {Sched::Plain}, GenOpt{.maxSteps = 50});
}
PROPERTY(network_plaintext, 900, 25000) {
  general(s, c, {Sched::NetPlain}, GenOpt{.maxSteps = 40});
}
PROPERTY(eager, 300, 12000) {
  general(s, c, {Sched::Eager}, GenOpt{.maxSteps = 30});
}
PROPERTY(lazy, 700, 30000) {
  general(s, c, {Sched::Lazy}, GenOpt{.maxSteps = 40});
}
// a lazy scheduler that is made to execute in the middle of a program
PROPERTY(lazy_interrupted, 20, 600) {
  auto g = genSched(s, {Sched::Lazy}, 3);
  if (g.eng.e != Eng::Dummy && g.eng.e != Eng::Dealer) {
    g.eng.e = g.eng.parties > 2 ? Eng::Dummy : s.pick({Eng::Dummy, Eng::Dealer});
  }
  if (g.keep == Keeper::Map) {
    g.keep = Keeper::Arena;
  }
  ProgGen gen(s, g.eng.parties, GenOpt{.maxSteps = 30, .bigBatches = false});
  gen.run();
  auto& p = gen.p;
  describe(c, p, g);
  c.nontrivial = p.nonFreeOps >= 2 && p.nonFree != (uint64_t)p.nonFreeOps;
  size_t n = genFill(s), at = s.below(p.steps.size() + 1);
  c.desc += cat(" filled with ", n, " at ", at);
  counters(g, p, c.caseSeed, c, n, at);
}
