// C01: every scheduler and engine computes what direct evaluation computes.
#include "program.h"
using namespace pbt;

static void runCase(const SchedCfg& g, const Program& p, uint64_t seed) {
  std::vector<Seen> seen(g.eng.parties);
  runSched(g, seed, [&](int me, fs::IArithmeticScheduler& d) {
    seen[me] = execute(p, me, d);
  });
  checkShares(p, seen);
}
static void general(Src& s, Ctx& c, std::initializer_list<Sched> kinds, GenOpt o) {
  o.ints = s.chance(3, 5);
  auto g = genSched(s, kinds, 4, o.ints);
  ProgGen gen(s, g.eng.parties, o);
  gen.run();
  gen.readAll();
  Program& p = gen.p;
  describe(c, p, g);
  c.nontrivial = p.chained >= 1 && p.reads >= 2;
  runCase(g, p, c.caseSeed);
}
PROPERTY(plaintext, 2500, 60000) {
  general(s, c, {Sched::Plain}, GenOpt{.maxSteps = 60});
}
PROPERTY(network_plaintext, 1200, 30000) {
  general(s, c, {Sched::NetPlain}, GenOpt{.maxSteps = 50});
}
PROPERTY(eager, 450, 20000) {
  general(s, c, {Sched::Eager}, GenOpt{.maxSteps = 40});
}
PROPERTY(lazy, 1000, 50000) {
  general(s, c, {Sched::Lazy}, GenOpt{.maxSteps = 60});
}
// the same program under every scheduler, engine and wire keeper at once
PROPERTY(all_schedulers_agree, 150, 5000) {
  auto e = genSched(s, {Sched::Lazy}, 3);
  ProgGen gen(s, e.eng.parties, GenOpt{.maxSteps = 30, .bigBatches = false});
  gen.run();
  gen.readAll();
  describe(c, gen.p, e);
  c.nontrivial = gen.p.chained >= 1 && gen.p.reads >= 2;
  for (Sched k : {Sched::NetPlain, Sched::Eager, Sched::Lazy}) {
    auto g = e;
    g.k = k;
    try {
      runCase(g, gen.p, c.caseSeed);
    } catch (const Failure& f) {
      fail(cat(show(g), ": ", std::string(f.what())));
    }
  }
}
// more queued gates than the lazy scheduler is willing to hold
PROPERTY(lazy_over_gate_limit, 4, 60) {
  SchedCfg g;
  g.k = Sched::Lazy;
  g.eng.e = s.pick({Eng::Dummy, Eng::Dealer});
  g.eng.buffer = 4096;
  size_t n = 100000 + s.below(3000);
  Rng r = s.rng();
  size_t lanes = 2 + r.below(6);
  bool ints = g.eng.e == Eng::Dummy && s.coin();
  size_t andEvery = g.eng.e == Eng::Dummy ? 3 + r.below(40) : 50 + r.below(500);
  c.desc = cat(show(g), " ", n, " gates, ", lanes, " lanes, and every ", andEvery);
  c.nontrivial = true;
  std::vector<uint64_t> want;
  std::vector<std::array<int, 4>> ops;
  std::vector<uint64_t> v(lanes);
  for (auto& x : v) {
    x = r.bit();
  }
  auto init = v;
  for (size_t i = 0; i < n; i++) {
    int k = r.below(andEvery) == 0 ? 0 : 1 + r.below(2);
    int a = r.below(lanes), b = r.below(lanes), o = r.below(lanes);
    ops.push_back({k, a, b, o});
    v[o] = k == 0 ? (v[a] & v[b]) : k == 1 ? (v[a] ^ v[b]) : (v[a] ^ 1);
  }
  (void)ints;
  std::vector<std::vector<uint64_t>> got(2);
  runSched(g, c.caseSeed, [&](int me, fs::IArithmeticScheduler& d) {
    std::vector<BId> w;
    for (size_t i = 0; i < lanes; i++) {
      w.push_back(d.privateBooleanInput(init[i], i % 2));
    }
    for (auto& [k, a, b, o] : ops) {
      auto x = k == 0 ? d.privateAndPrivate(w[a], w[b])
          : k == 1    ? d.privateXorPrivate(w[a], w[b])
                      : d.notPrivate(w[a]);
      d.decreaseReferenceCount(w[o]);
      w[o] = x;
    }
    for (auto& x : w) {
      got[me].push_back(d.extractBooleanSecretShare(x));
    }
  });
  for (size_t i = 0; i < lanes; i++) {
    requireEq(got[0][i] ^ got[1][i], v[i], "lane ", i);
  }
}
// batches of more values than a message or a counter of 16 bits may hold
PROPERTY(wide_batches, 24, 500) {
  SchedCfg g;
  g.k = s.pick({Sched::Plain, Sched::NetPlain, Sched::Eager, Sched::Lazy});
  g.keep = s.pick({Keeper::Arena, Keeper::SafeArena, Keeper::Map});
  g.eng.parties = g.k == Sched::Plain ? 1 : 2 + s.below(2);
  g.eng.buffer = s.pick({1000, 70000});
  ProgGen gen(s, g.eng.parties, GenOpt{.maxSteps = 14, .wide = true});
  gen.run();
  gen.readAll();
  describe(c, gen.p, g);
  c.nontrivial = gen.p.hasBatch && gen.p.reads >= 2;
  runCase(g, gen.p, c.caseSeed);
}
// more openings, ANDs and products of one level than 16 bits can number
PROPERTY(many_in_one_level, 3, 60) {
  SchedCfg g;
  g.k = Sched::Lazy;
  g.eng.parties = 2;
  g.keep = s.pick({Keeper::Arena, Keeper::SafeArena});
  size_t n = 65537 + s.below(6000), lanes = 150 + s.below(100), width = 300 + s.below(200);
  int mostly = s.below(2);
  Rng r = s.rng();
  c.desc = cat(show(g), " ", n, " openings, ", lanes, " wires, batches of ", width,
               ", mostly to ", mostly);
  c.nontrivial = true;
  using V = std::vector<uint64_t>;
  V bit(lanes), val(lanes);
  std::vector<V> bits(lanes), vals(lanes);
  for (size_t i = 0; i < lanes; i++) {
    bit[i] = r.bit();
    val[i] = r.u64();
    for (size_t j = 0; j < width; j++) {
      bits[i].push_back(r.bit());
      vals[i].push_back(r.u64());
    }
  }
  struct Op {
    int k, to;
    size_t a, b;
  };
  // one level at a time: 0-3 openings, 4-7 products, of every type of wire
  std::vector<std::vector<Op>> phase(8);
  for (int k = 0; k < 8; k++) {
    bool batch = k % 2;
    size_t m = batch ? n / width + 2 : n;
    for (size_t i = 0; i < m; i++) {
      phase[k].push_back({k, !batch && r.below(500) == 0 ? 1 - mostly : mostly,
                          (size_t)r.below(lanes), (size_t)r.below(lanes)});
    }
  }
  std::array<std::vector<V>, 2> got;
  runSched(g, c.caseSeed, [&](int me, fs::IArithmeticScheduler& d) {
    auto bools = [](const V& v) { return std::vector<bool>(v.begin(), v.end()); };
    std::vector<BId> b, bb;
    std::vector<IId> w, ww;
    for (size_t i = 0; i < lanes; i++) {
      int p = i % 2;
      b.push_back(d.privateBooleanInput(bit[i], p));
      w.push_back(d.privateIntegerInput(val[i], p));
      bb.push_back(d.privateBooleanInputBatch(bools(bits[i]), p));
      ww.push_back(d.privateIntegerInputBatch(vals[i], p));
    }
    for (int k = 0; k < 8; k++) {
      std::vector<BId> ob;
      std::vector<IId> ow;
      for (auto& o : phase[k]) {
        switch (k) {
          case 0: ob.push_back(d.openBooleanValueToParty(b[o.a], o.to)); break;
          case 1: ob.push_back(d.openBooleanValueToPartyBatch(bb[o.a], o.to)); break;
          case 2: ow.push_back(d.openIntegerValueToParty(w[o.a], o.to)); break;
          case 3: ow.push_back(d.openIntegerValueToPartyBatch(ww[o.a], o.to)); break;
          case 4: ob.push_back(d.privateAndPrivate(b[o.a], b[o.b])); break;
          case 5: ob.push_back(d.privateAndPrivateBatch(bb[o.a], bb[o.b])); break;
          case 6: ow.push_back(d.privateMultPrivate(w[o.a], w[o.b])); break;
          default: ow.push_back(d.privateMultPrivateBatch(ww[o.a], ww[o.b])); break;
        }
      }
      bool open = k < 4, batch = k % 2;
      for (size_t i = 0; i < phase[k].size(); i++) {
        V v;
        if (ob.size()) {
          if (batch) {
            auto x = open ? d.getBooleanValueBatch(ob[i]) : d.extractBooleanSecretShareBatch(ob[i]);
            v.assign(x.begin(), x.end());
            d.decreaseReferenceCountBatch(ob[i]);
          } else {
            v = {open ? d.getBooleanValue(ob[i]) : d.extractBooleanSecretShare(ob[i])};
            d.decreaseReferenceCount(ob[i]);
          }
        } else if (batch) {
          v = open ? d.getIntegerValueBatch(ow[i]) : d.extractIntegerSecretShareBatch(ow[i]);
          d.decreaseReferenceCountBatch(ow[i]);
        } else {
          v = {open ? d.getIntegerValue(ow[i]) : d.extractIntegerSecretShare(ow[i])};
          d.decreaseReferenceCount(ow[i]);
        }
        got[me].push_back(std::move(v));
      }
    }
  });
  size_t at = 0;
  for (int k = 0; k < 8; k++) {
    for (size_t i = 0; i < phase[k].size(); i++, at++) {
      auto& o = phase[k][i];
      auto &x = got[0].at(at), &y = got[1].at(at);
      size_t m = k % 2 ? width : 1;
      requireEq(x.size(), m, "size, kind ", k, " gate ", i);
      requireEq(y.size(), m, "size, kind ", k, " gate ", i);
      bool isInt = k & 2;
      for (size_t j = 0; j < m; j++) {
        uint64_t p = isInt ? (k % 2 ? vals[o.a][j] : val[o.a]) : (k % 2 ? bits[o.a][j] : bit[o.a]);
        uint64_t q = isInt ? (k % 2 ? vals[o.b][j] : val[o.b]) : (k % 2 ? bits[o.b][j] : bit[o.b]);
        if (k < 4) {
          requireEq((o.to ? y : x)[j], p, "opened, kind ", k, " gate ", i, " item ", j);
        } else if (isInt) {
          requireEq(x[j] + y[j], p * q, "product, gate ", i, " item ", j);
        } else {
          requireEq(x[j] ^ y[j], p & q, "and, gate ", i, " item ", j);
        }
      }
    }
  }
}
// the same, in the middle of a program of every kind of gate: what a small
// program does is interrupted by the execution of everything that is queued
PROPERTY(lazy_interrupted, 30, 600) {
  auto g = genSched(s, {Sched::Lazy}, 3);
  if (g.eng.e != Eng::Dummy && g.eng.e != Eng::Dealer) {
    g.eng.e = g.eng.parties > 2 ? Eng::Dummy : s.pick({Eng::Dummy, Eng::Dealer});
  }
  if (g.keep == Keeper::Map) {
    g.keep = Keeper::Arena;
  }
  ProgGen gen(s, g.eng.parties, GenOpt{.maxSteps = 40, .bigBatches = false});
  gen.run();
  gen.readAll();
  auto& p = gen.p;
  describe(c, p, g);
  c.nontrivial = p.chained >= 1 && p.reads >= 2;
  std::map<size_t, size_t> at; // before these steps
  for (size_t k = 1 + s.below(3); k; k--) {
    at[s.below(p.steps.size() + 1)] = genFill(s);
  }
  c.desc += cat(" filled at ", show(at));
  std::vector<Seen> seen(g.eng.parties);
  runSched(g, c.caseSeed, [&](int me, fs::IArithmeticScheduler& d) {
    Exec x(p, me, d);
    for (size_t k = 0; k < p.steps.size(); k++) {
      if (at.count(k)) {
        fill(d, at[k]);
      }
      x.step(k);
    }
    seen[me] = x.seen;
  });
  checkShares(p, seen);
}
// chains of dependent gates of every type, longer than 65536 levels
PROPERTY(deep_chains, 2, 40) {
  SchedCfg g;
  g.k = s.pick({Sched::Lazy, Sched::Lazy, Sched::Lazy, Sched::Eager});
  g.eng.parties = 2;
  size_t n = 66000 + s.below(2000), every = s.coin() ? 1 : 3, width = 1 + s.below(3);
  Rng r = s.rng();
  c.desc = cat(show(g), " ", n, " levels, every ", every, ", batches of ", width);
  c.nontrivial = true;
  using V = std::vector<uint64_t>;
  struct Chain {
    bool isInt, batch;
    V start, other, v;
    std::vector<uint8_t> ops; // 0 by other, 1 by itself, 2 with other, 3 alone
  };
  std::vector<Chain> ch;
  for (int t = 0; t < 4; t++) {
    Chain x{t >= 2, t % 2 == 1};
    for (size_t i = 0; i < (x.batch ? width : 1); i++) {
      x.start.push_back(x.isInt ? r.u64() | 1 : 1);
      x.other.push_back(x.isInt ? r.u64() | 1 : 1); // every multiplied bit is 1, so nothing is masked
    }
    x.v = x.start;
    for (size_t i = 0; i < n * every; i++) {
      int o = i % every ? 2 + r.below(2) : r.below(16) > 0;
      x.ops.push_back(o);
      for (size_t j = 0; j < x.v.size(); j++) {
        auto &v = x.v[j], k = x.other[j];
        if (x.isInt) {
          v = o == 0 ? v * k : o == 1 ? v * v : o == 2 ? v + k : -v;
        } else {
          v = o == 0 ? v & k : o == 1 ? v : o == 2 ? v ^ k : v ^ 1;
        }
      }
    }
    ch.push_back(std::move(x));
  }
  std::array<std::vector<V>, 2> got;
  runSched(g, c.caseSeed, [&](int me, fs::IArithmeticScheduler& d) {
    auto bits = [&](const V& v) { return std::vector<bool>(v.begin(), v.end()); };
    std::vector<BId> b(4), kb(4);
    std::vector<IId> w(4), kw(4);
    for (int t = 0; t < 4; t++) {
      auto& x = ch[t];
      switch (t) {
        case 0:
          b[t] = d.privateBooleanInput(x.start[0], 0);
          kb[t] = d.privateBooleanInput(x.other[0], 1);
          break;
        case 1:
          b[t] = d.privateBooleanInputBatch(bits(x.start), 0);
          kb[t] = d.privateBooleanInputBatch(bits(x.other), 1);
          break;
        case 2:
          w[t] = d.privateIntegerInput(x.start[0], 0);
          kw[t] = d.privateIntegerInput(x.other[0], 1);
          break;
        case 3:
          w[t] = d.privateIntegerInputBatch(x.start, 0);
          kw[t] = d.privateIntegerInputBatch(x.other, 1);
      }
    }
    auto next = [&](auto& w, auto& k, int o, bool batch, auto&& mul, auto&& add, auto&& neg) {
      auto x = o < 2 ? mul(w, o == 0 ? k : w) : o == 2 ? add(w, k) : neg(w);
      batch ? d.decreaseReferenceCountBatch(w) : d.decreaseReferenceCount(w);
      w = x;
    };
    for (size_t i = 0; i < n * every; i++) {
      next(
          b[0], kb[0], ch[0].ops[i], false, [&](BId p, BId q) { return d.privateAndPrivate(p, q); },
          [&](BId p, BId q) { return d.privateXorPrivate(p, q); }, [&](BId p) { return d.notPrivate(p); });
      next(
          b[1], kb[1], ch[1].ops[i], true, [&](BId p, BId q) { return d.privateAndPrivateBatch(p, q); },
          [&](BId p, BId q) { return d.privateXorPrivateBatch(p, q); }, [&](BId p) { return d.notPrivateBatch(p); });
      next(
          w[2], kw[2], ch[2].ops[i], false, [&](IId p, IId q) { return d.privateMultPrivate(p, q); },
          [&](IId p, IId q) { return d.privatePlusPrivate(p, q); }, [&](IId p) { return d.negPrivate(p); });
      next(
          w[3], kw[3], ch[3].ops[i], true, [&](IId p, IId q) { return d.privateMultPrivateBatch(p, q); },
          [&](IId p, IId q) { return d.privatePlusPrivateBatch(p, q); }, [&](IId p) { return d.negPrivateBatch(p); });
    }
    auto e = d.extractBooleanSecretShareBatch(b[1]);
    got[me] = {{d.extractBooleanSecretShare(b[0])}, V(e.begin(), e.end()),
               {d.extractIntegerSecretShare(w[2])}, d.extractIntegerSecretShareBatch(w[3])};
  });
  for (int t = 0; t < 4; t++) {
    for (size_t j = 0; j < ch[t].v.size(); j++) {
      auto p = got[0][t].at(j), q = got[1][t].at(j);
      requireEq(t < 2 ? p ^ q : p + q, ch[t].v[j], "chain ", t, " value ", j);
    }
  }
}
// operands of different batch sizes are rejected by the plaintext scheduler
PROPERTY(mismatched_batches_rejected, 60, 1000) {
  SchedCfg g;
  g.k = Sched::Plain;
  g.eng.parties = 1;
  g.keep = s.pick({Keeper::Arena, Keeper::Map});
  size_t a = 1 + s.below(6), b = 1 + s.below(6);
  if (a == b) {
    b++;
  }
  int op = s.below(4);
  c.desc = cat("sizes ", a, " and ", b, " op ", op);
  c.nontrivial = true;
  runSched(g, c.caseSeed, [&](int, fs::IArithmeticScheduler& d) {
    requireThrows<std::invalid_argument>([&] {
      if (op < 2) {
        auto x = d.privateBooleanInputBatch(std::vector<bool>(a, 1), 0);
        auto y = d.privateBooleanInputBatch(std::vector<bool>(b, 1), 0);
        op ? d.privateAndPrivateBatch(x, y) : d.privateXorPrivateBatch(x, y);
      } else {
        auto x = d.privateIntegerInputBatch(std::vector<uint64_t>(a, 1), 0);
        auto y = d.privateIntegerInputBatch(std::vector<uint64_t>(b, 1), 0);
        op == 2 ? d.privatePlusPrivateBatch(x, y)
                : d.privateMultPrivateBatch(x, y);
      }
    }, "batch sizes ", a, "/", b);
  });
}
