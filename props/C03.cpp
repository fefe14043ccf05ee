// C03: wires live exactly as long as they are referenced.
#include "front.h"
#include "program.h"
using namespace pbt;

static void general(Src& s, Ctx& c, std::initializer_list<Sched> kinds, GenOpt o, size_t filled = 0) {
  o.ints = s.chance(1, 3);
  auto g = genSched(s, kinds, 3, o.ints);
  if (g.k == Sched::Lazy && g.eng.e > Eng::Dealer && !s.chance(1, 5)) {
    g.eng.e = g.eng.parties > 2 ? Eng::Dummy : s.pick({Eng::Dummy, Eng::Dealer});
  }
  ProgGen gen(s, g.eng.parties, o);
  size_t rounds = 1 + s.below(3);
  for (size_t i = 0; i < rounds; i++) {
    gen.run();
    if (s.coin()) {
      gen.readAll();
    }
    if (i + 1 < rounds && s.coin()) {
      gen.dropAll();
    }
  }
  Program body = gen.p;
  size_t live = 0;
  for (auto& w : body.w) {
    live += w.refs > 0;
  }
  size_t from = body.steps.size();
  gen.dropAll();
  Program& p = gen.p;
  describe(c, p, g);
  c.labelIf(live < body.w.size(), "dropped before the end");
  c.nontrivial = p.nonFreeOps >= 2 && live < body.w.size();
  int levels = p.nonFreeOps + 2;
  size_t fillAt = filled ? s.below(p.steps.size() + 1) : p.steps.size() + 1;
  if (filled) {
    c.desc += cat(" filled with ", filled, " at ", fillAt);
  }
  std::vector<Seen> seen(g.eng.parties);
  runSched(g, c.caseSeed, [&](int me, fs::IArithmeticScheduler& d) {
    Exec x(p, me, d);
    for (size_t k = 0; k < from; k++) {
      if (k == fillAt) {
        fill(d, filled);
      }
      x.step(k);
    }
    if (g.k != Sched::Lazy) {
      auto [made, gone] = d.getWireStatistics();
      requireEq(made, p.wires, "wires created");
      requireEq(made - gone, live, "wires alive at the end of the program");
    }
    for (size_t k = from; k <= p.steps.size(); k++) {
      if (k == fillAt) {
        fill(d, filled);
      }
      if (k < p.steps.size()) {
        x.step(k);
      }
    }
    drain(d, levels);
    auto [made, gone] = d.getWireStatistics();
    requireEq(made, p.wires + levels + 1 + (filled ? filled + 1 : 0), "wires created");
    requireEq(gone, made, "wires released, of those created");
    seen[me] = x.seen;
  });
  checkShares(p, seen);
}
PROPERTY(plaintext, 2000, 40000) {
  general(s, c, {Sched::Plain, Sched::Plain, Sched::NetPlain}, GenOpt{.maxSteps = 50, .bigBatches = false});
}
PROPERTY(eager, 200, 8000) {
  general(s, c, {Sched::Eager}, GenOpt{.maxSteps = 30, .bigBatches = false});
}
PROPERTY(lazy, 1200, 40000) {
  general(s, c, {Sched::Lazy}, GenOpt{.maxSteps = 40, .bigBatches = false});
}
// a lazy scheduler that is made to execute in the middle of a program
PROPERTY(lazy_interrupted, 20, 600) {
  general(s, c, {Sched::Lazy}, GenOpt{.maxSteps = 30, .bigBatches = false}, genFill(s));
}

// wires with tens of thousands of references, given back in parts
PROPERTY(many_references, 60, 2000) {
  auto g = genSched(s, {Sched::Plain, Sched::NetPlain, Sched::Eager, Sched::Lazy}, 3);
  if (g.eng.e > Eng::Dealer) {
    g.eng.e = g.eng.parties > 2 ? Eng::Dummy : s.pick({Eng::Dummy, Eng::Dealer});
  }
  ProgGen gen(s, g.eng.parties, GenOpt{.maxSteps = 20, .bigBatches = false, .drops = false});
  gen.run();
  auto& p = gen.p;
  size_t from = p.steps.size();
  gen.dropAll();
  describe(c, p, g);
  std::vector<size_t> born(p.w.size());
  for (size_t k = 0; k < from; k++) {
    for (int o : p.steps[k].out) {
      born[o] = k + 1;
    }
  }
  struct Part {
    int wire;
    bool inc;
    size_t n;
  };
  std::multimap<size_t, Part> at; // before these steps
  std::map<int, size_t> extra; // still held after the last step
  for (size_t k = 1 + s.below(3); k; k--) {
    int i = s.below(p.w.size());
    size_t n = s.pick({size_t{255}, size_t{256}, size_t{32768}, size_t{65535}, size_t{65536}, (size_t)s.range(1, 140000)});
    size_t t = s.range(born[i], from), back = s.below(n + 1);
    at.insert({t, {i, true, n}});
    at.insert({(size_t)s.range(t, p.steps.size()), {i, false, back}});
    extra[i] += n - back;
    c.desc += cat("; wire ", i, " +", n, " -", back);
  }
  c.nontrivial = true;
  auto refs = [&](Exec& x, const Part& b) {
    auto& w = p.w[b.wire];
    auto go = [&](auto id) {
      for (size_t k = 0; k < b.n; k++) {
        b.inc ? w.batch ? x.d.increaseReferenceCountBatch(id) : x.d.increaseReferenceCount(id)
              : w.batch ? x.d.decreaseReferenceCountBatch(id)
                        : x.d.decreaseReferenceCount(id);
      }
    };
    w.isInt ? go(x.I[b.wire]) : go(x.B[b.wire]);
  };
  size_t live = 0;
  for (auto& [i, n] : extra) {
    live += n > 0;
  }
  int levels = p.nonFreeOps + 2;
  std::vector<Seen> seen(g.eng.parties);
  runSched(g, c.caseSeed, [&](int me, fs::IArithmeticScheduler& d) {
    Exec x(p, me, d);
    for (size_t k = 0; k <= p.steps.size(); k++) {
      auto [b, e] = at.equal_range(k);
      for (bool inc : {true, false}) {
        for (auto q = b; q != e; q++) {
          if (q->second.inc == inc) {
            refs(x, q->second);
          }
        }
      }
      if (k < p.steps.size()) {
        x.step(k);
      }
    }
    drain(d, levels);
    auto [made, gone] = d.getWireStatistics();
    requireEq(made, p.wires + levels + 1, "wires created");
    requireEq(made - gone, live, "wires alive");
    for (auto& [i, n] : extra) {
      refs(x, {i, false, n});
    }
    std::tie(made, gone) = d.getWireStatistics();
    requireEq(made - gone, 0u, "wires alive at the end");
    seen[me] = x.seen;
  });
  checkShares(p, seen);
}

// ---- variables of the frontend types, copied, assigned and overwritten ------
namespace {
enum FT { SBit, SBatch, PBit, SInt, SStr, NT };
struct FStep {
  int op; // 0 in 1 copy-construct 2 assign 3 move 4 binary 5 not 6 mux 7 clear
          // 8 read 9 re-input in place 10 element write
  int t = 0, d = 0, a = 0, b = 0;
  char k = 0;
  std::vector<uint64_t> v;
};
using FV = std::vector<uint64_t>; // empty: not initialised
} // namespace
template <int sid>
struct Vars {
  using B = ff::Bit<true, sid>;
  using BB = ff::Bit<true, sid, true>;
  using PB = ff::Bit<false, sid>;
  using I = ff::Int<true, 8, true, sid>;
  using S = ff::BitString<true, sid>;
  std::tuple<
      std::vector<std::optional<B>>,
      std::vector<std::optional<BB>>,
      std::vector<std::optional<PB>>,
      std::vector<std::optional<I>>,
      std::vector<std::optional<S>>>
      vars;
};
PROPERTY(frontend_variables, 700, 20000) {
  SchedCfg g;
  g.k = s.pick({Sched::Plain, Sched::Lazy, Sched::Eager, Sched::NetPlain});
  g.keep = s.pick({Keeper::SafeArena, Keeper::Map, Keeper::Arena});
  g.eng.parties = g.k == Sched::Plain ? 1 : 2;
  const int slots = 3;
  size_t batch = 1 + s.below(4), strLen = 1 + s.below(4);
  std::vector<std::vector<FV>> m(NT, std::vector<FV>(slots));
  std::vector<FStep> prog;
  size_t n = 5 + s.size(0, 50);
  int selfAssign = 0, overwrites = 0;
  auto fresh = [&](int t) {
    FV v(t == SBatch ? batch : t == SStr ? strLen : 1);
    for (auto& x : v) {
      x = t == SInt ? (uint64_t)s.range(-128, 127) : s.below(2);
    }
    return v;
  };
  int nonFree = 0;
  for (size_t i = 0; i < n; i++) {
    FStep f;
    f.t = s.below(NT);
    auto& M = m[f.t];
    f.d = s.below(slots);
    std::vector<int> have;
    for (int k = 0; k < slots; k++) {
      if (!M[k].empty()) {
        have.push_back(k);
      }
    }
    f.op = s.below(11);
    if (have.empty()) {
      f.op = 0;
    } else {
      f.a = s.pick(have);
      f.b = s.pick(have);
    }
    switch (f.op) {
      case 9:
        if (M[f.d].empty() || f.t == SStr) {
          f.op = 0;
        }
        [[fallthrough]];
      case 0:
        f.v = fresh(f.t);
        overwrites += !M[f.d].empty();
        M[f.d] = f.v;
        break;
      case 1:
      case 2:
        if (f.op == 2 && s.chance(1, 3)) {
          f.d = f.a;
        }
        selfAssign += f.op == 2 && f.d == f.a;
        overwrites += !M[f.d].empty();
        M[f.d] = M[f.a];
        break;
      case 3:
        if (f.d == f.a) {
          f.d = (f.d + 1) % slots;
        }
        overwrites += !M[f.d].empty();
        M[f.d] = M[f.a];
        M[f.a].clear();
        break;
      case 4: {
        f.k = f.t == SInt ? (s.coin() ? '+' : '-') : (s.coin() ? '&' : '^');
        FV r;
        for (size_t k = 0; k < M[f.a].size(); k++) {
          uint64_t x = M[f.a][k], y = M[f.b][k];
          r.push_back(
              f.k == '+'       ? (uint64_t)(int64_t)(int8_t)(x + y)
                  : f.k == '-' ? (uint64_t)(int64_t)(int8_t)(x - y)
                  : f.k == '&' ? (x & y)
                               : (x ^ y));
        }
        nonFree += f.t == SInt ? 8 : f.t == PBit ? 0 : r.size();
        overwrites += !M[f.d].empty();
        M[f.d] = r;
        break;
      }
      case 5: {
        FV r;
        for (auto x : M[f.a]) {
          r.push_back(f.t == SInt ? (uint64_t)(int64_t)(int8_t)(0 - x) : x ^ 1);
        }
        nonFree += f.t == SInt ? 8 : 0;
        M[f.d] = r;
        break;
      }
      case 6: { // mux with secret bit 0 as the choice
        if (f.t != SInt && f.t != SStr || m[SBit][0].empty()) {
          f.op = 8;
          f.v = M[f.a];
          nonFree++;
          break;
        }
        FV r = m[SBit][0][0] ? M[f.b] : M[f.a];
        nonFree += 8;
        M[f.d] = r;
        break;
      }
      case 7:
        M[f.a].clear();
        break;
      case 8:
        f.v = M[f.a];
        nonFree++;
        break;
      case 10: // copies bit a[0] over bit b[last] in place
        if (f.t != SStr && f.t != SInt) {
          f.op = 8;
          f.v = M[f.a];
          nonFree++;
          break;
        }
        if (f.t == SStr) {
          M[f.b].back() = M[f.a].front();
        } else {
          uint64_t y = M[f.b][0] & 0x7f;
          y |= (M[f.a][0] & 1) << 7;
          M[f.b][0] = (uint64_t)(int64_t)(int8_t)y;
        }
        break;
    }
    prog.push_back(f);
    c.desc += cat(f.op, f.k ? std::string(1, f.k) : "", ":", "BVPIS"[f.t] - 0, f.d, f.a, f.b, " ");
  }
  c.desc = show(g) + cat(" batch ", batch, " len ", strLen, " steps ") + c.desc;
  c.nontrivial = overwrites >= 2;
  c.labelIf(selfAssign, "self-assignment");
  c.label(name(g.k));
  runGame(g, c.caseSeed, [&]<int sid>(int me) {
    using V = Vars<sid>;
    {
      V vars;
      std::apply([&](auto&... v) { (v.resize(slots), ...); }, vars.vars);
      auto go = [&](const FStep& f, auto& M) {
        using T = typename std::decay_t<decltype(M)>::value_type::value_type;
        constexpr bool isB = std::is_same_v<T, typename V::B>,
                       isBB = std::is_same_v<T, typename V::BB>,
                       isPB = std::is_same_v<T, typename V::PB>,
                       isI = std::is_same_v<T, typename V::I>;
        auto make = [&]() -> T {
          if constexpr (isB) {
            return T(f.v[0], 0);
          } else if constexpr (isBB) {
            return T(asBits(f.v), 0);
          } else if constexpr (isPB) {
            return T((bool)f.v[0]);
          } else if constexpr (isI) {
            return T((int64_t)f.v[0], 0);
          } else {
            return T(asBits(f.v), 0);
          }
        };
        auto put = [&](T&& x) {
          if (M[f.d]) {
            *M[f.d] = std::move(x);
          } else {
            M[f.d].emplace(std::move(x));
          }
        };
        switch (f.op) {
          case 0:
            put(make());
            break;
          case 9:
            if constexpr (isB) {
              M[f.d]->privateInput(f.v[0], 0);
            } else if constexpr (isBB) {
              M[f.d]->privateInput(asBits(f.v), 0);
            } else if constexpr (isPB) {
              M[f.d]->publicInput(f.v[0]);
            } else if constexpr (isI) {
              M[f.d]->privateInput((int64_t)f.v[0], 0);
            }
            break;
          case 1: {
            T x(*M[f.a]);
            put(std::move(x));
            break;
          }
          case 2:
            if (M[f.d]) {
              auto& src = *M[f.a];
              *M[f.d] = src;
            } else {
              M[f.d] = *M[f.a];
            }
            break;
          case 3:
            put(std::move(*M[f.a]));
            M[f.a].reset();
            break;
          case 4:
            if constexpr (isI) {
              put(f.k == '+' ? *M[f.a] + *M[f.b] : *M[f.a] - *M[f.b]);
            } else {
              put(f.k == '&' ? *M[f.a] & *M[f.b] : *M[f.a] ^ *M[f.b]);
            }
            break;
          case 5:
            if constexpr (isI) {
              put(-*M[f.a]);
            } else {
              put(!*M[f.a]);
            }
            break;
          case 6:
            if constexpr (!isB && !isBB && !isPB) {
              put(M[f.a]->mux(*std::get<0>(vars.vars)[0], *M[f.b]));
            }
            break;
          case 7:
            M[f.a].reset();
            break;
          case 8: {
            FV got;
            auto rd = [&](auto&& v) {
              if constexpr (isBB) {
                got.assign(v.begin(), v.end());
              } else if constexpr (isI || isB || isPB) {
                got = {(uint64_t)v};
              } else {
                got.assign(v.begin(), v.end());
              }
            };
            if constexpr (isPB) {
              rd(M[f.a]->getValue());
              requireEq(got, f.v, "public bit");
            } else {
              auto o = M[f.a]->openToParty(0);
              rd(o.getValue());
              if (me == 0) {
                requireEq(got, f.v, "value of a variable of type ", f.t);
              }
            }
            break;
          }
          case 10:
            if constexpr (isI) {
              (*M[f.b])[7] = (*M[f.a])[0];
            } else if constexpr (!isB && !isBB && !isPB) {
              (*M[f.b])[strLen - 1] = (*M[f.a])[0];
            }
            break;
        }
      };
      for (auto& f : prog) {
        switch (f.t) {
          case SBit:
            go(f, std::get<0>(vars.vars));
            break;
          case SBatch:
            go(f, std::get<1>(vars.vars));
            break;
          case PBit:
            go(f, std::get<2>(vars.vars));
            break;
          case SInt:
            go(f, std::get<3>(vars.vars));
            break;
          default:
            go(f, std::get<4>(vars.vars));
        }
      }
    }
    { // run what a lazy scheduler still has queued
      typename V::B x(true, 0);
      for (int i = 0; i < nonFree + 4; i++) {
        x = x & x;
      }
      x.extractBit().getValue();
    }
    auto [made, gone] = fs::SchedulerKeeper<sid>::getWireStatistics();
    requireEq(gone, made, "wires released, of those created");
  });
}
