// C05: secret shares always add up to the shared value.
#include "fbpcf/engine/ISecretShareEngine.h"
#include "schedkit.h"
using namespace pbt;
using V = std::vector<uint64_t>;
static std::vector<bool> bv(const V& v) {
  return std::vector<bool>(v.begin(), v.end());
}
static V uv(const std::vector<bool>& v) {
  return V(v.begin(), v.end());
}

namespace {
// one request or operation; results become new pool entries
struct Op {
  enum K {
    Input, Xor, XorPub, Not, NotPub, FreeAnd, // local
    And, Comp, // scheduled (And covers Mult for integers)
    Execute, Immediate, Reveal, Read
  } k;
  bool isInt = false, batch = false;
  int owner = 0, a = -1, b = -1, out = -1;
  std::vector<int> rights, outs;
  V v; // public operand, input, or expected value
};
struct Val {
  bool isInt;
  V v;
};
struct Prog {
  std::vector<Op> ops;
  std::vector<Val> vals;
  int executions = 0, scheduled = 0, kindsInOneRun = 0, overlapped = 0;
};
class Gen {
 public:
  Prog p;
  Gen(Src& s, int parties, bool ints, size_t maxBatch, bool wide)
      : s_(s), n_(parties), ints_(ints), maxBatch_(maxBatch), wide_(wide) {}
  void run(size_t steps) {
    for (int i = 0; i < 3; i++) {
      input();
    }
    std::set<int> kinds;
    std::vector<std::pair<int, std::vector<int>>> pending; // op, outs
    int immediates = 0;
    auto flush = [&] {
      Op e;
      e.k = Op::Execute;
      p.ops.push_back(e);
      p.executions++;
      p.kindsInOneRun = std::max(p.kindsInOneRun, (int)kinds.size());
      p.overlapped += immediates && !pending.empty();
      kinds.clear();
      // read the results in any order
      auto order = s_.permutation(pending.size());
      for (auto i : order) {
        Op r;
        r.k = Op::Read;
        r.a = pending[i].first;
        p.ops.push_back(r);
        for (int o : pending[i].second) {
          ready_.push_back(o);
        }
      }
      pending.clear();
      immediates = 0;
    };
    for (size_t i = 0; i < steps; i++) {
      Op o;
      switch (s_.below(12)) {
        case 0:
          input();
          continue;
        case 1:
          local();
          continue;
        case 2:
          reveal();
          continue;
        case 3:
          if (!pending.empty()) {
            immediates++;
          }
          immediate();
          continue;
        case 4:
          flush();
          continue;
        case 5:
        case 6:
        case 7: {
          o.k = Op::Comp;
          o.a = pick([&](const Val& v) { return !v.isInt; });
          if (o.a < 0) {
            continue;
          }
          size_t len = p.vals[o.a].v.size();
          o.batch = len != 1 || s_.coin();
          size_t n = !wide_ && s_.chance(1, 12) ? s_.pick({129, 128, 140})
                                      : 1 + s_.below(4);
          for (size_t j = 0; j < n; j++) {
            o.rights.push_back(pick(
                [&](const Val& v) { return !v.isInt && v.v.size() == len; }));
          }
          for (int r : o.rights) {
            V v;
            for (size_t j = 0; j < len; j++) {
              v.push_back(p.vals[o.a].v[j] & p.vals[r].v[j]);
            }
            o.outs.push_back(add(false, v, false));
          }
          kinds.insert(o.batch ? 1 : 2);
          break;
        }
        default: {
          o.k = Op::And;
          if (!two(o)) {
            continue;
          }
          o.batch = p.vals[o.a].v.size() != 1 || s_.coin();
          o.outs = {add(o.isInt, mul(o), false)};
          kinds.insert((o.batch ? 3 : 4) + (o.isInt ? 2 : 0));
        }
      }
      p.scheduled++;
      pending.push_back({(int)p.ops.size(), o.outs});
      p.ops.push_back(o);
    }
    flush();
    for (size_t i = 0, n = ready_.size(); i < n; i++) {
      if (s_.chance(1, 3)) {
        reveal();
      }
    }
  }

 private:
  Src& s_;
  int n_;
  bool ints_;
  size_t maxBatch_;
  bool wide_;
  std::vector<int> ready_;

  int add(bool isInt, V v, bool ready = true) {
    p.vals.push_back({isInt, std::move(v)});
    int i = p.vals.size() - 1;
    if (ready) {
      ready_.push_back(i);
    }
    return i;
  }
  int pick(const std::function<bool(const Val&)>& f) {
    std::vector<int> c;
    for (int i : ready_) {
      if (f(p.vals[i])) {
        c.push_back(i);
      }
    }
    return c.empty() ? -1 : c[s_.below(c.size())];
  }
  bool two(Op& o) {
    o.a = ready_[s_.below(ready_.size())];
    o.isInt = p.vals[o.a].isInt;
    size_t len = p.vals[o.a].v.size();
    o.b = pick([&](const Val& v) {
      return v.isInt == o.isInt && v.v.size() == len;
    });
    return o.b >= 0;
  }
  V mul(const Op& o) {
    V v;
    for (size_t j = 0; j < p.vals[o.a].v.size(); j++) {
      v.push_back(p.vals[o.a].v[j] * p.vals[o.b].v[j]);
    }
    return v;
  }
  V value(bool isInt, size_t len) {
    return isInt ? s_.words(len) : uv(s_.bits(len));
  }
  void input() {
    Op o;
    o.k = Op::Input;
    o.isInt = ints_ && s_.chance(2, 5);
    size_t len = s_.chance(1, 3)           ? 1
        : s_.chance(wide_ ? 6 : 1, 8) ? maxBatch_ + s_.below(maxBatch_)
                                 : 1 + s_.below(9);
    o.batch = len != 1 || s_.coin();
    o.owner = s_.below(n_);
    o.v = value(o.isInt, len);
    o.out = add(o.isInt, o.v);
    p.ops.push_back(o);
  }
  void local() {
    Op o;
    if (!two(o)) {
      return;
    }
    o.k = (Op::K)(Op::Xor + s_.below(5));
    auto& A = p.vals[o.a].v;
    o.batch = A.size() != 1 || s_.coin();
    o.v = value(o.isInt, A.size());
    V r;
    for (size_t j = 0; j < A.size(); j++) {
      uint64_t x = A[j], y = p.vals[o.b].v[j], z = o.v[j];
      switch (o.k) {
        case Op::Xor:
          r.push_back(o.isInt ? x + y : x ^ y);
          break;
        case Op::XorPub:
          r.push_back(o.isInt ? x + z : x ^ z);
          break;
        case Op::FreeAnd:
          r.push_back(x * z);
          break;
        default:
          r.push_back(o.isInt ? 0 - x : x ^ 1);
      }
    }
    if (o.k == Op::NotPub) {
      o.k = Op::Not;
    }
    o.out = add(o.isInt, r);
    p.ops.push_back(o);
  }
  void immediate() {
    Op o;
    if (!two(o)) {
      return;
    }
    o.k = Op::Immediate;
    o.out = add(o.isInt, mul(o));
    p.ops.push_back(o);
  }
  void reveal() {
    Op o;
    o.k = Op::Reveal;
    o.a = ready_[s_.below(ready_.size())];
    o.isInt = p.vals[o.a].isInt;
    o.owner = s_.below(n_);
    p.ops.push_back(o);
  }
};
} // namespace
static std::string text(const Prog& p) {
  static const char* n[] = {
      "in", "xor", "xorpub", "not", "", "andpub", "AND", "COMP",
      "RUN", "now", "reveal", "read"};
  std::ostringstream o;
  for (auto& x : p.ops) {
    if (x.k == Op::Read) {
      continue;
    }
    o << n[x.k] << (x.isInt ? "I" : "");
    if (x.out >= 0) {
      o << p.vals[x.out].v.size();
    } else if (x.a >= 0) {
      o << p.vals[x.a].v.size();
    }
    if (!x.rights.empty()) {
      o << "x" << x.rights.size();
    }
    o << ' ';
    if (o.tellp() > 700) {
      o << "...";
      break;
    }
  }
  return o.str();
}
static void runParty(
    const Prog& p,
    int me,
    fe::ISecretShareEngine& e,
    std::vector<V>& sh) {
  sh.resize(p.vals.size());
  std::map<int, uint32_t> ticket;
  for (size_t i = 0; i < p.ops.size(); i++) {
    auto& o = p.ops[i];
    switch (o.k) {
      case Op::Input: {
        auto& v = o.v;
        V junk(v.size(), 1);
        if (o.isInt) {
          sh[o.out] = o.batch
              ? e.setBatchIntegerInput(o.owner, o.owner == me ? v : junk)
              : V{o.owner == me ? e.setIntegerInput(o.owner, v[0])
                                : e.setIntegerInput(o.owner)};
        } else {
          sh[o.out] = o.batch
              ? uv(e.setBatchInput(o.owner, bv(o.owner == me ? v : junk)))
              : V{o.owner == me ? e.setInput(o.owner, v[0])
                                : e.setInput(o.owner)};
        }
        requireEq(sh[o.out].size(), v.size(), "length of an input share");
        break;
      }
      case Op::Xor: {
        auto &a = sh[o.a], &b = sh[o.b];
        sh[o.out] = o.isInt
            ? (o.batch ? e.computeBatchSymmetricPlus(a, b)
                       : V{e.computeSymmetricPlus(a[0], b[0])})
            : (o.batch ? uv(e.computeBatchSymmetricXOR(bv(a), bv(b)))
                       : V{e.computeSymmetricXOR(a[0], b[0])});
        break;
      }
      case Op::XorPub: {
        const V &a = sh[o.a], &b = o.v;
        sh[o.out] = o.isInt
            ? (o.batch ? e.computeBatchAsymmetricPlus(a, b)
                       : V{e.computeAsymmetricPlus(a[0], b[0])})
            : (o.batch ? uv(e.computeBatchAsymmetricXOR(bv(a), bv(b)))
                       : V{e.computeAsymmetricXOR(a[0], b[0])});
        break;
      }
      case Op::Not:
      case Op::NotPub: {
        auto& a = sh[o.a];
        sh[o.out] = o.isInt
            ? (o.batch ? e.computeBatchSymmetricNeg(a)
                       : V{e.computeSymmetricNeg(a[0])})
            : (o.batch ? uv(e.computeBatchAsymmetricNOT(bv(a)))
                       : V{e.computeAsymmetricNOT(a[0])});
        break;
      }
      case Op::FreeAnd: {
        const V &a = sh[o.a], &b = o.v;
        sh[o.out] = o.isInt
            ? (o.batch ? e.computeBatchFreeMult(a, b)
                       : V{e.computeFreeMult(a[0], b[0])})
            : (o.batch ? uv(e.computeBatchFreeAND(bv(a), bv(b)))
                       : V{e.computeFreeAND(a[0], b[0])});
        break;
      }
      case Op::And: {
        auto &a = sh[o.a], &b = sh[o.b];
        ticket[i] = o.isInt ? (o.batch ? e.scheduleBatchMult(a, b)
                                       : e.scheduleMult(a[0], b[0]))
                            : (o.batch ? e.scheduleBatchAND(bv(a), bv(b))
                                       : e.scheduleAND(a[0], b[0]));
        break;
      }
      case Op::Comp: {
        auto& a = sh[o.a];
        if (o.batch) {
          std::vector<std::vector<bool>> r;
          for (int x : o.rights) {
            r.push_back(bv(sh[x]));
          }
          ticket[i] = e.scheduleBatchCompositeAND(bv(a), r);
        } else {
          std::vector<bool> r;
          for (int x : o.rights) {
            r.push_back(sh[x][0]);
          }
          ticket[i] = e.scheduleCompositeAND(a[0], r);
        }
        break;
      }
      case Op::Execute:
        e.executeScheduledOperations();
        break;
      case Op::Read: {
        auto& q = p.ops[o.a];
        auto t = ticket.at(o.a);
        if (q.k == Op::And) {
          sh[q.outs[0]] = q.isInt
              ? (q.batch ? e.getBatchMultExecutionResult(t)
                         : V{e.getMultExecutionResult(t)})
              : (q.batch ? uv(e.getBatchANDExecutionResult(t))
                         : V{e.getANDExecutionResult(t)});
        } else if (q.batch) {
          auto& r = e.getBatchCompositeANDExecutionResult(t);
          requireEq(r.size(), q.outs.size(), "composite results");
          for (size_t j = 0; j < r.size(); j++) {
            sh[q.outs[j]] = uv(r[j]);
          }
        } else {
          auto& r = e.getCompositeANDExecutionResult(t);
          requireEq(r.size(), q.outs.size(), "composite results");
          for (size_t j = 0; j < r.size(); j++) {
            sh[q.outs[j]] = {r[j]};
          }
        }
        break;
      }
      case Op::Immediate: {
        auto &a = sh[o.a], &b = sh[o.b];
        sh[o.out] = o.isInt ? e.computeBatchMultImmediately(a, b)
                            : uv(e.computeBatchANDImmediately(bv(a), bv(b)));
        break;
      }
      case Op::Reveal: {
        auto& want = p.vals[o.a].v;
        V got = o.isInt ? e.revealToParty(o.owner, sh[o.a])
                        : uv(e.revealToParty(o.owner, bv(sh[o.a])));
        if (o.owner == me) {
          requireEq(got, want, "value opened to party ", me, " at op ", i);
        } else {
          size_t entropy = 0;
          for (auto x : want) {
            entropy += o.isInt ? (x > 0xffff ? 16 : 0) : 1;
          }
          bool constant = std::adjacent_find(
                              want.begin(), want.end(),
                              std::not_equal_to<>()) == want.end();
          require(
              constant || entropy < 64 || got != want,
              "party ", me, " was given a value opened to party ", o.owner);
        }
        break;
      }
    }
  }
}
static void check(const EngCfg& g, const Prog& p, uint64_t seed) {
  auto net = std::make_shared<Net>(seed | 1);
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
  for (int i = 0; i < g.parties; i++) {
    af.push_back(net->factory(i, g.parties));
  }
  std::vector<std::vector<V>> sh(g.parties);
  runParties(*net, g.parties, seed, [&](int me) {
    auto e = engineFactory(g, me, *af[me])->create();
    runParty(p, me, *e, sh[me]);
  });
  for (size_t i = 0; i < p.vals.size(); i++) {
    V acc(p.vals[i].v.size(), 0);
    for (int q = 0; q < g.parties; q++) {
      requireEq(sh[q][i].size(), acc.size(), "size of the share of value ", i);
      for (size_t j = 0; j < acc.size(); j++) {
        acc[j] = p.vals[i].isInt ? acc[j] + sh[q][i][j] : acc[j] ^ sh[q][i][j];
      }
    }
    requireEq(acc, p.vals[i].v, "combined shares of value ", i);
  }
}
static EngCfg config(Src& s, std::initializer_list<Eng> es, int parties, bool ints) {
  EngCfg g;
  g.e = s.pick(es);
  g.parties = parties;
  g.arithmetic = ints;
  g.buffer = ints ? s.pick({64, 8, 33, 100}) : s.pick({64, 16, 130, 500});
  g.prgBuffer = s.pick({512, 130, 1024});
  return g;
}
static void engine(
    Src& s,
    Ctx& c,
    std::initializer_list<Eng> es,
    int maxParties,
    size_t maxBatch,
    bool wide = false) {
  bool ints = s.coin();
  int n = 2 + s.below(maxParties - 1);
  auto g = config(s, es, n, ints);
  bool huge = maxBatch > 20000;
  if (wide) {
    g.buffer = std::max<int>(g.buffer, 64);
  }
  if (huge) {
    g.buffer = s.pick({8192, 20000, 100000});
    ints &= g.e == Eng::Dummy; // 64 transfers for each product
    g.arithmetic = ints;
  }
  Gen gen(s, n, ints, maxBatch, wide);
  gen.run(4 + s.size(0, huge ? 5 : wide ? 12 : 40));
  c.desc = show(g) + " " + text(gen.p);
  c.nontrivial = gen.p.scheduled >= 3 && gen.p.kindsInOneRun >= 2;
  c.labelIf(n > 2, "3+ parties");
  c.labelIf(ints, "integers");
  c.labelIf(gen.p.executions > 2, "several executions");
  c.labelIf(gen.p.overlapped, "immediate operation while others are queued");
  c.labelIf(gen.p.kindsInOneRun >= 4, "4+ request kinds in one execution");
  check(g, gen.p, c.caseSeed);
}
PROPERTY(dummy_tuples, 500, 20000) {
  engine(s, c, {Eng::Dummy}, 5, 150);
}
PROPERTY(two_party_tuples, 250, 8000) {
  engine(s, c, {Eng::Dealer}, 2, 60);
}
PROPERTY(product_share_tuples, 220, 8000) {
  engine(s, c, {Eng::Product}, 4, 60);
}
PROPERTY(real_oblivious_transfer, 6, 200) {
  engine(s, c, {Eng::Iknp, Eng::Ferret}, 2, 20);
}
PROPERTY(wide_batches, 60, 3000) {
  engine(s, c, {Eng::Dealer, Eng::Product, Eng::Dummy}, 3, 100 + s.sizeUpTo(900), true);
}
// more values in a batch, and more tuples for it, than 16 bits can number
PROPERTY(over_16_bits_dummy, 6, 200) {
  engine(s, c, {Eng::Dummy}, 2, 65536, true);
}
PROPERTY(over_16_bits_products, 4, 100) {
  engine(s, c, {Eng::Product}, 2, 22000, true);
}
