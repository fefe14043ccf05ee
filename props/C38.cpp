// C38: secret inputs leave a party only under fresh masks.
//
// Everything a party sends is recorded.  Secrets are random; the messages a
// peer gets, alone and combined with what the peer itself sent and holds, must
// be independent of them: at every position the agreement between the secret's
// bits and the bits seen stays within 9.5 standard deviations of what
// independence predicts (any leak that reveals a third of 1000 bits exceeds
// it; chance does less than once in 10^20 comparisons).
#include <cmath>
#include <unordered_set>
#include "fbpcf/engine/SecretShareEngine.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
#include "fbpcf/engine/tuple_generator/ProductShareGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "leak.h"
#include "m128.h"
#include "schedkit.h"
using namespace pbt;
namespace {
using namespace leak;
SchedCfg config(Src& s, bool arithmetic) {
  SchedCfg g;
  g.k = s.coin() ? Sched::Eager : Sched::Lazy;
  g.keep = s.pick({Keeper::Arena, Keeper::SafeArena, Keeper::Map});
  g.eng.arithmetic = arithmetic;
  g.eng.parties = s.chance(1, 4) ? 3 : 2;
  g.eng.e = g.eng.parties == 3 ? Eng::Product : s.chance(1, 12) ? s.pick({Eng::Iknp, Eng::Ferret}) : s.pick({Eng::Dealer, Eng::Product});
  g.eng.buffer = arithmetic ? s.pick({64, 33, 150}) : s.pick({64, 500, 1024, 4096});
  g.eng.prgBuffer = s.pick({512, 1024, 2048});
  return g;
}
// Steps: two values are entered, combined, and the result is opened to one.
enum Kind { And, Composite, Scalars, Inputs };
const char* kindName[] = {"and", "composite", "scalars", "inputs"};
struct Step {
  Kind k;
  int px, py, to; // owners; who learns the result
  size_t rights = 1; // of a composite
  Bits x;
  std::vector<Bits> y;
  bool same; // the first step's x again
};
PROPERTY(bits, 240, 6000) {
  auto g = config(s, false);
  int np = g.eng.parties;
  auto rng = s.rng();
  Kind kind = s.pick({And, And, Composite, Scalars, Inputs});
  size_t n = kind == Scalars ? 512 : s.pick({1024, 1024, 2048, 1000});
  if (g.eng.parties == 3 || g.eng.e == Eng::Product) {
    n = std::min<size_t>(n, 1024);
  }
  std::vector<Step> steps(2 + s.below(2));
  c.desc = cat(show(g), " ", kindName[kind], " of ", n);
  for (size_t i = 0; i < steps.size(); i++) {
    auto& t = steps[i];
    t.k = kind;
    t.px = i ? steps[0].px : s.below(np);
    t.py = i ? steps[0].py : s.below(np);
    t.to = i ? steps[0].to : s.below(np);
    t.rights = kind == Composite ? (i ? steps[0].rights : 1 + s.below(4)) : 1;
    t.same = i && s.chance(1, 3);
    t.x = t.same ? steps[0].x : randomBits(rng, n);
    for (size_t r = 0; r < t.rights; r++) {
      t.y.push_back(randomBits(rng, n));
    }
    c.desc += cat("; ", t.px, "&", t.py, "->", t.to, " x", t.rights, t.same ? " same" : "");
  }
  c.nontrivial = true;
  c.label(kindName[kind]);
  c.label(pbt::name(g.eng.e));
  c.labelIf(np == 3, "three parties");
  c.labelIf(steps[0].px == steps[0].py, "one owner");
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
  for (int i = 0; i < np; i++) {
    af.push_back(net->factory(i, np));
  }
  struct Out {
    std::vector<Sent> sent;
    std::vector<Bits> x; // shares
    std::vector<std::vector<Bits>> y, z;
  };
  auto out = runPartiesR<Out>(*net, np, c.caseSeed, [&](int me) {
    auto q = makeScheduler(g, me, *af[me]);
    using W = fs::IScheduler::WireId<fs::IScheduler::Boolean>;
    Out r;
    for (auto& t : steps) {
      auto a = net->mark(me);
      Bits xs(n);
      std::vector<Bits> ys(t.rights, Bits(n)), zs;
      auto in = [&](const Bits& v, int owner) {
        return q->privateBooleanInputBatch(me == owner ? plain(v) : B(n), owner);
      };
      auto share = [&](W w) {
        return Bits(q->extractBooleanSecretShareBatch(w));
      };
      auto opened = [&](W w, const Bits& want) {
        auto o = q->getBooleanValueBatch(q->openBooleanValueToPartyBatch(w, t.to));
        require(me != t.to || o == plain(want), "wrong result");
      };
      if (t.k == Scalars) {
        std::vector<W> xw, yw, zw;
        for (size_t i = 0; i < n; i++) {
          xw.push_back(q->privateBooleanInput(me == t.px && t.x[i], t.px));
          yw.push_back(q->privateBooleanInput(me == t.py && t.y[0][i], t.py));
          zw.push_back(q->privateAndPrivate(xw[i], yw[i]));
        }
        Bits z(n);
        std::vector<W> ow;
        for (size_t i = 0; i < n; i++) {
          if (q->extractBooleanSecretShare(xw[i])) {
            xs.set(i);
          }
          if (q->extractBooleanSecretShare(yw[i])) {
            ys[0].set(i);
          }
          if (q->extractBooleanSecretShare(zw[i])) {
            z.set(i);
          }
          ow.push_back(q->openBooleanValueToParty(zw[i], t.to));
        }
        for (size_t i = 0; i < n; i++) {
          bool v = q->getBooleanValue(ow[i]);
          require(me != t.to || v == (t.x[i] && t.y[0][i]), "wrong result");
        }
        zs.push_back(z);
      } else {
        auto x = in(t.x, t.px);
        std::vector<W> y;
        for (auto& v : t.y) {
          y.push_back(in(v, t.py));
        }
        xs = share(x);
        for (size_t i = 0; i < y.size(); i++) {
          ys[i] = share(y[i]);
        }
        if (t.k == And) {
          auto z = q->privateAndPrivateBatch(x, y[0]);
          zs.push_back(share(z));
          opened(z, conj(t.x, t.y[0]));
        } else if (t.k == Composite) {
          auto z = q->privateAndPrivateCompositeBatch(x, y);
          for (size_t i = 0; i < z.size(); i++) {
            zs.push_back(share(z[i]));
            opened(z[i], conj(t.x, t.y[i]));
          }
        } else { // opened as it was entered
          opened(x, t.x);
        }
      }
      r.x.push_back(xs);
      r.y.push_back(ys);
      r.z.push_back(zs);
      r.sent.push_back(net->between(me, a, net->mark(me)));
    }
    return r;
  });
  // what every party sees
  std::vector<size_t> strides{1};
  if (kind == And) {
    strides = {1, 2};
  } else if (kind == Composite) {
    strides = {1, 2, 1 + steps[0].rights};
    if (g.eng.e == Eng::Product) {
      strides.push_back(2 * steps[0].rights);
    }
  } else if (kind == Scalars) {
    strides = {1, 2, 8};
  }
  std::sort(strides.begin(), strides.end());
  strides.erase(std::unique(strides.begin(), strides.end()), strides.end());
  for (int q = 0; q < np; q++) {
    std::vector<Seen> seen;
    std::vector<std::vector<Secret>> secrets;
    for (size_t i = 0; i < steps.size(); i++) {
      auto& t = steps[i];
      std::vector<Sent> sent;
      for (int p = 0; p < np; p++) {
        sent.push_back(out[p].sent[i]);
      }
      auto v = seenBy(q, sent);
      v.held.push_back({"share of x", out[q].x[i]});
      v.held.push_back({"share of y", out[q].y[i][0]});
      if (!out[q].z[i].empty()) {
        v.held.push_back({"share of the result", out[q].z[i][0]});
      }
      std::vector<Secret> ss;
      bool learns = q == t.to;
      if (kind == Inputs) {
        if (q != t.px && !learns) {
          ss.push_back({"x", t.x, nullptr});
        }
      } else {
        if (q != t.px) {
          if (!learns) {
            ss.push_back({"x", t.x, nullptr});
          } else if (q == t.py) { // what it learns says nothing where y is 0
            Bits at(n);
            for (auto& y : t.y) {
              for (size_t k = 0; k < at.w.size(); k++) {
                at.w[k] |= y.w[k];
              }
            }
            ss.push_back({"x where y is 0", t.x, std::make_shared<Bits>(inverse(at))});
          }
        }
        if (q != t.py) {
          if (!learns) {
            ss.push_back({"y", t.y[0], nullptr});
          } else if (q == t.px) {
            ss.push_back({"y where x is 0", t.y[0], std::make_shared<Bits>(inverse(t.x))});
          }
        }
        if (q != t.px && q != t.py && !learns) {
          ss.push_back({"the result", conj(t.x, t.y[0]), nullptr});
        }
      }
      hidden(v, ss, strides, cat("party ", q));
      seen.push_back(v);
      secrets.push_back(ss);
    }
    for (size_t i = 1; i < steps.size(); i++) {
      hiddenAcross(seen[i - 1], seen[i], secrets[i - 1], secrets[i], strides, cat("party ", q));
    }
  }
  // any set of shares that is not everybody's says nothing, and they are fresh
  for (size_t i = 0; i < steps.size(); i++) {
    auto& t = steps[i];
    for (int set = 1; set < (1 << np) - 1; set++) {
      Bits a(n), b(n), before(n);
      for (int p = 0; p < np; p++) {
        if (set >> p & 1) {
          a = a ^ out[p].x[i];
          b = b ^ out[p].y[i][0];
          before = before ^ out[p].x[0];
        }
      }
      auto who = [&] { return cat("shares of parties ", set); };
      independent(a, t.x, nullptr, who);
      independent(b, t.y[0], nullptr, who);
      if (i) {
        require((a ^ before).count() > n / 8, cat(who(), " do not change from step to step"));
        independent(a ^ before, t.x ^ steps[0].x, nullptr, who);
      }
    }
  }
}
// Integers: additive masks modulo 2^64.
struct Words {
  std::map<int, std::map<int, U>> channel;
};
template <typename F>
void wordVectors(const Seen& s, size_t n, const std::vector<std::pair<std::string, U>>& held, F&& f) {
  for (auto& [k, by] : s.channel) {
    std::vector<int> ps;
    std::vector<U> all;
    size_t len = 0;
    for (auto& [p, bytes] : by) {
      ps.push_back(p);
      U w(bytes.size() / 8);
      memcpy(w.data(), bytes.data(), w.size() * 8);
      all.push_back(w);
      len = std::max(len, w.size());
    }
    for (size_t stride : {1, 2}) {
      for (size_t o = 0; o + (n - 1) * stride < len && o < 300; o++) {
        for (size_t mask = 1; mask < 1u << ps.size(); mask++) {
          U v(n);
          bool ok = true;
          for (size_t i = 0; i < ps.size() && ok; i++) {
            if (mask >> i & 1) {
              ok = o + (n - 1) * stride < all[i].size();
              for (size_t j = 0; j < n && ok; j++) {
                v[j] += all[i][o + j * stride];
              }
            }
          }
          if (!ok) {
            continue;
          }
          for (size_t h = 0; h <= held.size(); h++) {
            for (int sign : {1, -1}) {
              auto z = v;
              if (h) {
                for (size_t j = 0; j < n; j++) {
                  z[j] += sign * held[h - 1].second[j];
                }
              } else if (sign < 0) {
                continue;
              }
              f([&] { return cat("channel ", k, " words ", o, "+", stride, "*i from ", mask, h ? cat(sign > 0 ? " plus " : " minus ", held[h - 1].first) : ""); }, z);
            }
          }
        }
      }
    }
  }
  for (auto& h : held) {
    f([&] { return h.first; }, h.second);
  }
}
Bits bitAt(const U& v, int b) {
  Bits r(v.size());
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i] >> b & 1) {
      r.set(i);
    }
  }
  return r;
}
void hiddenWords(const Seen& s, const std::vector<std::pair<std::string, U>>& held, const U& x, const std::string& who) {
  size_t n = x.size();
  wordVectors(s, n, held, [&](auto&& what, const U& v) {
    auto say = [&] { return cat(who, " in ", what()); };
    for (size_t i = 0; i < n; i++) {
      if (v[i] == x[i] || v[i] == -x[i]) {
        fail(say());
      }
      if (i && (v[i] - v[i - 1] == x[i] - x[i - 1] || v[i - 1] - v[i] == x[i] - x[i - 1])) {
        fail("difference: " + say());
      }
    }
    for (int b : {0, 1, 7, 31, 62, 63}) {
      independent(bitAt(v, b), bitAt(x, b), nullptr, [&] { return cat("bit ", b, " of ", say()); });
    }
  });
}
PROPERTY(integers, 60, 1500) {
  auto g = config(s, true);
  int np = g.eng.parties;
  auto rng = s.rng();
  size_t n = s.pick({128, 150, 200});
  if (np == 3) {
    n = 128;
  }
  struct IStep {
    int px, py, to;
    bool mult;
    U x, y;
  };
  std::vector<IStep> steps(2);
  c.desc = cat(show(g), " integers ", n);
  for (size_t i = 0; i < steps.size(); i++) {
    auto& t = steps[i];
    t = i ? steps[0] : IStep{(int)s.below(np), (int)s.below(np), (int)s.below(np), !s.chance(1, 5), U(n), U(n)};
    bool again = i && s.chance(1, 3);
    for (size_t k = 0; k < n; k++) {
      if (!again) {
        t.x[k] = rng.u64();
      }
      t.y[k] = rng.u64() & ~1ull; // even: see below
    }
    c.desc += cat("; ", t.px, t.mult ? "*" : "+", t.py, "->", t.to, again ? " same" : "");
  }
  c.nontrivial = true;
  c.label(pbt::name(g.eng.e));
  c.labelIf(np == 3, "three parties");
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
  for (int i = 0; i < np; i++) {
    af.push_back(net->factory(i, np));
  }
  struct Out {
    std::vector<Sent> sent;
    std::vector<U> x, y, z;
  };
  auto out = runPartiesR<Out>(*net, np, c.caseSeed, [&](int me) {
    auto q = makeScheduler(g, me, *af[me]);
    Out r;
    for (auto& t : steps) {
      auto a = net->mark(me);
      auto x = q->privateIntegerInputBatch(me == t.px ? t.x : U(n), t.px);
      auto y = q->privateIntegerInputBatch(me == t.py ? t.y : U(n), t.py);
      auto z = t.mult ? q->privateMultPrivateBatch(x, y) : q->privatePlusPrivateBatch(x, y);
      r.x.push_back(q->extractIntegerSecretShareBatch(x));
      r.y.push_back(q->extractIntegerSecretShareBatch(y));
      r.z.push_back(q->extractIntegerSecretShareBatch(z));
      auto o = q->getIntegerValueBatch(q->openIntegerValueToPartyBatch(z, t.to));
      if (me == t.to) {
        for (size_t i = 0; i < n; i++) {
          requireEq(o[i], t.mult ? t.x[i] * t.y[i] : t.x[i] + t.y[i], "result");
        }
      }
      r.sent.push_back(net->between(me, a, net->mark(me)));
    }
    return r;
  });
  for (int q = 0; q < np; q++) {
    for (size_t i = 0; i < steps.size(); i++) {
      auto& t = steps[i];
      std::vector<Sent> sent;
      for (int p = 0; p < np; p++) {
        sent.push_back(out[p].sent[i]);
      }
      auto v = seenBy(q, sent);
      std::vector<std::pair<std::string, U>> held{{"share of x", out[q].x[i]}, {"share of y", out[q].y[i]}, {"share of the result", out[q].z[i]}};
      if (q == t.to) {
        continue; // it learns something of both
      }
      if (q != t.px) {
        hiddenWords(v, held, t.x, cat("party ", q, " sees x"));
      }
      if (q != t.py) {
        hiddenWords(v, held, t.y, cat("party ", q, " sees y"));
      }
      if (i && q != t.px) { // masks that repeat
        std::vector<Sent> was;
        for (int p = 0; p < np; p++) {
          was.push_back(out[p].sent[i - 1]);
        }
        std::vector<U> first;
        wordVectors(seenBy(q, was), n, {{"", out[q].x[i - 1]}}, [&](auto&&, const U& w) { first.push_back(w); });
        size_t k = 0;
        wordVectors(v, n, {{"share of x", out[q].x[i]}}, [&](auto&& what, const U& w) {
          if (k < first.size()) {
            for (size_t j = 0; j < n; j++) {
              uint64_t d = t.x[j] - steps[i - 1].x[j], e = w[j] - first[k][j];
              if (e == d || e == -d) {
                fail(cat("party ", q, " sees the difference of two values in ", what()));
              }
            }
          }
          k++;
        });
      }
    }
  }
  for (size_t i = 0; i < steps.size(); i++) {
    for (int set = 1; set < (1 << np) - 1; set++) {
      U a(n), b(n);
      for (int p = 0; p < np; p++) {
        for (size_t k = 0; k < n && set >> p & 1; k++) {
          a[k] += out[p].x[i][k];
          b[k] += out[p].x[0][k];
        }
      }
      for (size_t k = 0; k < n; k++) {
        require(a[k] != steps[i].x[k] && a[k] != -steps[i].x[k], "shares that are not all give the value");
        if (i) {
          require(a[k] != b[k] && a[k] - b[k] != steps[i].x[k] - steps[0].x[k], "shares are not fresh");
        }
      }
      for (int bit : {0, 1, 31, 63}) {
        independent(bitAt(a, bit), bitAt(steps[i].x, bit), nullptr, [&] { return cat("bit ", bit, " of the shares of ", set); });
      }
    }
  }
}
// The building blocks: what is transferred, chosen or multiplied.
std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rcots(int k) {
  if (k == 0) {
    return iknpFactory(false);
  }
  if (k == 1) {
    return ferretFactory(false, 1024, 256, 16);
  }
  return std::make_shared<DealerRcotFactory>();
}
int genRcot(Src& s) {
  return s.chance(1, 10) ? s.below(2) : 2;
}
const char* rcotName[] = {"iknp", "ferret", "dealer"};
PROPERTY(transfers, 300, 8000) {
  int k = genRcot(s);
  auto rng = s.rng();
  size_t n = s.pick({512, 1000, 1024, 2048}), runs = 2 + s.below(2);
  if (k == 0) {
    n = 512;
  }
  std::vector<std::array<Bits, 2>> b0(runs), b1(runs), ch(runs);
  for (size_t i = 0; i < runs; i++) {
    for (int p = 0; p < 2; p++) {
      b0[i][p] = randomBits(rng, n);
      b1[i][p] = randomBits(rng, n);
      ch[i][p] = randomBits(rng, n);
    }
  }
  c.desc = cat("bit transfers over ", rcotName[k], " ", runs, " of ", n);
  c.nontrivial = true;
  c.label(rcotName[k]);
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::unique_ptr<comm::IPartyCommunicationAgentFactory> af[2] = {net->factory(0, 2), net->factory(1, 2)};
  struct Out {
    std::vector<Sent> sent;
    std::vector<Bits> got;
  };
  auto out = runPartiesR<Out>(*net, 2, c.caseSeed, [&](int me) {
    ot::RcotBasedBidirectionObliviousTransferFactory f(me, *af[me], rcots(k));
    auto o = f.create(1 - me);
    Out r;
    for (size_t i = 0; i < runs; i++) {
      auto a = net->mark(me);
      r.got.push_back(Bits(o->biDirectionOT(plain(b0[i][me]), plain(b1[i][me]), plain(ch[i][me]))));
      r.sent.push_back(net->between(me, a, net->mark(me)));
    }
    return r;
  });
  for (int q = 0; q < 2; q++) {
    int p = 1 - q;
    std::vector<Seen> seen;
    std::vector<std::vector<Secret>> secrets;
    for (size_t i = 0; i < runs; i++) {
      auto want = (b0[i][p] ^ conj(ch[i][q], b0[i][p] ^ b1[i][p]));
      require(out[q].got[i].w == want.w, "wrong message");
      auto v = seenBy(q, {out[0].sent[i], out[1].sent[i]});
      v.held.push_back({"choice", ch[i][q]});
      v.held.push_back({"message", out[q].got[i]});
      auto other = b1[i][p] ^ conj(ch[i][q], b0[i][p] ^ b1[i][p]); // not chosen
      std::vector<Secret> ss{{"the choice", ch[i][p], nullptr}, {"what it did not choose", other, nullptr}};
      hidden(v, ss, {1, 2}, cat("party ", q));
      seen.push_back(v);
      secrets.push_back(ss);
    }
    for (size_t i = 1; i < runs; i++) {
      hiddenAcross(seen[i - 1], seen[i], secrets[i - 1], secrets[i], {1, 2}, cat("party ", q));
    }
  }
}
PROPERTY(wordTransfers, 60, 2000) {
  int k = genRcot(s);
  auto rng = s.rng();
  size_t n = s.pick({128, 256, 500}), runs = 2;
  std::vector<std::array<U, 2>> u0(runs), u1(runs);
  std::vector<std::array<Bits, 2>> ch(runs);
  for (size_t i = 0; i < runs; i++) {
    for (int p = 0; p < 2; p++) {
      for (size_t j = 0; j < n; j++) {
        u0[i][p].push_back(rng.u64());
        u1[i][p].push_back(rng.u64());
      }
      ch[i][p] = randomBits(rng, n);
    }
  }
  c.desc = cat("word transfers over ", rcotName[k], " ", runs, " of ", n);
  c.nontrivial = true;
  c.label(rcotName[k]);
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::unique_ptr<comm::IPartyCommunicationAgentFactory> af[2] = {net->factory(0, 2), net->factory(1, 2)};
  struct Out {
    std::vector<Sent> sent;
    std::vector<U> got;
  };
  auto out = runPartiesR<Out>(*net, 2, c.caseSeed, [&](int me) {
    ot::RcotBasedBidirectionObliviousTransferFactory f(me, *af[me], rcots(k));
    auto o = f.create(1 - me);
    Out r;
    for (size_t i = 0; i < runs; i++) {
      auto a = net->mark(me);
      r.got.push_back(o->biDirectionOT(u0[i][me], u1[i][me], plain(ch[i][me])));
      r.sent.push_back(net->between(me, a, net->mark(me)));
    }
    return r;
  });
  for (int q = 0; q < 2; q++) {
    int p = 1 - q;
    for (size_t i = 0; i < runs; i++) {
      auto v = seenBy(q, {out[0].sent[i], out[1].sent[i]});
      U other, d;
      for (size_t j = 0; j < n; j++) {
        requireEq(out[q].got[i][j], ch[i][q][j] ? u1[i][p][j] : u0[i][p][j], "message");
        other.push_back(ch[i][q][j] ? u0[i][p][j] : u1[i][p][j]);
      }
      hiddenWords(v, {{"message", out[q].got[i]}}, other, cat("party ", q, " sees what it did not choose"));
      v.held.push_back({"choice", ch[i][q]});
      hidden(v, {{"the choice", ch[i][p], nullptr}}, {1, 2}, cat("party ", q));
      // words masked by exclusive or
      for (auto& [chan, by] : v.channel) {
        if (!by.count(p)) {
          continue;
        }
        auto& bytes = by.at(p);
        std::unordered_set<uint64_t> words;
        U w(bytes.size() / 8);
        memcpy(w.data(), bytes.data(), w.size() * 8);
        words.insert(w.begin(), w.end());
        require(words.size() == w.size(), "a masked word twice");
        std::unordered_set<uint64_t> steps;
        for (size_t o = 0; o + 1 < w.size(); o++) {
          steps.insert(w[o] ^ w[o + 1]);
        }
        for (size_t j = 0; j < n; j++) {
          require(!words.count(other[j]), "a message in the clear");
          require(!steps.count(u0[i][p][j] ^ u1[i][p][j]), "both messages of a transfer under one mask");
        }
      }
    }
  }
}
PROPERTY(products, 240, 6000) {
  int k = genRcot(s);
  auto rng = s.rng();
  size_t n = s.pick({512, 1000, 1024}), runs = 2 + s.below(2);
  std::vector<std::array<Bits, 2>> l(runs), r(runs);
  for (size_t i = 0; i < runs; i++) {
    for (int p = 0; p < 2; p++) {
      l[i][p] = randomBits(rng, n);
      r[i][p] = randomBits(rng, n);
    }
  }
  c.desc = cat("products over ", rcotName[k], " ", runs, " of ", n);
  c.nontrivial = true;
  c.label(rcotName[k]);
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::unique_ptr<comm::IPartyCommunicationAgentFactory> af[2] = {net->factory(0, 2), net->factory(1, 2)};
  struct Out {
    std::vector<Sent> sent;
    std::vector<Bits> got;
  };
  auto out = runPartiesR<Out>(*net, 2, c.caseSeed, [&](int me) {
    tg::ProductShareGeneratorFactory f(
        std::make_unique<fe::util::AesPrgFactory>(1024),
        std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *af[me], rcots(k)));
    auto o = f.create(1 - me);
    Out x;
    for (size_t i = 0; i < runs; i++) {
      auto a = net->mark(me);
      x.got.push_back(Bits(o->generateBooleanProductShares(plain(l[i][me]), plain(r[i][me]))));
      x.sent.push_back(net->between(me, a, net->mark(me)));
    }
    return x;
  });
  for (int q = 0; q < 2; q++) {
    int p = 1 - q;
    std::vector<Seen> seen;
    std::vector<std::vector<Secret>> secrets;
    for (size_t i = 0; i < runs; i++) {
      auto v = seenBy(q, {out[0].sent[i], out[1].sent[i]});
      v.held.push_back({"left factor", l[i][q]});
      v.held.push_back({"right factor", r[i][q]});
      v.held.push_back({"share of the product", out[q].got[i]});
      std::vector<Secret> ss{{"the left factor", l[i][p], nullptr}, {"the right factor", r[i][p], nullptr}, {"the sum of the factors", l[i][p] ^ r[i][p], nullptr}};
      hidden(v, ss, {1, 2}, cat("party ", q));
      seen.push_back(v);
      secrets.push_back(ss);
    }
    for (size_t i = 1; i < runs; i++) {
      hiddenAcross(seen[i - 1], seen[i], secrets[i - 1], secrets[i], {1, 2}, cat("party ", q));
    }
  }
}
// Shares of products of zeros are the masks themselves: nothing in them repeats.
PROPERTY(productMasks, 60, 1500) {
  int k = genRcot(s);
  bool words = s.chance(1, 3);
  size_t n = words ? s.pick({200, 256, 300}) : s.pick({512, 1000, 1024, 4096}), runs = 1 + s.below(3);
  c.desc = cat(words ? "integer" : "bit", " products of zeros over ", rcotName[k], " ", runs, " of ", n);
  c.nontrivial = true;
  c.label(words ? "integers" : "bits");
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::unique_ptr<comm::IPartyCommunicationAgentFactory> af[2] = {net->factory(0, 2), net->factory(1, 2)};
  auto out = runPartiesR<std::vector<U>>(*net, 2, c.caseSeed, [&](int me) {
    tg::ProductShareGeneratorFactory f(
        std::make_unique<fe::util::AesPrgFactory>(1024),
        std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *af[me], rcots(k)));
    auto o = f.create(1 - me);
    std::vector<U> x;
    for (size_t i = 0; i < runs; i++) {
      if (words) {
        x.push_back(o->generateIntegerProductShares(U(n), U(n)));
      } else {
        auto b = o->generateBooleanProductShares(B(n), B(n));
        x.push_back(U(b.begin(), b.end()));
      }
    }
    return x;
  });
  for (size_t b = 0; b < (words ? 64 : 1); b++) {
    Bits all(n * runs);
    for (size_t i = 0; i < runs; i++) {
      for (size_t j = 0; j < n; j++) {
        requireEq(words ? out[0][i][j] + out[1][i][j] : out[0][i][j] ^ out[1][i][j], 0u, "product of zeros");
        if (out[0][i][j] >> b & 1) {
          all.set(i * n + j);
        }
      }
    }
    noStructure(all, nullptr, [&] { return cat("bit ", b, " of the shares"); });
    require(std::abs((double)all.count() - all.n / 2.0) <= kSigmas * std::sqrt(all.n) / 2 + 2, cat("of ", all.n, " bits ", b, " of the shares ", all.count(), " are set"));
  }
}
// What a party has of multiplication tuples tells nothing about the others' parts.
PROPERTY(tuples, 60, 1500) {
  EngCfg g;
  bool ints = s.chance(1, 4);
  g.e = ints || s.coin() ? Eng::Product : Eng::Dealer;
  g.parties = g.e == Eng::Product ? 2 + s.below(3) : 2;
  g.arithmetic = ints;
  g.buffer = ints ? s.pick({100, 500}) : s.pick({500, 1024, 4096});
  g.prgBuffer = s.pick({512, 1024});
  if (!ints && s.chance(1, 10)) {
    g.e = s.pick({Eng::Iknp, Eng::Ferret});
    g.realBase = true; // the stand-in's seeds are the same in both directions
    g.parties = 2;
  }
  bool comp = g.e != Eng::Product && s.coin();
  size_t n = ints ? 2048 : 4096, rights = comp ? 1 + s.below(4) : 1, np = g.parties;
  c.desc = cat(show(g), ints ? " integers" : comp ? cat(" composite x", rights) : " bits");
  c.nontrivial = true;
  c.label(pbt::name(g.e));
  c.label(ints ? "integers" : comp ? "composite" : "bits");
  c.labelIf(np > 2, "more than two parties");
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
  for (size_t i = 0; i < np; i++) {
    af.push_back(net->factory(i, np));
  }
  struct Tup {
    Bits a;
    std::vector<Bits> b, c;
  };
  auto out = runPartiesR<Tup>(*net, np, c.caseSeed, [&](int me) {
    auto x = parts(g, me, *af[me]);
    auto q = x.tuples->create();
    std::unique_ptr<tg::IArithmeticTupleGenerator> ari;
    if (ints) {
      ari = x.integers->create();
    }
    Tup t{Bits(n), std::vector<Bits>(rights, Bits(n)), std::vector<Bits>(rights, Bits(n))};
    auto put = [](Bits& to, size_t i, bool v) {
      if (v) {
        to.set(i);
      }
    };
    for (size_t done = 0; done < n;) { // in pieces
      size_t m = std::min<size_t>(n - done, 700);
      if (ints) {
        auto v = ari->getIntegerTuple(m);
        for (size_t i = 0; i < m; i++) {
          put(t.a, done + i, v[i].getA() & 1);
          put(t.b[0], done + i, v[i].getB() & 1);
          put(t.c[0], done + i, v[i].getC() & 1);
        }
      } else if (comp) {
        auto v = q->getCompositeTuple({{rights, m}}).at(rights);
        for (size_t i = 0; i < m; i++) {
          put(t.a, done + i, v[i].getA());
          for (size_t k = 0; k < rights; k++) {
            put(t.b[k], done + i, v[i].getB()[k]);
            put(t.c[k], done + i, v[i].getC()[k]);
          }
        }
      } else {
        auto v = q->getBooleanTuple(m);
        for (size_t i = 0; i < m; i++) {
          put(t.a, done + i, v[i].getA());
          put(t.b[0], done + i, v[i].getB());
          put(t.c[0], done + i, v[i].getC());
        }
      }
      done += m;
    }
    return t;
  });
  for (size_t k = 0; k < rights; k++) {
    Bits a(n), b(n), p(n);
    for (auto& t : out) {
      a = a ^ t.a;
      b = b ^ t.b[k];
      p = p ^ t.c[k];
    }
    require(conj(a, b).w == p.w, "the shares do not multiply");
    for (size_t q = 0; q < np; q++) {
      auto& t = out[q];
      auto who = [&](const char* x) { return cat("party ", q, "'s share of ", x, k); };
      Bits zero = inverse(t.a), one = conj(t.a, t.b[k]);
      zero = conj(zero, inverse(t.b[k]));
      noStructure(t.a, nullptr, [&] { return who("a"); });
      noStructure(t.b[k], nullptr, [&] { return who("b"); });
      noStructure(t.c[k], &zero, [&] { return who("c, where a and b are 0,"); });
      noStructure(t.c[k], &one, [&] { return who("c, where a and b are 1,"); });
      independent(t.a, t.b[k], nullptr, [&] { return who("a and b"); });
      for (auto& held : {std::make_pair("a", t.a), std::make_pair("b", t.b[k]), std::make_pair("c", t.c[k]), std::make_pair("c+ab", t.c[k] ^ conj(t.a, t.b[k]))}) {
        for (auto& x : {std::make_pair("a", a ^ t.a), std::make_pair("b", b ^ t.b[k]), std::make_pair("the sum of a and b", a ^ t.a ^ b ^ t.b[k])}) {
          for (const Bits* at : {(const Bits*)nullptr, (const Bits*)&zero, (const Bits*)&one, (const Bits*)&t.a, (const Bits*)&t.b[k]}) {
            independent(held.second, x.second, at, [&] { return cat("party ", q, " knows the others' ", x.first, " by its ", held.first); });
          }
        }
        if (k) {
          independent(held.second, out[q].b[k - 1], nullptr, [&] { return who("b and the one before"); });
        }
      }
    }
  }
}
// Independent uniform bits satisfy no linear relation that holds every time:
// of rows of such bits, each with a 1 appended, as many are independent as
// there are columns (64 rows more than columns: chance fails once in 10^19).
struct Relations {
  size_t columns;
  std::vector<Bits> rows;
  explicit Relations(size_t c) : columns(c) {}
  void none(const std::function<std::string(size_t)>& column) const {
    require(rows.size() >= columns + 65, "too few rows");
    // a relation is a vector orthogonal to every row
    std::vector<Bits> m;
    std::vector<size_t> pivot;
    std::vector<bool> isPivot(columns + 1);
    for (auto r : rows) {
      for (size_t i = 0; i < m.size(); i++) {
        if (r[pivot[i]]) {
          r = r ^ m[i];
        }
      }
      size_t p = 0;
      while (p <= columns && !r[p]) {
        p++;
      }
      if (p > columns) {
        continue;
      }
      for (auto& x : m) {
        if (x[p]) {
          x = x ^ r;
        }
      }
      m.push_back(r);
      pivot.push_back(p);
      isPivot[p] = true;
    }
    for (size_t f = 0; f <= columns; f++) {
      if (!isPivot[f]) { // free: the pivots whose rows contain it, and itself
        std::string text = f == columns ? "1" : column(f);
        for (size_t i = 0; i < m.size(); i++) {
          if (m[i][f]) {
            text += " + " + (pivot[i] == columns ? "1" : column(pivot[i]));
          }
        }
        fail(cat("in ", rows.size(), " runs always 0: ", text));
      }
    }
  }
};
struct RecordingAgent final : comm::ISecretShareEngineCommunicationAgent {
  std::unique_ptr<comm::ISecretShareEngineCommunicationAgent> to;
  std::vector<bool>* bits;
  RecordingAgent(std::unique_ptr<comm::ISecretShareEngineCommunicationAgent> t, std::vector<bool>* b) : to(std::move(t)), bits(b) {}
  std::map<int, __m128i> exchangeKeys(const std::map<int, __m128i>& k) override {
    return to->exchangeKeys(k);
  }
  std::vector<bool> openSecretsToAll(const std::vector<bool>& v) override {
    bits->insert(bits->end(), v.begin(), v.end());
    return to->openSecretsToAll(v);
  }
  std::vector<uint64_t> openSecretsToAll(const std::vector<uint64_t>& v) override {
    for (auto x : v) {
      bits->push_back(x & 1);
    }
    return to->openSecretsToAll(v);
  }
  std::vector<bool> openSecretsToParty(int id, const std::vector<bool>& v) override {
    return to->openSecretsToParty(id, v);
  }
  std::vector<uint64_t> openSecretsToParty(int id, const std::vector<uint64_t>& v) override {
    return to->openSecretsToParty(id, v);
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
    return to->getTrafficStatistics();
  }
};
// The same gates on the same shares again and again: what is opened to all for
// them is masked by bits used once, so no relation between any of it persists.
PROPERTY(openings, 30, 800) {
  EngCfg g;
  bool ints = s.chance(1, 3);
  g.e = s.pick({Eng::Dealer, Eng::Product});
  g.parties = g.e == Eng::Product ? 2 + s.below(2) : 2;
  g.arithmetic = ints;
  g.buffer = s.pick({64, 100, 500});
  g.prgBuffer = s.pick({512, 1024});
  struct Gate {
    int k; // and, batch and, composite, batch composite, mult, batch mult
    size_t batch = 1, rights = 1;
    bool now = false;
  };
  std::vector<Gate> gates;
  size_t bits = 0;
  std::set<int> kinds;
  for (size_t i = 0, n = 2 + s.below(8); i < n && bits < 60; i++) {
    Gate t{(int)s.below(ints ? 6 : 4)};
    t.batch = t.k % 2 ? 1 + s.below(4) : 1;
    t.rights = t.k == 2 || t.k == 3 ? 1 + s.below(3) : 1;
    t.now = (t.k == 1 || t.k == 5) && s.chance(1, 4);
    bits += t.k == 2 || t.k == 3 ? t.batch * (1 + (g.e == Eng::Product ? 2 : 1) * t.rights) : 2 * t.batch;
    kinds.insert(t.k);
    gates.push_back(t);
  }
  int np = g.parties;
  size_t per = 1 + s.below(2); // executions in a row
  c.desc = show(g) + (per > 1 ? " in pairs:" : ":");
  for (auto& t : gates) {
    static const char* n[] = {"and", "ands", "comp", "comps", "mult", "mults"};
    c.desc += cat(" ", t.now ? "now-" : "", n[t.k], t.batch, "x", t.rights);
  }
  c.nontrivial = kinds.size() > 1;
  c.label(pbt::name(g.e));
  c.labelIf(kinds.count(2) && kinds.count(3), "both kinds of composites");
  c.labelIf(ints, "integers");
  c.labelIf(np > 2, "three parties");
  size_t upTo = (2 * bits + 8) * per * np + 70; // rows, at most
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
  for (int i = 0; i < np; i++) {
    af.push_back(net->factory(i, np));
  }
  auto out = runPartiesR<std::vector<std::vector<bool>>>(*net, np, c.caseSeed, [&](int me) {
    auto x = parts(g, me, *af[me]);
    std::map<int, std::unique_ptr<comm::IPartyCommunicationAgent>> agents;
    for (int i = 0; i < np; i++) {
      if (i != me) {
        agents.emplace(i, af[me]->create(i, "engine traffic"));
      }
    }
    std::vector<bool> opened;
    auto tuples = x.tuples->create();
    std::unique_ptr<tg::IArithmeticTupleGenerator> integers;
    if (x.integers) {
      integers = x.integers->create();
    }
    fe::SecretShareEngine e(
        std::move(tuples), std::move(integers), std::make_unique<RecordingAgent>(std::make_unique<comm::SecretShareEngineCommunicationAgent>(me, std::move(agents)), &opened), std::make_unique<fe::util::AesPrgFactory>(1024), me, np);
    std::vector<std::vector<bool>> rows;
    size_t want = upTo;
    for (size_t k = 0; k < want; k++) {
      opened.clear();
      for (size_t j = 0; j < per; j++) {
        Rng r(c.caseSeed + me); // the same shares every time
        auto bit = [&](size_t n) {
          std::vector<bool> v(n);
          for (size_t i = 0; i < n; i++) {
            v[i] = r.bit();
          }
          return v;
        };
        auto word = [&](size_t n) {
          U v(n);
          for (auto& y : v) {
            y = r.u64();
          }
          return v;
        };
        for (auto& t : gates) {
          auto left = bit(t.batch);
          std::vector<std::vector<bool>> right;
          for (size_t i = 0; i < t.rights; i++) {
            right.push_back(bit(t.batch));
          }
          switch (t.k) {
            case 0:
              e.scheduleAND(left[0], right[0][0]);
              break;
            case 1:
              if (t.now) {
                e.computeBatchANDImmediately(left, right[0]);
              } else {
                e.scheduleBatchAND(left, right[0]);
              }
              break;
            case 2: {
              std::vector<bool> y;
              for (auto& v : right) {
                y.push_back(v[0]);
              }
              e.scheduleCompositeAND(left[0], y);
              break;
            }
            case 3:
              e.scheduleBatchCompositeAND(left, right);
              break;
            case 4: {
              auto v = word(2);
              e.scheduleMult(v[0], v[1]);
              break;
            }
            default: {
              auto v = word(t.batch), w = word(t.batch);
              if (t.now) {
                e.computeBatchMultImmediately(v, w);
              } else {
                e.scheduleBatchMult(v, w);
              }
            }
          }
        }
        e.executeScheduledOperations();
      }
      if (rows.empty()) {
        want = std::min(upTo, opened.size() * np + 66);
      }
      rows.push_back(opened);
    }
    return rows;
  });
  size_t n = out[0][0].size();
  Relations rel(n * np);
  for (size_t k = 0; k < out[0].size(); k++) {
    Bits r(n * np + 1);
    r.set(n * np);
    for (int p = 0; p < np; p++) {
      requireEq(out[p][k].size(), n, "bits opened by party ", p);
      for (size_t i = 0; i < n; i++) {
        if (out[p][k][i]) {
          r.set(p * n + i);
        }
      }
    }
    rel.rows.push_back(r);
  }
  rel.none([&](size_t i) { return cat("bit ", i % n, " opened by party ", i / n); });
}
// The same for the tuples themselves: the factors of all parties and all but
// one of the products' shares are independent.
PROPERTY(tupleRelations, 30, 800) {
  EngCfg g;
  bool ints = s.chance(1, 4);
  g.e = ints || s.coin() ? Eng::Product : Eng::Dealer;
  g.parties = g.e == Eng::Product ? 2 + s.below(2) : 2;
  g.arithmetic = ints;
  g.buffer = s.pick({16, 32, 48});
  g.prgBuffer = s.pick({512, 1024});
  int np = g.parties;
  bool comp = g.e == Eng::Dealer && s.coin();
  bool many = comp && s.chance(1, 3);
  size_t rights = many ? 65 + s.below(90) : comp ? 2 + s.below(3) : 1;
  size_t n = many ? 1 + s.below(2) : comp ? 4 + s.below(12) : s.pick({g.buffer, g.buffer, g.buffer / 2});
  size_t w = 1 + 2 * rights; // bits of a tuple
  size_t columns = n * (np * w - rights);
  c.desc = cat(show(g), ints ? " integers " : comp ? cat(" composite x", rights, " ") : " bits ", n, " at a time");
  c.nontrivial = true;
  c.label(pbt::name(g.e));
  c.label(ints ? "integers" : comp ? "composite" : "bits");
  c.labelIf(np > 2, "three parties");
  c.labelIf(many, "more than 64 products");
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
  for (int i = 0; i < np; i++) {
    af.push_back(net->factory(i, np));
  }
  auto out = runPartiesR<std::vector<std::vector<bool>>>(*net, np, c.caseSeed, [&](int me) {
    auto x = parts(g, me, *af[me]);
    auto q = x.tuples->create();
    std::unique_ptr<tg::IArithmeticTupleGenerator> ari;
    if (ints) {
      ari = x.integers->create();
    }
    std::vector<std::vector<bool>> rows;
    for (size_t k = 0; k < columns + 66; k++) {
      std::vector<bool> r;
      if (ints) {
        for (auto& t : ari->getIntegerTuple(n)) {
          r.insert(r.end(), {bool(t.getA() & 1), bool(t.getB() & 1), bool(t.getC() & 1)});
        }
      } else if (comp) {
        auto all = q->getCompositeTuple({{rights, n}});
        for (auto& t : all.at(rights)) {
          r.push_back(t.getA());
          for (size_t i = 0; i < rights; i++) {
            r.push_back(t.getB()[i]);
          }
          for (size_t i = 0; i < rights; i++) {
            r.push_back(t.getC()[i]);
          }
        }
      } else {
        for (auto& t : q->getBooleanTuple(n)) {
          r.insert(r.end(), {t.getA(), t.getB(), t.getC()});
        }
      }
      rows.push_back(r);
    }
    return rows;
  });
  Relations rel(columns);
  std::vector<std::string> names;
  for (size_t k = 0; k < out[0].size(); k++) {
    Bits r(columns + 1);
    r.set(columns);
    size_t at = 0;
    for (size_t i = 0; i < n; i++) {
      for (int p = 0; p < np; p++) {
        requireEq(out[p][k].size(), n * w, "bits of tuples");
        for (size_t j = 0; j < (p ? w : w - rights); j++) {
          if (out[p][k][i * w + j]) {
            r.set(at);
          }
          if (!k) {
            names.push_back(cat(j == 0 ? "a" : j <= rights ? "b" : "c", j == 0 ? "" : cat((j - 1) % rights), " of tuple ", i, " of party ", p));
          }
          at++;
        }
      }
    }
    rel.rows.push_back(r);
  }
  rel.none([&](size_t i) { return names[i]; });
}
// Likewise for what a party offers in the transfers behind products of the same
// factors again and again, and for its shares of those products.
struct RecordingTransfer final : ot::IBidirectionObliviousTransfer {
  std::vector<bool>* offered;
  size_t bit;
  std::unique_ptr<ot::IBidirectionObliviousTransfer> to;
  RecordingTransfer(std::vector<bool>* o, size_t b, std::unique_ptr<ot::IBidirectionObliviousTransfer> t) : offered(o), bit(b), to(std::move(t)) {}
  std::vector<bool> biDirectionOT(const std::vector<bool>& x, const std::vector<bool>& y, const std::vector<bool>& c) override {
    offered->insert(offered->end(), x.begin(), x.end());
    return to->biDirectionOT(x, y, c);
  }
  std::vector<uint64_t> biDirectionOT(const std::vector<uint64_t>& x, const std::vector<uint64_t>& y, const std::vector<bool>& c) override {
    for (auto v : x) {
      offered->push_back(v >> bit & 1);
    }
    return to->biDirectionOT(x, y, c);
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
    return to->getTrafficStatistics();
  }
};
struct RecordingTransfers final : ot::IBidirectionObliviousTransferFactory {
  std::vector<bool>* offered;
  size_t bit;
  std::unique_ptr<ot::IBidirectionObliviousTransferFactory> to;
  std::unique_ptr<ot::IBidirectionObliviousTransfer> create(int id) override {
    return std::make_unique<RecordingTransfer>(offered, bit, to->create(id));
  }
};
PROPERTY(productRelations, 18, 600) {
  auto rng = s.rng();
  struct Call {
    bool words;
    size_t n;
    std::array<U, 2> l, r;
  };
  std::vector<Call> calls;
  size_t bit = s.below(64), calling = 1 + s.below(3), total = 0;
  bool ints = false;
  c.desc = cat("bit ", bit, " of");
  for (size_t i = 0; i < calling; i++) {
    Call x{s.chance(1, 3)};
    x.n = x.words ? 1 + s.below(2) : 2 + s.below(50);
    for (int p = 0; p < 2; p++) {
      bool zero = s.chance(1, 3);
      for (size_t j = 0; j < x.n; j++) {
        x.l[p].push_back(zero ? 0 : x.words ? rng.u64() : rng.bit());
        x.r[p].push_back(zero ? 0 : x.words ? rng.u64() : rng.bit());
      }
    }
    ints |= x.words;
    total += x.words ? 65 * x.n : 2 * x.n;
    c.desc += cat(" ", x.words ? "int" : "bool", x.n);
    calls.push_back(x);
  }
  c.nontrivial = total > 4;
  c.labelIf(ints, "integers");
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::unique_ptr<comm::IPartyCommunicationAgentFactory> af[2] = {net->factory(0, 2), net->factory(1, 2)};
  struct Out {
    std::vector<std::vector<bool>> offered, shares;
  };
  auto out = runPartiesR<Out>(*net, 2, c.caseSeed, [&](int me) {
    std::vector<bool> offered;
    auto rec = std::make_unique<RecordingTransfers>();
    rec->offered = &offered;
    rec->bit = bit;
    rec->to = std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, *af[me], rcots(2));
    tg::ProductShareGeneratorFactory f(std::make_unique<fe::util::AesPrgFactory>(1024), std::move(rec));
    auto o = f.create(1 - me);
    Out x;
    for (size_t k = 0; k < 2 * total + 70; k++) {
      offered.clear();
      std::vector<bool> sh;
      for (auto& q : calls) {
        if (q.words) {
          for (auto v : o->generateIntegerProductShares(q.l[me], q.r[me])) {
            sh.push_back(v >> bit & 1);
          }
        } else {
          auto v = o->generateBooleanProductShares(B(q.l[me].begin(), q.l[me].end()), B(q.r[me].begin(), q.r[me].end()));
          sh.insert(sh.end(), v.begin(), v.end());
        }
      }
      x.offered.push_back(offered);
      x.shares.push_back(sh);
    }
    return x;
  });
  auto none = [](const std::vector<const std::vector<std::vector<bool>>*>& m, const std::vector<std::string>& what) {
    std::vector<size_t> start{0};
    for (auto x : m) {
      start.push_back(start.back() + (*x)[0].size());
    }
    Relations rel(start.back());
    for (size_t k = 0; k < m[0]->size() && k < rel.columns + 66; k++) {
      Bits r(rel.columns + 1);
      r.set(rel.columns);
      for (size_t i = 0; i < m.size(); i++) {
        auto& row = (*m[i])[k];
        requireEq(row.size(), start[i + 1] - start[i], what[i], ": how many");
        for (size_t j = 0; j < row.size(); j++) {
          if (row[j]) {
            r.set(start[i] + j);
          }
        }
      }
      rel.rows.push_back(r);
    }
    rel.none([&](size_t f) {
      size_t i = m.size() - 1;
      while (start[i] > f) {
        i--;
      }
      return cat(what[i], " ", f - start[i]);
    });
  };
  none({&out[0].offered, &out[1].offered}, {"mask of party 0", "mask of party 1"});
  for (int p = 0; p < 2; p++) {
    none({&out[p].shares}, {cat("share of party ", p)});
  }
}
// What is drawn is drawn anew for every session, even when nothing else changes.
PROPERTY(sessions, 40, 1000) {
  int kind = s.below(4);
  int np = 2;
  std::vector<std::vector<std::pair<std::string, Bits>>> seen; // of each session
  auto compare = [&] {
    requireEq(seen.at(0).size(), seen.at(1).size(), "what is compared");
    for (size_t i = 0; i < seen[0].size(); i++) {
      auto &a = seen[0][i], &b = seen[1][i];
      requireEq(a.second.n, b.second.n, "bits of ", a.first);
      independent(a.second, b.second, nullptr, [&] { return cat(a.first, ", in one session and the next"); });
    }
  };
  auto column = [](const auto& v, auto&& f) {
    Bits r(v.size());
    for (size_t i = 0; i < v.size(); i++) {
      if (f(v[i])) {
        r.set(i);
      }
    }
    return r;
  };
  c.nontrivial = true;
  if (kind < 2) {
    EngCfg g;
    bool ints = s.coin();
    g.e = s.chance(1, 10) ? s.pick({Eng::Iknp, Eng::Ferret}) : ints || s.coin() ? Eng::Product : Eng::Dealer;
    g.parties = np = g.e == Eng::Product ? 2 + s.below(2) : 2;
    ints &= g.e == Eng::Product;
    g.arithmetic = ints;
    g.buffer = s.pick({100, 500, 1024});
    g.prgBuffer = s.pick({512, 1024});
    g.realBase = true;
    size_t n = 1024, bit = s.below(64);
    int owner = s.below(np);
    Rng r = s.rng();
    auto in = randomBits(r, n);
    U words(n);
    for (auto& x : words) {
      x = r.u64();
    }
    c.desc = cat(show(g), kind ? ints ? " integer tuples" : " tuples" : cat(" inputs of party ", owner, ints ? cat(", bit ", bit) : ""));
    c.label(kind ? "tuples" : "inputs");
    for (int k = 0; k < 2; k++) {
      auto net = std::make_shared<Net>((c.caseSeed | 1) + 2 * k);
      std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
      for (int i = 0; i < np; i++) {
        af.push_back(net->factory(i, np));
      }
      using Seen1 = std::vector<std::pair<std::string, Bits>>;
      auto out = runPartiesR<Seen1>(*net, np, c.caseSeed + 1000 * k, [&](int me) {
        Seen1 v;
        auto who = [&](const char* x) { return cat("party ", me, "'s share of ", x); };
        if (kind) {
          auto x = parts(g, me, *af[me]);
          auto q = x.tuples->create();
          if (ints) {
            auto t = x.integers->create()->getIntegerTuple(n);
            v.push_back({who("a"), column(t, [&](auto& y) { return y.getA() >> bit & 1; })});
            v.push_back({who("b"), column(t, [&](auto& y) { return y.getB() >> bit & 1; })});
            v.push_back({who("c"), column(t, [&](auto& y) { return y.getC() >> bit & 1; })});
          } else {
            auto t = q->getBooleanTuple(n);
            v.push_back({who("a"), column(t, [&](auto& y) { return y.getA(); })});
            v.push_back({who("b"), column(t, [&](auto& y) { return y.getB(); })});
            v.push_back({who("c"), column(t, [&](auto& y) { return y.getC(); })});
          }
        } else {
          auto e = engineFactory(g, me, *af[me])->create();
          if (ints) {
            auto x = e->setBatchIntegerInput(owner, owner == me ? words : U(n));
            v.push_back({who("the input"), column(x, [&](auto y) { return y >> bit & 1; })});
          } else {
            auto x = e->setBatchInput(owner, owner == me ? plain(in) : B(n));
            v.push_back({who("the input"), column(x, [&](bool y) { return y; })});
          }
        }
        return v;
      });
      seen.push_back({});
      for (auto& v : out) {
        seen.back().insert(seen.back().end(), v.begin(), v.end());
      }
    }
    compare();
    return;
  }
  if (kind == 2) {
    int k = s.below(2);
    bool realBase = true; // the stand-in's keys are always the same
    size_t n = s.pick({512, 600});
    u128 delta = gen128(s) | 1;
    c.desc = cat(rcotName[k], " over real base transfers ", n);
    c.label(rcotName[k]);
    std::set<u128> keys;
    for (int j = 0; j < 2; j++) {
      auto net = std::make_shared<Net>((c.caseSeed | 1) + 2 * j);
      std::unique_ptr<comm::IPartyCommunicationAgent> ag[2] = {net->agent(0, 1), net->agent(1, 0)};
      auto out = runPartiesR<std::vector<u128>>(*net, 2, c.caseSeed + 1000 * j, [&](int me) {
        auto f = k == 0 ? std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory>(iknpFactory(realBase)) : ferretFactory(realBase, 1024, 256, 16);
        auto o = me ? f->create(std::move(ag[1])) : f->create(toM(delta), std::move(ag[0]));
        return toU(o->rcot(n));
      });
      for (auto x : out[0]) {
        require(keys.insert(x).second, cat("the sender's value ", hex(x), " comes twice"));
      }
      seen.push_back({{"the receiver's choices", column(out[1], [](u128 x) { return x & 1; })}});
    }
    compare();
    return;
  }
  // base transfers: points are as good as random, and so never the same
  size_t n = 2 + s.below(12);
  B choice = s.bits(n);
  c.desc = cat("base transfers ", show(choice));
  c.label("base transfers");
  std::map<std::string, std::string> windows;
  std::set<u128> keys;
  for (int j = 0; j < 2; j++) {
    auto net = std::make_shared<Net>((c.caseSeed | 1) + 2 * j, true);
    std::unique_ptr<comm::IPartyCommunicationAgent> ag[2] = {net->agent(0, 1), net->agent(1, 0)};
    auto out = runPartiesR<std::vector<u128>>(*net, 2, c.caseSeed + 1000 * j, [&](int me) {
      auto o = ot::NpBaseObliviousTransferFactory().create(std::move(ag[me]));
      if (me) {
        return toU(o->receive(choice));
      }
      auto [a, b] = o->send(n);
      auto v = toU(a), w = toU(b);
      v.insert(v.end(), w.begin(), w.end());
      return v;
    });
    for (auto x : out[0]) {
      require(keys.insert(x).second, cat("the sender's value ", hex(x), " comes twice"));
    }
    for (int p = 0; p < 2; p++) {
      auto m = net->transcript(p, 1 - p);
      auto where = [&](size_t i) { return cat("byte ", i, " of what party ", p, " sends in session ", j); };
      for (size_t i = 0; i + 32 <= m.size(); i++) {
        auto [it, isNew] = windows.emplace(std::string(m.begin() + i, m.begin() + i + 32), where(i));
        require(isNew, cat("32 bytes from ", where(i), " are those from ", it->second));
      }
    }
  }
}
// The offsets a party correlates with are its own secret: new ones everywhere.
struct RecordingRcots final : ot::IRandomCorrelatedObliviousTransferFactory {
  std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> to = std::make_shared<DealerRcotFactory>();
  std::shared_ptr<std::vector<u128>> offsets;
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(__m128i delta, std::unique_ptr<comm::IPartyCommunicationAgent> a) override {
    offsets->push_back(toU(delta));
    return to->create(delta, std::move(a));
  }
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(std::unique_ptr<comm::IPartyCommunicationAgent> a) override {
    return to->create(std::move(a));
  }
};
PROPERTY(sessionOffsets, 60, 1500) {
  bool tuples = s.coin();
  int np = tuples ? 2 : 2 + s.below(3), times = 1 + s.below(3);
  c.desc = cat(tuples ? "tuples" : "two-way transfers", " of ", np, " parties, ", times, " times");
  c.nontrivial = true;
  c.label(tuples ? "tuples" : "two-way transfers");
  std::map<u128, std::string> seen;
  for (int k = 0; k < 2; k++) {
    auto net = std::make_shared<Net>((c.caseSeed | 1) + 2 * k);
    std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
    for (int i = 0; i < np; i++) {
      af.push_back(net->factory(i, np));
    }
    auto out = runPartiesR<std::vector<u128>>(*net, np, c.caseSeed + 1000 * k, [&](int me) {
      auto offsets = std::make_shared<std::vector<u128>>();
      auto rec = [&] {
        auto r = std::make_unique<RecordingRcots>();
        r->offsets = offsets;
        return r;
      };
      if (tuples) {
        tg::TwoPartyTupleGeneratorFactory f(rec(), *af[me], me, 64, collector());
        for (int i = 0; i < times; i++) {
          f.create()->getBooleanTuple(1);
        }
      } else {
        ot::RcotBasedBidirectionObliviousTransferFactory f(me, *af[me], rec());
        for (int i = 0; i < times; i++) {
          for (int other = 0; other < np; other++) {
            if (other != me) {
              f.create(other)->biDirectionOT(B{0}, B{1}, B{1});
            }
          }
        }
      }
      return *offsets;
    });
    for (int p = 0; p < np; p++) {
      requireEq(out[p].size(), (size_t)times * (np - 1), "offsets of party ", p);
      for (size_t i = 0; i < out[p].size(); i++) {
        require(out[p][i] & 1, "an offset's lowest bit is 0");
        auto who = cat("offset ", i, " of party ", p, " in session ", k);
        auto [it, isNew] = seen.emplace(out[p][i], who);
        require(isNew, cat(who, " is ", it->second));
      }
    }
  }
}
// The sender's offset and the receiver's choices stay their own.
PROPERTY(offsets, 24, 600) {
  int k = s.below(2);
  bool realBase = s.chance(1, 3);
  std::vector<size_t> q(2);
  for (auto& x : q) {
    x = s.pick({512, 1024, 1000});
  }
  if (k == 0) {
    q[1] = q[0];
  }
  u128 delta = gen128(s) | 1;
  while (__builtin_popcountll((uint64_t)delta) + __builtin_popcountll((uint64_t)(delta >> 64)) < 16) {
    delta = delta * 0x9e3779b97f4a7c15ull + 0x1234567; // not by chance
    delta |= 1;
  }
  c.desc = cat(rcotName[k], realBase ? " over real base transfers " : " ", show(q), " offset ", hex(delta));
  c.nontrivial = true;
  c.label(rcotName[k]);
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::unique_ptr<comm::IPartyCommunicationAgent> ag[2] = {net->agent(0, 1), net->agent(1, 0)};
  struct Out {
    Sent setup;
    std::vector<Sent> sent;
    std::vector<std::vector<u128>> got;
  };
  auto out = runPartiesR<Out>(*net, 2, c.caseSeed, [&](int me) {
    Out r;
    auto f = k == 0 ? std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory>(iknpFactory(realBase)) : ferretFactory(realBase, 1024, 256, 16);
    Net::Mark none;
    auto o = me ? f->create(std::move(ag[1])) : f->create(toM(delta), std::move(ag[0]));
    auto at = net->mark(me);
    r.setup = net->between(me, none, at);
    for (size_t n : q) {
      r.got.push_back(toU(o->rcot(n)));
      auto b = net->mark(me);
      r.sent.push_back(net->between(me, at, b));
      at = b;
    }
    return r;
  });
  // everything in blocks of 16 bytes the receiver knows
  auto key = [](u128 x) { return cat(hex(x)); };
  std::set<u128> known;
  auto blocks = [&](const Sent& m, auto&& f) {
    for (auto& [to, bytes] : m) {
      for (size_t at = 0; at + 16 <= bytes.size(); at += 16) {
        u128 x;
        memcpy(&x, &bytes[at], 16);
        f(x);
      }
    }
  };
  auto learn = [&](u128 x) {
    require(x != delta, "the receiver sees the offset");
    require(!known.count(x ^ delta), "the receiver sees two values that differ by the offset");
    known.insert(x);
  };
  blocks(out[0].setup, learn);
  for (size_t i = 0; i < q.size(); i++) {
    blocks(out[0].sent[i], learn);
    for (auto x : out[1].got[i]) {
      learn(x);
    }
  }
  // what the sender knows of the choices
  std::vector<Seen> seen;
  std::vector<Secret> choice;
  for (size_t i = 0; i < q.size(); i++) {
    Bits ch(q[i]);
    for (size_t j = 0; j < q[i]; j++) {
      if (out[1].got[i][j] & 1) {
        ch.set(j);
      }
    }
    seen.push_back(seenBy(0, {Sent{}, out[1].sent[i]}));
    choice.push_back({"the choices", ch, nullptr});
    for (bool lsb : {false, true}) {
      hidden(seen[i], {choice[i]}, {1}, "the sender", lsb);
    }
  }
  if (q[0] == q[1]) {
    for (bool lsb : {false, true}) {
      hiddenAcross(seen[0], seen[1], {choice[0]}, {choice[1]}, {1}, "the sender", lsb);
    }
  }
}
} // namespace
