// C07: base oblivious transfer and correlated OT give correlated outputs.
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBaseObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/IknpShRandomCorrelatedObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotHelper.h"
#include "fbpcf/engine/util/EmpNetworkAdapter.h"
#include "m128.h"
#include "schedkit.h"
using namespace pbt;

namespace {
// cheap PRG behind the PRG interface: IKNP needs hundreds of them
class Prg final : public fe::util::IPrg {
 public:
  explicit Prg(__m128i seed) : r_(mix64((uint64_t)toU(seed)) ^ (uint64_t)(toU(seed) >> 64)) {}
  std::vector<bool> getRandomBits(uint32_t n) override {
    std::vector<bool> v(n);
    for (uint32_t i = 0; i < n; i++) {
      v[i] = r_.bit();
    }
    return v;
  }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override {
    std::vector<unsigned char> v(n);
    for (auto& x : v) {
      x = r_.u64() >> 11;
    }
    return v;
  }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override {
    std::vector<uint64_t> v(n);
    for (auto& x : v) {
      x = r_.u64();
    }
    return v;
  }

 private:
  Rng r_;
};
class PrgFactory final : public fe::util::IPrgFactory {
 public:
  std::unique_ptr<fe::util::IPrg> create(__m128i seed) const override {
    return std::make_unique<Prg>(seed);
  }
};
size_t length(Src& s, size_t max) {
  switch (s.below(4)) {
    case 0:
      return s.below(4);
    case 1: // around multiples of the internal block
      return std::max<int64_t>(0, std::min<int64_t>(max, 128 * s.range(1, 4) + s.range(-2, 2)));
    default:
      return s.below(max + 1);
  }
}
u128 genDelta(Src& s) {
  return gen128(s) | 1;
}
void checkCorrelation(
    const std::vector<std::vector<u128>>& snd,
    const std::vector<std::vector<u128>>& rcv,
    const std::vector<size_t>& q,
    u128 delta,
    bool random) {
  std::set<u128> seen;
  size_t ones = 0, total = 0;
  std::vector<bool> choices;
  for (size_t r = 0; r < q.size(); r++) {
    requireEq(snd[r].size(), q[r], "sender's values in request ", r);
    requireEq(rcv[r].size(), q[r], "receiver's values in request ", r);
    for (size_t i = 0; i < q[r]; i++) {
      u128 a = snd[r][i], b = rcv[r][i];
      bool ch = b & 1;
      require(!(a & 1), "lowest bit of the sender's value ", i, " of request ", r, " is 1");
      require(
          (a ^ b) == (ch ? delta : 0),
          "request ", r, " value ", i, ": choice ", ch, " sender ", hex(a),
          " receiver ", hex(b), " offset ", hex(delta));
      ones += ch;
      total++;
      choices.push_back(ch);
      if (random) {
        require(seen.insert(a).second, "value ", i, " of request ", r, " came up before");
      }
    }
  }
  if (random && total >= 200) {
    require(
        ones > total / 8 && ones < total - total / 8,
        ones, " of ", total, " choice bits are 1");
    std::set<std::vector<bool>> w; // choice bits do not repeat in runs
    for (size_t i = 0; i + 80 <= total; i++) {
      require(
          w.insert(std::vector<bool>(choices.begin() + i, choices.begin() + i + 80)).second,
          "choice bits from ", i, " on repeat earlier ones");
    }
  }
}
using MakeS = std::function<std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer>(
    __m128i, std::unique_ptr<comm::IPartyCommunicationAgent>)>;
using MakeR = std::function<std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer>(
    std::unique_ptr<comm::IPartyCommunicationAgent>)>;
void rcot(
    Ctx& c,
    const std::vector<size_t>& q,
    u128 delta,
    MakeS ms,
    MakeR mr,
    bool random = true) {
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::unique_ptr<comm::IPartyCommunicationAgent> ag[2] = {
      net->agent(0, 1), net->agent(1, 0)};
  auto out = runPartiesR<std::vector<std::vector<u128>>>(
      *net, 2, c.caseSeed, [&](int me) {
        auto o = me == 0 ? ms(toM(delta), std::move(ag[0])) : mr(std::move(ag[1]));
        std::vector<std::vector<u128>> r;
        for (auto n : q) {
          r.push_back(toU(o->rcot(n)));
        }
        auto t = o->getTrafficStatistics();
        auto k = net->counted(me);
        requireEq(t.first, k.first, "bytes sent as reported by party ", me);
        requireEq(t.second, k.second, "bytes received as reported by party ", me);
        return r;
      });
  checkCorrelation(out[0], out[1], q, delta, random);
  requireEq(net->leftover(), 0u, "bytes sent that nobody read");
}
std::vector<size_t> requests(Src& s, Ctx& c, size_t max) {
  std::vector<size_t> q;
  int m = 1 + s.size(0, 7);
  size_t total = 0;
  for (int i = 0; i < m; i++) {
    q.push_back(length(s, max));
    total += q.back();
    c.labelIf(q.back() % 128 != 0, "length not a multiple of 128");
  }
  c.nontrivial = m >= 2 && total > 128;
  c.labelIf(m > 3, "4+ requests");
  return q;
}
} // namespace
PROPERTY(base_ot, 150, 5000) {
  bool dummy = s.chance(1, 6);
  int runs = 1 + s.below(3);
  std::vector<std::vector<bool>> ch;
  size_t total = 0;
  for (int i = 0; i < runs; i++) {
    ch.push_back(s.bits(dummy ? s.size(0, 300) : s.chance(1, 25) ? 128 + s.below(200) : s.size(0, 40)));
    total += ch.back().size();
  }
  c.desc = cat(dummy ? "dummy" : "np");
  for (auto& x : ch) {
    c.desc += " " + show(x);
  }
  c.nontrivial = total >= 8;
  c.labelIf(runs > 1, "several runs");
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::unique_ptr<comm::IPartyCommunicationAgent> ag[2] = {
      net->agent(0, 1), net->agent(1, 0)};
  std::vector<std::pair<std::vector<u128>, std::vector<u128>>> sent;
  std::vector<std::vector<u128>> got;
  runParties(*net, 2, c.caseSeed, [&](int me) {
    std::unique_ptr<ot::IBaseObliviousTransfer> o;
    if (dummy) {
      o = ot::insecure::DummyBaseObliviousTransferFactory().create(std::move(ag[me]));
    } else {
      o = ot::NpBaseObliviousTransferFactory().create(std::move(ag[me]));
    }
    for (auto& x : ch) {
      if (me == 0) {
        auto [a, b] = o->send(x.size());
        sent.push_back({toU(a), toU(b)});
      } else {
        got.push_back(toU(o->receive(x)));
      }
    }
    if (!dummy) {
      auto t = o->getTrafficStatistics();
      auto k = net->counted(me);
      requireEq(t.first, k.first, "bytes sent as reported by party ", me);
      requireEq(t.second, k.second, "bytes received as reported by party ", me);
    }
    require(o->extractCommunicationAgent() != nullptr, "the agent was not handed back");
  });
  std::set<u128> seen;
  for (int r = 0; r < runs; r++) {
    requireEq(sent[r].first.size(), ch[r].size(), "0-messages of run ", r);
    requireEq(sent[r].second.size(), ch[r].size(), "1-messages of run ", r);
    requireEq(got[r].size(), ch[r].size(), "received messages of run ", r);
    for (size_t i = 0; i < ch[r].size(); i++) {
      u128 want = ch[r][i] ? sent[r].second[i] : sent[r].first[i];
      u128 other = ch[r][i] ? sent[r].first[i] : sent[r].second[i];
      require(
          got[r][i] == want, "run ", r, " position ", i, " choice ", (int)ch[r][i],
          " received ", hex(got[r][i]), " instead of ", hex(want));
      require(want != other, "both messages of position ", i, " are equal");
      if (!dummy) {
        require(seen.insert(want).second && seen.insert(other).second,
                "a message of run ", r, " position ", i, " came up before");
      }
    }
  }
}
// the OT extension itself, over a cheap PRG
PROPERTY(iknp_extension, 600, 10000) {
  auto delta = genDelta(s);
  auto q = requests(s, c, s.chance(1, 10) ? 6000 : 700);
  c.labelIf(*std::max_element(q.begin(), q.end()) > 2500, "long request");
  c.desc = cat("iknp offset ", hex(delta), " requests ", show(q));
  using Iknp = ot::IknpShRandomCorrelatedObliviousTransfer;
  // each side of the dummy base OT is deterministic, so make the seeds fresh
  rcot(
      c, q, delta,
      [](__m128i d, std::unique_ptr<comm::IPartyCommunicationAgent> a) {
        return std::make_unique<Iknp>(
            d, ot::insecure::DummyBaseObliviousTransferFactory().create(std::move(a)),
            std::make_unique<PrgFactory>());
      },
      [](std::unique_ptr<comm::IPartyCommunicationAgent> a) {
        return std::make_unique<Iknp>(
            ot::insecure::DummyBaseObliviousTransferFactory().create(std::move(a)),
            std::make_unique<PrgFactory>());
      });
}
// the whole classic stack, as the factories build it
PROPERTY(iknp_stack, 12, 300) {
  auto delta = genDelta(s);
  auto q = requests(s, c, 700);
  bool np = s.chance(1, 3);
  c.desc = cat("iknp", np ? "/np" : "", " offset ", hex(delta), " requests ", show(q));
  auto f = iknpFactory(np);
  rcot(
      c, q, delta,
      [&](__m128i d, std::unique_ptr<comm::IPartyCommunicationAgent> a) {
        return f->create(d, std::move(a));
      },
      [&](std::unique_ptr<comm::IPartyCommunicationAgent> a) {
        return f->create(std::move(a));
      });
}
namespace {
struct Shape {
  int ext, base, weight;
};
Shape shape(Src& s) {
  // extended > base + weight*log2(extended/weight)
  return s.pick<Shape>(
      {{64, 20, 2}, {256, 64, 4}, {512, 100, 8}, {1024, 256, 16}, {1024, 33, 4},
       {128, 11, 16}, {256, 200, 1}, {64, 10, 64}});
}
std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> extender(
    std::unique_ptr<ot::IFlexibleRandomCorrelatedObliviousTransferFactory> boot,
    Shape p) {
  return std::make_shared<ot::ExtenderBasedRandomCorrelatedObliviousTransferFactory>(
      std::move(boot),
      std::make_unique<ot::ferret::RcotExtenderFactory>(
          std::make_unique<ot::ferret::TenLocalLinearMatrixMultiplierFactory>(),
          std::make_unique<ot::ferret::RegularErrorMultiPointCotFactory>(
              std::make_unique<ot::ferret::SinglePointCotFactory>())),
      p.ext, p.base, p.weight);
}
void buffered(Src& s, Ctx& c, bool real) {
  auto delta = genDelta(s);
  auto p = shape(s);
  int logw = 0;
  while ((p.weight << logw) < p.ext) {
    logw++;
  }
  size_t usable = p.ext - p.base - p.weight * logw;
  std::vector<size_t> q;
  int m = 1 + s.size(0, 7);
  size_t total = 0;
  for (int i = 0; i < m; i++) {
    switch (s.below(4)) {
      case 0:
        q.push_back(s.below(4));
        break;
      case 1:
        q.push_back(std::max<int64_t>(0, usable * s.range(0, 3) + s.range(-2, 2)));
        break;
      default:
        q.push_back(s.below(usable * 3 + 1));
    }
    total += q.back();
  }
  c.desc = cat(real ? "real " : "", "extender ", p.ext, "/", p.base, "/", p.weight,
               " offset ", hex(delta), " requests ", show(q));
  c.nontrivial = m >= 2 && total > usable;
  c.labelIf(total > 2 * usable, "3+ extensions");
  auto make = [&] {
    return extender(
        real ? iknpFactory(false)
             : std::unique_ptr<ot::IFlexibleRandomCorrelatedObliviousTransferFactory>(
                   std::make_unique<DealerRcotFactory>()),
        p);
  };
  // the two parties share nothing
  auto f0 = make(), f1 = make();
  // the parameters are far too small for the linear code to hide anything, so
  // repeated values are only looked for with the largest
  rcot(
      c, q, delta,
      [&](__m128i d, std::unique_ptr<comm::IPartyCommunicationAgent> a) {
        return f0->create(d, std::move(a));
      },
      [&](std::unique_ptr<comm::IPartyCommunicationAgent> a) {
        return f1->create(std::move(a));
      },
      p.base >= 200 && p.weight > 1);
}
} // namespace
PROPERTY(buffered_extension, 300, 10000) {
  buffered(s, c, false);
}
PROPERTY(ferret_stack, 4, 150) {
  buffered(s, c, true);
}
PROPERTY(bad_offset, 20, 100) {
  auto delta = genDelta(s) ^ 1;
  c.desc = cat("offset ", hex(delta));
  c.nontrivial = true;
  auto net = std::make_shared<Net>(1);
  requireThrows<std::runtime_error>(
      [&] {
        ot::IknpShRandomCorrelatedObliviousTransfer(
            toM(delta),
            ot::insecure::DummyBaseObliviousTransferFactory().create(net->agent(0, 1)),
            std::make_unique<PrgFactory>());
      },
      "an offset with lowest bit 0");
}
// What goes through the adapter arrives, in any portions of bytes, blocks and points.
PROPERTY(adapter, 200, 5000) {
  struct Msg {
    int kind; // bytes, blocks, point
    std::vector<unsigned char> data;
  };
  std::vector<Msg> msgs(1 + s.below(6));
  auto r = s.rng();
  c.desc = "";
  for (auto& m : msgs) {
    m.kind = s.below(2);
    size_t n = s.chance(1, 12) ? s.pick({4095, 4096, 4097, 9000}) : s.size(0, 40);
    m.data.resize(m.kind ? 16 * n : s.chance(1, 12) ? 65530 + s.below(20) : n);
    for (auto& b : m.data) {
      b = r.u64();
    }
    c.desc += cat(m.kind ? " blocks " : " bytes ", m.kind ? m.data.size() / 16 : m.data.size());
    c.labelIf(m.data.size() > 65535, "more than 65535 bytes");
  }
  c.nontrivial = msgs.size() > 1;
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  int sender = s.below(2);
  runParties(*net, 2, c.caseSeed, [&](int me) {
    auto a = net->agent(me, 1 - me);
    fe::util::EmpNetworkAdapter io(*a);
    for (size_t i = 0; i < msgs.size(); i++) {
      auto& m = msgs[i];
      size_t blocks = m.data.size() / 16;
      std::vector<__m128i> x(blocks + 1);
      if (me == sender) {
        memcpy(x.data(), m.data.data(), m.kind ? m.data.size() : 0);
        m.kind ? io.send_block(x.data(), blocks) : io.send_data(m.data.data(), m.data.size());
      } else {
        std::vector<unsigned char> got(m.data.size());
        if (m.kind) {
          io.recv_block(x.data(), blocks);
          memcpy(got.data(), x.data(), got.size());
        } else {
          io.recv_data(got.data(), got.size());
        }
        require(got == m.data, cat("message ", i, " arrives changed"));
      }
    }
  });
}
