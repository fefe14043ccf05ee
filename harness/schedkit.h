// Schedulers of every kind, over engines whose tuple buffers are small enough
// to be refilled many times within one generated case.
#pragma once
#include "fbpcf/engine/ISecretShareEngineFactory.h"
#include "fbpcf/engine/tuple_generator/IArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/IProductShareGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/ITupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/IFlexibleRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/util/util.h"
#include "fbpcf/scheduler/IArithmeticScheduler.h"
#include "fbpcf/scheduler/IWireKeeper.h"
#include "fbpcf/util/MetricCollector.h"
#include "net.h"

namespace pbt {
namespace fs = fbpcf::scheduler;
namespace fe = fbpcf::engine;
namespace tg = fbpcf::engine::tuple_generator;
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;

enum class Sched { Plain, NetPlain, Eager, Lazy };
// Dealer and Product run the real tuple generators over correlated OTs that a
// trusted dealer hands out (cheap); Iknp and Ferret run the real OT protocols.
enum class Eng { Dummy, Dealer, Product, Iknp, Ferret };
enum class Keeper { Arena, SafeArena, Map };
inline const char* name(Sched k) {
  static const char* n[] = {"plaintext", "network-plaintext", "eager", "lazy"};
  return n[(int)k];
}
inline const char* name(Eng e) {
  static const char* n[] = {"dummy", "dealer", "product-share", "iknp", "ferret"};
  return n[(int)e];
}
inline const char* name(Keeper e) {
  static const char* n[] = {"arena", "safe-arena", "map"};
  return n[(int)e];
}
struct EngCfg {
  Eng e = Eng::Dummy;
  int parties = 2;
  int buffer = 64; // tuple buffer
  int prgBuffer = 64;
  bool realBase = false; // Naor-Pinkas base OT rather than the dummy
  bool arithmetic = true;
};
inline std::string show(const EngCfg& e) {
  return cat(name(e.e), e.parties, "p/buf", e.buffer, e.realBase ? "/np" : "");
}
std::unique_ptr<ot::IFlexibleRandomCorrelatedObliviousTransferFactory>
iknpFactory(bool realBase);
std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory>
ferretFactory(bool realBase, int64_t ext, int64_t base, int64_t weight);
// A correct but insecure source of correlated OTs: the sender tells the receiver
// the seed everything is derived from.
class DealerRcot final : public ot::IFlexibleRandomCorrelatedObliviousTransfer {
 public:
  DealerRcot(__m128i delta, std::unique_ptr<comm::IPartyCommunicationAgent> a)
      : sender_(true), delta_(delta), agent_(std::move(a)) {
    if (!(_mm_extract_epi64(delta, 0) & 1)) {
      throw std::runtime_error("delta's lsb must be 1");
    }
    auto seed = fe::util::getRandomM128iFromSystemNoise();
    agent_->sendT<__m128i>({delta, seed});
    rng_.s = _mm_extract_epi64(seed, 0);
  }
  explicit DealerRcot(std::unique_ptr<comm::IPartyCommunicationAgent> a)
      : sender_(false), agent_(std::move(a)) {
    auto m = agent_->receiveT<__m128i>(2);
    delta_ = m.at(0);
    rng_.s = _mm_extract_epi64(m.at(1), 0);
  }
  std::vector<__m128i> rcot(int64_t size) override {
    std::vector<__m128i> r(size);
    for (auto& x : r) {
      uint64_t lo = rng_.u64(), hi = rng_.u64();
      bool choice = rng_.bit();
      x = _mm_set_epi64x(hi, lo & ~1ull);
      if (!sender_ && choice) {
        x = _mm_xor_si128(x, delta_);
      }
    }
    return r;
  }
  std::unique_ptr<comm::IPartyCommunicationAgent> extractCommunicationAgent()
      override {
    return std::move(agent_);
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
    return agent_->getTrafficStatistics();
  }

 private:
  bool sender_;
  __m128i delta_;
  std::unique_ptr<comm::IPartyCommunicationAgent> agent_;
  Rng rng_;
};
class DealerRcotFactory final
    : public ot::IFlexibleRandomCorrelatedObliviousTransferFactory {
 public:
  std::unique_ptr<ot::IFlexibleRandomCorrelatedObliviousTransfer> createFlexible(
      __m128i delta,
      std::unique_ptr<comm::IPartyCommunicationAgent> agent) override {
    return std::make_unique<DealerRcot>(delta, std::move(agent));
  }
  std::unique_ptr<ot::IFlexibleRandomCorrelatedObliviousTransfer> createFlexible(
      std::unique_ptr<comm::IPartyCommunicationAgent> agent) override {
    return std::make_unique<DealerRcot>(std::move(agent));
  }
};
std::shared_ptr<fbpcf::util::MetricCollector> collector();
struct Parts { // what an engine is made of
  std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rcot;
  std::shared_ptr<tg::IProductShareGeneratorFactory> products;
  std::unique_ptr<tg::ITupleGeneratorFactory> tuples;
  std::unique_ptr<tg::IArithmeticTupleGeneratorFactory> integers;
};
Parts parts(
    const EngCfg& g,
    int me,
    comm::IPartyCommunicationAgentFactory& af,
    std::shared_ptr<fbpcf::util::MetricCollector> mc = collector());
std::unique_ptr<fe::ISecretShareEngineFactory> engineFactory(
    const EngCfg& g,
    int me,
    comm::IPartyCommunicationAgentFactory& af,
    std::shared_ptr<fbpcf::util::MetricCollector> mc = collector());
std::unique_ptr<fs::IWireKeeper> keeper(Keeper k);
struct SchedCfg {
  Sched k = Sched::Plain;
  Keeper keep = Keeper::Arena;
  EngCfg eng;
};
inline std::string show(const SchedCfg& g) {
  return cat(
      name(g.k),
      "/",
      name(g.keep),
      g.k == Sched::Eager || g.k == Sched::Lazy
          ? "/" + show(g.eng)
          : cat("/", g.eng.parties, "p"));
}
// af must outlive the scheduler
std::unique_ptr<fs::IArithmeticScheduler> makeScheduler(
    const SchedCfg& g,
    int me,
    comm::IPartyCommunicationAgentFactory& af,
    std::shared_ptr<fbpcf::util::MetricCollector> mc = collector());
// a random configuration; secure engines are dearer and so rarer
SchedCfg genSched(
    Src& s,
    std::initializer_list<Sched> kinds =
        {Sched::Plain, Sched::NetPlain, Sched::Eager, Sched::Lazy},
    int maxParties = 3,
    bool arithmetic = true);
// Runs fn(me, scheduler) for every party and returns nothing; the net carries
// the traffic.  With Plain there is one party.
template <typename F>
void runSched(
    const SchedCfg& g,
    uint64_t seed,
    F&& fn,
    std::shared_ptr<Net> net = nullptr) {
  if (!net) {
    net = std::make_shared<Net>(seed | 1);
  }
  int n = g.eng.parties;
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
  for (int i = 0; i < n; i++) {
    af.push_back(net->factory(i, std::max(n, 2)));
  }
  runParties(*net, n, seed, [&](int me) {
    auto sch = makeScheduler(g, me, *af[me]);
    fn(me, *sch);
  });
}
} // namespace pbt
