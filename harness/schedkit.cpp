#include "schedkit.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/tuple_generator/ArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/DummyArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/DummyTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/TupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBaseObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotHelper.h"
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
#include "fbpcf/scheduler/WireKeeper.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"
#include "fbpcf/util/MetricCollector.h"

namespace pbt {
std::unique_ptr<ot::IFlexibleRandomCorrelatedObliviousTransferFactory>
iknpFactory(bool realBase) {
  std::unique_ptr<ot::IBaseObliviousTransferFactory> b;
  if (realBase) {
    b = std::make_unique<ot::NpBaseObliviousTransferFactory>();
  } else {
    b = std::make_unique<ot::insecure::DummyBaseObliviousTransferFactory>();
  }
  return std::make_unique<ot::IknpShRandomCorrelatedObliviousTransferFactory>(
      std::move(b));
}
std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory>
ferretFactory(bool realBase, int64_t ext, int64_t base, int64_t weight) {
  return std::make_shared<
      ot::ExtenderBasedRandomCorrelatedObliviousTransferFactory>(
      iknpFactory(realBase),
      std::make_unique<ot::ferret::RcotExtenderFactory>(
          std::make_unique<ot::ferret::TenLocalLinearMatrixMultiplierFactory>(),
          std::make_unique<ot::ferret::RegularErrorMultiPointCotFactory>(
              std::make_unique<ot::ferret::SinglePointCotFactory>())),
      ext,
      base,
      weight);
}
std::shared_ptr<fbpcf::util::MetricCollector> collector() {
  return std::make_shared<fbpcf::util::MetricCollector>("verif");
}
Parts parts(
    const EngCfg& g,
    int me,
    comm::IPartyCommunicationAgentFactory& af,
    std::shared_ptr<fbpcf::util::MetricCollector> mc) {
  Parts x;
  auto& rcot = x.rcot;
  if (g.e == Eng::Dummy) {
    x.tuples =
        std::make_unique<tg::insecure::DummyTupleGeneratorFactory>(mc);
    x.integers = std::make_unique<
        tg::insecure::DummyArithmeticTupleGeneratorFactory>();
    return x;
  }
  if (g.e == Eng::Ferret) {
    rcot = ferretFactory(g.realBase, 1024, 256, 16);
  } else if (g.e == Eng::Dealer || g.e == Eng::Product) {
    rcot = std::make_shared<DealerRcotFactory>();
  } else {
    rcot = iknpFactory(g.realBase);
  }
  auto& ps = x.products;
  if (g.arithmetic || g.e == Eng::Product || g.parties > 2) {
    ps = std::make_shared<tg::ProductShareGeneratorFactory>(
        std::make_unique<fe::util::AesPrgFactory>(g.prgBuffer),
        std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(
            me, af, rcot));
  }
  auto& tf = x.tuples;
  if (g.e == Eng::Product || g.parties > 2) {
    tf = std::make_unique<tg::TupleGeneratorFactory>(
        ps,
        std::make_unique<fe::util::AesPrgFactory>(g.prgBuffer),
        g.buffer,
        me,
        g.parties,
        mc);
  } else {
    tf = std::make_unique<tg::TwoPartyTupleGeneratorFactory>(
        rcot, af, me, g.buffer, mc);
  }
  auto& atf = x.integers;
  if (g.arithmetic) {
    atf = std::make_unique<tg::ArithmeticTupleGeneratorFactory>(
        ps,
        std::make_unique<fe::util::AesPrgFactory>(g.prgBuffer),
        g.buffer,
        me,
        g.parties);
  } else {
    atf = std::make_unique<tg::NullArithmeticTupleGeneratorFactory>();
  }
  return x;
}
std::unique_ptr<fe::ISecretShareEngineFactory> engineFactory(
    const EngCfg& g,
    int me,
    comm::IPartyCommunicationAgentFactory& af,
    std::shared_ptr<fbpcf::util::MetricCollector> mc) {
  if (g.e == Eng::Dummy) {
    return fe::getInsecureEngineFactoryWithDummyTupleGenerator(
        me, g.parties, af, mc);
  }
  auto x = parts(g, me, af, mc);
  return fe::getEngineFactoryWithTupleGeneratorFactories(
      me, g.parties, af, std::move(x.tuples), std::move(x.integers));
}
std::unique_ptr<fs::IWireKeeper> keeper(Keeper k) {
  switch (k) {
    case Keeper::Arena:
      return fs::WireKeeper::createWithVectorArena<true>();
    case Keeper::SafeArena:
      return fs::WireKeeper::createWithVectorArena<false>();
    default:
      return fs::WireKeeper::createWithUnorderedMap();
  }
}
// af must outlive the scheduler
std::unique_ptr<fs::IArithmeticScheduler> makeScheduler(
    const SchedCfg& g,
    int me,
    comm::IPartyCommunicationAgentFactory& af,
    std::shared_ptr<fbpcf::util::MetricCollector> mc) {
  switch (g.k) {
    case Sched::Plain:
      return std::make_unique<fs::PlaintextScheduler>(keeper(g.keep));
    case Sched::NetPlain:
      return std::make_unique<fs::NetworkPlaintextScheduler>(
          me, comm::getAgentMap(g.eng.parties, me, af), keeper(g.keep));
    case Sched::Eager: {
      auto ef = engineFactory(g.eng, me, af, mc);
      return std::make_unique<fs::EagerScheduler>(
          ef->create(), keeper(g.keep), mc);
    }
    default: {
      auto ef = engineFactory(g.eng, me, af, mc);
      std::shared_ptr<fs::IWireKeeper> wk = keeper(g.keep);
      return std::make_unique<fs::LazyScheduler>(
          ef->create(), wk, std::make_unique<fs::GateKeeper>(wk), mc);
    }
  }
}
// a random configuration; secure engines are dearer and so rarer
SchedCfg genSched(
    Src& s,
    std::initializer_list<Sched> kinds,
    int maxParties,
    bool arithmetic) {
  SchedCfg g;
  g.k = s.pick(kinds);
  g.keep = s.pick({Keeper::Arena, Keeper::SafeArena, Keeper::Map});
  g.eng.arithmetic = arithmetic;
  if (g.k == Sched::Plain) {
    g.eng.parties = 1;
    return g;
  }
  g.eng.parties = maxParties > 2 && s.chance(1, 4)
      ? (int)s.range(3, maxParties)
      : 2;
  if (g.k == Sched::NetPlain) {
    return g;
  }
  int k = s.below(40);
  g.eng.e = k < 8 ? Eng::Dummy
      : k < 24    ? Eng::Dealer
      : k < 38    ? Eng::Product
      : k == 38   ? Eng::Iknp
                  : Eng::Ferret;
  if (g.eng.parties > 2 && g.eng.e != Eng::Dummy) {
    g.eng.e = Eng::Product;
  }
  g.eng.buffer = arithmetic ? s.pick({64, 8, 33, 100, 150})
                            : s.pick({64, 16, 33, 128, 500, 1024});
  g.eng.prgBuffer = s.pick({512, 130, 1024, 2048});
  return g;
}
} // namespace pbt
