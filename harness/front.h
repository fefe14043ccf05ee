// Runs code written against the frontend types (Bit, BitString, Int, ...) as
// every party of a computation; party i uses scheduler id i.
#pragma once
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/frontend/BitString.h"
#include "fbpcf/frontend/Int.h"
#include "fbpcf/frontend/mpcGame.h"
#include "schedkit.h"

namespace pbt {
namespace ff = fbpcf::frontend;
template <int sid>
struct SchedulerScope {
  explicit SchedulerScope(std::unique_ptr<fs::IScheduler> d) {
    fs::SchedulerKeeper<sid>::setScheduler(std::move(d));
  }
  ~SchedulerScope() {
    fs::SchedulerKeeper<sid>::freeScheduler();
  }
};
// f.template operator()<schedulerId>(me) runs as party me
template <int n = 2, typename F>
void runGame(
    const SchedCfg& g,
    uint64_t seed,
    F&& f,
    std::shared_ptr<Net> net = nullptr) {
  if (!net) {
    net = std::make_shared<Net>(seed | 1);
  }
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
  for (int i = 0; i < g.eng.parties; i++) {
    af.push_back(net->factory(i, std::max(g.eng.parties, 2)));
  }
  runParties(*net, g.eng.parties, seed, [&](int me) {
    auto go = [&]<int sid>() {
      SchedulerScope<sid> scope(makeScheduler(g, me, *af[me]));
      f.template operator()<sid>(me);
    };
    if (me == 0) {
      go.template operator()<0>();
    } else if (me == 1) {
      go.template operator()<1>();
    } else if constexpr (n > 2) {
      go.template operator()<2>();
    }
  });
}
} // namespace pbt
