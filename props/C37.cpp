// C37: collected metrics report every recorder's current values.
#include <atomic>
#include <thread>
#include "fbpcf/engine/communication/IPartyCommunicationAgent.h"
#include "fbpcf/engine/tuple_generator/ITupleGenerator.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/IWalrMatrixMultiplication.h"
#include "fbpcf/util/MetricCollector.h"
#include "front.h"
#include "sockets.h"
#include "stdkit.h"
using namespace pbt;
namespace {
using Collector = fbpcf::util::MetricCollector;
using folly::dynamic;
using Counts = std::map<std::string, uint64_t>;
// a report as text with sorted keys
std::string text(const dynamic& d) {
  if (!d.isObject()) {
    return d.isString() ? '"' + d.asString() + '"' : d.isNull() ? "null" : d.isArray() ? cat("array of ", d.size()) : d.asString();
  }
  std::map<std::string, std::string> m;
  for (const auto& [k, v] : d.items()) {
    require(m.emplace(k.asString(), text(v)).second, "a key twice");
  }
  std::string r = "{";
  for (auto& [k, v] : m) {
    r += k + "=" + v + " ";
  }
  return r + "}";
}
struct Fake final : fbpcf::util::IMetricRecorder {
  dynamic values = dynamic::object;
  dynamic getMetrics() const override {
    return values;
  }
};
std::string name(Src& s) {
  static const char* parts[] = {"traffic", "party_1", "tuple_generator", ".", "m", "sent_data", "a.b", "", "1"};
  std::string r = parts[s.below(9)];
  for (int k = s.below(3); k > 0; k--) {
    r += parts[s.below(9)];
  }
  return r;
}
// Several collectors, several recorders, some of them shared; every report is
// compared with what was registered and written so far.
PROPERTY(histories, 4000, 200000) {
  size_t nc = 1 + s.below(3), nr = 1 + s.below(5);
  std::vector<Collector> cs;
  std::vector<std::string> prefix;
  for (size_t i = 0; i < nc; i++) {
    prefix.push_back(name(s));
    cs.emplace_back(prefix[i]);
    c.desc += cat(" collector ", prefix[i]);
  }
  std::vector<std::shared_ptr<Fake>> rs;
  for (size_t i = 0; i < nr; i++) {
    rs.push_back(std::make_shared<Fake>());
  }
  std::vector<std::map<std::string, size_t>> reg(nc);
  static const char* keys[] = {"x", "y", "sent_data", "a.b", "", "received_data"};
  int reports = 0, shared = 0;
  for (int k = 2 + s.below(20); k > 0; k--) {
    size_t ci = s.below(nc), ri = s.below(nr);
    switch (s.below(7)) {
      case 0:
      case 1: {
        auto n = name(s);
        if (reg[ci].count(n)) {
          n += cat("#", k);
        }
        reg[ci][n] = ri;
        cs[ci].addNewRecorder(n, rs[ri]);
        c.desc += cat("; ", ci, " add ", n, "=", ri);
        break;
      }
      case 2:
      case 3:
      case 4: {
        std::string key = keys[s.below(6)];
        dynamic v = nullptr;
        switch (s.below(6)) {
          case 0: v = s.coin(); break;
          case 1: v = s.coin() ? "text" : "7"; break;
          case 2: v = (double)s.range(-1000, 1000) / 4; break; // sums are exact
          case 3: v = (int64_t)s.range(-5, 5); break;
          case 4: v = s.coin() ? dynamic(dynamic::object) : dynamic::array_range(std::vector<int>{1, 2}); break;
          default: v = (int64_t)s.below(1ll << 40);
        }
        c.desc += cat("; ", ri, ".", key, "=", text(v));
        rs[ri]->values[key] = v;
        break;
      }
      default: {
        c.desc += cat("; report ", ci);
        dynamic all = dynamic::object;
        std::map<std::string, dynamic> sum;
        std::map<std::string, int> of;
        for (auto& [n, r] : reg[ci]) {
          all[prefix[ci] + "." + n] = rs[r]->values;
          for (const auto& [key, v] : rs[r]->values.items()) {
            if (v.isInt() || v.isDouble()) {
              auto q = prefix[ci] + "." + key.asString();
              auto& t = sum.emplace(q, (int64_t)0).first->second;
              if (t.isInt() && v.isInt()) {
                t = t.asInt() + v.asInt();
              } else {
                t = t.asDouble() + v.asDouble();
              }
              shared += ++of[q] == 2;
            }
          }
        }
        dynamic total = dynamic::object;
        for (auto& [key, v] : sum) {
          total[key] = v;
        }
        requireEq(text(cs[ci].collectMetrics()), text(all), "metrics");
        auto agg = cs[ci].aggregateMetrics();
        requireEq(agg.size(), total.size(), "aggregated keys");
        for (auto& [key, v] : sum) {
          require(agg.count(key), cat("no aggregate of ", key));
          requireEq(agg[key].asDouble(), v.asDouble(), "aggregate of ", key);
          requireEq(agg[key].isInt(), v.isInt(), "type of the aggregate of ", key);
        }
        requireEq(cs[ci].getPrefix(), prefix[ci], "prefix");
        reports += reg[ci].size() >= 2;
      }
    }
  }
  c.nontrivial = reports >= 1;
  c.labelIf(shared, "a metric of several recorders");
  c.labelIf(reports >= 3, "three reports");
}
struct Kit {
  std::shared_ptr<fbpcf::util::IMetricRecorder> r;
  std::function<void(int, uint64_t, uint64_t)> add; // event, count, size
  std::function<Counts(const std::vector<std::array<uint64_t, 3>>&)> model;
  int events;
};
Kit kit(int kind) {
  Kit k;
  if (kind == 0) {
    auto r = std::make_shared<Recorder>();
    k.r = r;
    k.events = 2;
    k.add = [r](int e, uint64_t n, uint64_t) {
      e ? r->addReceivedData(n) : r->addSentData(n);
    };
    k.model = [](auto& v) {
      Counts m{{"sent_data", 0}, {"received_data", 0}};
      for (auto& [e, n, z] : v) {
        m[e ? "received_data" : "sent_data"] += n;
      }
      return m;
    };
  } else if (kind == 1) {
    auto r = std::make_shared<tg::TuplesMetricRecorder>();
    k.r = r;
    k.events = 4;
    k.add = [r](int e, uint64_t n, uint64_t z) {
      switch (e) {
        case 0: return r->addTuplesGenerated(n);
        case 1: return r->addTuplesConsumed(n);
        case 2: return r->addCompositeTuplesWithoutExpansionRequested(n, z);
        default: return r->addCompositeTuplesRequiringExpansionRequested(n, z);
      }
    };
    k.model = [](auto& v) {
      uint64_t t[6] = {};
      for (auto& [e, n, z] : v) {
        t[e] += n;
        if (e >= 2) {
          t[e + 2] += n * z;
        }
      }
      return Counts{
          {"boolean_tuples_generated", t[0]},
          {"boolean_tuples_consumed", t[1]},
          {"boolean_tuples_unused", t[0] - t[1]},
          {"composite_tuples_requested", t[2] + t[3]},
          {"composite_tuples_without_expansion_requested", t[2]},
          {"composite_tuples_requiring_expansion_requested", t[3]},
          {"mini_tuples_without_expansion_requested", t[4]},
          {"mini_tuples_requiring_expansion_requested", t[5]}};
    };
  } else {
    auto r = std::make_shared<fbpcf::mpc_std_lib::walr::WalrMatrixMultiplicationMetricRecorder>();
    k.r = r;
    k.events = 2;
    k.add = [r](int e, uint64_t n, uint64_t) {
      e ? r->addFeaturesReceived(n) : r->addFeaturesSent(n);
    };
    k.model = [](auto& v) {
      Counts m{{"features_sent", 0}, {"features_received", 0}};
      for (auto& [e, n, z] : v) {
        m[e ? "features_received" : "features_sent"] += n;
      }
      return m;
    };
  }
  return k;
}
Counts counts(const dynamic& d) {
  Counts m;
  for (const auto& [k, v] : d.items()) {
    require(v.isInt(), "a count is not an integer");
    m[k.asString()] = (uint64_t)v.asInt();
  }
  return m;
}
std::string text(const Counts& m) {
  std::string r;
  for (auto& [k, v] : m) {
    r += cat(k, "=", v, " ");
  }
  return r;
}
// Recorders that several threads update while others report.
PROPERTY(threads, 500, 20000) {
  size_t nr = 1 + s.below(3), nt = 1 + s.below(6), per = 1 + s.below(60);
  std::vector<int> kinds;
  std::vector<Kit> kits;
  Collector mc("m");
  for (size_t i = 0; i < nr; i++) {
    kinds.push_back(s.below(3));
    kits.push_back(kit(kinds[i]));
    mc.addNewRecorder(cat("r", i), kits[i].r);
  }
  // thread -> (recorder, event, count, size)
  std::vector<std::vector<std::pair<size_t, std::array<uint64_t, 3>>>> todo(nt);
  std::vector<std::vector<std::array<uint64_t, 3>>> events(nr);
  for (auto& t : todo) {
    for (size_t k = 0; k < per; k++) {
      size_t r = s.below(nr);
      std::array<uint64_t, 3> e{s.below(kits[r].events), s.chance(1, 8) ? s.below(1ull << 35) : s.below(5000), s.below(300)};
      t.push_back({r, e});
      events[r].push_back(e);
    }
  }
  c.desc = cat(nr, " recorders of kinds ", list(kinds), " ", nt, " threads of ", per, " updates, first: ", list(std::vector<uint64_t>(todo[0][0].second.begin(), todo[0][0].second.end())));
  c.nontrivial = nt >= 2 && per >= 5;
  std::atomic<bool> done{false};
  std::atomic<size_t> left{nt};
  std::string failed;
  std::vector<Counts> last(nr), final(nr);
  for (size_t i = 0; i < nr; i++) {
    final[i] = kits[i].model(events[i]);
  }
  std::vector<std::thread> ts;
  for (auto& t : todo) {
    ts.emplace_back([&] {
      for (auto& [r, e] : t) {
        kits[r].add(e[0], e[1], e[2]);
      }
      left--;
    });
  }
  size_t reports = 0;
  do {
    done = left == 0;
    auto d = mc.collectMetrics();
    reports++;
    for (size_t i = 0; i < nr; i++) {
      auto m = counts(d[cat("m.r", i)]);
      for (auto& [k, v] : final[i]) {
        require(m.count(k), cat("no ", k));
        if (k.find("unused") == std::string::npos && failed.empty()) {
          if (m[k] < last[i][k] || m[k] > v) {
            failed = cat(k, " of ", i, " went from ", last[i][k], " to ", m[k], " of ", v);
          }
        }
      }
      last[i] = m;
    }
  } while (!done);
  for (auto& t : ts) {
    t.join();
  }
  require(failed.empty(), failed);
  c.labelIf(reports >= 3, "reports while updated");
  auto d = mc.collectMetrics();
  requireEq(d.size(), nr, "recorders");
  std::map<std::string, uint64_t> sum;
  for (size_t i = 0; i < nr; i++) {
    requireEq(text(counts(d[cat("m.r", i)])), text(final[i]), "recorder ", i);
    for (auto& [k, v] : final[i]) {
      sum["m." + k] += v;
    }
  }
  requireEq(text(counts(mc.aggregateMetrics())), text(sum), "aggregate");
}
// What the tuple generators report about what was asked of them.
PROPERTY(tuples, 250, 8000) {
  EngCfg g;
  g.arithmetic = false;
  g.parties = s.chance(1, 3) ? 3 : 2;
  g.e = g.parties == 3 ? s.pick({Eng::Dummy, Eng::Product}) : s.pick({Eng::Dummy, Eng::Dealer, Eng::Dealer, Eng::Product});
  g.buffer = s.pick({8, 33, 64, 200});
  struct Ask {
    uint32_t plain;
    std::map<size_t, uint32_t> composite;
    int how;
  };
  std::vector<Ask> asks(1 + s.below(6));
  c.desc = show(g);
  bool composite = g.e != Eng::Product;
  for (auto& a : asks) {
    a.how = composite ? s.below(3) : 0;
    a.plain = 1 + s.below(s.coin() ? 20 : 400);
    c.desc += cat("; ", a.how, " ", a.plain);
    for (int k = 1 + s.below(3); k > 0; k--) {
      size_t z = s.chance(1, 3) ? s.pick({127, 128, 129, 2}) : 1 + s.below(260);
      a.composite[z] = 1 + s.below(40);
    }
    if (a.how) {
      for (auto& [z, n] : a.composite) {
        c.desc += cat(" ", z, "x", n);
        c.labelIf(z > 128, "expanded");
      }
    }
  }
  c.nontrivial = asks.size() >= 2;
  c.label(pbt::name(g.e));
  Counts want;
  for (auto k : {"boolean_tuples_consumed", "composite_tuples_requested", "composite_tuples_without_expansion_requested", "composite_tuples_requiring_expansion_requested", "mini_tuples_without_expansion_requested", "mini_tuples_requiring_expansion_requested"}) {
    want[k] = 0;
  }
  for (auto& a : asks) {
    if (a.how != 1) {
      want["boolean_tuples_consumed"] += a.plain;
    }
    if (a.how) {
      for (auto& [z, n] : a.composite) {
        std::string w = z > 128 ? "requiring" : "without";
        want["composite_tuples_requested"] += n;
        want["composite_tuples_" + w + "_expansion_requested"] += n;
        want["mini_tuples_" + w + "_expansion_requested"] += n * z;
      }
    }
  }
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
  for (int i = 0; i < g.parties; i++) {
    af.push_back(net->factory(i, g.parties));
  }
  runParties(*net, g.parties, c.caseSeed, [&](int me) {
    auto mc = std::make_shared<Collector>("c");
    auto p = parts(g, me, *af[me], mc);
    auto t = p.tuples->create();
    uint64_t before = 0;
    for (auto& a : asks) {
      if (a.how == 0) {
        requireEq(t->getBooleanTuple(a.plain).size(), a.plain, "tuples");
      } else if (a.how == 1) {
        t->getCompositeTuple(a.composite);
      } else {
        t->getNormalAndCompositeBooleanTuples(a.plain, a.composite);
      }
      auto m = counts(mc->collectMetrics()["c.tuple_generator"]);
      require(m["boolean_tuples_generated"] >= m["boolean_tuples_consumed"], "consumed more than generated");
      require(m["boolean_tuples_consumed"] >= before, "fewer consumed than before");
      before = m["boolean_tuples_consumed"];
    }
    auto d = mc->collectMetrics();
    requireEq(d.size(), 1u, "recorders");
    auto m = counts(d["c.tuple_generator"]);
    for (auto& [k, v] : want) {
      requireEq(m[k], v, k, " of party ", me);
    }
  });
}
// A program's AND gates are the tuples the engine consumed.
PROPERTY(programs, 120, 3000) {
  auto g = genSched(s, {Sched::Eager, Sched::Lazy}, 3, false);
  if (g.eng.e == Eng::Iknp || g.eng.e == Eng::Ferret) {
    g.eng.e = Eng::Dealer;
    g.eng.parties = 2;
  }
  std::vector<size_t> ands(1 + s.below(8));
  uint64_t total = 0;
  for (auto& a : ands) {
    a = s.chance(1, 3) ? 0 : 1 + s.below(200); // 0: without batches
    total += std::max<size_t>(a, 1);
  }
  c.desc = cat(show(g), " ANDs of ", list(ands));
  c.nontrivial = ands.size() >= 2;
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
  for (int i = 0; i < g.eng.parties; i++) {
    af.push_back(net->factory(i, g.eng.parties));
  }
  runParties(*net, g.eng.parties, c.caseSeed, [&](int me) {
    auto mc = std::make_shared<Collector>("c");
    auto q = makeScheduler(g, me, *af[me], mc);
    using W = fs::IScheduler::WireId<fs::IScheduler::Boolean>;
    for (size_t a : ands) {
      if (a) {
        auto x = q->privateBooleanInputBatch(std::vector<bool>(a, true), 0);
        auto y = q->privateBooleanInputBatch(std::vector<bool>(a, true), 1);
        auto z = q->privateAndPrivateBatch(x, y);
        auto o = q->openBooleanValueToPartyBatch(z, 0);
        auto v = q->getBooleanValueBatch(o);
        require(me || v == std::vector<bool>(a, true), "AND");
      } else {
        auto x = q->privateBooleanInput(true, 0);
        auto y = q->privateBooleanInput(true, 1);
        auto o = q->openBooleanValueToParty(q->privateAndPrivate(x, y), 0);
        auto v = q->getBooleanValue(o);
        require(me || v, "AND");
      }
    }
    auto m = counts(mc->collectMetrics()["c.tuple_generator"]);
    requireEq(m["boolean_tuples_consumed"], total, "tuples consumed");
    require(m["boolean_tuples_generated"] >= total, "tuples generated");
  });
}
// Every connection of a factory is reported under its name.
PROPERTY(connections, 40, 1000) {
  bool tls = s.chance(1, 3);
  struct Msg {
    size_t conn, n;
    bool up;
  };
  size_t nc = 1 + s.below(4);
  std::vector<Msg> msgs(s.below(12));
  std::vector<uint64_t> bytes[2]; // sent by the lower, by the higher party
  bytes[0].resize(nc);
  bytes[1].resize(nc);
  c.desc = cat(tls ? "tls " : "plain ", nc, " connections:");
  for (auto& m : msgs) {
    m = {s.below(nc), s.chance(1, 4) ? s.below(100000) : s.below(200), s.coin()};
    bytes[!m.up][m.conn] += m.n;
    c.desc += cat(" ", m.conn, m.up ? ">" : "<", m.n);
  }
  c.nontrivial = nc >= 2 && msgs.size() >= 3;
  certs();
  using Info = std::map<int, comm::SocketPartyCommunicationAgentFactory::PartyInfo>;
  int base = 20000 + getpid() % 120 * 100;
  auto mc = std::array{std::make_shared<Collector>("first"), std::make_shared<Collector>("second")};
  std::array<std::unique_ptr<OpenFactory>, 2> f;
  for (int i = 0; i < 2; i++) {
    f[i] = std::make_unique<OpenFactory>(i, Info{{1 - i, {"127.0.0.1", 0}}}, tlsInfo(tls), mc[i]);
  }
  int port = f[0]->port(1);
  std::array<std::string, 2> failed;
  std::vector<std::thread> ts;
  for (int me = 0; me < 2; me++) {
    ts.emplace_back([&, me] {
      try {
        f[me]->connect(Info{{1 - me, {"127.0.0.1", me ? port : base}}});
        std::vector<std::unique_ptr<comm::IPartyCommunicationAgent>> a;
        for (size_t i = 0; i < nc; i++) {
          a.push_back(f[me]->create(1 - me, cat("connection ", i)));
        }
        auto sync = mc[me]->collectMetrics();
        for (auto& m : msgs) {
          if (m.up == (me == 0)) {
            a[m.conn]->send(std::vector<unsigned char>(m.n, 7));
          } else {
            a[m.conn]->receive(m.n);
          }
        }
        auto d = mc[me]->collectMetrics();
        std::string p = me ? "second." : "first.";
        requireEq(d.size(), nc + 1, "recorders");
        uint64_t sent = 0, received = 0;
        for (size_t i = 0; i < nc; i++) {
          auto key = p + cat("connection ", i);
          require(d.count(key), "no metrics of " + key);
          auto x = counts(d[key]);
          auto before = counts(sync[key]);
          requireEq(before["sent_data"] + before["received_data"], 0u, "traffic before any");
          requireEq(x["sent_data"], bytes[me][i], "sent on ", i, " by ", me);
          requireEq(x["received_data"], bytes[1 - me][i], "received on ", i, " by ", me);
          sent += bytes[me][i];
          received += bytes[1 - me][i];
        }
        auto other = p + cat("Port_number_sync_traffic_with_party_", 1 - me);
        require(d.count(other), "no metrics of the initial connection");
        auto x = counts(d[other]);
        auto agg = counts(mc[me]->aggregateMetrics());
        requireEq(agg[p + "sent_data"], sent + x["sent_data"], "all that was sent");
        requireEq(agg[p + "received_data"], received + x["received_data"], "all that was received");
      } catch (std::exception& e) {
        failed[me] = e.what();
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  require(failed[0].empty(), "party 0: " + failed[0]);
  require(failed[1].empty(), "party 1: " + failed[1]);
}
} // namespace
