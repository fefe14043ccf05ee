// C29: secret label-weighted sums equal the true sums plus the noise.
#include <cmath>
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/DummyMatrixMultiplicationFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/util/COTWithRandomMessageFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/util/NumberMapper.h"
#include "front.h"
#include "m128.h"
using namespace pbt;
namespace {
namespace walr = fbpcf::mpc_std_lib::walr;
using Doubles = std::vector<double>;
enum class Rcot { Dummy, Dealer, Iknp, Ferret };
const char* rcotName[] = {"stand-in OT", "dealt OT", "IKNP", "Ferret"};
// the flexible and shared factories behind the interface
class RcotFactory final : public ot::IRandomCorrelatedObliviousTransferFactory {
 public:
  explicit RcotFactory(Rcot k) : k_(k) {
    if (k == Rcot::Dummy) {
      f_ = std::make_shared<ot::insecure::DummyRandomCorrelatedObliviousTransferFactory>();
    } else if (k == Rcot::Dealer) {
      f_ = std::make_shared<DealerRcotFactory>();
    } else if (k == Rcot::Iknp) {
      f_ = iknpFactory(false);
    } else {
      f_ = ferretFactory(false, 1024, 256, 16);
    }
  }
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(
      __m128i delta,
      std::unique_ptr<comm::IPartyCommunicationAgent> a) override {
    return f_->create(delta, std::move(a));
  }
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(
      std::unique_ptr<comm::IPartyCommunicationAgent> a) override {
    return f_->create(std::move(a));
  }

 private:
  Rcot k_;
  std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> f_;
};
Rcot genRcot(Src& s) {
  int k = s.below(20);
  return k < 8 ? Rcot::Dealer : k < 17 ? Rcot::Dummy : k < 19 ? Rcot::Iknp : Rcot::Ferret;
}
struct Mul { // one multiplication
  Doubles noise;
  std::vector<Doubles> features; // by record
  std::vector<bool> labels;
  int how; // how the label is made secret
};
// values whose sum fits the fixed-point type
double value(Src& s, double limit) {
  switch (s.below(6)) {
    case 0: return 0;
    case 1: return s.coin() ? limit : -limit;
    case 2: return (double)s.range(-5, 5) <= limit ? std::clamp((double)s.range(-5, 5), -limit, limit) : 0;
    default: {
      double x = (double)(int64_t)s.rng().u64() / 9223372036854775808.0;
      return x * (s.coin() ? limit : std::min(limit, 1.0));
    }
  }
}
template <int sid>
ff::Bit<true, sid, true> secretLabels(const Mul& m, int me, int labelOwner) {
  using B = ff::Bit<true, sid, true>;
  auto flipped = m.labels;
  flipped.flip();
  switch (m.how) {
    case 0: return B(m.labels, labelOwner);
    case 1: return !B(flipped, 1 - labelOwner);
    case 2: { // what both parties have a share of
      std::vector<bool> half(m.labels.size()), other = m.labels;
      for (size_t i = 0; i < half.size(); i++) {
        half[i] = i % 3 == 0;
        other[i] = other[i] ^ half[i];
      }
      return B(half, 0) ^ B(other, 1);
    }
    default: {
      std::vector<bool> ones(m.labels.size(), true);
      return B(m.labels, labelOwner) & B(ones, 1 - labelOwner);
    }
  }
}
std::string metric(const folly::dynamic& d, const std::string& recorder, const std::string& key) {
  auto name = "m." + recorder;
  return d.count(name) && d[name].count(key) ? d[name][key].asString() : "none";
}
template <typename F>
void multiply(Src& s, Ctx& c, const SchedCfg& g, bool real, Rcot rk) {
  int w = sizeof(F) * 8;
  int bits = w == 64 ? s.pick({0, 10, 20, 31, 40, 50}) : w == 32 ? s.pick({0, 4, 10, 20}) : s.pick({0, 2, 5});
  uint64_t divisor = (1ull << bits) + (bits > 1 && s.coin() ? s.below(1ull << (bits - 1)) : 0);
  // on create or later
  uint64_t first = s.chance(1, 4) ? 1 + s.below(100) : divisor;
  int owner = s.below(2);
  std::vector<Mul> muls(1 + (s.chance(1, 3) ? s.below(3) : 0));
  bool big = s.chance(1, 20);
  for (auto& m : muls) {
    size_t n = 1 + s.below(big ? 150 : 12), k = 1 + s.below(s.chance(1, 12) ? 400 : 9);
    // largest magnitude such that n values and the noise fit
    double limit = std::ldexp(0.99, w - 1) / (double)divisor / (double)(n + 1);
    if (w == 64 && s.coin()) {
      limit = std::min(limit, 1000.0);
    }
    m.labels = s.bits(n);
    m.how = s.below(4);
    for (size_t i = 0; i < n; i++) {
      Doubles d(k);
      for (auto& x : d) {
        x = value(s, limit);
      }
      m.features.push_back(d);
    }
    for (size_t j = 0; j < k; j++) {
      m.noise.push_back(s.chance(1, 4) ? 0 : value(s, limit));
    }
    size_t ones = std::count(m.labels.begin(), m.labels.end(), true);
    c.nontrivial |= n >= 2 && ones > 0;
    c.labelIf(ones == 0, "no label set");
    c.labelIf(ones == n, "all labels set");
    c.labelIf(k > 64, "many features");
    c.desc += cat("; ", n, " records x ", k, " features labels ", show(m.labels), " made by ", m.how, " first ", m.features[0][0], " noise ", m.noise[0]);
  }
  c.desc = cat(show(g), " ", real ? cat("OT-based/", w, " over ", rcotName[(int)rk], " divisor ", divisor) : std::string("stand-in"), " features of ", owner) + c.desc;
  c.label(real ? cat("OT-based, ", w, " bits") : std::string("stand-in"));
  c.labelIf(real, rcotName[(int)rk]);
  c.labelIf(muls.size() > 1, "several products");
  bool wrong = real && s.chance(1, 4), mismatch = s.chance(1, 4), ragged = s.chance(1, 4);
  c.labelIf(wrong, "wrong role");
  c.labelIf(mismatch, "more or fewer labels than records");
  c.labelIf(ragged, "records of different lengths");
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::array<std::pair<uint64_t, uint64_t>, 2> traffic;
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto f = net->factory(me, 2);
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("m");
    std::unique_ptr<walr::IWalrMatrixMultiplication<sid>> x;
    if (real) {
      x = walr::OTBasedMatrixMultiplicationFactory<sid, F>(
              me, 1 - me, me == owner, first, *f, std::make_unique<fe::util::AesPrgFactory>(256),
              std::make_unique<walr::util::COTWithRandomMessageFactory>(std::make_unique<RcotFactory>(rk)), mc)
              .create();
      dynamic_cast<walr::OTBasedMatrixMultiplication<sid, F>&>(*x).setDivisor(divisor);
    } else {
      x = walr::insecure::DummyMatrixMultiplicationFactory<sid>(me, 1 - me, *f, mc).create();
    }
    uint64_t n = 0, k = 0, nk = 0;
    for (auto& m : muls) {
      auto l = secretLabels<sid>(m, me, 1 - owner);
      if (wrong) {
        if (me == owner) {
          requireThrows<std::runtime_error>([&] { x->matrixVectorMultiplication(l, m.noise); }, "the feature owner calling as label owner");
        } else {
          requireThrows<std::runtime_error>([&] { x->matrixVectorMultiplication(m.features, l); }, "the label owner calling as feature owner");
        }
      }
      if (me == owner) {
        if (mismatch) {
          auto odd = m.features;
          odd.size() > 1 && me ? odd.pop_back() : odd.push_back(odd[0]);
          requireThrows<std::invalid_argument>([&] { x->matrixVectorMultiplication(odd, l); }, "more or fewer records than labels");
        }
        // the stand-in looks at the labels before it finds out
        if (ragged && real && m.features.size() > 1) {
          auto odd = m.features;
          odd.back().resize(odd.back().size() + (me ? 1 : -1));
          requireThrows<std::invalid_argument>([&] { x->matrixVectorMultiplication(odd, l); }, "records of different lengths");
        }
        auto got = x->matrixVectorMultiplication(m.features, l);
        requireEq(got.size(), m.noise.size(), "sums");
        for (size_t j = 0; j < got.size(); j++) {
          long double sum = m.noise[j], mag = std::fabs(m.noise[j]);
          size_t terms = 1;
          for (size_t i = 0; i < m.labels.size(); i++) {
            if (m.labels[i]) {
              sum += m.features[i][j];
              mag += std::fabs(m.features[i][j]);
              terms++;
            }
          }
          long double tol = mag * 0x1p-44L + (real ? (long double)terms / (long double)divisor : 0.0L);
          require(std::fabs(got[j] - sum) <= tol, cat("sum of feature ", j, " is ", got[j], ", not ", (double)sum, " (within ", (double)tol, ")"));
        }
      } else {
        x->matrixVectorMultiplication(l, m.noise);
      }
      n += m.labels.size();
      k += m.noise.size();
      nk += m.labels.size() * m.noise.size();
    }
    traffic[me] = x->getNonEngineTrafficStatistics();
    auto d = mc->collectMetrics();
    std::string rec = real ? cat("ot_based_matrix_multiplication_", me == owner ? "feature_owner" : "label_owner") : std::string("dummy_matrix_multiplication");
    auto eq = [&](const char* key, uint64_t want) { requireEq(metric(d, rec, key), std::to_string(want), cat("metric ", key, " of ", me == owner ? "feature" : "label", " owner")); };
    bool fo = me == owner;
    if (real) {
      eq("ot_messages_used", n);
      eq("columns_sent", fo ? n : muls.size());
      eq("columns_received", fo ? muls.size() : n);
      eq("features_sent", fo ? nk : k);
      eq("features_received", fo ? k : nk);
    } else {
      eq("features_sent", fo ? 0 : k);
      eq("features_received", fo ? k : 0);
    }
  }, net);
  requireEq(traffic[0].first, traffic[1].second, "bytes from 0 to 1, as the parties count them");
  requireEq(traffic[1].first, traffic[0].second, "bytes from 1 to 0, as the parties count them");
}
PROPERTY(weighted_sums, 400, 16000) {
  auto g = genSched(s, {Sched::NetPlain, Sched::Lazy, Sched::Eager}, 2, false);
  g.eng.e = s.chance(1, 3) ? Eng::Dealer : Eng::Dummy;
  auto rk = genRcot(s);
  int k = s.below(8);
  if (k == 0) {
    multiply<uint64_t>(s, c, g, false, rk);
  } else if (k < 5) {
    multiply<uint64_t>(s, c, g, true, rk);
  } else if (k < 7) {
    multiply<uint32_t>(s, c, g, true, rk);
  } else {
    multiply<uint16_t>(s, c, g, true, rk);
  }
}
PROPERTY(chosen_random_messages, 300, 12000) {
  auto rk = genRcot(s);
  int sender = s.below(2);
  auto delta = gen128(s) | 1;
  std::vector<std::vector<bool>> choice(1 + s.below(4));
  size_t most = 0;
  for (auto& x : choice) {
    x = s.bits(1 + s.below(s.chance(1, 8) ? 1500 : 30));
    most = std::max(most, x.size());
  }
  bool wrong = s.chance(1, 3);
  c.desc = cat(rcotName[(int)rk], " sender ", sender, " delta ", hex(delta), " choices");
  for (auto& x : choice) {
    c.desc += " " + show(x).substr(0, 80);
  }
  c.nontrivial = most >= 3;
  c.label(rcotName[(int)rk]);
  c.labelIf(choice.size() > 1, "several calls");
  c.labelIf(wrong, "wrong role");
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::vector<std::pair<std::vector<__m128i>, std::vector<__m128i>>> sent(choice.size());
  std::vector<std::vector<__m128i>> got(choice.size());
  std::array<std::pair<uint64_t, uint64_t>, 2> traffic;
  runParties(*net, 2, c.caseSeed, [&](int me) {
    auto f = net->factory(me, 2);
    walr::util::COTWithRandomMessageFactory fac(std::make_unique<RcotFactory>(rk));
    auto a = f->create(1 - me, "a"), b = f->create(1 - me, "b");
    auto x = me == sender ? fac.create(toM(delta), std::move(a), std::move(b)) : fac.create(std::move(a), std::move(b));
    for (size_t i = 0; i < choice.size(); i++) {
      if (wrong && me == sender) {
        requireThrows<std::runtime_error>([&] { x->receive(choice[i]); }, "the sender receiving");
      } else if (wrong) {
        requireThrows<std::runtime_error>([&] { x->send(choice[i].size()); }, "the receiver sending");
      }
      if (me == sender) {
        sent[i] = x->send(choice[i].size());
      } else {
        got[i] = x->receive(choice[i]);
      }
    }
    traffic[me] = x->getTrafficStatistics();
  });
  std::set<u128> all;
  for (size_t i = 0; i < choice.size(); i++) {
    requireEq(sent[i].first.size(), choice[i].size(), "0-messages");
    requireEq(sent[i].second.size(), choice[i].size(), "1-messages");
    requireEq(got[i].size(), choice[i].size(), "received messages");
    for (size_t j = 0; j < choice[i].size(); j++) {
      u128 m0 = toU(sent[i].first[j]), m1 = toU(sent[i].second[j]), r = toU(got[i][j]);
      require(r == (choice[i][j] ? m1 : m0), cat("call ", i, " transfer ", j, " choice ", (int)choice[i][j], ": received ", hex(r), " of ", hex(m0), " and ", hex(m1)));
      require((m0 ^ m1) == delta, cat("call ", i, " transfer ", j, ": messages do not differ by delta"));
      if (rk != Rcot::Dummy) {
        require(all.insert(m0).second && all.insert(m1).second, "two transfers share a message");
      }
    }
  }
  requireEq(traffic[0].first, traffic[1].second, "bytes from 0 to 1, as the parties count them");
  requireEq(traffic[1].first, traffic[0].second, "bytes from 1 to 0, as the parties count them");
}
template <typename F>
void mapping(Src& s, Ctx& c) {
  int w = sizeof(F) * 8;
  walr::util::NumberMapper<F> m(1 + s.below(50));
  uint64_t max = w == 64 ? UINT64_MAX : (1ull << w) - 1;
  uint64_t divisor = 1 + s.edgyU(std::min<uint64_t>(max, 1ull << 53) - 1);
  m.setDivisor(divisor);
  requireEq(m.getDivisor(), divisor, "divisor");
  double limit = std::ldexp(0.999, w - 1) / (double)divisor;
  Doubles v(1 + s.below(8));
  for (auto& x : v) {
    x = value(s, limit);
  }
  c.desc = cat(w, " bits divisor ", divisor, " values ", show(v));
  c.nontrivial = divisor > 1;
  c.label(cat(w, " bits"));
  auto f = m.mapToFixedPointType(v);
  auto back = m.mapToSignedDouble(f);
  auto up = m.mapToUnsignedDouble(f);
  requireEq(f.size(), v.size(), "mapped values");
  requireEq(back.size(), v.size(), "values mapped back");
  for (size_t i = 0; i < v.size(); i++) {
    long double tol = 1.0L / (long double)divisor + std::fabs(v[i]) * 0x1p-50L;
    require(std::fabs((long double)back[i] - v[i]) <= tol, cat(v[i], " comes back as ", back[i]));
    require(m.mapToSignedDouble(m.mapToFixedPointType(v[i])) == back[i], cat(v[i], " alone comes back as another value"));
    if (v[i] >= 0) {
      require(std::fabs((long double)up[i] - v[i]) <= tol, cat(v[i], " comes back unsigned as ", up[i]));
    } else {
      // an unsigned reading wraps
      long double want = std::ldexp(1.0L, w) / (long double)divisor + v[i];
      require(m.mapToFixedPointType(v[i]) == 0 || std::fabs((long double)up[i] - want) <= tol + want * 0x1p-50L, cat(v[i], " comes back unsigned as ", up[i]));
    }
  }
  if (w < 64) {
    uint64_t bad = max + 1 + s.edgyU(UINT64_MAX - max - 1);
    requireThrows<std::invalid_argument>([&] { m.setDivisor(bad); }, cat("divisor ", bad, " for ", w, " bits"));
    requireEq(m.getDivisor(), divisor, "divisor after one was rejected");
  }
}
PROPERTY(fixed_point_numbers, 4000, 200000) {
  switch (s.below(4)) {
    case 0: return mapping<uint8_t>(s, c);
    case 1: return mapping<uint16_t>(s, c);
    case 2: return mapping<uint32_t>(s, c);
    default: return mapping<uint64_t>(s, c);
  }
}
} // namespace
