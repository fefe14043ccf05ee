// C40: library protocols reveal nothing but their results.
//
// Protocols on top of the engine run with records, orders, labels, indexes and
// features shared between the parties at random.  Everything sent is recorded;
// what a party sees, with the shares it holds, is tested for independence of
// every secret (leak.h); orders of shuffled results must not follow the order
// of the inputs; key stream blocks and nonces must never repeat.
#include <unordered_set>
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactorFactory.h"
#include "fbpcf/mpc_std_lib/oram/LinearOramFactory.h"
#include "fbpcf/mpc_std_lib/oram/WriteOnlyOramFactory.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShufflerFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/adapter/AdapterFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/util/COTWithRandomMessageFactory.h"
#include "leak.h"
#include "m128.h"
#include "stdkit.h"
#include "udpkit.h"
using namespace pbt;
namespace {
using leak::Bits;
using leak::hidden;
using leak::Secret;
using leak::Seen;
using leak::Sent;
namespace pm = msl::permuter;
namespace sh = msl::shuffler;
namespace cp = msl::compactor;
namespace om = msl::oram;
namespace walr = msl::walr;
namespace ad = msl::unified_data_process::adapter;
const size_t kWindows = 3000;

SchedCfg config(Src& s) {
  SchedCfg g;
  g.k = s.coin() ? Sched::Eager : Sched::Lazy;
  g.keep = s.pick({Keeper::Arena, Keeper::SafeArena, Keeper::Map});
  g.eng.parties = 2;
  g.eng.e = s.chance(1, 5) ? Eng::Product : Eng::Dealer;
  g.eng.buffer = s.pick({1024, 4096, 5000});
  g.eng.prgBuffer = 1024;
  return g;
}
Rows randomRows(Rng& r, size_t w, size_t n) {
  Rows x(w);
  for (auto& b : x) {
    b = leak::plain(leak::randomBits(r, n));
  }
  return x;
}
Rows xorRows(const Rows& a, const Rows& b) {
  Rows r = a;
  for (size_t i = 0; i < r.size(); i++) {
    for (size_t j = 0; j < r[i].size(); j++) {
      r[i][j] = a[i][j] != b[i][j];
    }
  }
  return r;
}
// a secret known to neither party
struct Shared {
  Rows value;
  std::array<Rows, 2> share;
  Shared() = default;
  Shared(Rng& r, Rows v) : value(std::move(v)) {
    share[0] = randomRows(r, value.size(), value.at(0).size());
    share[1] = xorRows(value, share[0]);
  }
};
// distinct numbers of records, in random order, as bits
Rows numbers(Rng& r, size_t n, size_t w, std::vector<uint32_t>& ids) {
  ids.resize(n);
  for (size_t i = 0; i < n; i++) {
    ids[i] = i;
  }
  r.shuffle(ids);
  Rows x(w, std::vector<bool>(n));
  for (size_t b = 0; b < w; b++) {
    for (size_t i = 0; i < n; i++) {
      x[b][i] = ids[i] >> b & 1;
    }
  }
  return x;
}
// positions of the records of an output among the inputs, in which a record's
// neighbour must not be the one it had
void reordered(const std::vector<size_t>& at, const std::string& what) {
  size_t up = 0, down = 0, stay = 0, half = 0;
  for (size_t i = 0; i < at.size(); i++) {
    stay += at[i] == i;
    if (i + 1 < at.size()) {
      up += at[i + 1] == at[i] + 1;
      down += at[i] == at[i + 1] + 1;
      half += at[i + 1] > at[i];
    }
  }
  require(up <= 16 && down <= 16 && stay <= 16,
          cat(what, ": of ", at.size(), " records ", up, " follow their old predecessor, ", down, " their successor and ", stay, " stay"));
  double m = at.size() / 2.0;
  require(std::abs(half - m) <= 9.5 * std::sqrt(at.size() / 12.0) + 2, cat(what, ": ", half, " of ", at.size(), " neighbours are in the old order"));
}
Seen view(int q, const std::vector<Sent>& sent) {
  Seen v = leak::seenBy(q, sent);
  v.windows = kWindows;
  return v;
}
// bits i of a secret against everything seen, with the shares q has of it
void hiddenRows(int q, const std::vector<Sent>& sent, const Rows& x, const std::vector<std::pair<std::string, const Rows*>>& held, const std::string& what, const std::vector<size_t>& strides = {1}) {
  std::vector<Secret> all;
  for (size_t i = 0; i < x.size(); i++) {
    all.push_back({cat("bit ", i, " of ", what), Bits(x[i]), nullptr});
  }
  if (held.empty()) {
    hidden(view(q, sent), all, strides, cat("party ", q));
    return;
  }
  Seen v = view(q, sent);
  for (size_t i = 0; i < x.size(); i++) {
    v.held.clear();
    for (auto& [name, h] : held) {
      v.held.push_back({name, Bits(h->at(i))});
    }
    hidden(v, {all[i]}, strides, cat("party ", q));
  }
}
struct Got {
  Sent sent;
  Rows share, open;
};
// The owner of an order moves records nobody knows.
PROPERTY(permutation, 30, 700) {
  auto g = config(s);
  auto rng = s.rng();
  size_t n = s.pick({256, 300, 511, 512}), w = 1 + s.below(3);
  int owner = s.below(2);
  Shared x(rng, randomRows(rng, w, n));
  std::vector<uint32_t> order;
  Rows names = numbers(rng, n, 8, order);
  c.desc = cat(show(g), " order of party ", owner, " on ", n, " records of ", w);
  c.nontrivial = true;
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::vector<Got> got(2);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    using T = std::vector<bool>;
    auto p = pm::AsWaksmanPermuterFactory<T, sid>(me, 1 - me).create();
    auto v = enterShares<T, sid>(x.share[me], w);
    auto a = net->mark(me);
    auto y = me == owner ? p->permute(v, n, order) : p->permute(v, n);
    got[me].share = sharesOf<sid>(y);
    got[me].sent = net->between(me, a, net->mark(me));
  }, net);
  std::vector<Sent> sent{got[0].sent, got[1].sent};
  Rows y = xorRows(got[0].share, got[1].share);
  requireEq(list(columns(y)), list(columns(pickRows(x.value, order))), "permuted records");
  for (int q = 0; q < 2; q++) {
    hiddenRows(q, sent, x.value, {{"share of the record", &x.share[q]}, {"new share", &got[q].share}}, "the records");
    hiddenRows(q, sent, y, {{"share of the record", &x.share[q]}, {"new share", &got[q].share}}, "the permuted records");
    // a new share that is an old one moved, or what either party sent
    if (q != owner) {
      hiddenRows(q, sent, names, {}, "the order");
      auto after = pickRows(x.share[q], order);
      for (size_t i = 0; i < w; i++) {
        leak::independent(Bits(got[q].share[i]), Bits(after[i]), nullptr, [&] { return cat("party ", q, "'s new shares are its old ones in the secret order: bit ", i); });
      }
      pm::AsWaksmanParameterCalculator par(order);
      for (auto& conditions : {par.getFirstSwapConditions(), par.getSecondSwapConditions()}) {
        hidden(view(q, sent), {{"swaps", Bits(conditions), nullptr}}, {1}, cat("party ", q));
      }
    }
  }
}
// Records nobody knows, in an order nobody knows.
PROPERTY(shuffling, 16, 400) {
  auto g = config(s);
  auto rng = s.rng();
  size_t n = s.pick({256, 200, 255, 384}), w = 9;
  std::vector<uint32_t> ids;
  Shared x(rng, numbers(rng, n, w, ids));
  c.desc = cat(show(g), " shuffle of ", n);
  c.nontrivial = true;
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::vector<std::vector<Got>> got(2, std::vector<Got>(2));
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    using T = Intp<false, 9>;
    auto f = sh::PermuteBasedShufflerFactory<Sec<T, sid>>(
        me, 1 - me, std::make_unique<pm::AsWaksmanPermuterFactory<T, sid>>(me, 1 - me), std::make_unique<fe::util::AesPrgFactory>(256));
    auto q = f.create();
    for (int k = 0; k < 2; k++) {
      auto v = enterShares<T, sid>(x.share[me], w);
      auto a = net->mark(me);
      auto y = q->shuffle(v, n);
      got[k][me].share = sharesOf<sid>(y);
      got[k][me].sent = net->between(me, a, net->mark(me));
    }
  }, net);
  std::vector<std::vector<size_t>> at(2);
  std::vector<size_t> from(n);
  for (size_t i = 0; i < n; i++) {
    from[ids[i]] = i;
  }
  for (int k = 0; k < 2; k++) {
    Rows y = xorRows(got[k][0].share, got[k][1].share);
    std::set<size_t> all;
    for (size_t j = 0; j < n; j++) {
      size_t id = 0;
      for (size_t b = 0; b < w; b++) {
        id |= (size_t)y[b][j] << b;
      }
      require(id < n && all.insert(id).second, "not a shuffled list");
      at[k].push_back(from[id]);
    }
    reordered(at[k], "shuffled");
    std::vector<Sent> sent{got[k][0].sent, got[k][1].sent};
    for (int q = 0; q < 2; q++) {
      hiddenRows(q, sent, x.value, {{"share of the record", &x.share[q]}, {"new share", &got[k][q].share}}, "the records");
      hiddenRows(q, sent, y, {{"share of the record", &x.share[q]}, {"new share", &got[k][q].share}}, "the shuffled records");
    }
  }
  // the second time in another order
  std::vector<size_t> second(n);
  for (size_t j = 0; j < n; j++) {
    second[at[1][j]] = j;
  }
  std::vector<size_t> moved;
  for (size_t j = 0; j < n; j++) {
    moved.push_back(second[at[0][j]]);
  }
  reordered(moved, "shuffled again");
}
// Which of the records are kept stays unknown.
PROPERTY(compaction, 16, 400) {
  auto g = config(s);
  auto rng = s.rng();
  size_t n = s.pick({256, 200, 255, 384}), w = 9;
  std::vector<uint32_t> ids;
  Shared x(rng, numbers(rng, n, w, ids)), l(rng, randomRows(rng, 1, n));
  c.desc = cat(show(g), " compaction of ", n);
  c.nontrivial = true;
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::vector<Got> got(2);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    using T = Intp<false, 9>;
    using P = std::pair<T, bool>;
    auto f = cp::ShuffleBasedCompactorFactory<T, bool, sid>(
        me, 1 - me,
        std::make_unique<sh::PermuteBasedShufflerFactory<Sec<P, sid>>>(
            me, 1 - me, std::make_unique<pm::AsWaksmanPermuterFactory<P, sid>>(me, 1 - me), std::make_unique<fe::util::AesPrgFactory>(256)));
    auto q = f.create();
    auto v = enterShares<T, sid>(x.share[me], w);
    auto u = enterShares<bool, sid>(l.share[me], 1);
    auto a = net->mark(me);
    auto [y, k] = q->compaction(v, u, n, true);
    got[me].share = sharesOf<sid>(y);
    got[me].sent = net->between(me, a, net->mark(me));
  }, net);
  std::vector<Sent> sent{got[0].sent, got[1].sent};
  Rows y = xorRows(got[0].share, got[1].share);
  std::vector<size_t> from(n), at;
  size_t kept = 0;
  for (size_t i = 0; i < n; i++) {
    from[ids[i]] = kept;
    kept += l.value[0][i];
  }
  requireEq(y[0].size(), kept, "records kept");
  for (size_t j = 0; j < kept; j++) {
    size_t id = 0;
    for (size_t b = 0; b < w; b++) {
      id |= (size_t)y[b][j] << b;
    }
    require(id < n, "not a compacted list");
    at.push_back(from[id]); // rank among the records kept
  }
  reordered(at, "compacted");
  for (int q = 0; q < 2; q++) {
    hiddenRows(q, sent, x.value, {{"share of the record", &x.share[q]}}, "the records");
    hiddenRows(q, sent, l.value, {{"share of the label", &l.share[q]}}, "the labels");
    hiddenRows(q, sent, y, {{"share of the result", &got[q].share}}, "the compacted records");
  }
}
template <typename T, int sid>
std::unique_ptr<om::IWriteOnlyOramFactory<T>> memories(bool linear, int me, comm::IPartyCommunicationAgentFactory& af) {
  if (linear) {
    return om::getSecureLinearOramFactory<T, sid>(me == 0, 0, 1, af);
  }
  return om::getSecureWriteOnlyOramFactory<T, 9, sid>(me == 0, 0, 1, af);
}
template <typename T, int sid>
std::unique_ptr<om::IWriteOnlyOram<T>> memory(bool linear, int me, size_t size, comm::IPartyCommunicationAgentFactory& af) {
  return memories<T, sid>(linear, me, af)->create(size);
}
// What is added where stays unknown.
PROPERTY(memories, 16, 400) {
  auto g = config(s);
  g.eng.e = Eng::Dealer;
  auto rng = s.rng();
  bool linear = s.coin();
  size_t size = 2 + s.below(linear ? 9 : 12), n = s.pick({256, 200, 255}), w = 8, k = 0;
  while ((1u << k) < size) {
    k++;
  }
  Rows index(k, std::vector<bool>(n));
  for (size_t j = 0; j < n; j++) {
    size_t at = rng.below(size);
    for (size_t b = 0; b < k; b++) {
      index[b][j] = at >> b & 1;
    }
  }
  Shared x(rng, index), v(rng, randomRows(rng, w, n));
  c.desc = cat(show(g), linear ? " linear" : " write-only", " memory of ", size, ", ", n, " additions");
  c.nontrivial = true;
  c.label(linear ? "linear" : "write-only");
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::vector<Got> got(2);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto af = net->factory(me, 2);
    auto m = memory<Intp<false, 8>, sid>(linear, me, size, *af);
    auto a = net->mark(me);
    m->obliviousAddBatch(x.share[me], v.share[me]);
    got[me].sent = net->between(me, a, net->mark(me));
  }, net);
  std::vector<Sent> sent{got[0].sent, got[1].sent};
  for (int q = 0; q < 2; q++) {
    hiddenRows(q, sent, x.value, {{"share of the index", &x.share[q]}}, "the indexes");
    hiddenRows(q, sent, v.value, {{"share of the value", &v.share[q]}}, "the values");
  }
}
// An addition changes the shares of all cells, at random; only the party that
// reads learns anything.
PROPERTY(cells, 120, 4000) {
  SchedCfg g;
  g.k = Sched::NetPlain;
  g.eng.parties = 2;
  auto rng = s.rng();
  bool linear = s.coin(), again = s.coin();
  size_t size = 1 + s.below(40), n = 1 + s.below(12), k = 0, rounds = 1 + s.below(3);
  while ((1u << k) < size) {
    k++;
  }
  k += k == 0 || s.chance(1, 4);
  std::vector<Shared> x, v;
  for (size_t r = 0; r < rounds; r++) {
    Rows index(k, std::vector<bool>(n));
    size_t same = rng.below(size);
    bool all = s.coin();
    for (size_t j = 0; j < n; j++) {
      size_t at = all ? same : rng.below(size);
      for (size_t b = 0; b < k; b++) {
        index[b][j] = at >> b & 1;
      }
    }
    x.emplace_back(rng, index);
    v.emplace_back(rng, randomRows(rng, 64, n));
  }
  c.desc = cat(linear ? " linear" : " write-only", " memory of ", size, ", ", rounds, " times ", n, " additions");
  c.nontrivial = size > 1;
  c.label(linear ? "linear" : "write-only");
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  // two memories one after the other, used in the same way
  std::vector<std::vector<std::vector<uint64_t>>> shares(2);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto af = net->factory(me, 2);
    using T = Intp<false, 64>;
    using R = om::IWriteOnlyOram<T>;
    auto makeFactory = [&] { return memories<T, sid>(linear, me, *af); };
    auto factory = makeFactory();
    auto m = factory->create(size);
    for (size_t r = 0; r < 2 * rounds; r++) {
      if (r == rounds) {
        m = again ? factory->create(size) : makeFactory()->create(size);
      }
      m->obliviousAddBatch(x[r % rounds].share[me], v[r % rounds].share[me]);
      std::vector<uint64_t> now;
      for (size_t i = 0; i < size; i++) {
        now.push_back(m->secretRead(i));
      }
      shares[me].push_back(now);
    }
    size_t at = (size * 7 + n) % size;
    for (int to = 0; to < 2; to++) {
      auto a = net->mark(me);
      m->publicRead(at, to == 0 ? R::Alice : R::Bob);
      auto sent = net->between(me, a, net->mark(me));
      size_t bytes = 0;
      for (auto& e : sent) {
        bytes += e.second.size();
      }
      if (me == to) {
        requireEq(bytes, 0u, "bytes sent by the party that reads");
      } else {
        require(bytes <= sizeof(T), cat(bytes, " bytes sent for one cell"));
      }
    }
  }, net);
  for (int q = 0; q < 2; q++) {
    std::set<uint64_t> seen;
    for (size_t r = 0; r < 2 * rounds; r++) {
      for (size_t i = 0; i < size; i++) {
        uint64_t d = shares[q][r][i] - (r % rounds ? shares[q][r - 1][i] : 0), total = shares[0][r][i] + shares[1][r][i];
        require(d != 0, cat("party ", q, "'s share of cell ", i, " does not change in addition ", r));
        require(seen.insert(d).second, cat("the share of cell ", i, " of party ", q, " changes like another one in addition ", r));
        require(shares[q][r][i] != total && shares[q][r][i] != 0 - total, cat("party ", q, " holds the value of cell ", i));
      }
    }
  }
}
// Features stay with their owner, labels are known to nobody.
PROPERTY(multiplications, 40, 1000) {
  auto g = config(s);
  auto rng = s.rng();
  int owner = s.below(2);
  size_t k = s.pick({1, 1, 2, 64}), n = k == 64 ? 8 : k == 2 ? 256 : 512;
  bool twice = s.coin();
  std::vector<std::vector<std::vector<double>>> m(2);
  std::vector<Rows> planes(2, Rows(40, std::vector<bool>(n * k)));
  for (int r = 0; r < 2; r++) {
    for (size_t i = 0; i < n; i++) {
      std::vector<double> col(k);
      for (size_t j = 0; j < k; j++) {
        uint64_t x = rng.u64() >> 24;
        col[j] = r && twice ? m[0][i][j] : (double)x;
        for (size_t b = 0; b < 40; b++) {
          planes[r][b][i * k + j] = (uint64_t)col[j] >> b & 1;
        }
      }
      m[r].push_back(col);
    }
  }
  std::vector<double> noise(k);
  for (auto& x : noise) {
    x = (double)(rng.u64() >> 20);
  }
  Shared l(rng, randomRows(rng, 1, n));
  c.desc = cat(show(g), " ", n, " x ", k, " features of party ", owner, twice ? " the same twice" : "");
  c.nontrivial = true;
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::vector<std::vector<Got>> got(2, std::vector<Got>(2));
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto f = net->factory(me, 2);
    auto x = walr::OTBasedMatrixMultiplicationFactory<sid, uint64_t>(
                 me, 1 - me, me == owner, 1, *f, std::make_unique<fe::util::AesPrgFactory>(256),
                 std::make_unique<walr::util::COTWithRandomMessageFactory>(std::make_unique<DealerRcotFactory>()),
                 std::make_shared<fbpcf::util::MetricCollector>("m"))
                 .create();
    for (int r = 0; r < 2; r++) {
      auto u = enterShares<bool, sid>(l.share[me], 1);
      auto a = net->mark(me);
      if (me == owner) {
        x->matrixVectorMultiplication(m[r], u);
      } else {
        x->matrixVectorMultiplication(u, noise);
      }
      got[r][me].sent = net->between(me, a, net->mark(me));
    }
  }, net);
  std::vector<Seen> seen;
  std::vector<std::vector<Secret>> features;
  for (int r = 0; r < 2; r++) {
    std::vector<Sent> sent{got[r][0].sent, got[r][1].sent};
    for (int q = 0; q < 2; q++) {
      if (n >= 256) {
        hiddenRows(q, sent, l.value, {{"share of the label", &l.share[q]}}, "the labels");
      }
    }
    std::vector<Secret> xs;
    for (size_t b = 0; b < 40; b++) {
      xs.push_back({cat("bit ", b, " of the features"), Bits(planes[r][b]), nullptr});
    }
    Seen v = view(1 - owner, sent);
    v.windows = 40;
    hidden(v, xs, {64}, cat("party ", 1 - owner), true);
    seen.push_back(v);
    features.push_back(xs);
    // no feature in the clear, nor masked by what another one is masked by
    std::unordered_set<uint64_t> plain;
    for (auto& col : m[r]) {
      for (double x : col) {
        plain.insert((uint64_t)x);
        plain.insert(0 - (uint64_t)x);
      }
    }
    for (auto& [to, bytes] : sent[owner]) {
      for (size_t o = 0; o + 8 <= bytes.size(); o++) {
        uint64_t x;
        memcpy(&x, &bytes[o], 8);
        require(!plain.count(x), "a feature in the clear");
      }
      if (bytes.size() == n * k * 8) {
        std::unordered_set<uint64_t> minus, plus;
        for (size_t j = 0; j < n * k; j++) {
          uint64_t x, f = (uint64_t)m[r][j / k][j % k];
          memcpy(&x, &bytes[j * 8], 8);
          require(minus.insert(x + f).second && plus.insert(x - f).second, "two features under one mask");
        }
      }
    }
  }
  if (twice) { // the XOR of what is sent for the same features tells whether masks return
    for (auto& [to, bytes] : got[0][owner].sent) {
      auto again = got[1][owner].sent.find(to);
      if (again == got[1][owner].sent.end()) {
        continue;
      }
      auto& later = again->second;
      size_t same = 0, words = std::min(bytes.size(), later.size()) / 8;
      for (size_t j = 0; j < words; j++) {
        same += !memcmp(&bytes[j * 8], &later[j * 8], 8);
      }
      require(bytes.size() != n * k * 8 || same == 0, cat(same, " of ", words, " words are the same the second time"));
    }
  } else {
    leak::hiddenAcross(seen[0], seen[1], {features[0][0]}, {features[1][0]}, {64}, cat("party ", 1 - owner), true);
  }
}
// The offset between the messages for a label and for none is drawn anew for every multiplication.
struct OffsetSpy final : ot::IRandomCorrelatedObliviousTransferFactory {
  std::vector<u128>& seen;
  DealerRcotFactory f;
  explicit OffsetSpy(std::vector<u128>& v) : seen(v) {}
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(__m128i delta, std::unique_ptr<comm::IPartyCommunicationAgent> a) override {
    seen.push_back(toU(delta));
    return f.create(delta, std::move(a));
  }
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(std::unique_ptr<comm::IPartyCommunicationAgent> a) override {
    return f.create(std::move(a));
  }
};
PROPERTY(multiplierOffsets, 40, 1000) {
  SchedCfg g;
  g.k = Sched::NetPlain;
  g.eng.parties = 2;
  int owner = s.below(2), times = s.pick({2, 3, 80});
  c.desc = cat(times, " multiplications, features of party ", owner);
  c.nontrivial = true;
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::vector<std::vector<u128>> seen(2);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto f = net->factory(me, 2);
    std::vector<std::unique_ptr<walr::IWalrMatrixMultiplication<sid>>> keep;
    for (int i = 0; i < times; i++) {
      keep.push_back(walr::OTBasedMatrixMultiplicationFactory<sid, uint64_t>(
                         me, 1 - me, me == owner, 1, *f, std::make_unique<fe::util::AesPrgFactory>(256),
                         std::make_unique<walr::util::COTWithRandomMessageFactory>(std::make_unique<OffsetSpy>(seen[me])),
                         std::make_shared<fbpcf::util::MetricCollector>("m"))
                         .create());
    }
  }, net);
  requireEq(seen[1 - owner].size(), 0u, "offsets picked by the owner of the labels");
  requireEq(seen[owner].size(), (size_t)times, "offsets picked by the owner of the features");
  std::set<u128> all;
  u128 everSet = 0, alwaysSet = ~(u128)0;
  for (auto d : seen[owner]) {
    require(d & 1, "an even offset");
    require(all.insert(d).second, "two multiplications with one offset");
    everSet |= d;
    alwaysSet &= d;
  }
  if (times >= 80) {
    require(everSet == ~(u128)0 && alwaysSet == 1, "bits of the offset that never change");
  }
}
// Key streams and nonces never repeat, and the party that picks rows says nothing.
PROPERTY(encryption, 300, 10000) {
  auto rng = s.rng();
  size_t w = s.pick({1, 8, 15, 16, 17, 31, 32, 33, 48, 70});
  struct Batch {
    std::vector<Bytes> rows;
    std::vector<uint64_t> index;
  };
  std::vector<std::vector<Batch>> sessions(1 + s.below(3));
  uint64_t next = s.pick<uint64_t>({0, 5, 1ull << 32, (1ull << 48) - 100});
  for (auto& se : sessions) {
    se.resize(1 + s.below(4));
    for (size_t b = 0; b < se.size(); b++) {
      size_t n = 1 + s.below(s.chance(1, 5) ? 60 : 12);
      bool again = b && s.chance(1, 3); // the same rows and indexes again
      if (again) {
        se[b] = se[b - 1];
        continue;
      }
      if (&se != &sessions[0] && s.chance(1, 3) && b < sessions[0].size()) {
        se[b] = sessions[0][b];
        continue;
      }
      for (size_t i = 0; i < n; i++) {
        se[b].index.push_back(next++);
        Bytes row(w);
        bool zero = s.chance(1, 4);
        for (auto& x : row) {
          x = zero ? 0 : rng.below(256);
        }
        se[b].rows.push_back(row);
      }
      if (s.chance(1, 3)) {
        next = next < 100 ? 0 : next - s.below(100); // indexes of another batch
      }
    }
  }
  c.desc = cat(sessions.size(), " data sets, rows of ", w);
  size_t blocks = 0;
  for (auto& se : sessions) {
    c.desc += ";";
    for (auto& b : se) {
      c.desc += cat(" ", b.rows.size(), " from ", b.index[0]);
      blocks += b.rows.size() * ((w + 15) / 16);
    }
  }
  c.nontrivial = blocks > 1;
  c.labelIf(sessions.size() > 1, "several data sets");
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::unique_ptr<comm::IPartyCommunicationAgent> ag[2] = {net->agent(0, 1), net->agent(1, 0)};
  std::vector<std::set<Bytes>> keys(1);
  auto sent = runPartiesR<Sent>(*net, 2, c.caseSeed, [&](int me) {
    udp::UdpEncryption e(std::move(ag[me]));
    for (auto& se : sessions) {
      if (me == 0) {
        e.prepareToProcessMyData(w);
        for (auto& b : se) {
          e.processMyData(b.rows, b.index);
        }
        auto key = e.getExpandedKey();
        require(keys[0].insert(bytesOf(key.at(0))).second, "a key is used for two data sets");
      } else {
        std::vector<uint64_t> pick;
        for (auto& b : se) {
          if (std::find(pick.begin(), pick.end(), b.index[0]) == pick.end()) {
            pick.push_back(b.index[0]);
          }
        }
        e.prepareToProcessPeerData(w, pick);
        for (auto& b : se) {
          e.processPeerData(b.rows.size());
        }
        e.getProcessedData();
      }
    }
    Net::Mark none;
    return net->between(me, none, net->mark(me));
  });
  for (auto& [to, bytes] : sent[1]) {
    require(bytes.empty(), cat("the party that picks rows sends ", bytes.size(), " bytes"));
  }
  Bytes all;
  for (auto& [to, bytes] : sent[0]) {
    require(all.empty() || bytes.empty(), "several channels");
    all.insert(all.end(), bytes.begin(), bytes.end());
  }
  size_t at = 0;
  std::set<Bytes> nonces;
  std::map<Bytes, std::string> stream;
  for (size_t i = 0; i < sessions.size(); i++) {
    for (size_t b = 0; b < sessions[i].size(); b++) {
      auto& t = sessions[i][b];
      require(at + 16 + t.rows.size() * (8 + w) <= all.size(), "less is sent than expected");
      require(nonces.insert(Bytes(all.begin() + at, all.begin() + at + 16)).second, "a nonce is used twice");
      at += 16;
      for (size_t j = 0; j < t.rows.size(); j++) {
        at += 8;
        for (size_t o = 0; o < w; o += 16) {
          size_t len = std::min<size_t>(16, w - o);
          Bytes m(all.begin() + at + o, all.begin() + at + o + len);
          for (size_t q = 0; q < len; q++) {
            m[q] ^= t.rows[j][o + q];
          }
          if (len < 8) {
            continue;
          }
          m.resize(8);
          auto where = cat("data set ", i, " batch ", b, " row ", j, " byte ", o);
          auto [it, fresh] = stream.emplace(m, where);
          require(fresh, cat("one key stream block for ", it->second, " and ", where));
        }
        at += w;
      }
    }
  }
  requireEq(at, all.size(), "bytes sent");
}
// The owner of rows does not learn which are picked, the other one not the rows.
PROPERTY(joins, 4, 120) {
  SchedCfg g = config(s);
  g.k = Sched::Lazy;
  g.eng.e = Eng::Dealer;
  auto rng = s.rng();
  size_t n = s.pick({160, 200}), m = 128, w = s.pick({1, 2, 16});
  int owner = s.below(2);
  std::vector<Bytes> rows(n, Bytes(w));
  for (auto& r : rows) {
    for (auto& x : r) {
      x = rng.below(256);
    }
  }
  std::vector<uint64_t> pick(n);
  for (size_t i = 0; i < n; i++) {
    pick[i] = i;
  }
  rng.shuffle(pick);
  pick.resize(m);
  c.desc = cat(show(g), " ", m, " of ", n, " rows x ", w, " of party ", owner);
  c.nontrivial = true;
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::vector<Got> got(2);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto f = net->factory(me, 2);
    auto p = udp::getDataProcessorFactoryWithAesCtr<sid>(me, 1 - me, *f)->create();
    auto a = net->mark(me);
    auto x = me == owner ? p->processMyData(rows, m) : p->processPeersData(n, pick, w);
    got[me].share = sharesOf<sid>(x);
    got[me].sent = net->between(me, a, net->mark(me));
  }, net);
  std::vector<Sent> sent{got[0].sent, got[1].sent};
  Rows y = xorRows(got[0].share, got[1].share), index(6, std::vector<bool>(m)), table(w * 8, std::vector<bool>(n));
  for (size_t j = 0; j < m; j++) {
    for (size_t b = 0; b < w * 8; b++) {
      requireEq(y[b][j], (bool)(rows[pick[j]][b / 8] >> b % 8 & 1), "bit of the joined rows");
    }
    for (size_t b = 0; b < 6; b++) {
      index[b][j] = pick[j] >> b & 1;
    }
  }
  for (size_t j = 0; j < n; j++) {
    for (size_t b = 0; b < w * 8; b++) {
      table[b][j] = rows[j][b / 8] >> b % 8 & 1;
    }
  }
  if (w > 2) {
    y.resize(8);
    table.resize(8);
    for (auto& x : got) {
      x.share.resize(8);
    }
  }
  hiddenRows(owner, sent, index, {}, "the rows picked");
  hiddenRows(owner, sent, y, {{"share of the row", &got[owner].share}}, "the joined rows");
  hiddenRows(1 - owner, sent, y, {{"share of the row", &got[1 - owner].share}}, "the joined rows");
  hiddenRows(1 - owner, sent, table, {}, "the rows", {1, 8 * (8 + w)});
}
// Nobody learns which of its rows matched, nor where the other's are.
PROPERTY(unions, 10, 250) {
  auto g = config(s);
  auto rng = s.rng();
  size_t n = s.pick({256, 400});
  std::vector<std::vector<int32_t>> map(2, std::vector<int32_t>(n, -1));
  std::vector<int> who(n);
  std::vector<std::vector<bool>> has(2, std::vector<bool>(n));
  std::vector<std::shared_ptr<Bits>> own{std::make_shared<Bits>(n), std::make_shared<Bits>(n)};
  for (size_t i = 0; i < n; i++) {
    who[i] = rng.below(4);
    for (int p = 0; p < 2; p++) {
      if (who[i] == p || who[i] >= 2) {
        has[p][i] = true;
        own[p]->set(i);
      }
    }
  }
  for (int p = 0; p < 2; p++) {
    std::vector<int32_t> rows;
    for (size_t i = 0; i < n; i++) {
      rows.push_back(i);
    }
    rng.shuffle(rows);
    for (size_t i = 0; i < n; i++) {
      if (has[p][i]) {
        map[p][i] = rows[i];
      }
    }
  }
  c.desc = cat(show(g), " union of ", n);
  c.nontrivial = true;
  auto net = std::make_shared<Net>(c.caseSeed | 1, true);
  std::vector<Got> got(2);
  std::vector<std::vector<int32_t>> rst(2);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto q = ad::getAdapterFactoryWithAsWaksmanBasedShuffler<sid>(me == 0, me, 1 - me)->create();
    auto a = net->mark(me);
    rst[me] = q->adapt(map[me]);
    got[me].sent = net->between(me, a, net->mark(me));
  }, net);
  std::vector<Sent> sent{got[0].sent, got[1].sent};
  for (int q = 0; q < 2; q++) {
    hidden(view(q, sent), {{"which rows of the union the other one has", Bits(has[1 - q]), own[q]}}, {1}, cat("party ", q));
    Rows index(8, std::vector<bool>(n));
    for (size_t b = 0; b < 8; b++) {
      for (size_t i = 0; i < n; i++) {
        index[b][i] = map[1 - q][i] >= 0 && map[1 - q][i] >> b & 1;
      }
      auto at = std::make_shared<Bits>(has[1 - q]);
      hidden(view(q, sent), {{cat("bit ", b, " of the other's rows"), Bits(index[b]), at}}, {1}, cat("party ", q));
    }
    // ranks, in the order of the union, of the matched rows
    std::map<int32_t, size_t> rank;
    for (size_t i = 0; i < n; i++) {
      if (has[0][i] && has[1][i]) {
        size_t r = rank.size();
        rank[map[1 - q][i]] = r;
      }
    }
    std::vector<size_t> at;
    requireEq(rst[q].size(), rank.size(), "rows matched");
    for (auto x : rst[q]) {
      require(rank.count(x), "a row that is not matched");
      at.push_back(rank[x]);
    }
    reordered(at, "the intersection");
  }
}
} // namespace
