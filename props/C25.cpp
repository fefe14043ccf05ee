// C25: joining one party's rows under encryption gives the chosen rows.
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DummyDataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpDecryption.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.h"
#include "front.h"
#include "udpkit.h"
using namespace pbt;
namespace {
template <int sid>
using Str = ff::BitString<true, sid, true>;
std::string at(std::vector<std::vector<bool>>& v, size_t row, size_t width) {
  Bytes b(width);
  for (size_t i = 0; i < width * 8; i++) {
    b[i / 8] |= (unsigned char)(v[i].at(row) << i % 8);
  }
  return hexOf(b);
}
// opens the string to a party, which compares column k with rows[k]
template <int sid>
void compare(Str<sid>& x, int me, int to, size_t width, const std::vector<Bytes>& rows, const std::string& what) {
  requireEq(x.size(), width * 8, what + ": bits of a row");
  std::vector<ff::Bit<false, sid, true>> o;
  for (size_t i = 0; i < x.size(); i++) {
    o.push_back(x[i].openToParty(to));
  }
  std::vector<std::vector<bool>> v;
  for (auto& b : o) {
    v.push_back(b.getValue());
    requireEq(v.back().size(), rows.size(), what + ": rows");
  }
  for (size_t k = 0; me == to && k < rows.size(); k++) {
    require(at(v, k, width) == hexOf(rows[k]), cat(what, ": row ", k, " is ", at(v, k, width), ", not ", hexOf(rows[k])));
  }
}
struct Join {
  int owner, to;
  size_t width;
  std::vector<Bytes> rows, want;
  std::vector<uint64_t> pick;
  bool reject;
};
Join genJoin(Src& s, Ctx& c, size_t maxRows, bool dummy, size_t minRows = 1) {
  Join j;
  j.owner = s.below(2);
  j.to = s.below(2);
  size_t n = s.range(minRows, maxRows);
  j.width = s.chance(1, 4) ? 16 * (1 + s.below(2)) : s.chance(1, 6) ? 33 + s.below(10) : 1 + s.below(24);
  j.rows = genTable(s, n, j.width);
  auto p = s.permutation(n);
  size_t m = s.chance(1, 4) ? n : 1 + s.below(n);
  for (size_t i = 0; i < m; i++) {
    j.pick.push_back(p[i]);
  }
  if (dummy && s.chance(1, 4)) {
    j.pick.push_back(j.pick[0]);
  }
  for (auto i : j.pick) {
    j.want.push_back(j.rows[i]);
  }
  j.reject = !dummy && n > 1 && s.chance(1, 6);
  c.desc += cat("; ", n, " rows x ", j.width, " of ", j.owner, " picks ", show(j.pick), j.reject ? " unequal rows first" : "");
  for (auto& r : j.rows) {
    c.desc += " " + hexOf(r).substr(0, 16);
  }
  c.labelIf(j.width % 16 == 0, "whole blocks");
  c.labelIf(j.width > 16, "several blocks");
  c.labelIf(m == n, "every row");
  c.labelIf(j.reject, "rows of unequal width");
  return j;
}
void join(Src& s, Ctx& c, const SchedCfg& g, size_t maxRows, size_t most, size_t minRows = 1) {
  bool dummy = s.chance(1, 5);
  c.desc = cat(show(g), dummy ? " stand-in" : "");
  c.label(name(g.k));
  c.labelIf(dummy, "stand-in");
  std::vector<Join> joins(1 + s.below(most));
  for (auto& j : joins) {
    j = genJoin(s, c, maxRows, dummy, minRows);
    c.nontrivial |= j.rows.size() > 1;
  }
  c.labelIf(joins.size() > 1, "several joins");
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto f = net->factory(me, 2);
    std::unique_ptr<udp::IDataProcessor<sid>> p, bad;
    if (dummy) {
      p = udp::insecure::DummyDataProcessorFactory<sid>(me, 1 - me, *f).create();
    } else {
      p = udp::getDataProcessorFactoryWithAesCtr<sid>(me, 1 - me, *f)->create();
      bad = udp::getDataProcessorFactoryWithAesCtr<sid>(me, 1 - me, *f)->create();
    }
    size_t k = 0;
    std::vector<Str<sid>> all;
    bool rejected = false;
    for (auto& j : joins) {
      if (me == j.owner) {
        if (j.reject && !rejected) {
          auto odd = j.rows;
          odd.back().resize(j.width + (me ? 1 : -1));
          requireThrows<std::invalid_argument>([&] { bad->processMyData(odd, j.pick.size()); }, "rows of unequal width");
          rejected = true; // it is not used any more
        }
        all.push_back(p->processMyData(j.rows, j.pick.size()));
      } else {
        all.push_back(p->processPeersData(j.rows.size(), j.pick, j.width));
      }
      k++;
    }
    for (k = 0; k < joins.size(); k++) {
      compare<sid>(all[k], me, joins[k].to, joins[k].width, joins[k].want, cat("join ", k));
    }
  }, net);
}
PROPERTY(chosen_rows, 70, 1500) {
  auto g = genSched(s, {Sched::NetPlain, Sched::NetPlain, Sched::Lazy, Sched::Eager}, 2, false);
  g.eng.e = Eng::Dummy;
  join(s, c, g, 8, 3);
}
PROPERTY(many_rows, 8, 120) {
  auto g = genSched(s, {Sched::NetPlain, Sched::NetPlain, Sched::Lazy}, 2, false);
  g.eng.e = Eng::Dummy;
  c.label("more than 255 rows");
  join(s, c, g, 600, 1, 256);
}
PROPERTY(chosen_rows_over_tuples, 4, 120) {
  auto g = genSched(s, {Sched::Lazy}, 2, false);
  g.eng.e = Eng::Dealer;
  g.eng.buffer = 4000;
  join(s, c, g, 3, 1);
}
// What a party enters comes out bit by bit, the highest bit of the first byte first.
PROPERTY(streams, 60, 1500) {
  SchedCfg g;
  g.k = s.pick({Sched::NetPlain, Sched::NetPlain, Sched::Lazy, Sched::Eager});
  g.eng.parties = 2;
  g.eng.e = Eng::Dummy;
  bool large = s.chance(1, 20);
  int what = s.below(3); // bytes, blocks, a key for all rows
  size_t n = large ? s.pick({3000, 9000, 40000}) + s.below(100) : 1 + s.below(40);
  size_t w = what == 0 ? 1 + s.below(large ? 17 : 70) : 16 * (1 + s.below(what == 2 ? 12 : large ? 2 : 5));
  if (large) {
    g.k = Sched::NetPlain;
    if (what == 1 && s.coin()) { // more blocks than 16 bits count
      w = 32;
      n = 33000 + s.below(3000);
    }
  }
  Rng r = s.rng();
  std::vector<Bytes> rows(what == 2 ? 1 : n, Bytes(w));
  for (auto& row : rows) {
    for (auto& b : row) {
      b = r.u64();
    }
  }
  int owner = s.below(2), to = s.below(2);
  c.desc = cat(show(g), std::array{" bytes ", " blocks ", " key "}[what], n, " rows x ", w, " of ", owner, " to ", to, " ", hexOf(rows[0]).substr(0, 40));
  c.nontrivial = n > 1;
  c.labelIf(large, "thousands of rows");
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto mine = rows;
    if (me != owner) {
      for (auto& row : mine) {
        std::fill(row.begin(), row.end(), 0);
      }
    }
    auto blocks = [&](const Bytes& b) {
      std::vector<__m128i> v;
      for (size_t i = 0; i < w; i += 16) {
        v.push_back(_mm_loadu_si128((const __m128i*)&b[i]));
      }
      return v;
    };
    std::vector<ff::Bit<true, sid, true>> x;
    if (what == 0) {
      x = udp::UdpUtil::privatelyShareByteStream<sid>(mine, owner);
    } else if (what == 1) {
      std::vector<std::vector<__m128i>> v;
      for (auto& b : mine) {
        v.push_back(blocks(b));
      }
      x = udp::UdpUtil::privatelyShareM128iStream<sid>(v, owner);
    } else {
      x = udp::UdpUtil::privatelyShareExpandedKey<sid>(blocks(mine[0]), n, owner);
    }
    requireEq(x.size(), (w + 15) / 16 * 128, "bits of a row"); // filled up to whole blocks
    for (size_t i = 0; i < x.size(); i++) {
      auto v = x[i].openToParty(to).getValue();
      requireEq(v.size(), n, "rows");
      for (size_t k = 0; me == to && k < n; k++) {
        bool want = i / 8 < w && rows[what == 2 ? 0 : k][i / 8] >> (7 - i % 8) & 1;
        require(v[k] == want, cat("bit ", i, " of row ", k, " is ", (int)v[k]));
      }
    }
  });
}
// rows encrypted in batches, with any indexes, decrypted together
PROPERTY(decryption_of_batches, 36, 900) {
  auto g = genSched(s, {Sched::NetPlain, Sched::NetPlain, Sched::Lazy, Sched::Eager}, 2, false);
  g.eng.e = Eng::Dummy;
  size_t n = 1 + s.below(8), w = s.coin() ? 1 + s.below(16) : s.sizeUpTo(40);
  std::string how;
  auto idx = genIndexes(s, n, how);
  auto rows = genTable(s, n, w);
  auto p = s.permutation(n);
  p.resize(1 + s.below(n));
  std::vector<uint64_t> wanted;
  std::vector<Bytes> want;
  for (auto i : p) {
    wanted.push_back(idx[i]);
    want.push_back(rows[i]);
  }
  size_t cut = s.below(n);
  int owner = s.below(2), to = s.below(2);
  c.desc = cat(show(g), " ", n, " rows x ", w, " of ", owner, " indexes ", how, " ", show(idx), " cut at ", cut, " wanted ", show(wanted));
  c.nontrivial = n > 1 && cut > 0;
  c.label("indexes " + how);
  c.label(name(g.k));
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    udp::UdpEncryption u(net->factory(me, 2)->create(1 - me, "udp"));
    udp::UdpDecryption<sid> d(me, 1 - me);
    std::vector<std::pair<size_t, size_t>> batches;
    if (cut) {
      batches.push_back({0, cut});
    }
    batches.push_back({cut, n});
    auto out = [&] {
      if (me == owner) {
        u.prepareToProcessMyData(w);
        for (auto [a, b] : batches) {
          u.processMyData({rows.begin() + a, rows.begin() + b}, {idx.begin() + a, idx.begin() + b});
        }
        return d.decryptMyData(u.getExpandedKey(), w, wanted.size());
      }
      u.prepareToProcessPeerData(w, wanted);
      for (auto [a, b] : batches) {
        u.processPeerData(b - a);
      }
      auto r = u.getProcessedData();
      return d.decryptPeerData(r.ciphertexts, r.nonces, r.indexes);
    }();
    compare<sid>(out, me, to, w, want, "decrypted");
  }, net);
}
} // namespace
