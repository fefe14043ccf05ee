// C26: encrypted data sets survive batching, files and sharding.
#include <numeric>
#include "fbpcf/engine/util/aes.h"
#include "scratch.h"
#include "udpkit.h"
using namespace pbt;
namespace {
using Results = udp::IUdpEncryption::EncryptionResults;
struct Session { // one direction: owner encrypts, the other picks
  size_t width;
  std::vector<uint64_t> indexes;
  std::vector<Bytes> rows;
  std::vector<size_t> batches; // their sizes
  std::vector<uint64_t> wanted;
  size_t absent = 0; // wanted, though the owner has no such row
};
Session genSession(Src& s, Ctx& c, std::string& d, bool large = false) {
  Session x;
  bool small = s.chance(1, 3); // batches of a row or two
  size_t n = large && small ? 256 + s.below(1500) : large ? s.pick({256, 65536}) + s.below(3000) : s.chance(1, 12) ? s.range(100, 700) : 1 + s.below(20);
  x.width = large && n < 4000 && s.coin() ? 200 + s.below(1200) : s.chance(1, 4) ? 16 * (1 + s.below(3)) : 1 + s.below(50);
  std::string how;
  x.indexes = genIndexes(s, n, how);
  c.label("indexes " + how);
  x.rows = genTable(s, n, x.width);
  for (size_t left = n; left > 0;) {
    size_t b = large && small ? std::min<size_t>(left, 1 + s.below(2)) : s.chance(1, 3) ? left : 1 + s.below(left);
    x.batches.push_back(b);
    left -= b;
  }
  x.wanted = x.indexes;
  s.rng().shuffle(x.wanted);
  if (s.chance(2, 3)) {
    x.wanted.resize(s.below(n + 1));
  }
  if (s.chance(1, 4)) {
    std::set<uint64_t> have(x.indexes.begin(), x.indexes.end());
    for (size_t k = 1 + s.below(3); k > 0; k--) {
      uint64_t v = s.coin() ? x.indexes[s.below(n)] + (1ull << 32) : x.indexes[s.below(n)] + 1 + s.below(3);
      if (!have.count(v)) {
        have.insert(v);
        x.wanted.insert(x.wanted.begin() + s.below(x.wanted.size() + 1), v);
        x.absent++;
      }
    }
  }
  d += cat(" [", n, " rows x ", x.width, " indexes ", how, " ", pbt::show(std::vector<uint64_t>(x.indexes.begin(), x.indexes.begin() + std::min<size_t>(n, 12))),
           " batches ", pbt::show(x.batches), " wanted ", x.wanted.size(), x.absent ? cat(" (", x.absent, " absent)") : "", "]");
  c.labelIf(x.batches.size() > 1, "several batches");
  c.labelIf(x.absent, "an absent index");
  c.labelIf(x.width > 255, "more than 255 bytes a row");
  c.labelIf(n > 65535, "more than 65535 rows");
  c.labelIf(x.batches.size() > 255, "more than 255 batches");
  c.labelIf(x.wanted.empty(), "nothing wanted");
  return x;
}
void check(const Session& x, const Results& r, const std::vector<__m128i>& ek) {
  requireEq(ek.size(), (size_t)11, "round keys");
  Bytes key = bytesOf(ek[0]);
  auto full = fbpcf::engine::util::Aes::expandEncryptionKey(ek[0]);
  for (int i = 0; i < 11; i++) {
    require(bytesOf(full[i]) == bytesOf(ek[i]), cat("round key ", i, " is not of the schedule of round key 0"));
  }
  requireEq(r.ciphertexts.size(), x.wanted.size(), "ciphertexts");
  requireEq(r.nonces.size(), x.wanted.size(), "nonces");
  requireEq(r.indexes.size(), x.wanted.size(), "indexes");
  std::map<uint64_t, size_t> at;
  for (size_t i = 0; i < x.indexes.size(); i++) {
    at[x.indexes[i]] = i;
  }
  std::map<size_t, u128> nonceOf; // by batch
  std::vector<size_t> batchOf;
  for (size_t b = 0; b < x.batches.size(); b++) {
    batchOf.insert(batchOf.end(), x.batches[b], b);
  }
  for (size_t i = 0; i < x.wanted.size(); i++) {
    auto it = at.find(x.wanted[i]);
    if (it == at.end()) {
      continue;
    }
    requireEq(r.indexes[i], x.wanted[i], cat("index ", i, " of the picked rows"));
    requireEq(r.ciphertexts[i].size(), x.width, cat("width of picked row ", i));
    auto got = openRow(key, r.nonces[i], r.indexes[i], r.ciphertexts[i]);
    require(got == x.rows[it->second], cat("picked row ", i, " (index ", x.wanted[i], ") decrypts to ", hexOf(got), ", not ", hexOf(x.rows[it->second])));
    nonceOf[batchOf[it->second]] = toU(r.nonces[i]);
  }
  std::set<u128> distinct;
  for (auto& [b, n] : nonceOf) {
    require(distinct.insert(n).second, "two batches under one key share a nonce");
  }
}
void sessions(Src& s, Ctx& c, bool large) {
  size_t n = large ? 1 : 1 + s.below(3);
  // in each round, either both parties own a data set or one of them does
  std::vector<std::array<std::optional<Session>, 2>> rounds(n);
  std::string d;
  size_t rows = 0, both = 0;
  for (auto& r : rounds) {
    int who = s.below(3);
    d += " round:";
    for (int p = 0; p < 2; p++) {
      if (who == p || who == 2) {
        r[p] = genSession(s, c, d, large);
        rows += r[p]->rows.size();
      }
    }
    both += who == 2;
  }
  uint64_t order = s.rng().u64();
  bool wrong = s.chance(1, 2);
  c.desc = cat(d, wrong ? " with misuse" : "");
  c.nontrivial = rows >= 3 && n + both >= 1;
  c.labelIf(wrong, "misuse in between");
  c.labelIf(n > 1, "one object for several data sets");
  c.labelIf(both, "both directions at once");
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::vector<std::array<std::vector<__m128i>, 2>> keys(n);
  std::vector<std::array<Results, 2>> got(n);
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgent>> agents;
  agents.push_back(net->factory(0, 2)->create(1, "udp"));
  agents.push_back(net->factory(1, 2)->create(0, "udp"));
  runParties(*net, 2, c.caseSeed, [&](int me) {
    udp::UdpEncryption u(std::move(agents[me]));
    Rng r(order ^ (me + 7));
    auto maybe = [&] { return wrong && r.below(3) == 0; };
    auto idleMine = [&] {
      if (maybe()) {
        requireThrows<std::runtime_error>([&] { u.processMyData({{1}}, {0}); }, "processing my data before preparing");
      }
      if (maybe()) {
        requireThrows<std::runtime_error>([&] { u.getExpandedKey(); }, "asking for a key before preparing");
      }
    };
    auto idlePeer = [&] {
      if (maybe()) {
        requireThrows<std::runtime_error>([&] { u.processPeerData(1); }, "processing peer's data before preparing");
      }
      if (maybe()) {
        requireThrows<std::runtime_error>([&] { u.getProcessedData(); }, "asking for peer's data before preparing");
      }
    };
    for (size_t k = 0; k < n; k++) {
      auto& mine = rounds[k][me];
      auto& peer = rounds[k][1 - me];
      idleMine();
      idlePeer();
      // steps of both directions, interleaved; peers' pace differs, as nothing
      // that is sent has to be waited for
      size_t a = 0, b = 0, at = 0;
      size_t stepsA = mine ? mine->batches.size() + 2 : 0, stepsB = peer ? peer->batches.size() + 2 : 0;
      while (a < stepsA || b < stepsB) {
        // the k-th batch is only waited for once k were sent, or all
        bool canB = b < stepsB && (b == 0 || !mine || a >= 1 + std::min(b, mine->batches.size()));
        bool pickA = !canB || (a < stepsA && r.below(2));
        if (pickA) {
          if (a == 0) {
            u.prepareToProcessMyData(mine->width);
          } else if (a <= mine->batches.size()) {
            size_t m = mine->batches[a - 1];
            std::vector<Bytes> rows(mine->rows.begin() + at, mine->rows.begin() + at + m);
            std::vector<uint64_t> idx(mine->indexes.begin() + at, mine->indexes.begin() + at + m);
            if (maybe()) {
              requireThrows<std::runtime_error>([&] { u.prepareToProcessMyData(3); }, "preparing twice");
            }
            if (maybe()) {
              requireThrows<std::invalid_argument>([&] { u.processMyData({}, {}); }, "an empty batch");
            }
            if (maybe()) {
              requireThrows<std::invalid_argument>([&] { u.processMyData({Bytes(mine->width + 1)}, {0}); }, "a batch of another width");
            }
            if (maybe()) {
              auto odd = rows;
              odd.push_back(Bytes(r.below(2) ? mine->width + 1 + r.below(20) : r.below(mine->width)));
              auto oi = idx;
              oi.push_back(0);
              requireThrows<std::invalid_argument>([&] { u.processMyData(odd, oi); }, cat("rows of unequal width, the last has ", odd.back().size()));
            }
            if (maybe()) {
              auto oi = idx;
              r.below(2) ? oi.push_back(0) : oi.pop_back();
              requireThrows<std::invalid_argument>([&] { u.processMyData(rows, oi); }, "more or fewer indexes than rows");
            }
            u.processMyData(rows, idx);
            at += m;
          } else {
            keys[k][me] = u.getExpandedKey();
            idleMine();
          }
          a++;
        } else {
          if (b == 0) {
            u.prepareToProcessPeerData(peer->width, peer->wanted);
          } else if (b <= peer->batches.size()) {
            if (maybe()) {
              requireThrows<std::runtime_error>([&] { u.prepareToProcessPeerData(3, {1}); }, "preparing twice");
            }
            u.processPeerData(peer->batches[b - 1]);
          } else {
            got[k][1 - me] = u.getProcessedData();
            idlePeer();
          }
          b++;
        }
      }
    }
  });
  std::set<std::vector<unsigned char>> distinct;
  for (size_t k = 0; k < n; k++) {
    for (int p = 0; p < 2; p++) {
      if (rounds[k][p]) {
        check(*rounds[k][p], got[k][p], keys[k][p]);
        require(distinct.insert(bytesOf(keys[k][p][0])).second, "two data sets share a key");
      }
    }
  }
}
PROPERTY(encrypt_exchange_decrypt, 1500, 60000) {
  sessions(s, c, false);
}
PROPERTY(large_sets, 16, 300) {
  sessions(s, c, true);
}
Results genResults(Src& s, std::string& d) {
  Results r;
  size_t n = s.chance(1, 150) ? s.range(65536, 67000) : s.chance(1, 8) ? 0 : s.chance(1, 8) ? s.range(50, 400) : 1 + s.below(25);
  size_t w = s.chance(1, 10) ? 0 : n < 500 && s.chance(1, 20) ? s.range(250, 1500) : 1 + s.below(n > 500 ? 8 : 40);
  std::string how;
  r.indexes = genIndexes(s, n, how);
  r.ciphertexts = genTable(s, n, w);
  Rng g = s.rng();
  for (size_t i = 0; i < n; i++) {
    r.nonces.push_back(toM(i && g.below(3) == 0 ? toU(r.nonces.back()) : rand128(g)));
  }
  d += cat(n, " rows x ", w, " indexes ", how);
  return r;
}
void same(const Results& a, const Results& b, const std::string& what) {
  require(a.indexes == b.indexes, what + " other indexes");
  require(a.ciphertexts == b.ciphertexts, what + " other ciphertexts");
  require(toU(a.nonces) == toU(b.nonces), what + " other nonces");
}
PROPERTY(files_round_trip, 600, 20000) {
  Scratch dir;
  size_t n = 1 + s.below(3);
  std::vector<Results> v;
  std::vector<std::vector<__m128i>> keys;
  bool one = s.coin(); // all in one file, one over the other
  for (size_t i = 0; i < n; i++) {
    c.desc += i ? ", " : "";
    v.push_back(genResults(s, c.desc));
    std::vector<__m128i> k;
    for (int j = 0; j < 11; j++) {
      k.push_back(toM(gen128(s)));
    }
    keys.push_back(k);
  }
  c.desc += one && n > 1 ? " in one file" : "";
  c.nontrivial = v.back().indexes.size() > 1;
  c.labelIf(v.back().indexes.empty(), "no rows");
  c.labelIf(one && n > 1, "written over another one");
  for (size_t i = 0; i < n; i++) {
    std::string f = dir / cat("data", one ? 0 : i), k = dir / cat("key", one ? 0 : i);
    udp::writeEncryptionResultsToFile(v[i], f);
    udp::writeExpandedKeyToFile(keys[i], k);
    if (one) {
      same(udp::readEncryptionResultsFromFile(f), v[i], "the file has");
      require(toU(udp::readExpandedKeyFromFile(k)) == toU(keys[i]), "the file has another key");
    }
  }
  for (size_t i = 0; i < n && !one; i++) {
    same(udp::readEncryptionResultsFromFile(dir / cat("data", i)), v[i], "the file has");
    require(toU(udp::readExpandedKeyFromFile(dir / cat("key", i))) == toU(keys[i]), "the file has another key");
  }
}
PROPERTY(shards, 1500, 60000) {
  auto r = genResults(s, c.desc), copy = r;
  size_t n = r.indexes.size();
  int count = s.chance(1, 6) ? (int)(n + s.below(5)) : 1 + s.below(12);
  count = std::max(count, 1);
  c.desc += cat(" in ", count, " shards");
  c.nontrivial = n > 1 && count > 1;
  c.labelIf((size_t)count > n, "more shards than rows");
  c.labelIf(n % count != 0, "uneven shards");
  auto v = udp::splitEncryptionResults(r, count);
  requireEq(v.size(), (size_t)count, "number of shards");
  same(r, copy, "after splitting, the whole has");
  Results all;
  for (size_t i = 0; i < v.size(); i++) {
    requireEq(v[i].indexes.size(), v[i].ciphertexts.size(), "ciphertexts of a shard");
    requireEq(v[i].indexes.size(), v[i].nonces.size(), "nonces of a shard");
    requireEq(v[i].indexes.size(), udp::getShardSize(n, i, count), cat("size of shard ", i));
    size_t low = n / count;
    require(v[i].indexes.size() == low || v[i].indexes.size() == low + 1, cat("shard ", i, " has ", v[i].indexes.size(), " of ", n, " rows"));
    all.indexes.insert(all.indexes.end(), v[i].indexes.begin(), v[i].indexes.end());
    all.nonces.insert(all.nonces.end(), v[i].nonces.begin(), v[i].nonces.end());
    all.ciphertexts.insert(all.ciphertexts.end(), v[i].ciphertexts.begin(), v[i].ciphertexts.end());
  }
  same(all, copy, "together, the shards have");
}
PROPERTY(shard_sizes, 3000, 200000) {
  uint64_t n = s.edgy(0, 1ull << 40), shards = 1 + s.edgyU(s.coin() ? 40 : 100000);
  shards = std::max<uint64_t>(shards, 1);
  c.desc = cat(n, " rows in ", shards, " shards");
  c.nontrivial = n % shards != 0;
  uint64_t sum = 0;
  for (uint64_t i = 0; i < shards; i++) {
    uint64_t x = udp::getShardSize(n, i, shards);
    require(x == n / shards || x == n / shards + 1, cat("shard ", i, " has ", x));
    sum += x;
    if (shards > 2000 && i > 500 && i + 500 < shards) { // the middle telescopes
      uint64_t j = shards - 500;
      sum = (uint64_t)((unsigned __int128)n * j / shards);
      i = j - 1;
    }
  }
  requireEq(sum, n, "rows of all shards");
}
PROPERTY(local_encryption, 1500, 60000) {
  size_t n = 1 + s.below(20), w = 1 + s.below(50);
  auto rows = genTable(s, n, w);
  auto key = gen128(s);
  bool offset = s.coin();
  std::string how = "from an offset";
  uint64_t off = s.chance(1, 4) ? 0 : s.edgyU(UINT64_MAX);
  std::vector<uint64_t> idx(n);
  std::iota(idx.begin(), idx.end(), off);
  if (!offset) {
    idx = genIndexes(s, n, how);
  }
  int odd = s.chance(1, 5) ? 1 + s.below(2) : 0;
  c.desc = cat(n, " rows x ", w, " indexes ", how, offset ? cat(" ", off) : "", odd ? " misused" : "");
  c.nontrivial = n > 1;
  c.label(offset ? "offset" : "indexes");
  c.labelIf(odd, "misuse");
  if (odd == 1 && n > 1) {
    rows[1 + s.below(n - 1)].resize(s.coin() ? w + 1 + s.below(17) : s.below(w));
    requireThrows<std::invalid_argument>([&] { udp::UdpUtil::localEncryption(rows, toM(key), idx); }, "rows of unequal width");
    return;
  }
  if (odd) {
    s.coin() ? idx.push_back(0) : idx.pop_back();
    requireThrows<std::invalid_argument>([&] { udp::UdpUtil::localEncryption(rows, toM(key), idx); }, "more or fewer indexes than rows");
    return;
  }
  auto [text, nonce] = offset ? udp::UdpUtil::localEncryption(rows, toM(key), off) : udp::UdpUtil::localEncryption(rows, toM(key), idx);
  requireEq(text.size(), n, "ciphertexts");
  requireEq(nonce.size(), (size_t)16, "nonce");
  __m128i x = _mm_loadu_si128((const __m128i*)nonce.data());
  for (size_t i = 0; i < n; i++) {
    requireEq(text[i].size(), w, "width of a ciphertext");
    auto got = openRow(bytesOf(toM(key)), x, idx[i], text[i]);
    require(got == rows[i], cat("row ", i, " (index ", idx[i], ") decrypts to ", hexOf(got), ", not ", hexOf(rows[i])));
  }
}
} // namespace
