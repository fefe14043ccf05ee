// C12: messages between parties arrive complete, in order and accounted.
#include <mutex>
#include <thread>
#include "channel.h"
#include "fbpcf/engine/communication/AgentMapHelper.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentFactory.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
#include "net.h"
using namespace pbt;
using Agent = comm::IPartyCommunicationAgent;
using Mem = comm::InMemoryPartyCommunicationAgentFactory;

namespace {
void traffic(Agent& a, uint64_t sent, uint64_t got, const std::string& who) {
  auto t = a.getTrafficStatistics();
  requireEq(t.first, sent, who, ": bytes sent as reported");
  requireEq(t.second, got, who, ": bytes received as reported");
}
uint64_t wire(const std::vector<Msg>& v, size_t n) {
  uint64_t r = 0;
  for (size_t i = 0; i < n; i++) {
    r += v[i].wire();
  }
  return r;
}
struct Mesh { // in-memory factories for n parties
  std::map<std::pair<int, int>, std::shared_ptr<Mem::HostInfo>> hosts;
  std::vector<std::unique_ptr<Mem>> f;
  explicit Mesh(int n) {
    for (int i = 0; i < n; i++) {
      for (int j = i + 1; j < n; j++) {
        auto h = std::make_shared<Mem::HostInfo>();
        h->mutex = std::make_unique<std::mutex>();
        hosts[{i, j}] = h;
      }
    }
    for (int i = 0; i < n; i++) {
      std::map<int, std::shared_ptr<Mem::HostInfo>> m;
      for (int j = 0; j < n; j++) {
        if (i != j) {
          m[j] = hosts[{std::min(i, j), std::max(i, j)}];
        }
      }
      f.push_back(std::make_unique<Mem>(i, std::move(m)));
    }
  }
};
} // namespace

// one thread, both directions: whatever is due may be received at any time
PROPERTY(memoryTyped, 4000, 60000) {
  std::vector<Msg> m[2] = {genMsgs(s, 25, 200), genMsgs(s, 25, 200)};
  c.desc = cat("0->1:", showMsgs(m[0]), "; 1->0:", showMsgs(m[1]));
  comm::InMemoryPartyCommunicationAgentHost host;
  std::unique_ptr<Agent> a[2] = {host.getAgent(0), host.getAgent(1)};
  requireThrows<std::runtime_error>([&] { host.getAgent(s.below(2)); }, "the same end twice");
  size_t sent[2] = {0, 0}, got[2] = {0, 0}, queued = 0, odd = 0;
  while (got[0] < m[0].size() || got[1] < m[1].size()) {
    int d = s.below(2);
    bool send = s.chance(2, 3);
    if (send && sent[d] < m[d].size()) {
      m[d][sent[d]++].send(*a[d]);
    } else if (got[d] < sent[d]) {
      odd += m[d][got[d]].oddBits();
      m[d][got[d]].expect(*a[1 - d], cat("message ", got[d], " from party ", d, ", "));
      got[d]++;
    } else if (sent[d] < m[d].size()) {
      m[d][sent[d]++].send(*a[d]);
    }
    queued = std::max({queued, sent[0] - got[0], sent[1] - got[1]});
    for (int p = 0; p < 2; p++) {
      traffic(*a[p], wire(m[p], sent[p]), wire(m[1 - p], got[1 - p]), cat("party ", p));
    }
  }
  c.nontrivial = m[0].size() && m[1].size() && queued >= 2;
  c.labelIf(odd, "bits that do not fill a byte");
  c.labelIf(queued >= 5, "five or more messages queued");
}

// the receiver groups the bytes as it likes
PROPERTY(memoryGrouping, 4000, 60000) {
  comm::InMemoryPartyCommunicationAgentHost host;
  std::unique_ptr<Agent> a[2] = {host.getAgent(0), host.getAgent(1)};
  std::vector<unsigned char> log[2];
  size_t pos[2] = {0, 0}, splits = 0, merges = 0;
  std::vector<size_t> ends[2];
  int steps = 2 + s.size(0, 60);
  auto receive = [&](int d, size_t n) {
    auto v = a[1 - d]->receive(n);
    requireEq(v.size(), n, "bytes received");
    size_t b = 0;
    bool partial = n > 0;
    for (auto e : ends[d]) {
      b += e > pos[d] && e < pos[d] + n;
      partial &= e != pos[d] + n;
    }
    merges += b > 0;
    splits += partial;
    for (size_t i = 0; i < n; i++) {
      requireEq((int)v[i], (int)log[d][pos[d] + i], "byte ", pos[d] + i, " of the stream from party ", d, " (", i, " of ", n, " received together)");
    }
    pos[d] += n;
  };
  for (int i = 0; i < steps; i++) {
    int d = s.below(2);
    if (s.coin()) {
      auto b = s.bytes(s.size(0, 120));
      c.desc += cat(" +", d, ":", b.size());
      a[d]->send(b);
      log[d].insert(log[d].end(), b.begin(), b.end());
      ends[d].push_back(log[d].size());
    } else {
      size_t n = s.size(0, log[d].size() - pos[d]);
      c.desc += cat(" -", d, ":", n);
      receive(d, n);
    }
  }
  for (int d = 0; d < 2; d++) {
    c.desc += cat(" -", d, ":", log[d].size() - pos[d]);
    receive(d, log[d].size() - pos[d]);
  }
  for (int d = 0; d < 2; d++) {
    traffic(*a[d], log[d].size(), log[1 - d].size(), cat("party ", d));
  }
  c.nontrivial = splits && merges;
  c.labelIf(splits, "a message received in parts");
  c.labelIf(merges, "messages received together");
}

// parties in threads of their own, connections opened in any order
PROPERTY(mesh, 400, 6000) {
  int n = 2 + s.below(3);
  struct Conn {
    int lo, hi;
    std::vector<Msg> m[2]; // lo->hi, hi->lo
  };
  std::vector<Conn> conns(1 + s.size(0, 5));
  size_t total = 0;
  for (auto& k : conns) {
    k.lo = s.below(n - 1);
    k.hi = k.lo + 1 + s.below(n - 1 - k.lo);
    for (auto& m : k.m) {
      m = genMsgs(s, 12, 600);
      total += m.size();
    }
    c.desc += cat(" ", k.lo, "-", k.hi, "(", showMsgs(k.m[0]), " |", showMsgs(k.m[1]), ")");
  }
  c.desc = cat(n, " parties:", c.desc);
  c.nontrivial = conns.size() >= 2 && total >= 6;
  c.labelIf(n > 2, "more than two parties");
  Mesh mesh(n);
  uint64_t seed = c.caseSeed;
  std::vector<std::string> err(n);
  std::vector<std::thread> ts;
  for (int me = 0; me < n; me++) {
    ts.emplace_back([&, me] {
      try {
        Rng r(mix64(seed + me));
        std::vector<std::unique_ptr<Agent>> a(conns.size());
        // agents between the same two parties pair up in creation order
        for (size_t i = 0; i < conns.size(); i++) {
          auto& k = conns[i];
          if (k.lo == me || k.hi == me) {
            a[i] = mesh.f[me]->create(k.lo == me ? k.hi : k.lo, "traffic");
          }
        }
        for (int bad : {me, n, -1}) {
          requireThrows<std::runtime_error>(
              [&] { mesh.f[me]->create(bad, "traffic"); }, "connecting to nobody");
        }
        // everything is sent, in some order, before a connection is read
        std::vector<size_t> order;
        for (size_t i = 0; i < conns.size(); i++) {
          order.push_back(i);
        }
        for (int phase = 0; phase < 2; phase++) {
          r.shuffle(order);
          for (auto i : order) {
            if (!a[i]) {
              continue;
            }
            int side = conns[i].hi == me;
            auto& out = conns[i].m[side];
            auto& in = conns[i].m[1 - side];
            if (phase == 0) {
              for (auto& m : out) {
                m.send(*a[i]);
                if (r.below(8) == 0) {
                  std::this_thread::yield();
                }
              }
            } else {
              for (size_t j = 0; j < in.size(); j++) {
                in[j].expect(*a[i], cat("party ", me, ", connection ", i, ", message ", j, ", "));
              }
              traffic(*a[i], wire(out, out.size()), wire(in, in.size()), cat("party ", me));
            }
          }
        }
      } catch (std::exception& e) {
        err[me] = e.what();
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  for (auto& e : err) {
    require(e.empty(), e);
  }
}

// the multi-party exchange of the secret-sharing engine
PROPERTY(opening, 1500, 20000) {
  int n = 2 + s.below(3);
  struct Step {
    int kind; // all bits, all ints, one bits, one ints, keys
    int to;
    size_t len;
    std::vector<std::vector<bool>> b;
    std::vector<std::vector<uint64_t>> u;
    std::vector<std::vector<u128>> keys; // [from][to]
  };
  std::vector<Step> steps(1 + s.size(0, 12));
  static const char* nm[] = {"all-bits", "all-ints", "bits", "ints", "keys"};
  size_t odd = 0, work = 0;
  for (auto& st : steps) {
    st.kind = s.below(5);
    st.to = s.below(n);
    st.len = s.size(0, 200);
    for (int i = 0; i < n; i++) {
      st.b.push_back(st.kind == 0 || st.kind == 2 ? s.bits(st.len) : std::vector<bool>());
      st.u.push_back(st.kind == 1 || st.kind == 3 ? s.words(st.len) : std::vector<uint64_t>());
      Rng r = s.rng();
      std::vector<u128> k;
      for (int j = 0; j < n; j++) {
        k.push_back(rand128(r));
      }
      st.keys.push_back(k);
    }
    odd += st.kind % 2 == 0 && st.kind < 4 && st.len % 8;
    work += st.kind < 4 ? st.len > 0 : 1;
    c.desc += cat(" ", nm[st.kind], st.kind < 4 ? st.len : 0, st.kind == 2 || st.kind == 3 ? cat("->", st.to) : "");
  }
  bool memory = s.chance(1, 3);
  c.desc = cat(n, " parties", memory ? " in memory" : "", ":", c.desc);
  c.nontrivial = work >= 2;
  c.labelIf(odd, "bits that do not fill a byte");
  c.labelIf(n > 2, "more than two parties");
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  Mesh mesh(n);
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> nf;
  for (int i = 0; i < n; i++) {
    nf.push_back(net->factory(i, n));
  }
  runParties(*net, n, c.caseSeed, [&](int me) {
    comm::IPartyCommunicationAgentFactory& f =
        memory ? (comm::IPartyCommunicationAgentFactory&)*mesh.f[me] : *nf[me];
    comm::SecretShareEngineCommunicationAgent a(me, comm::getAgentMap(n, me, f));
    uint64_t sent = 0, got = 0;
    for (size_t i = 0; i < steps.size(); i++) {
      auto& st = steps[i];
      auto where = cat("step ", i, " (", nm[st.kind], "), party ", me, ": ");
      bool mine = st.kind < 2 || st.to == me;
      uint64_t bytes = st.kind % 2 ? 8 * st.len : (st.len + 7) / 8;
      if (st.kind == 4) {
        std::map<int, __m128i> keys;
        for (int j = 0; j < n; j++) {
          if (j != me) {
            keys[j] = toM(st.keys[me][j]);
          }
        }
        auto r = a.exchangeKeys(keys);
        requireEq(r.size(), (size_t)n - 1, where, "keys received");
        for (int j = 0; j < n; j++) {
          if (j != me) {
            requireEq(hex(toU(r.at(j))), hex(st.keys[j][me]), where, "key from party ", j);
          }
        }
        sent += 16 * (n - 1);
        got += 16 * (n - 1);
      } else if (st.kind % 2 == 0) {
        auto r = st.kind == 0 ? a.openSecretsToAll(st.b[me]) : a.openSecretsToParty(st.to, st.b[me]);
        requireEq(r.size(), st.len, where, "length");
        for (size_t j = 0; j < st.len; j++) {
          bool w = false;
          for (auto& x : st.b) {
            w ^= x[j];
          }
          requireEq((bool)r[j], mine && w, where, "bit ", j);
        }
      } else {
        auto r = st.kind == 1 ? a.openSecretsToAll(st.u[me]) : a.openSecretsToParty(st.to, st.u[me]);
        requireEq(r.size(), st.len, where, "length");
        for (size_t j = 0; j < st.len; j++) {
          uint64_t w = 0;
          for (auto& x : st.u) {
            w += x[j];
          }
          requireEq(r[j], mine ? w : 0, where, "integer ", j);
        }
      }
      if (st.kind < 2) {
        sent += bytes * (n - 1);
        got += bytes * (n - 1);
      } else if (st.kind < 4) {
        (mine ? got : sent) += mine ? bytes * (n - 1) : bytes;
      }
      auto t = a.getTrafficStatistics();
      requireEq(t.second, got, where, "bytes received as reported");
      requireEq(t.first, sent, where, "bytes sent as reported");
      if (!memory) {
        auto k = net->counted(me);
        requireEq(t.first, k.first, where, "bytes sent as reported and as counted by the network");
        requireEq(t.second, k.second, where, "bytes received as reported and as counted by the network");
      }
    }
  });
  if (!memory) {
    requireEq(net->leftover(), 0u, "bytes sent that nobody read");
  }
}
