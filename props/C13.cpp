// C13: the socket transport, plain and TLS.
#include <mutex>
#include <thread>
#include "channel.h"
#include "fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h"
#include "sockets.h"
using namespace pbt;
using Agent = comm::IPartyCommunicationAgent;

namespace {
const size_t kNever = SIZE_MAX;
struct NoSigpipe {
  NoSigpipe() {
    signal(SIGPIPE, SIG_IGN);
  }
} noSigpipe;
// The two ends run in threads of their own; the first failure is reported.
struct Errors {
  std::mutex m;
  std::string first;
  void run(const std::function<void()>& f) {
    try {
      f();
    } catch (std::exception& e) {
      std::lock_guard<std::mutex> l(m);
      if (first.empty()) {
        first = e.what();
      }
    }
  }
  void check() {
    require(first.empty(), first);
  }
};
struct End { // what a party does with its end
  std::unique_ptr<SockAgent> agent;
  std::shared_ptr<Recorder> rec = std::make_shared<Recorder>();
};
// side 0 connects, side 1 accepts; wire: through a forwarding wire
void connected(
    bool tls,
    Wire* wire,
    int serverFd,
    int port,
    Errors& err,
    const std::function<void(int, std::unique_ptr<SockAgent>, std::shared_ptr<Recorder>)>& f,
    bool* refused = nullptr) {
  std::thread server([&] {
    err.run([&] {
      auto rec = std::make_shared<Recorder>();
      std::unique_ptr<SockAgent> a;
      try {
        a = std::make_unique<SockAgent>(serverFd, port, tlsInfo(tls), rec, 20);
      } catch (std::exception& e) {
        if (refused) {
          *refused = true;
          return;
        }
        throw;
      }
      f(1, std::move(a), rec);
    });
  });
  err.run([&] {
    auto rec = std::make_shared<Recorder>();
    std::unique_ptr<SockAgent> a;
    try {
      a = std::make_unique<SockAgent>("127.0.0.1", wire ? wire->port() : port, tlsInfo(tls), rec, 20);
    } catch (std::exception& e) {
      if (refused) {
        *refused = true;
        return;
      }
      throw;
    }
    f(0, std::move(a), rec);
  });
  server.join();
}
struct Step {
  int from;
  Msg m;
};
std::vector<Step> conversation(Src& s, Ctx& c, size_t most, size_t big) {
  std::vector<Step> v(1 + s.size(0, most));
  size_t odd = 0, large = 0, turns = 0;
  for (size_t i = 0; i < v.size(); i++) {
    v[i].from = s.below(2);
    v[i].m = Msg::gen(s, s.chance(1, 12) ? big : 300);
    odd += v[i].m.wire() == 0;
    large += v[i].m.wire() > 70000;
    turns += i && v[i].from != v[i - 1].from;
    c.desc += cat(v[i].from ? " <" : " >", v[i].m.name());
  }
  c.labelIf(odd, "an empty message");
  c.labelIf(large, "a message above 64 KB");
  c.nontrivial = turns >= 1 && v.size() >= 3;
  return v;
}
void play(const std::vector<Step>& v, int me, Agent& a, const std::string& who) {
  uint64_t sent = 0, got = 0;
  for (size_t i = 0; i < v.size(); i++) {
    auto& st = v[i];
    if (st.from == me) {
      st.m.send(a);
      sent += st.m.wire();
    } else {
      st.m.expect(a, cat(who, ", message ", i, ", "));
      got += st.m.wire();
    }
    auto t = a.getTrafficStatistics();
    requireEq(t.first, sent, who, ", after message ", i, ": bytes sent as reported");
    requireEq(t.second, got, who, ", after message ", i, ": bytes received as reported");
  }
}
} // namespace

// everything arrives, whatever the pieces in which the network delivers it
PROPERTY(conversation, 500, 8000) {
  bool tls = s.coin(), wired = s.coin();
  size_t piece = s.pick<size_t>({1, 3, 100, 4096, 65536});
  auto v = conversation(s, c, 25, piece < 50 ? 20000 : 900000);
  c.desc = cat(tls ? "tls" : "plain", wired ? cat(", pieces of ", piece) : "", ":", c.desc);
  c.label(tls ? "tls" : "plain");
  certs();
  int before = openDescriptors();
  {
    auto [fd, port] = listener();
    std::unique_ptr<Wire> w;
    if (wired) {
      w = std::make_unique<Wire>(port, c.caseSeed, piece, std::array<size_t, 2>{kNever, kNever}, false);
    }
    Errors err;
    connected(tls, w.get(), fd, port, err, [&](int me, auto a, auto) {
      play(v, me, *a, me ? "server" : "client");
    });
    err.check();
  }
  requireEq(openDescriptors(), before, "descriptors still open after both ends were closed");
}

// one end sends and leaves at once: all it sent arrives, nothing after it does
PROPERTY(leaving, 400, 6000) {
  Reaper reaper;
  bool tls = s.coin();
  int leaver = s.below(2);
  std::vector<Msg> m(s.size(0, 6));
  for (auto& x : m) {
    x = Msg::gen(s, s.chance(1, 5) ? 3000000 : 500);
  }
  size_t extra = s.size(0, 60), ask = extra + 1 + s.size(0, 100);
  auto tail = s.bytes(extra);
  int how = s.below(3); // the other end then: asks for too much, sends, both
  bool lag = s.coin();
  c.desc = cat(tls ? "tls" : "plain", leaver ? " server" : " client", " leaves after", showMsgs(m), " and ", extra, " bytes; the other asks for ", ask, how == 0 ? "" : how == 1 ? ", having sent" : ", then sends", lag ? ", lagging" : "");
  c.label(tls ? "tls" : "plain");
  c.labelIf(extra, "leaves in the middle of a message");
  c.nontrivial = m.size() || extra;
  size_t total = 0;
  for (auto& x : m) {
    total += x.wire();
  }
  c.labelIf(total > 200000, "leaves with more than 200 KB sent");
  certs();
  auto [fd, port] = listener();
  Errors err;
  connected(tls, nullptr, fd, port, err, [&](int me, auto a, auto) {
    if (me == leaver) {
      for (auto& x : m) {
        x.send(*a);
      }
      a->send(tail);
      a.reset();
      return;
    }
    if (lag) {
      std::this_thread::sleep_for(std::chrono::milliseconds(3));
    }
    for (size_t i = 0; i < m.size(); i++) {
      m[i].expect(*a, cat("message ", i, ", "));
    }
    auto before = a->getTrafficStatistics().second;
    requireEq(before, total, "bytes received as reported");
    requireThrows<std::runtime_error>(
        [&] { a->receive(ask); }, "receiving more than the peer sent before it left");
    if (how == 2) {
      std::vector<unsigned char> block(1 << 16);
      requireThrows<std::runtime_error>(
          [&] {
            for (int i = 0; i < 400; i++) {
              a->send(block);
            }
          },
          "sending 25 MB to a peer that has left");
      requireThrows<std::runtime_error>([&] { a->receive(1); }, "receiving again");
    }
  });
  err.check();
}

// the wire is cut: an end sees a prefix of what was sent, then an error
PROPERTY(cut, 400, 6000) {
  Reaper reaper;
  bool tls = s.coin(), hard = s.coin();
  auto v = conversation(s, c, 15, 100000);
  size_t bytes[2] = {0, 0};
  for (auto& st : v) {
    bytes[st.from] += st.m.wire();
  }
  std::array<size_t, 2> at{kNever, kNever};
  int d = s.below(2);
  at[d] = 1 + s.below(bytes[d] + (tls ? 3000 : 1));
  size_t piece = s.pick<size_t>({4096, 7, 100000});
  c.desc = cat(tls ? "tls" : "plain", " cut after ", at[d], " bytes from the ", d ? "server" : "client", hard ? " (reset)" : "", ", pieces of ", piece, ":", c.desc);
  c.label(tls ? "tls" : "plain");
  certs();
  auto [fd, port] = listener();
  Wire w(port, c.caseSeed, piece, at, hard);
  Errors err;
  bool refused = false;
  std::atomic<int> errors{0}, finished{0};
  connected(tls, &w, fd, port, err, [&](int me, auto a, auto) {
    for (size_t i = 0; i < v.size(); i++) {
      auto& st = v[i];
      try {
        if (st.from == me) {
          st.m.send(*a);
        } else {
          st.m.expect(*a, cat(me ? "server" : "client", ", message ", i, ", "));
        }
      } catch (Failure&) {
        throw; // wrong data
      } catch (std::exception&) {
        errors++;
        return;
      }
    }
    finished++;
  }, &refused);
  err.check();
  c.labelIf(refused, "cut during the handshake");
  c.labelIf(errors > 0, "reported after connecting");
  c.nontrivial = errors > 0;
  if (!refused && !tls && at[d] < bytes[d]) {
    require(errors > 0, "the wire was cut after ", at[d], " of ", bytes[d], " bytes and nobody noticed");
  }
}

// a client that trusts another authority refuses the server
PROPERTY(untrusted, 60, 600) {
  Reaper reaper;
  bool name = s.coin();
  certs();
  auto [fd, port] = listener();
  c.desc = name ? "server reached under a name it has no certificate for" : "unknown authority";
  c.nontrivial = true;
  bool refused[2] = {false, false};
  std::thread server([&, fd = fd, port = port] {
    try {
      SockAgent a(fd, port, tlsInfo(true), std::make_shared<Recorder>(), 20);
      a.receive(1);
    } catch (std::exception&) {
      refused[1] = true;
    }
  });
  try {
    auto t = tlsInfo(true);
    if (!name) {
      t.rootCaCertPath = certs() + "/other.pem";
    }
    SockAgent a(name ? "localhost" : "127.0.0.1", port, t, std::make_shared<Recorder>(), 20);
    a.send({1});
  } catch (std::exception&) {
    refused[0] = true;
  }
  server.join();
  require(refused[0], "the client accepted the server");
  require(refused[1], "the server received something");
}

// the n-th connection to a peer talks to the n-th one that peer opens back
PROPERTY(factory, 200, 3000) {
  bool tls = s.coin();
  int n = 2 + s.below(3);
  struct Conn {
    int lo, hi;
    std::vector<Step> v;
  };
  std::vector<Conn> conns(1 + s.size(0, 6));
  for (auto& k : conns) {
    k.lo = s.below(n - 1);
    k.hi = k.lo + 1 + s.below(n - 1 - k.lo);
    c.desc += cat(" ", k.lo, "-", k.hi, "(");
    k.v = conversation(s, c, 6, 2000);
    c.desc += ")";
  }
  int base = s.pick({0, 1, 0}); // the port tried next: free, taken
  bool early = s.coin(); // agents are used only after all are open
  c.desc = cat(tls ? "tls " : "plain ", n, " parties, ports ", base, early ? "" : ", used as they open", ":", c.desc);
  c.nontrivial = conns.size() >= 2;
  c.label(tls ? "tls" : "plain");
  c.labelIf(n > 2, "more than two parties");
  certs();
  std::map<std::pair<int, int>, int> ports;
  std::vector<std::unique_ptr<OpenFactory>> f;
  std::vector<int> taken;
  auto info = [&](int me, bool bound) {
    std::map<int, comm::SocketPartyCommunicationAgentFactory::PartyInfo> m;
    for (int j = 0; j < n; j++) {
      if (j != me) {
        int p = 0;
        if (bound && j < me) {
          p = ports.at({j, me});
        } else if (bound) {
          // ++port is what the factory tries first for the next connection
          if (base == 1) {
            auto [fd, q] = listener();
            taken.push_back(fd);
            p = q - 1;
          } else {
            p = 20000 + getpid() % 120 * 100 + 15 * (me + j);
          }
        }
        m[j] = {"127.0.0.1", p};
      }
    }
    return m;
  };
  for (int i = 0; i < n; i++) {
    f.push_back(std::make_unique<OpenFactory>(i, info(i, false), tlsInfo(tls)));
  }
  for (int i = 0; i < n; i++) {
    for (int j = i + 1; j < n; j++) {
      ports[{i, j}] = f[i]->port(j);
    }
  }
  std::vector<decltype(info(0, true))> infos;
  for (int i = 0; i < n; i++) {
    infos.push_back(info(i, true));
  }
  Errors err;
  std::vector<std::thread> ts;
  for (int me = 0; me < n; me++) {
    ts.emplace_back([&, me] {
      err.run([&] {
        f[me]->connect(infos[me]);
        requireThrows<std::runtime_error>([&] { f[me]->create(me, "x"); }, "connecting to oneself");
        requireThrows<std::runtime_error>([&] { f[me]->create(n, "x"); }, "connecting to nobody");
        std::vector<std::unique_ptr<Agent>> a(conns.size());
        for (int pass = 0; pass < 2; pass++) {
          for (size_t i = 0; i < conns.size(); i++) {
            auto& k = conns[i];
            if (k.lo != me && k.hi != me) {
              continue;
            }
            if (pass == 0) {
              a[i] = f[me]->create(k.lo == me ? k.hi : k.lo, cat("traffic ", i));
            }
            if (pass == (early ? 1 : 0)) {
              play(k.v, k.lo == me, *a[i], cat("party ", me, ", connection ", i));
            }
          }
        }
      });
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  for (int x : taken) {
    close(x);
  }
  err.check();
}
