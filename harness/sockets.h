// Sockets, certificates and a faulty wire for the transport property.
#pragma once
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
#include <atomic>
#include <csignal>
#include <filesystem>
#include <fstream>
#include <mutex>
#include <thread>
#include "fbpcf/engine/communication/SocketPartyCommunicationAgent.h"
#include "fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h"
#include "pbt.h"

namespace pbt {
namespace comm = fbpcf::engine::communication;
using SockAgent = comm::SocketPartyCommunicationAgent;
using Tls = SockAgent::TlsInfo;
using Recorder = comm::PartyCommunicationAgentTrafficRecorder;

// listens on a free port; {descriptor, port}
inline std::pair<int, int> listener() {
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t l = sizeof a;
  if (fd < 0 || bind(fd, (sockaddr*)&a, l) || listen(fd, 4) || getsockname(fd, (sockaddr*)&a, &l)) {
    throw Failure("the harness could not open a port");
  }
  return {fd, ntohs(a.sin_port)};
}
inline int dial(int port) {
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  a.sin_port = htons(port);
  if (fd < 0 || connect(fd, (sockaddr*)&a, sizeof a)) {
    throw Failure("the harness could not connect");
  }
  return fd;
}
inline int openDescriptors() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) {
    n++;
  }
  closedir(d);
  return n;
}
// A failed handshake may leave its descriptors behind; the transport selects
// on descriptors, so they must not pile up over thousands of cases.
struct Reaper {
  std::set<int> before = open();
  static std::set<int> open() {
    std::set<int> r;
    DIR* d = opendir("/proc/self/fd");
    while (auto* e = readdir(d)) {
      if (isdigit(e->d_name[0]) && atoi(e->d_name) != dirfd(d)) {
        r.insert(atoi(e->d_name));
      }
    }
    closedir(d);
    return r;
  }
  ~Reaper() {
    for (int f : open()) {
      if (!before.count(f)) {
        close(f);
      }
    }
  }
};
// A directory with a CA, a server certificate for 127.0.0.1 and its key,
// encrypted with a passphrase; made once per process, removed at exit.
inline const std::string& certs() {
  static std::string dir = [] {
    std::string t = (std::filesystem::temp_directory_path() / "pbt-tls-XXXXXX").string();
    std::string d = mkdtemp(t.data());
    auto key = [] { return EVP_EC_gen("P-256"); };
    auto cert = [](EVP_PKEY* k, EVP_PKEY* signer, const char* name, const char* issuer) {
      X509* x = X509_new();
      X509_gmtime_adj(X509_getm_notBefore(x), -86400);
      X509_gmtime_adj(X509_getm_notAfter(x), 31536000L);
      X509_set_pubkey(x, k);
      X509_NAME* n = X509_NAME_new();
      X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char*)name, -1, -1, 0);
      X509_set_subject_name(x, n);
      X509_NAME* i = X509_NAME_new();
      X509_NAME_add_entry_by_txt(i, "CN", MBSTRING_ASC, (const unsigned char*)issuer, -1, -1, 0);
      X509_set_issuer_name(x, i);
      X509_sign(x, signer, EVP_sha256());
      X509_NAME_free(n);
      X509_NAME_free(i);
      return x;
    };
    auto write = [](const std::string& f, auto&& put) {
      FILE* o = fopen(f.c_str(), "wb");
      put(o);
      fclose(o);
    };
    auto *ca = key(), *srv = key(), *other = key();
    auto* cax = cert(ca, ca, "test ca", "test ca");
    auto* sx = cert(srv, ca, "127.0.0.1", "test ca");
    auto* ox = cert(other, other, "other ca", "other ca");
    const char* pass = "correct-horse-battery";
    write(d + "/ca.pem", [&](FILE* o) { PEM_write_X509(o, cax); });
    write(d + "/other.pem", [&](FILE* o) { PEM_write_X509(o, ox); });
    write(d + "/cert.pem", [&](FILE* o) { PEM_write_X509(o, sx); });
    write(d + "/key.pem", [&](FILE* o) {
      PEM_write_PrivateKey(o, srv, EVP_aes_128_cbc(), (const unsigned char*)pass, strlen(pass), nullptr, nullptr);
    });
    std::ofstream(d + "/pass") << pass;
    static std::string mine = d;
    atexit([] { std::filesystem::remove_all(mine); });
    for (auto* k : {ca, srv, other}) {
      EVP_PKEY_free(k);
    }
    for (auto* x : {cax, sx, ox}) {
      X509_free(x);
    }
    return d;
  }();
  return dir;
}
inline Tls tlsInfo(bool on) {
  if (!on) {
    return {false, "", "", "", ""};
  }
  auto& d = certs();
  return {true, d + "/cert.pem", d + "/key.pem", d + "/pass", d + "/ca.pem"};
}

// Forwards between a client and a server, in pieces of its own choosing; drops
// the connection once cut[d] bytes have gone from end d (0: client).
class Wire {
 public:
  Wire(int serverPort, uint64_t seed, size_t piece, std::array<size_t, 2> cut, bool hard)
      : rng_(seed), piece_(piece), cut_(cut), hard_(hard) {
    auto [fd, port] = listener();
    listen_ = fd;
    port_ = port;
    t_ = std::thread([this, serverPort] { run(serverPort); });
  }
  ~Wire() {
    stop_ = true;
    t_.join();
  }
  int port() const {
    return port_;
  }

 private:
  void run(int serverPort) {
    int fd[2] = {-1, -1};
    while (!stop_ && fd[0] < 0) {
      pollfd p{listen_, POLLIN, 0};
      if (poll(&p, 1, 20) > 0) {
        fd[0] = accept(listen_, nullptr, nullptr);
      }
    }
    close(listen_);
    if (fd[0] < 0) {
      return;
    }
    try {
      fd[1] = dial(serverPort);
    } catch (Failure&) {
      close(fd[0]);
      return;
    }
    size_t gone[2] = {0, 0};
    bool open[2] = {true, true}, cutNow = false;
    std::vector<char> buf(1 << 16);
    while (!stop_ && (open[0] || open[1]) && !cutNow) {
      pollfd p[2] = {{open[0] ? fd[0] : -1, POLLIN, 0}, {open[1] ? fd[1] : -1, POLLIN, 0}};
      if (poll(p, 2, 20) <= 0) {
        continue;
      }
      for (int d = 0; d < 2 && !cutNow; d++) {
        if (!open[d] || !(p[d].revents & (POLLIN | POLLHUP | POLLERR))) {
          continue;
        }
        size_t most = std::min<size_t>(buf.size(), 1 + rng_.below(piece_));
        most = std::min(most, cut_[d] - gone[d]);
        ssize_t n = most ? read(fd[d], buf.data(), most) : 0;
        if (n < 0 || most == 0) {
          cutNow = true;
        } else if (n == 0) {
          open[d] = false;
          shutdown(fd[1 - d], SHUT_WR);
        } else {
          gone[d] += n;
          for (ssize_t k = 0; k < n && !cutNow;) {
            ssize_t w = ::send(fd[1 - d], buf.data() + k, n - k, MSG_NOSIGNAL);
            if (w <= 0) {
              cutNow = true;
            }
            k += w;
          }
          cutNow |= gone[d] >= cut_[d];
        }
      }
    }
    for (int f : fd) {
      if (cutNow && hard_) {
        linger l{1, 0};
        setsockopt(f, SOL_SOCKET, SO_LINGER, &l, sizeof l);
      }
      close(f);
    }
  }
  Rng rng_;
  size_t piece_;
  std::array<size_t, 2> cut_;
  bool hard_;
  int listen_, port_;
  std::atomic<bool> stop_{false};
  std::thread t_;
};
// a factory whose ports the harness can ask for before it connects
class OpenFactory : public comm::SocketPartyCommunicationAgentFactory {
 public:
  OpenFactory(
      int me,
      std::map<int, PartyInfo> p,
      Tls t,
      std::shared_ptr<fbpcf::util::MetricCollector> m = std::make_shared<fbpcf::util::MetricCollector>("m"))
      : SocketPartyCommunicationAgentFactory(me, p, t, m, true) {}
  int port(int peer) {
    return getPortFromSocket(sockets_.at(peer));
  }
  void connect(const std::map<int, PartyInfo>& p) {
    setupInitialConnection(p);
  }
};
} // namespace pbt
