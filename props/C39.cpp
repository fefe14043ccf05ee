// C39: garbled-circuit apps compute the plain function of both inputs.
// EMP itself is not installed; shim/emp-sh2pc stands in for it, so what is
// decided is everything fbpcf builds on it: games, apps, vectors, the queue
// channel and the concurrent executor.
#include <emp-sh2pc/emp-sh2pc.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <future>
#include <thread>
#include "example/millionaire/MillionaireApp.h"
#include "fbpcf/mpc/EmpApp.h"
#include "fbpcf/mpc/EmpTestUtil.h"
#include "fbpcf/mpc/EmpVector.h"
#include "fbpcf/mpc/MpcAppExecutor.h"
#include "fbpcf/mpc/QueueIO.h"
#include "pbt.h"
using namespace pbt;
using fbpcf::EmpVector;
using fbpcf::Party;
using fbpcf::QueueIO;
using Queue = folly::Synchronized<std::queue<char>>;

PROPERTY(millionaires, 300, 20000) {
  int a = (int)s.edgy(INT32_MIN, INT32_MAX);
  int b = s.chance(1, 5) ? a : s.chance(1, 4) ? (int)(uint32_t)((int64_t)a + s.range(-2, 2)) : (int)s.edgy(INT32_MIN, INT32_MAX);
  c.desc = cat(a, " > ", b);
  auto r = fbpcf::mpc::test<fbpcf::MillionaireGame<QueueIO>, int, bool>(a, b);
  requireEq(r.first, a > b, "what Alice learns");
  requireEq(r.second, a > b, "what Bob learns");
  c.nontrivial = a != b;
  c.labelIf(a == b, "equal");
  c.labelIf((a < 0) != (b < 0), "different signs");
}

// one game of each kind of vector, over any inputs
enum Op { kXor, kAdd, kSub, kMul, kFirst, kSecond, kPick };
static int64_t plain(int op, int64_t x, int64_t y) {
  uint64_t a = x, b = y;
  switch (op) {
    case kXor:
      return a ^ b;
    case kAdd:
      return a + b;
    case kSub:
      return a - b;
    case kMul:
      return a * b;
    case kFirst:
      return a;
    case kSecond:
      return b;
    default:
      return x > y ? a - b : b;
  }
}
struct In {
  int op;
  int revealTo;
  std::vector<std::vector<int64_t>> parts; // added as a vector, or alone when of size 1 and `alone`
  std::vector<bool> alone;
};
struct Out {
  std::vector<int64_t> v;
  int64_t size;
};
template <typename IO>
class IntGame : public fbpcf::EmpGame<IO, In, Out> {
 public:
  using fbpcf::EmpGame<IO, In, Out>::EmpGame;
  Out play(const In& in) override {
    EmpVector<emp::Integer> v;
    for (size_t i = 0; i < in.parts.size(); i++) {
      if (in.alone[i]) {
        v.add(in.parts[i][0]);
      } else {
        v.add(in.parts[i]);
      }
    }
    int op = in.op;
    auto r = v.map([op](emp::Integer x, emp::Integer y) {
      switch (op) {
        case kXor:
          return x ^ y;
        case kAdd:
          return x + y;
        case kSub:
          return x - y;
        case kMul:
          return x * y;
        case kFirst:
          return x;
        case kSecond:
          return y;
        default:
          return y.select(x > y, x - y);
      }
    });
    Out o{{}, v.size()};
    for (auto& x : r) {
      o.v.push_back(x.template reveal<int64_t>(in.revealTo));
    }
    return o;
  }
};
PROPERTY(intVectors, 250, 20000) {
  In a, b;
  a.op = b.op = s.below(7);
  a.revealTo = b.revealTo = s.pick({emp::PUBLIC, emp::PUBLIC, emp::ALICE, emp::BOB});
  size_t parts = s.size(0, 6);
  std::vector<int64_t> x, y;
  for (size_t i = 0; i < parts; i++) {
    bool alone = s.coin();
    size_t n = alone ? 1 : s.size(0, 60);
    auto pa = s.words(n), pb = s.words(n);
    std::vector<int64_t> va(pa.begin(), pa.end()), vb(pb.begin(), pb.end());
    x.insert(x.end(), va.begin(), va.end());
    y.insert(y.end(), vb.begin(), vb.end());
    a.parts.push_back(va);
    b.parts.push_back(vb);
    a.alone.push_back(alone);
    b.alone.push_back(alone);
  }
  c.desc = cat("op ", a.op, " to ", a.revealTo, " over ", x.size(), " values in ", parts, " parts");
  auto r = fbpcf::mpc::test<IntGame<QueueIO>, In, Out>(a, b);
  requireEq((size_t)r.first.size, x.size(), "size");
  requireEq((size_t)r.second.size, x.size(), "size");
  requireEq(r.first.v.size(), x.size(), "results");
  requireEq(r.second.v.size(), x.size(), "results");
  for (size_t i = 0; i < x.size(); i++) {
    int64_t want = plain(a.op, x[i], y[i]);
    requireEq(r.first.v[i], a.revealTo == emp::BOB ? 0 : want, "Alice's result ", i, " of ", x[i], " and ", y[i]);
    requireEq(r.second.v[i], a.revealTo == emp::ALICE ? 0 : want, "Bob's result ", i, " of ", x[i], " and ", y[i]);
  }
  c.nontrivial = x.size() >= 2;
}
PROPERTY(bitVectors, 250, 20000) {
  size_t n = s.size(0, 80);
  auto x = s.bits(n), y = s.bits(n);
  int op = s.below(4);
  size_t split = s.below(n + 1);
  c.desc = cat("op ", op, " over ", show(x), " ", show(y));
  std::vector<bool> got[2];
  int64_t sizes[2] = {0, 0};
  fbpcf::mpc::wrapTestWithParty<std::function<void(Party)>>([&](Party p) {
    bool me = p == Party::Bob;
    auto& own = me ? y : x;
    EmpVector<emp::Bit> v;
    v.add(std::vector<bool>(own.begin(), own.begin() + split));
    for (size_t i = split; i < n; i++) {
      v.add((bool)own[i]);
    }
    sizes[me] = v.size();
    for (auto& r : v.map([op](emp::Bit a, emp::Bit b) { return op == 0 ? a & b : op == 1 ? a | b : op == 2 ? a ^ b : a & !b; })) {
      got[me].push_back(r.reveal<bool>());
    }
  });
  for (int p = 0; p < 2; p++) {
    requireEq((size_t)sizes[p], n, "size");
    requireEq(got[p].size(), n, "results");
    for (size_t i = 0; i < n; i++) {
      bool a = x[i], b = y[i];
      requireEq((bool)got[p][i], op == 0 ? a && b : op == 1 ? a || b : op == 2 ? a != b : a && !b, "result ", i, " at party ", p);
    }
  }
  c.nontrivial = n >= 2;
}
// A value of another type than the vector's is refused, and nothing is added.
PROPERTY(wrongType, 40, 1000) {
  size_t before = s.size(0, 5);
  int kind = s.below(5);
  c.desc = cat("kind ", kind, " after ", before);
  std::atomic<int> taken{0}, grown{0};
  fbpcf::mpc::wrapTest<std::function<void()>>([&] {
    EmpVector<emp::Integer> v;
    EmpVector<emp::Bit> w;
    for (size_t i = 0; i < before; i++) {
      v.add((int64_t)i);
      w.add(true);
    }
    try {
      kind == 0       ? v.add(true)
          : kind == 1 ? v.add((int32_t)7)
          : kind == 2 ? w.add((int64_t)1)
          : kind == 3 ? v.add(std::vector<double>{1.0})
                      : w.add(std::string("x"));
      taken++;
    } catch (const fbpcf::PcfException&) {
    }
    grown += v.size() != (int64_t)before || w.size() != (int64_t)before;
  });
  requireEq(taken.load(), 0, "parties whose vector took a value of another type");
  requireEq(grown.load(), 0, "parties whose vector has grown");
  c.nontrivial = before > 0;
}

// Bytes put into a queue channel arrive unchanged and in order, both ways at
// once, however the two sides cut them into calls.
PROPERTY(queueChannel, 120, 8000) {
  auto q1 = std::make_shared<Queue>(), q2 = std::make_shared<Queue>();
  Rng r = s.rng();
  size_t n[2] = {s.size(0, 3000), s.size(0, 3000)};
  std::vector<char> data[2], got[2];
  for (int p = 0; p < 2; p++) {
    for (size_t i = 0; i < n[p]; i++) {
      data[p].push_back((char)(r.below(6) ? r.u64() : 0 - r.below(2)));
    }
  }
  c.desc = cat(n[0], " and ", n[1], " bytes");
  uint64_t seeds[4] = {r.u64(), r.u64(), r.u64(), r.u64()};
  size_t biggest = 1 + s.size(0, 400);
  auto side = [&](int p) {
    QueueIO io(p ? q2 : q1, p ? q1 : q2);
    auto sending = [&] {
      Rng x(seeds[p]);
      for (size_t at = 0; at < n[p];) {
        size_t k = std::min<size_t>(x.below(biggest + 1), n[p] - at);
        io.send_data_internal(data[p].data() + at, k);
        at += k;
        io.flush();
        if (x.below(16) == 0) {
          std::this_thread::yield();
        }
      }
    };
    auto receiving = [&] {
      Rng x(seeds[2 + p]);
      size_t all = n[!p];
      got[p].resize(all);
      for (size_t at = 0; at < all;) {
        size_t k = std::min<size_t>(x.below(biggest + 1), all - at);
        io.recv_data_internal(got[p].data() + at, k);
        at += k;
      }
    };
    auto f = std::async(std::launch::async, sending);
    receiving();
    f.get();
  };
  auto f = std::async(std::launch::async, side, 1);
  side(0);
  f.get();
  for (int p = 0; p < 2; p++) {
    require(got[p] == data[!p], "the bytes party ", 1 - p, " sent arrive otherwise");
  }
  require(q1->rlock()->empty() && q2->rlock()->empty(), "bytes are left in a queue");
  c.nontrivial = n[0] >= 2 && n[1] >= 2;
}

// Apps over the network, several side by side: each of them runs once, on its
// own input, and has delivered its output when execute returns.
struct Desk {
  std::vector<int64_t> in;
  std::atomic<int> asked{0}, told{0};
  Out out;
};
template <typename IO>
struct VecGame : fbpcf::EmpGame<IO, In, Out> {
  using fbpcf::EmpGame<IO, In, Out>::EmpGame;
  Out play(const In& in) override {
    EmpVector<emp::Integer> v;
    v.add(in.parts[0]);
    Out o{{}, v.size()};
    for (auto& x : v.map([](emp::Integer a, emp::Integer b) { return a - b; })) {
      o.v.push_back(x.template reveal<int64_t>());
    }
    return o;
  }
};
struct DeskApp : fbpcf::EmpApp<VecGame<emp::NetIO>, In, Out> {
  Desk& d;
  DeskApp(Desk& desk, Party p, const std::string& ip, uint16_t port) : EmpApp(p, ip, port), d(desk) {}
  DeskApp(Desk& desk, Party p, const std::string& ip, uint16_t port, bool tls) : EmpApp(p, ip, port, tls, ""), d(desk) {}
  In getInputData() override {
    d.asked++;
    return In{0, 0, {d.in}, {false}};
  }
  void putOutputData(const Out& o) override {
    d.out = o;
    d.told++;
  }
};
PROPERTY(apps, 150, 8000) {
  size_t pairs = 1 + s.size(0, 8);
  int conc[2] = {1 + (int)s.below(4), 1 + (int)s.below(4)};
  bool longForm = s.coin();
  std::vector<Desk> a(pairs), b(pairs);
  std::vector<std::unique_ptr<DeskApp>> as, bs;
  std::string ip = s.pick<const char*>({"127.0.0.1", "localhost", "10.1.2.3", ""});
  int port0 = 1 + s.below(65000);
  emp::Hub::get().dialled.clear();
  for (size_t i = 0; i < pairs; i++) {
    size_t n = s.size(0, 12);
    for (auto w : s.words(n)) {
      a[i].in.push_back(w);
    }
    for (auto w : s.words(n)) {
      b[i].in.push_back(w);
    }
    std::string host = s.coin() ? "" : ip;
    as.push_back(longForm ? std::make_unique<DeskApp>(a[i], Party::Alice, host, port0 + i, false) : std::make_unique<DeskApp>(a[i], Party::Alice, host, port0 + i));
    bs.push_back(longForm ? std::make_unique<DeskApp>(b[i], Party::Bob, ip, port0 + i, false) : std::make_unique<DeskApp>(b[i], Party::Bob, ip, port0 + i));
  }
  c.desc = cat(pairs, " pairs of apps, ", conc[0], " and ", conc[1], " at a time");
  auto part = [&](bool bob) {
    fbpcf::MpcAppExecutor<DeskApp> e(conc[bob]);
    e.execute(bob ? bs : as);
    for (auto& d : bob ? b : a) {
      requireEq(d.told.load(), 1, "outputs delivered when execute returned");
    }
  };
  auto f = std::async(std::launch::async, part, true);
  part(false);
  f.get();
  for (size_t i = 0; i < pairs; i++) {
    for (auto* d : {&a[i], &b[i]}) {
      requireEq(d->asked.load(), 1, "inputs asked for");
      requireEq(d->told.load(), 1, "outputs delivered");
      requireEq(d->out.v.size(), a[i].in.size(), "results");
      for (size_t k = 0; k < a[i].in.size(); k++) {
        requireEq(d->out.v[k], (int64_t)((uint64_t)a[i].in[k] - (uint64_t)b[i].in[k]), "app ", i, " result ", k);
      }
    }
  }
  auto& calls = emp::Hub::get().dialled;
  requireEq(calls.size(), pairs, "connections made by Bob's apps");
  std::set<int> ports;
  for (auto& [host, port] : calls) {
    requireEq(host, ip, "host dialled");
    ports.insert(port);
  }
  requireEq(ports.size(), pairs, "ports dialled");
  require(*ports.begin() == port0 && *ports.rbegin() == port0 + (int)pairs - 1, "ports dialled");
  c.nontrivial = pairs >= 2;
}
// The executor alone: every app once, never more at a time than asked for,
// and as many as asked for when they wait for one another.
struct Counted {
  std::atomic<int>* now;
  std::atomic<int>* most;
  std::function<void()> body;
  int runs = 0;
  void run() {
    int n = ++*now;
    for (int m = *most; m < n && !most->compare_exchange_weak(m, n);) {
    }
    runs++;
    struct Leave {
      std::atomic<int>* n;
      ~Leave() {
        --*n;
      }
    } leave{now};
    body();
  }
};
PROPERTY(executor, 150, 8000) {
  int conc = 1 + s.below(6);
  size_t n = s.size(0, 40);
  std::atomic<int> now{0}, most{0};
  std::mutex m;
  std::condition_variable cv;
  int here = 0, failing = 0;
  bool meet = n >= (size_t)conc && s.coin();
  std::vector<std::unique_ptr<Counted>> apps;
  for (size_t i = 0; i < n; i++) {
    auto app = std::make_unique<Counted>();
    app->now = &now;
    app->most = &most;
    int us = s.below(3) ? 0 : s.below(300);
    bool fails = !meet && s.chance(1, 10);
    failing += fails;
    if (meet && i < (size_t)conc) { // the first `conc` apps finish together
      app->body = [&, conc] {
        std::unique_lock<std::mutex> l(m);
        here++;
        cv.notify_all();
        if (!cv.wait_for(l, std::chrono::seconds(60), [&] { return here >= conc; })) {
          here = -1000000;
        }
      };
    } else {
      app->body = [us, fails] {
        if (us) {
          std::this_thread::sleep_for(std::chrono::microseconds(us));
        }
        if (fails) {
          throw std::runtime_error("an app fails");
        }
      };
    }
    apps.push_back(std::move(app));
  }
  c.desc = cat(n, " apps, ", conc, " at a time, ", failing, " fail", meet ? ", meeting" : "");
  {
    fbpcf::MpcAppExecutor<Counted> e(conc);
    e.execute(apps);
    requireEq(now.load(), 0, "apps still running when execute returned");
    for (size_t i = 0; i < n; i++) {
      requireEq(apps[i]->runs, 1, "runs of app ", i);
    }
  }
  require(here >= 0, "apps that wait for one another do not run side by side");
  require(most <= conc, most.load(), " apps ran at a time, ", conc, " were asked for");
  c.nontrivial = n >= 2 && conc >= 2;
}
// The example app itself: what it asks for is what the game compares.
struct WatchedMillionaire : fbpcf::MillionaireApp {
  using MillionaireApp::MillionaireApp;
  int in = -1, asked = 0, told = 0;
  bool out = false;
  int getInputData() override {
    asked++;
    return in = MillionaireApp::getInputData();
  }
  void putOutputData(const bool& o) override {
    MillionaireApp::putOutputData(o);
    out = o;
    told++;
  }
};
PROPERTY(millionaireApps, 60, 4000) {
  size_t pairs = 1 + s.size(0, 4);
  int port = 1 + s.below(60000);
  c.desc = cat(pairs, " pairs from port ", port);
  std::vector<std::unique_ptr<WatchedMillionaire>> a, b;
  for (size_t i = 0; i < pairs; i++) {
    a.push_back(std::make_unique<WatchedMillionaire>(Party::Alice, "", port + i));
    b.push_back(std::make_unique<WatchedMillionaire>(Party::Bob, "127.0.0.1", port + i));
  }
  auto f = std::async(std::launch::async, [&] { fbpcf::MpcAppExecutor<WatchedMillionaire>(2).execute(b); });
  fbpcf::MpcAppExecutor<WatchedMillionaire>(2).execute(a);
  f.get();
  for (size_t i = 0; i < pairs; i++) {
    requireEq(a[i]->asked + b[i]->asked, 2, "inputs asked for");
    requireEq(a[i]->told + b[i]->told, 2, "outputs delivered");
    require(a[i]->in >= 0 && a[i]->in < 1000000000 && b[i]->in >= 0 && b[i]->in < 1000000000, "inputs in range");
    requireEq(a[i]->out, a[i]->in > b[i]->in, "Alice's result");
    requireEq(b[i]->out, a[i]->in > b[i]->in, "Bob's result");
  }
  c.nontrivial = pairs >= 2;
}
