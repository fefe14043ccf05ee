// Runner: generates, replays and shrinks cases.  See run.py for the protocol.
#include "pbt.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <unordered_set>

namespace pbt {
std::vector<Family>& families() {
  static std::vector<Family> f;
  return f;
}
} // namespace pbt
using namespace pbt;

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += (char)ch;
    } else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else {
      r += (char)ch;
    }
  }
  return r;
}
static const Family* find(const std::string& n) {
  for (auto& f : families()) {
    if (f.name == n) {
      return &f;
    }
  }
  return nullptr;
}
// returns "" when the case held, else what failed
static std::string runCase(const Family& f, Src& s, Ctx& c) {
  uint64_t rseed = s.u64(); // randomness of the code under test
  seedGlobalRandom(rseed);
  seedThreadRandom(mix64(rseed));
  c.caseSeed = rseed;
  try {
    f.fn(s, c);
  } catch (const std::exception& e) {
    std::string w = e.what();
    return w.empty() ? "exception" : w;
  } catch (...) {
    return "unknown exception";
  }
  return "";
}
static bool loadTape(
    const std::string& path,
    std::string& fam,
    std::vector<uint64_t>& tape) {
  std::ifstream in(path);
  std::string line;
  bool got = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') {
      continue;
    }
    if (!got) {
      if (line.rfind("family ", 0) != 0) {
        return false;
      }
      fam = line.substr(7);
      got = true;
      continue;
    }
    std::istringstream o(line);
    uint64_t v;
    while (o >> v) {
      tape.push_back(v);
    }
  }
  return got;
}
static void saveTape(
    const std::string& path,
    const std::string& fam,
    const std::vector<uint64_t>& tape,
    const std::string& note) {
  std::ofstream o(path);
  std::istringstream in(note);
  std::string line;
  while (std::getline(in, line)) {
    o << "# " << line << "\n";
  }
  o << "family " << fam << "\n";
  for (size_t i = 0; i < tape.size(); i++) {
    o << tape[i] << (i % 16 == 15 ? '\n' : ' ');
  }
  o << "\n";
}

// run one tape in a child; 0 = held, 1 = failed
static int childRun(
    const Family& f,
    const std::vector<uint64_t>& tape,
    unsigned timeoutS,
    std::vector<uint64_t>* used,
    std::string* msg) {
  size_t cap = 1 << 17;
  auto* shm = (uint64_t*)mmap(
      nullptr,
      (cap + 2) * 8 + 65536,
      PROT_READ | PROT_WRITE,
      MAP_SHARED | MAP_ANONYMOUS,
      -1,
      0);
  char* text = (char*)(shm + cap + 2);
  pid_t p = fork();
  if (p == 0) {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 2);
    dup2(dn, 1);
    setpgid(0, 0);
    alarm(timeoutS);
    Src::live = shm;
    Src::liveCap = cap;
    Src s(tape);
    Ctx c;
    std::string r = runCase(f, s, c);
    strncpy(text, (r + "\n" + c.desc).c_str(), 65000);
    _exit(r.empty() ? 0 : 1);
  }
  int st = 0;
  waitpid(p, &st, 0);
  kill(-p, SIGKILL);
  int rc = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
  if (used) {
    used->assign(shm + 2, shm + 2 + std::min<uint64_t>(shm[1], cap - 2));
  }
  if (msg) {
    *msg = text;
  }
  munmap(shm, (cap + 2) * 8 + 65536);
  return rc;
}

static int shrinkMain(
    const std::string& in,
    const std::string& out,
    double secs,
    unsigned perCase) {
  std::string fam;
  std::vector<uint64_t> best;
  if (!loadTape(in, fam, best)) {
    return 3;
  }
  const Family* f = find(fam);
  if (!f) {
    return 3;
  }
  double end = now() + secs;
  std::vector<uint64_t> used;
  std::string msg;
  size_t tried = 0, kept = 0;
  if (!childRun(*f, best, perCase, &used, &msg)) {
    return 4;
  }
  if (!used.empty() && used.size() < best.size()) {
    best.resize(used.size());
  }
  auto attempt = [&](std::vector<uint64_t> cand) {
    if (cand == best || now() > end) {
      return false;
    }
    tried++;
    std::vector<uint64_t> u;
    std::string m;
    if (!childRun(*f, cand, perCase, &u, &m)) {
      return false;
    }
    if (!u.empty()) {
      // keep what the case really drew, without trailing zeros
      if (u.size() < cand.size()) {
        cand.resize(u.size());
      }
    }
    while (!cand.empty() && cand.back() == 0) {
      cand.pop_back();
    }
    if (cand.size() > best.size() || (cand.size() == best.size() && cand >= best)) {
      return false;
    }
    best = cand;
    msg = m;
    kept++;
    return true;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t len : {256, 64, 32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = 0; i + len <= best.size() && now() < end;) {
        auto cnd = best;
        cnd.erase(cnd.begin() + i, cnd.begin() + i + len);
        if (attempt(cnd)) {
          progress = true;
        } else {
          i += len > 8 ? len / 2 : 1;
        }
      }
    }
    for (size_t len : {16, 4, 1}) {
      for (size_t i = 0; i + len <= best.size() && now() < end; i += len) {
        auto cnd = best;
        bool any = false;
        for (size_t k = 0; k < len; k++) {
          any |= cnd[i + k] != 0;
          cnd[i + k] = 0;
        }
        if (any && attempt(cnd)) {
          progress = true;
        }
      }
    }
    for (size_t i = 0; i < best.size() && now() < end; i++) {
      while (i < best.size() && best[i] > 1 && now() < end) {
        auto cnd = best;
        cnd[i] /= 2;
        if (attempt(cnd)) {
          progress = true;
          continue;
        }
        if (i >= best.size()) {
          break;
        }
        cnd = best;
        cnd[i] -= 1;
        if (attempt(cnd)) {
          progress = true;
          continue;
        }
        break;
      }
    }
  }
  std::ostringstream note;
  note << "shrink attempts " << tried << " accepted " << kept << "\n" << msg;
  saveTape(out, fam, best, note.str());
  return 0;
}

int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) {
    a[argv[i]] = argv[i + 1];
  }
  if (argc == 2 && std::string(argv[1]) == "--list") {
    for (auto& f : families()) {
      std::cout << f.name << " " << f.quick << " " << f.thorough << "\n";
    }
    return 0;
  }
  if (a.count("--shrink")) {
    return shrinkMain(
        a["--shrink"],
        a["--out"],
        atof(a["--secs"].c_str()),
        a.count("--per-case") ? atoi(a["--per-case"].c_str()) : 60);
  }
  if (a.count("--replay")) {
    std::string fam;
    std::vector<uint64_t> tape;
    if (!loadTape(a["--replay"], fam, tape) || !find(fam)) {
      std::cerr << "cannot read replay file\n";
      return 3;
    }
    Src s(tape);
    static Ctx c;
    std::set_terminate([] {
      static bool once = false;
      if (!once) {
        once = true;
        std::cout << "case: " << c.desc << std::endl;
      }
      try {
        if (auto e = std::current_exception()) {
          std::rethrow_exception(e);
        }
      } catch (const std::exception& e) {
        std::cerr << "terminate called, exception: " << e.what() << std::endl;
      } catch (...) {
      }
      abort();
    });
    std::string r = runCase(*find(fam), s, c);
    std::cout << "case: " << c.desc << "\n";
    std::cout << (r.empty() ? std::string("HELD") : "FAILED: " + r) << std::endl;
    fflush(stdout);
    _exit(r.empty() ? 0 : 1);
  }
  // worker
  uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10);
  bool thorough = a["--tier"] == "thorough";
  double endAt = now() + atof(a["--cap"].c_str());
  std::string only = a.count("--family") ? a["--family"] : "";
  double scale = a.count("--scale") ? atof(a["--scale"].c_str()) : 1;
  // live file: [0] family index, [1] tape length, [2..] tape ; 64 KiB words
  size_t cap = 1 << 17;
  int fd = open(a["--live"].c_str(), O_RDWR | O_CREAT, 0600);
  if (fd < 0 || ftruncate(fd, (cap + 2) * 8) != 0) {
    return 3;
  }
  auto* live =
      (uint64_t*)mmap(nullptr, (cap + 2) * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  int cfd = open(a["--counter"].c_str(), O_RDWR);
  auto* counter =
      (std::atomic<uint64_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, cfd, 0);
  if (live == MAP_FAILED || counter == MAP_FAILED) {
    return 3;
  }
  // global case list: families interleaved proportionally to their counts
  auto& F = families();
  std::vector<size_t> cnt(F.size());
  size_t total = 0;
  for (size_t i = 0; i < F.size(); i++) {
    cnt[i] = (thorough ? F[i].thorough : F[i].quick) * scale;
    if (!only.empty() && F[i].name != only) {
      cnt[i] = 0;
    } else if (cnt[i] == 0 && (thorough ? F[i].thorough : F[i].quick)) {
      cnt[i] = 1;
    }
    total += cnt[i];
  }
  std::vector<std::pair<double, std::pair<uint32_t, uint32_t>>> order;
  order.reserve(total);
  for (size_t i = 0; i < F.size(); i++) {
    for (size_t k = 0; k < cnt[i]; k++) {
      order.push_back({cnt[i] == 1 ? 0 : (k + 0.5) / cnt[i], {(uint32_t)i, (uint32_t)k}});
    }
  }
  std::stable_sort(order.begin(), order.end(), [](auto& x, auto& y) {
    return x.first < y.first;
  });
  struct FS {
    uint64_t evals = 0, nontriv = 0;
    double secs = 0, maxSecs = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
  };
  std::vector<FS> st(F.size());
  std::vector<uint64_t> hashes;
  bool failed = false, complete = true;
  std::string failMsg, failDesc;
  while (true) {
    uint64_t idx = counter[0].fetch_add(1);
    if (idx >= order.size()) {
      break;
    }
    if (now() > endAt) {
      complete = false;
      break;
    }
    uint32_t fi = order[idx].second.first, k = order[idx].second.second;
    uint64_t h = mix64(seed);
    for (char ch : F[fi].name) {
      h = mix64(h ^ (unsigned char)ch);
    }
    Src s(mix64(h ^ k));
    live[1] = 0;
    live[0] = fi + 1;
    live[cap + 1]++;
    Src::live = live;
    Src::liveCap = cap;
    Ctx c;
    double t0 = now();
    std::string r = runCase(F[fi], s, c);
    double dt = now() - t0;
    FS& x = st[fi];
    x.evals++;
    x.secs += dt;
    x.maxSecs = std::max(x.maxSecs, dt);
    if (!r.empty()) {
      failed = true;
      failMsg = r;
      failDesc = c.desc;
      saveTape(
          a["--fail"], F[fi].name, s.tape(), "failure: " + r + "\ncase: " + c.desc);
      break;
    }
    if (c.nontrivial) {
      x.nontriv++;
      hashes.push_back(mix64(s.hash() ^ fi));
      if (x.samples.size() < 2 && !c.desc.empty()) {
        x.samples.push_back(c.desc.substr(0, 600));
      }
    }
    for (auto& l : c.labels) {
      x.labels[l]++;
    }
  }
  live[0] = 0;
  std::ofstream o(a["--out"]);
  o << "{\"failed\":" << (failed ? "true" : "false")
    << ",\"complete\":" << (complete ? "true" : "false") << ",\"message\":\""
    << esc(failMsg) << "\",\"families\":{";
  for (size_t i = 0; i < F.size(); i++) {
    o << (i ? "," : "") << "\"" << F[i].name << "\":{\"planned\":" << cnt[i]
      << ",\"evals\":" << st[i].evals << ",\"nontrivial\":" << st[i].nontriv
      << ",\"secs\":" << st[i].secs << ",\"max_secs\":" << st[i].maxSecs
      << ",\"labels\":{";
    bool first = true;
    for (auto& [l, n] : st[i].labels) {
      o << (first ? "" : ",") << "\"" << esc(l) << "\":" << n;
      first = false;
    }
    o << "},\"samples\":[";
    first = true;
    for (auto& x : st[i].samples) {
      o << (first ? "" : ",") << "\"" << esc(x) << "\"";
      first = false;
    }
    o << "]}";
  }
  o << "}}";
  o.close();
  std::ofstream hb(a["--out"] + ".hashes", std::ios::binary);
  hb.write((const char*)hashes.data(), hashes.size() * 8);
  hb.close();
  // no static destruction: leftover threads of the code under test may run
  fflush(nullptr);
  _exit(failed ? 1 : 0);
}
