// Random gate programs, their direct evaluation, and their execution on a
// scheduler.  Used by C01, C02, C03 and C38.
#pragma once
#include "schedkit.h"

namespace pbt {
using BId = fs::IScheduler::WireId<fs::IScheduler::Boolean>;
using IId = fs::IScheduler::WireId<fs::IScheduler::Arithmetic>;

enum class Op {
  In, Pub, Recover, Bin, Un, Composite, BatchUp, Unbatch,
  Open, Get, Extract, Size, Inc, Dec,
};
struct Step {
  Op op;
  bool isInt = false, batch = false;
  char kind = 0; // Bin: & ^ + *
  int vis = 0; // 0 private/private, 1 private/public, 2 public/public
  int a = -1, b = -1; // wires
  std::vector<int> many; // composite rights, batching sources, results
  std::vector<int> out;
  std::vector<uint64_t> v; // input values / expected values
  std::vector<std::vector<uint64_t>> shares; // per party (Recover; junk for In)
  int party = 0;
  std::vector<uint32_t> strategy;
};
struct Wire {
  bool isInt, batch;
  int cls; // 0 private, 1 public, 2 opened to `party`
  std::vector<uint64_t> v;
  int refs = 1;
  int party = -1;
  bool derived = false;
  int depth = 0;
};
struct Program {
  int parties = 2;
  std::vector<Step> steps;
  std::vector<Wire> w;
  uint64_t free = 0, nonFree = 0, wires = 0;
  int nonFreeOps = 0, chained = 0, opened = 0, reads = 0, maxDepth = 0;
  bool hasBatch = false, hasInt = false, hasComposite = false,
       hasRebatch = false, hasEmpty = false, dropsBeforeUse = false;
  std::string text() const;
};
struct GenOpt {
  size_t maxSteps = 30;
  size_t maxBatch = 12;
  bool bigBatches = true;
  bool wide = false; // batches of thousands
  bool ints = true, bools = true;
  bool drops = true; // add and drop references
  bool emptyBatches = true;
};

class ProgGenImpl;
// generates a program step by step, keeping its direct evaluation alongside
class ProgGen {
 public:
  ProgGen(Src& s, int parties, GenOpt o);
  ~ProgGen();
  void run();
  void readAll(); // reads every wire that is still referenced
  void dropAll();
  void read(int i);
  int open(int i, int party);
  void refs(int i, bool inc);

 private:
  std::unique_ptr<ProgGenImpl> impl_;

 public:
  Program& p;
};

// what one party saw
struct Seen {
  std::vector<std::vector<uint64_t>> shares; // per Extract step
};
inline std::vector<bool> asBits(const std::vector<uint64_t>& v) {
  return std::vector<bool>(v.begin(), v.end());
}
struct Exec {
  const Program& p;
  int me;
  fs::IArithmeticScheduler& d;
  std::vector<BId> B;
  std::vector<IId> I;
  Seen seen;
  Exec(const Program& p, int me, fs::IArithmeticScheduler& d)
      : p(p), me(me), d(d), B(p.w.size()), I(p.w.size()) {}
  void run(size_t from, size_t to) {
    for (size_t k = from; k < to; k++) {
      step(k);
    }
  }
  void step(size_t k);
};
// executes the program on one party's scheduler; checks everything that this
// party alone can check
Seen execute(const Program& p, int me, fs::IArithmeticScheduler& d);
// combines the shares the parties extracted and compares with the plain values
void checkShares(const Program& p, const std::vector<Seen>& seen);
void describe(Ctx& c, const Program& p, const SchedCfg& g);
// runs `levels` dependent ANDs, so that a lazy scheduler has nothing queued
void drain(fs::IArithmeticScheduler& d, int levels);
// queues n free gates on wires that are dropped again: n + 1 free gates, and as
// many wires
void fill(fs::IArithmeticScheduler& d, size_t n);
// how many to add so that a lazy scheduler (which holds 100000 gates) is made
// to execute in the middle of a small program
size_t genFill(Src& s);
} // namespace pbt
