#include "program.h"

namespace pbt {
std::string Program::text() const {
  std::ostringstream o;
  o << parties << "p:";
  for (auto& s : steps) {
    static const char* n[] = {
        "in", "pub", "recover", "", "", "comp", "batchup", "unbatch",
        "open", "get", "extract", "size", "inc", "dec"};
    o << ' ';
    for (size_t i = 0; i < s.out.size(); i++) {
      o << (i ? "," : "") << 'w' << s.out[i];
    }
    if (!s.out.empty()) {
      o << '=';
    }
    if (s.op == Op::Bin) {
      o << 'w' << s.a << s.kind << 'w' << s.b;
    } else if (s.op == Op::Un) {
      o << (s.isInt ? '-' : '!') << 'w' << s.a;
    } else {
      o << n[(int)s.op];
      if (s.op == Op::In || s.op == Op::Pub || s.op == Op::Recover) {
        o << (s.isInt ? 'I' : 'B') << s.v.size() << (s.batch ? "b" : "");
        if (s.op == Op::In) {
          o << "@" << s.party;
        }
      }
      if (s.a >= 0) {
        o << " w" << s.a;
      }
      for (int m : s.many) {
        o << ",w" << m;
      }
      for (auto t : s.strategy) {
        o << "/" << t;
      }
      if (s.op == Op::Open) {
        o << "->" << s.party;
      }
    }
    static const char* vis[] = {"", "p", "pp"};
    o << vis[s.vis] << ';';
    if (o.tellp() > 900) {
      o << "... (" << steps.size() << " steps)";
      break;
    }
  }
  return o.str();
}

class ProgGenImpl {
 public:
  ProgGenImpl(Src& s, int parties, GenOpt o) : s_(s), o_(o) {
    p.parties = parties;
  }
  Program p;
  void run() {
    size_t n = 4 + s_.size(0, o_.maxSteps);
    big_ = o_.bigBatches && s_.chance(1, 6);
    for (size_t i = 0; i < n; i++) {
      step();
    }
  }
  // reads every wire that is still referenced
  void readAll() {
    for (size_t i = 0, n = p.w.size(); i < n; i++) {
      if (p.w[i].refs > 0) {
        read(i);
      }
    }
  }
  void dropAll() {
    auto order = s_.permutation(p.w.size());
    for (size_t i : order) {
      while (p.w[i].refs > 0) {
        refs(i, false);
      }
    }
  }
  void read(int i) {
    Wire& w = p.w[i];
    p.reads++;
    if (w.cls == 0) {
      if (s_.coin()) {
        Step t;
        t.op = Op::Extract;
        t.isInt = w.isInt;
        t.batch = w.batch;
        t.a = i;
        t.v = w.v;
        p.steps.push_back(t);
        return;
      }
      int o = open(i, s_.below(p.parties));
      get(o);
    } else {
      get(i);
    }
  }
  void get(int i) {
    Step t;
    t.op = Op::Get;
    t.isInt = p.w[i].isInt;
    t.batch = p.w[i].batch;
    t.a = i;
    t.v = p.w[i].v;
    t.party = p.w[i].cls == 2 ? p.w[i].party : -1;
    p.steps.push_back(t);
  }
  void refs(int i, bool inc) {
    Step t;
    t.op = inc ? Op::Inc : Op::Dec;
    t.isInt = p.w[i].isInt;
    t.batch = p.w[i].batch;
    t.a = i;
    p.w[i].refs += inc ? 1 : -1;
    p.steps.push_back(t);
  }
  int open(int i, int party) {
    Step t;
    t.op = Op::Open;
    t.isInt = p.w[i].isInt;
    t.batch = p.w[i].batch;
    t.a = i;
    t.party = party;
    p.nonFree += p.w[i].v.size();
    p.nonFreeOps++;
    p.opened++;
    int o = add(p.w[i].isInt, p.w[i].batch, 2, p.w[i].v, p.w[i].depth + 1);
    p.w[o].party = party;
    t.out = {o};
    p.steps.push_back(t);
    return o;
  }

 private:
  Src& s_;
  GenOpt o_;
  bool big_ = false;

  int add(bool isInt, bool batch, int cls, std::vector<uint64_t> v, int depth) {
    Wire w{isInt, batch, cls, std::move(v)};
    w.depth = depth;
    w.derived = depth > 0;
    p.maxDepth = std::max(p.maxDepth, depth);
    p.hasInt |= isInt;
    p.hasBatch |= batch;
    p.hasEmpty |= batch && w.v.empty();
    p.w.push_back(w);
    p.wires++;
    return p.w.size() - 1;
  }
  std::vector<int> cand(const std::function<bool(const Wire&)>& f) {
    std::vector<int> r;
    for (size_t i = 0; i < p.w.size(); i++) {
      if (p.w[i].refs > 0 && f(p.w[i])) {
        r.push_back(i);
      }
    }
    return r;
  }
  // prefers recent wires, so that programs get deep
  int choose(const std::vector<int>& c) {
    if (s_.coin()) {
      return c[c.size() - 1 - s_.below(std::min<size_t>(c.size(), 3))];
    }
    return c[s_.below(c.size())];
  }
  std::vector<uint64_t> vals(bool isInt, size_t n) {
    std::vector<uint64_t> r;
    if (isInt) {
      return s_.words(n);
    }
    auto b = s_.bits(n);
    r.assign(b.begin(), b.end());
    return r;
  }
  void input() {
    Step t;
    t.isInt = o_.ints && (!o_.bools || s_.chance(2, 5));
    t.batch = s_.chance(3, 5);
    size_t n = 1;
    if (t.batch) {
      // few distinct sizes, so that operands can be combined
      n = o_.wide ? s_.pick<size_t>({4100, 9000, 66000})
          : big_ ? s_.pick<size_t>({130, 200, 333, 64})
               : 1 + (s_.chance(3, 4) ? s_.below(3) : s_.below(o_.maxBatch));
    }
    int k = s_.below(5);
    t.op = k < 3 ? Op::In : k == 3 ? Op::Pub : Op::Recover;
    if (t.op != Op::In && t.batch && o_.emptyBatches && s_.chance(1, 8)) {
      n = 0;
    }
    t.v = vals(t.isInt, n);
    t.party = s_.below(p.parties);
    if (t.op != Op::Pub) {
      // party i's argument: junk for other people's inputs, shares to recover
      Rng r = s_.rng();
      std::vector<uint64_t> acc(n, 0);
      t.shares.resize(p.parties);
      for (int q = 0; q < p.parties; q++) {
        for (size_t i = 0; i < n; i++) {
          uint64_t x = t.isInt ? r.u64() : r.u64() & 1;
          if (t.op == Op::In) {
            x = q == t.party ? t.v[i] : x;
          } else if (q == p.parties - 1) {
            x = t.isInt ? t.v[i] - acc[i] : t.v[i] ^ acc[i];
          }
          acc[i] = t.isInt ? acc[i] + x : acc[i] ^ x;
          t.shares[q].push_back(x);
        }
      }
    }
    p.free += n;
    t.out = {add(t.isInt, t.batch, t.op == Op::Pub ? 1 : 0, t.v, 0)};
    p.steps.push_back(t);
  }
  void binary() {
    auto c = cand([&](const Wire& w) { return w.cls < 2; });
    if (c.empty()) {
      return input();
    }
    int a = choose(c);
    auto& A = p.w[a];
    auto d = cand([&](const Wire& w) {
      return w.cls < 2 && w.isInt == A.isInt && w.batch == A.batch &&
          w.v.size() == A.v.size();
    });
    int b = choose(d);
    if (p.w[a].cls == 1 && p.w[b].cls == 0) {
      std::swap(a, b); // the public operand is the right one
    }
    Step t;
    t.op = Op::Bin;
    t.isInt = p.w[a].isInt;
    t.batch = p.w[a].batch;
    t.kind = t.isInt ? (s_.coin() ? '*' : '+') : (s_.coin() ? '&' : '^');
    t.vis = p.w[a].cls + p.w[b].cls;
    t.a = a;
    t.b = b;
    std::vector<uint64_t> v;
    for (size_t i = 0; i < p.w[a].v.size(); i++) {
      uint64_t x = p.w[a].v[i], y = p.w[b].v[i];
      v.push_back(
          t.kind == '*'       ? x * y
              : t.kind == '+' ? x + y
              : t.kind == '&' ? (x & y)
                              : (x ^ y));
    }
    bool nf = t.vis == 0 && (t.kind == '&' || t.kind == '*');
    (nf ? p.nonFree : p.free) += v.size();
    p.nonFreeOps += nf;
    p.chained += nf && (p.w[a].derived || p.w[b].derived);
    t.out = {add(
        t.isInt,
        t.batch,
        t.vis == 2 ? 1 : 0,
        v,
        std::max(p.w[a].depth, p.w[b].depth) + 1)};
    p.steps.push_back(t);
  }
  void unary() {
    auto c = cand([&](const Wire& w) { return w.cls < 2; });
    if (c.empty()) {
      return input();
    }
    Step t;
    t.op = Op::Un;
    t.a = choose(c);
    auto& A = p.w[t.a];
    t.isInt = A.isInt;
    t.batch = A.batch;
    t.vis = A.cls ? 2 : 0;
    std::vector<uint64_t> v;
    for (auto x : A.v) {
      v.push_back(t.isInt ? 0 - x : x ^ 1);
    }
    p.free += v.size();
    int cls = A.cls, dep = A.depth + 1;
    t.out = {add(t.isInt, t.batch, cls, v, dep)};
    p.steps.push_back(t);
  }
  void composite() {
    auto c = cand([&](const Wire& w) { return w.cls < 2 && !w.isInt; });
    if (c.empty()) {
      return input();
    }
    Step t;
    t.op = Op::Composite;
    t.a = choose(c);
    auto A = p.w[t.a];
    t.batch = A.batch;
    int rc = s_.below(2); // class of the right operands
    auto d = cand([&](const Wire& w) {
      return w.cls == rc && !w.isInt && w.batch == A.batch &&
          w.v.size() == A.v.size();
    });
    if (d.empty()) {
      rc = A.cls;
      d = {t.a};
    }
    t.vis = A.cls + rc;
    size_t n = big_ && !o_.wide && s_.coin() ? 130 : 1 + s_.below(o_.wide ? 2 : 5);
    for (size_t i = 0; i < n; i++) {
      t.many.push_back(choose(d));
    }
    int dep = 0;
    for (int m : t.many) {
      dep = std::max(dep, std::max(A.depth, p.w[m].depth) + 1);
    }
    for (int m : std::vector<int>(t.many)) {
      std::vector<uint64_t> v;
      for (size_t i = 0; i < A.v.size(); i++) {
        v.push_back(A.v[i] & p.w[m].v[i]);
      }
      t.out.push_back(add(false, t.batch, t.vis == 2 ? 1 : 0, v, dep));
    }
    (t.vis == 0 ? p.nonFree : p.free) += n * A.v.size();
    p.nonFreeOps += t.vis == 0;
    p.chained += t.vis == 0 && A.derived;
    p.hasComposite = true;
    p.steps.push_back(t);
  }
  void batchUp() {
    int cls = s_.below(2);
    auto c = cand([&](const Wire& w) {
      return w.cls == cls && !w.isInt && w.batch && w.v.size() < 2000;
    });
    if (c.empty()) {
      return input();
    }
    Step t;
    t.op = Op::BatchUp;
    size_t n = 1 + s_.below(4);
    std::vector<uint64_t> v;
    int dep = 0;
    for (size_t i = 0; i < n; i++) {
      int m = choose(c);
      t.many.push_back(m);
      v.insert(v.end(), p.w[m].v.begin(), p.w[m].v.end());
      dep = std::max(dep, p.w[m].depth + 1);
    }
    t.batch = true;
    t.out = {add(false, true, cls, v, dep)};
    p.hasRebatch = true;
    p.steps.push_back(t);
  }
  void unbatch() {
    auto c = cand([&](const Wire& w) {
      return w.cls < 2 && !w.isInt && w.batch && w.v.size() > 1;
    });
    if (c.empty()) {
      return input();
    }
    Step t;
    t.op = Op::Unbatch;
    t.batch = true;
    t.a = choose(c);
    auto A = p.w[t.a];
    size_t left = A.v.size(), at = 0;
    while (left > 0) {
      size_t k = s_.chance(1, 3) ? left : 1 + s_.below(left);
      if (t.strategy.size() == 5) {
        k = left;
      }
      t.strategy.push_back(k);
      t.out.push_back(add(
          false,
          true,
          A.cls,
          std::vector<uint64_t>(A.v.begin() + at, A.v.begin() + at + k),
          A.depth + 1));
      at += k;
      left -= k;
    }
    p.hasRebatch = true;
    p.steps.push_back(t);
  }
  void step() {
    if (p.w.size() < 2) {
      return input();
    }
    switch (s_.below(16)) {
      case 0:
      case 1:
      case 2:
        return input();
      case 3:
      case 4:
      case 5:
      case 6:
      case 7:
        return binary();
      case 8:
        return unary();
      case 9:
        return composite();
      case 10:
        return batchUp();
      case 11:
        return unbatch();
      case 12: {
        auto c = cand([](const Wire& w) { return w.cls == 0; });
        if (!c.empty()) {
          open(choose(c), s_.below(p.parties));
        }
        return;
      }
      case 13: {
        auto c = cand([](const Wire& w) { return true; });
        if (!c.empty()) {
          int i = choose(c);
          if (s_.coin()) {
            read(i);
          } else if (p.w[i].batch) {
            Step t;
            t.op = Op::Size;
            t.isInt = p.w[i].isInt;
            t.a = i;
            t.v = {p.w[i].v.size()};
            p.steps.push_back(t);
          }
        }
        return;
      }
      default: {
        auto c = cand([](const Wire& w) { return true; });
        if (o_.drops && !c.empty()) {
          refs(choose(c), s_.chance(1, 3));
        } else {
          binary();
        }
      }
    }
  }
};

ProgGen::ProgGen(Src& s, int parties, GenOpt o)
    : impl_(std::make_unique<ProgGenImpl>(s, parties, o)), p(impl_->p) {}
ProgGen::~ProgGen() = default;
void ProgGen::run() {
  impl_->run();
}
void ProgGen::readAll() {
  impl_->readAll();
}
void ProgGen::dropAll() {
  impl_->dropAll();
}
void ProgGen::read(int i) {
  impl_->read(i);
}
int ProgGen::open(int i, int party) {
  return impl_->open(i, party);
}
void ProgGen::refs(int i, bool inc) {
  impl_->refs(i, inc);
}
void Exec::step(size_t k) {
    const Step& t = p.steps[k];
    switch (t.op) {
      case Op::In: {
        auto& v = t.shares[me];
        if (t.isInt) {
          I[t.out[0]] = t.batch ? d.privateIntegerInputBatch(v, t.party)
                                : d.privateIntegerInput(v[0], t.party);
        } else {
          B[t.out[0]] = t.batch ? d.privateBooleanInputBatch(asBits(v), t.party)
                                : d.privateBooleanInput(v[0], t.party);
        }
        break;
      }
      case Op::Pub:
        if (t.isInt) {
          I[t.out[0]] = t.batch ? d.publicIntegerInputBatch(t.v)
                                : d.publicIntegerInput(t.v[0]);
        } else {
          B[t.out[0]] = t.batch ? d.publicBooleanInputBatch(asBits(t.v))
                                : d.publicBooleanInput(t.v[0]);
        }
        break;
      case Op::Recover: {
        auto& v = t.shares[me];
        if (t.isInt) {
          I[t.out[0]] = t.batch ? d.recoverIntegerWireBatch(v)
                                : d.recoverIntegerWire(v[0]);
        } else {
          B[t.out[0]] = t.batch ? d.recoverBooleanWireBatch(asBits(v))
                                : d.recoverBooleanWire(v[0]);
        }
        break;
      }
      case Op::Bin: {
        int o = t.out[0], a = t.a, b = t.b;
#define VIS(PP, PQ, QQ, L, R)                                        \
  (t.vis == 0       ? (t.batch ? d.PP##Batch(L, R) : d.PP(L, R))     \
       : t.vis == 1 ? (t.batch ? d.PQ##Batch(L, R) : d.PQ(L, R))     \
                    : (t.batch ? d.QQ##Batch(L, R) : d.QQ(L, R)))
        if (t.kind == '&') {
          B[o] = VIS(
              privateAndPrivate, privateAndPublic, publicAndPublic, B[a], B[b]);
        } else if (t.kind == '^') {
          B[o] = VIS(
              privateXorPrivate, privateXorPublic, publicXorPublic, B[a], B[b]);
        } else if (t.kind == '+') {
          I[o] = VIS(
              privatePlusPrivate, privatePlusPublic, publicPlusPublic, I[a], I[b]);
        } else {
          I[o] = VIS(
              privateMultPrivate, privateMultPublic, publicMultPublic, I[a], I[b]);
        }
        break;
      }
      case Op::Un:
        if (t.isInt) {
          I[t.out[0]] = t.vis
              ? (t.batch ? d.negPublicBatch(I[t.a]) : d.negPublic(I[t.a]))
              : (t.batch ? d.negPrivateBatch(I[t.a]) : d.negPrivate(I[t.a]));
        } else {
          B[t.out[0]] = t.vis
              ? (t.batch ? d.notPublicBatch(B[t.a]) : d.notPublic(B[t.a]))
              : (t.batch ? d.notPrivateBatch(B[t.a]) : d.notPrivate(B[t.a]));
        }
        break;
      case Op::Composite: {
        std::vector<BId> r;
        for (int m : t.many) {
          r.push_back(B[m]);
        }
        auto l = B[t.a];
        auto o = VIS(
            privateAndPrivateComposite,
            privateAndPublicComposite,
            publicAndPublicComposite,
            l,
            r);
        requireEq(o.size(), t.out.size(), "composite AND result count");
        for (size_t i = 0; i < o.size(); i++) {
          B[t.out[i]] = o[i];
        }
        break;
      }
      case Op::BatchUp: {
        std::vector<BId> r;
        for (int m : t.many) {
          r.push_back(B[m]);
        }
        B[t.out[0]] = d.batchingUp(r);
        break;
      }
      case Op::Unbatch: {
        auto o = d.unbatching(
            B[t.a], std::make_shared<std::vector<uint32_t>>(t.strategy));
        requireEq(o.size(), t.out.size(), "unbatching result count");
        for (size_t i = 0; i < o.size(); i++) {
          B[t.out[i]] = o[i];
        }
        break;
      }
      case Op::Open:
        if (t.isInt) {
          I[t.out[0]] = t.batch
              ? d.openIntegerValueToPartyBatch(I[t.a], t.party)
              : d.openIntegerValueToParty(I[t.a], t.party);
        } else {
          B[t.out[0]] = t.batch
              ? d.openBooleanValueToPartyBatch(B[t.a], t.party)
              : d.openBooleanValueToParty(B[t.a], t.party);
        }
        break;
      case Op::Get: {
        std::vector<uint64_t> v;
        if (t.isInt) {
          v = t.batch ? d.getIntegerValueBatch(I[t.a])
                      : std::vector<uint64_t>{d.getIntegerValue(I[t.a])};
        } else if (t.batch) {
          auto b = d.getBooleanValueBatch(B[t.a]);
          v.assign(b.begin(), b.end());
        } else {
          v = {d.getBooleanValue(B[t.a])};
        }
        requireEq(
            v.size(), t.v.size(), "party ", me, ", size of w", t.a, " at step ", k);
        if (t.party < 0 || t.party == me) {
          requireEq(v, t.v, "party ", me, ", value of w", t.a, " at step ", k);
        }
        break;
      }
      case Op::Extract: {
        std::vector<uint64_t> v;
        if (t.isInt) {
          v = t.batch
              ? d.extractIntegerSecretShareBatch(I[t.a])
              : std::vector<uint64_t>{d.extractIntegerSecretShare(I[t.a])};
        } else if (t.batch) {
          auto b = d.extractBooleanSecretShareBatch(B[t.a]);
          v.assign(b.begin(), b.end());
        } else {
          v = {d.extractBooleanSecretShare(B[t.a])};
        }
        seen.shares.push_back(v);
        break;
      }
      case Op::Size:
        requireEq(
            t.isInt ? d.getBatchSize(I[t.a]) : d.getBatchSize(B[t.a]),
            t.v[0],
            "batch size of w",
            t.a,
            " at step ",
            k);
        break;
      case Op::Inc:
        if (t.isInt) {
          t.batch ? d.increaseReferenceCountBatch(I[t.a])
                  : d.increaseReferenceCount(I[t.a]);
        } else {
          t.batch ? d.increaseReferenceCountBatch(B[t.a])
                  : d.increaseReferenceCount(B[t.a]);
        }
        break;
      case Op::Dec:
        if (t.isInt) {
          t.batch ? d.decreaseReferenceCountBatch(I[t.a])
                  : d.decreaseReferenceCount(I[t.a]);
        } else {
          t.batch ? d.decreaseReferenceCountBatch(B[t.a])
                  : d.decreaseReferenceCount(B[t.a]);
        }
        break;
    }
  }
Seen execute(const Program& p, int me, fs::IArithmeticScheduler& d) {
  Exec x(p, me, d);
  x.run(0, p.steps.size());
  return x.seen;
}
// combines the shares the parties extracted and compares with the plain values
void checkShares(const Program& p, const std::vector<Seen>& seen) {
  size_t k = 0;
  for (auto& t : p.steps) {
    if (t.op != Op::Extract) {
      continue;
    }
    std::vector<uint64_t> acc(t.v.size(), 0);
    for (auto& s : seen) {
      auto& v = s.shares.at(k);
      requireEq(v.size(), t.v.size(), "size of the share of w", t.a);
      for (size_t i = 0; i < v.size(); i++) {
        acc[i] = t.isInt ? acc[i] + v[i] : acc[i] ^ v[i];
      }
    }
    requireEq(acc, t.v, "sum of the extracted shares of w", t.a);
    k++;
  }
}
void describe(Ctx& c, const Program& p, const SchedCfg& g) {
  c.desc = show(g) + " " + p.text();
  c.label(name(g.k));
  if (g.k == Sched::Eager || g.k == Sched::Lazy) {
    c.label(cat("engine ", name(g.eng.e)));
  }
  c.labelIf(p.parties > 2, "3+ parties");
  c.labelIf(p.hasBatch, "batched");
  c.labelIf(p.hasInt, "integers");
  c.labelIf(p.hasComposite, "composite");
  c.labelIf(p.hasRebatch, "rebatched");
  c.labelIf(p.hasEmpty, "empty batch");
  c.labelIf(p.maxDepth >= 5, "depth>=5");
}
// runs `levels` dependent ANDs, so that a lazy scheduler has nothing queued
void drain(fs::IArithmeticScheduler& d, int levels) {
  auto w = d.privateBooleanInput(true, 0);
  for (int i = 0; i < levels; i++) {
    auto x = d.privateAndPrivate(w, w);
    d.decreaseReferenceCount(w);
    w = x;
  }
  d.extractBooleanSecretShare(w);
  d.decreaseReferenceCount(w);
}
void fill(fs::IArithmeticScheduler& d, size_t n) {
  auto w = d.privateBooleanInput(true, 0);
  for (size_t i = 0; i < n; i++) {
    auto x = i % 3 ? d.notPrivate(w) : d.privateXorPrivate(w, w);
    d.decreaseReferenceCount(w);
    w = x;
  }
  d.decreaseReferenceCount(w);
}
size_t genFill(Src& s) {
  return s.chance(1, 3) ? 99900 + s.below(100) : s.coin() ? 100000 - s.below(12) : 50000;
}
} // namespace pbt
