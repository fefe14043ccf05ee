// C20: an oblivious memory is an array of modular counters.
#include "fbpcf/mpc_std_lib/oram/DummyDifferenceCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummyObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummySinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/LinearOramFactory.h"
#include "fbpcf/mpc_std_lib/oram/WriteOnlyOramFactory.h"
#include "stdkit.h"
using namespace pbt;
namespace {
namespace om = msl::oram;
using AV = msl::util::AggregationValue;
enum class Kind { Secure, DummyArray, DummyDifference, DummyDelta, Linear };
const char* kindName(Kind k) {
  return std::array{"secure", "dummy arrays", "dummy difference", "dummy delta", "linear"}[(int)k];
}
// values as sets of machine words
template <bool S, int8_t W>
std::vector<uint64_t> words(const Intp<S, W>& x) {
  return {(uint64_t)(typename Intp<S, W>::NativeType)x & (W == 64 ? ~0ull : (1ull << (W % 64)) - 1)};
}
std::vector<uint64_t> words(uint32_t x) {
  return {x};
}
std::vector<uint64_t> words(const AV& x) {
  return {x.conversionCount, x.conversionValue};
}
template <typename T>
struct Shape;
template <bool S, int8_t W>
struct Shape<Intp<S, W>> {
  static std::vector<int> widths() {
    return {W};
  }
};
template <>
struct Shape<uint32_t> {
  static std::vector<int> widths() {
    return {32};
  }
};
template <>
struct Shape<AV> {
  static std::vector<int> widths() {
    return {32, 32};
  }
};
uint64_t maskOf(int w) {
  return w == 64 ? ~0ull : (1ull << w) - 1;
}
template <typename T, int sid, int8_t SW = 9>
std::unique_ptr<om::IWriteOnlyOram<T>> make(Kind k, int me, bool flip, size_t size, comm::IPartyCommunicationAgentFactory& af) {
  if constexpr (std::is_same_v<T, uint32_t> && SW == 9) { // sums of more than 8 bits
    if (size > 250) {
      return make<T, sid, 14>(k, me, flip, size, af);
    }
  }
  using R = om::IWriteOnlyOram<T>;
  bool first = (me == 0) != flip;
  int p0 = flip ? 1 : 0, p1 = 1 - p0;
  if (k == Kind::Secure) {
    return om::getSecureWriteOnlyOramFactory<T, SW, sid>(first, p0, p1, af)->create(size);
  }
  if (k == Kind::Linear) {
    return om::getSecureLinearOramFactory<T, sid>(first, p0, p1, af)->create(size);
  }
  std::unique_ptr<om::ISinglePointArrayGeneratorFactory> g;
  if (k == Kind::DummyArray) {
    g = std::make_unique<om::insecure::DummySinglePointArrayGeneratorFactory>(first, 1 - me, af);
  } else if (k == Kind::DummyDelta) {
    g = std::make_unique<om::SinglePointArrayGeneratorFactory>(
        first, std::make_unique<om::insecure::DummyObliviousDeltaCalculatorFactory>(1 - me, af));
  } else {
    g = std::make_unique<om::SinglePointArrayGeneratorFactory>(
        first, std::make_unique<om::ObliviousDeltaCalculatorFactory<sid>>(first, p0, p1));
  }
  std::unique_ptr<om::IDifferenceCalculatorFactory<T>> d;
  if (k == Kind::DummyDifference) {
    d = std::make_unique<om::insecure::DummyDifferenceCalculatorFactory<T, SW>>(first, 1 - me, af);
  } else {
    d = std::make_unique<om::DifferenceCalculatorFactory<T, SW, sid>>(first, p0, p1);
  }
  return om::WriteOnlyOramFactory<T>(first ? R::Alice : R::Bob, 1 - me, af, std::move(g), std::move(d)).create(size);
}
struct Op {
  int kind; // 0 add, 1 public read, 2 secret read, 3 malformed add, 4 read out of range
  std::array<Rows, 2> index, value; // shares, by party
  size_t at = 0;
  int receiver = 0; // Role
  std::vector<size_t> idx;
  std::vector<std::vector<uint64_t>> vals;
};
Rows xorOf(const Rows& a, const Rows& b) {
  Rows r = a;
  for (size_t i = 0; i < r.size(); i++) {
    for (size_t j = 0; j < r[i].size(); j++) {
      r[i][j] = a[i][j] != b[i][j];
    }
  }
  return r;
}
template <typename F>
void withType(Src& s, F&& f, bool plainest = false) {
  if (plainest) {
    return f(std::type_identity<uint32_t>{}, "uint32");
  }
  switch (s.below(8)) {
    case 0: return f(std::type_identity<uint32_t>{}, "uint32");
    case 1:
    case 2: return f(std::type_identity<AV>{}, "aggregation");
    case 3: return f(std::type_identity<Intp<false, 7>>{}, "uint7");
    case 4: return f(std::type_identity<Intp<true, 16>>{}, "int16");
    case 5: return f(std::type_identity<Intp<false, 33>>{}, "uint33");
    case 6: return f(std::type_identity<Intp<true, 5>>{}, "int5");
    default: return f(std::type_identity<Intp<true, 64>>{}, "int64");
  }
}
void go(Src& s, Ctx& c, const SchedCfg& g, size_t mostSize, size_t mostBatch) {
  size_t size = s.chance(1, 4) ? 1 + s.below(4) : s.sizeUpTo(mostSize);
  if (s.chance(1, 5)) { // powers of two and neighbours
    size = std::max<size_t>(1, std::min<size_t>(mostSize, (1u << s.below(8)) + s.below(3) - 1));
  }
  int need = 0;
  while ((1ull << need) < size) {
    need++;
  }
  int width = std::max(1, need) + (s.chance(1, 4) ? s.below(4) : 0);
  bool flip = s.coin();
  withType(s, [&]<typename T>(std::type_identity<T>, const char* what) {
    Kind k = s.chance(1, 2) ? Kind::Secure : (Kind)s.below(5);
    if (s.chance(1, 4)) {
      k = Kind::Linear;
    }
    auto ws = Shape<T>::widths();
    int total = 0;
    for (int w : ws) {
      total += w;
    }
    std::vector<Op> ops;
    size_t adds = 0, reads = 0, hot = s.below(size);
    int nOps = 1 + s.below(g.k == Sched::NetPlain ? 7 : 4);
    std::string hist;
    std::vector<std::vector<uint64_t>> mem(size, std::vector<uint64_t>(ws.size()));
    std::set<size_t> touched;
    bool repeated = false, rejected = false;
    for (int i = 0; i < nOps || adds == 0; i++) {
      Op o;
      o.kind = i == 0 ? 0 : i >= nOps ? 0 : s.chance(2, 5) ? 0 : s.chance(1, 8) ? 3 + s.below(2) : 1 + s.below(2);
      o.receiver = s.below(2);
      if (o.kind == 0 || o.kind == 3) {
        size_t n = s.chance(1, 4) ? 1 + s.below(3) : 1 + s.below(mostBatch);
        Rows idx(width, std::vector<bool>(n)), val(total, std::vector<bool>(n));
        for (size_t j = 0; j < n; j++) {
          size_t at = s.chance(1, 3) ? hot : s.chance(1, 8) ? size - 1 : s.below(size);
          std::vector<uint64_t> v;
          for (int w : ws) {
            v.push_back((w > 8 && s.coin() ? s.edgyU(maskOf(w)) : s.u64()) & maskOf(w));
          }
          for (int b = 0; b < width; b++) {
            idx[b][j] = (at >> b) & 1;
          }
          int b = 0;
          for (size_t q = 0; q < ws.size(); q++) {
            for (int t = 0; t < ws[q]; t++) {
              val[b++][j] = (v[q] >> t) & 1;
            }
          }
          if (o.kind == 0) {
            for (size_t q = 0; q < ws.size(); q++) {
              mem[at][q] = (mem[at][q] + v[q]) & maskOf(ws[q]);
            }
            repeated |= !touched.insert(at).second;
          }
          o.idx.push_back(at);
          o.vals.push_back(v);
        }
        o.index[1] = genRows(s, width, n);
        o.value[1] = genRows(s, total, n);
        o.index[0] = xorOf(idx, o.index[1]);
        o.value[0] = xorOf(val, o.value[1]);
        if (o.kind == 3) { // the same malformation on both sides
          int m = s.below(need > 1 ? 5 : 4);
          for (int p = 0; p < 2; p++) {
            auto &ix = o.index[p], &vx = o.value[p];
            switch (m) {
              case 0: ix.clear(); break;
              case 1: vx.clear(); break;
              case 2:
                if (width > 1) {
                  ix[1].push_back(false);
                } else {
                  vx[0].push_back(false);
                }
                break;
              case 3: vx[total - 1].push_back(true); break;
              default: ix.resize(need - 1);
            }
          }
          // the linear memory leaves ragged values to the schedulers
          if (k == Kind::Linear && (m == 3 || m == 2 && width == 1)) {
            continue;
          }
          rejected = true;
          hist += cat(" bad", m);
        } else {
          hist += cat(" add", list(o.idx), "=");
          for (auto& v : o.vals) {
            hist += list(v);
          }
          adds++;
        }
      } else {
        reads++;
        o.at = o.kind == 4 ? size + s.edgyU(UINT32_MAX) : s.chance(1, 3) ? hot : s.below(size);
        if (o.kind != 4) {
          o.vals.push_back(mem[o.at]);
        }
        rejected |= o.kind == 4;
        hist += cat(o.kind == 1 ? cat(" open to ", o.receiver, " ") : o.kind == 2 ? " share " : " out of range ", o.at);
      }
      ops.push_back(o);
    }
    // in the end everything is looked at
    for (size_t i = 0; i < size; i++) {
      Op o;
      o.kind = 1 + s.below(2);
      o.receiver = s.below(2);
      o.at = i;
      o.vals.push_back(mem[i]);
      ops.push_back(o);
    }
    c.desc = cat(show(g), " ", kindName(k), flip ? " party 1 first " : " ", what, " size ", size, " index bits ", width, hist.substr(0, 500));
    c.nontrivial = size >= 2 && adds > 0 && repeated;
    c.label(kindName(k));
    c.labelIf(adds > 1, "several batches");
    c.labelIf(width > need, "more index bits than needed");
    c.labelIf(size == 1, "one cell");
    c.labelIf(rejected, "rejection");
    auto net = std::make_shared<Net>(c.caseSeed | 1);
    std::vector<std::array<std::vector<uint64_t>, 2>> seen(ops.size());
    runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
      auto af = net->factory(me, 2);
      auto m = make<T, sid>(k, me, flip, size, *af);
      using R = om::IWriteOnlyOram<T>;
      auto mine = (me == 0) != flip ? R::Alice : R::Bob;
      for (size_t i = 0; i < ops.size(); i++) {
        auto& o = ops[i];
        auto rcv = o.receiver ? R::Bob : R::Alice;
        switch (o.kind) {
          case 0: m->obliviousAddBatch(o.index[me], o.value[me]); break;
          case 1: {
            T v = m->publicRead(o.at, rcv);
            if (mine == rcv) {
              requireEq(list(words(v)), list(o.vals[0]), "operation ", i, ": cell ", o.at, " opened");
            }
            break;
          }
          case 2: seen[i][me] = words(m->secretRead(o.at)); break;
          case 3: requireThrows<std::exception>([&] { m->obliviousAddBatch(o.index[me], o.value[me]); }, "malformed batch"); break;
          default:
            requireThrows<std::runtime_error>([&] { m->publicRead(o.at, rcv); }, "reading out of range");
            requireThrows<std::runtime_error>([&] { m->secretRead(o.at); }, "reading a share out of range");
        }
      }
    }, net);
    for (size_t i = 0; i < ops.size(); i++) {
      if (ops[i].kind == 2) {
        for (size_t q = 0; q < ws.size(); q++) {
          requireEq((seen[i][0][q] + seen[i][1][q]) & maskOf(ws[q]), ops[i].vals[0][q], "operation ", i, ": shares of cell ", ops[i].at);
        }
      }
    }
  }, mostSize > 250);
}
PROPERTY(networked, 400, 15000) {
  go(s, c, genSched(s, {Sched::NetPlain}, 2, false), 100, 40);
}
PROPERTY(large, 12, 300) {
  SchedCfg g;
  g.k = Sched::NetPlain;
  g.eng.parties = 2;
  go(s, c, g, 250, 200);
}
PROPERTY(largest, 3, 60) {
  SchedCfg g;
  g.k = Sched::NetPlain;
  g.eng.parties = 2;
  go(s, c, g, 1500, 6);
}
PROPERTY(manyAdditions, 4, 60) {
  SchedCfg g;
  g.k = Sched::NetPlain;
  g.eng.parties = 2;
  go(s, c, g, 9, 1500);
}
PROPERTY(eager, 120, 4000) {
  go(s, c, genSched(s, {Sched::Eager}, 2, false), 12, 12);
}
PROPERTY(lazy, 120, 4000) {
  go(s, c, genSched(s, {Sched::Lazy}, 2, false), 12, 12);
}
} // namespace
