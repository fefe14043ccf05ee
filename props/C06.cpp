// C06: every multiplication tuple is a valid one, for any request pattern.
#include "schedkit.h"
using namespace pbt;
using BT = tg::ITupleGenerator::BooleanTuple;
using CT = tg::ITupleGenerator::CompositeBooleanTuple;
using IT = tg::IArithmeticTupleGenerator::IntegerTuple;

namespace {
struct Req {
  enum K { Bool, Comp, Both, Int } k;
  uint32_t n = 0;
  std::map<size_t, uint32_t> sizes;
};
std::string show(const Req& r) {
  static const char* nm[] = {"bool", "composite", "both", "int"};
  std::string t = nm[r.k];
  if (r.k != Req::Comp) {
    t += cat(" ", r.n);
  }
  for (auto& [sz, cnt] : r.sizes) {
    t += cat(" ", cnt, "x", sz);
  }
  return t + "; ";
}
struct Got { // what one party received for one request
  std::vector<BT> b;
  std::map<size_t, std::vector<CT>> c;
  std::vector<IT> i;
};
uint32_t amount(Src& s, size_t buffer) {
  switch (s.below(6)) {
    case 0:
      return s.below(2);
    case 1:
      return s.range(1, 8);
    case 2: // around the end of a buffer
      return std::max<int64_t>(0, (int64_t)(buffer * s.range(1, 2)) + s.range(-2, 2));
    case 3:
      return s.below(3 * buffer + 1);
    default:
      return s.below(buffer + 1);
  }
}
Req request(Src& s, const EngCfg& g, bool comp) {
  Req r;
  int k = s.below(comp ? 4 : 2);
  r.k = k == 0 ? Req::Bool : k == 1 ? Req::Int : k == 2 ? Req::Comp : Req::Both;
  if (r.k == Req::Int && !g.arithmetic) {
    r.k = Req::Bool;
  }
  if (r.k != Req::Comp) {
    r.n = amount(s, g.buffer);
  }
  if (r.k == Req::Comp || r.k == Req::Both) {
    int m = s.below(4);
    for (int i = 0; i < m; i++) {
      size_t sz = s.below(3) == 0 ? s.pick({1, 127, 128, 129, 64, 130})
          : s.chance(1, 15) ? 500 + s.below(700)
                                  : 1 + s.size(0, 300);
      uint32_t cnt = sz > 128 && g.e != Eng::Dummy
          ? s.below(5)
          : std::min<uint32_t>(amount(s, g.buffer), 400);
      r.sizes[sz] = cnt;
    }
  }
  return r;
}
void run(Src& s, Ctx& c, std::initializer_list<Eng> es, int maxParties, bool ints) {
  EngCfg g;
  g.e = s.pick(es);
  g.parties = 2 + s.below(maxParties - 1);
  g.arithmetic = ints;
  g.buffer = ints ? s.pick({8, 1, 33, 64, 100, 270}) : s.pick({16, 1, 7, 130, 500, 1024});
  g.prgBuffer = s.pick({512, 130, 1024});
  bool comp = g.e == Eng::Dummy || (g.parties == 2 && g.e != Eng::Product);
  std::vector<Req> q;
  int m = 1 + s.size(0, 11);
  uint64_t total = 0;
  std::set<int> kinds;
  for (int i = 0; i < m; i++) {
    q.push_back(request(s, g, comp));
    total += q.back().n;
    for (auto& x : q.back().sizes) {
      total += x.second;
    }
    kinds.insert(q.back().k);
  }
  c.desc = show(g) + " ";
  for (auto& r : q) {
    c.desc += show(r);
  }
  c.nontrivial = q.size() >= 2 && total > (uint64_t)g.buffer;
  c.labelIf(g.parties > 2, "3+ parties");
  c.labelIf(kinds.size() >= 3, "3+ kinds of request");
  c.labelIf(total > 4 * (uint64_t)g.buffer, "4+ refills");

  auto net = std::make_shared<Net>(c.caseSeed | 1);
  int n = g.parties;
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
  for (int i = 0; i < n; i++) {
    af.push_back(net->factory(i, n));
  }
  auto all = runPartiesR<std::vector<Got>>(*net, n, c.caseSeed, [&](int me) {
    auto x = parts(g, me, *af[me]);
    auto tup = x.tuples->create();
    std::unique_ptr<tg::IArithmeticTupleGenerator> ari;
    if (ints) {
      ari = x.integers->create();
    }
    requireEq(
        tup->supportsCompositeTupleGeneration(), comp, "support for composite tuples");
    std::vector<Got> out;
    for (auto& r : q) {
      Got o;
      switch (r.k) {
        case Req::Bool:
          o.b = tup->getBooleanTuple(r.n);
          break;
        case Req::Comp:
          o.c = tup->getCompositeTuple(r.sizes);
          break;
        case Req::Both: {
          auto [b, cc] = tup->getNormalAndCompositeBooleanTuples(r.n, r.sizes);
          o.b = b;
          o.c = cc;
          break;
        }
        case Req::Int:
          o.i = ari->getIntegerTuple(r.n);
          break;
      }
      out.push_back(std::move(o));
    }
    return out;
  });
  // positions correspond and the combined shares multiply
  std::vector<unsigned char> stream;
  std::vector<std::string> windows; // composite fingerprints
  std::set<std::pair<uint64_t, uint64_t>> seen;
  std::set<std::string> seenC;
  for (size_t r = 0; r < q.size(); r++) {
    size_t nb = q[r].k == Req::Bool || q[r].k == Req::Both ? q[r].n : 0;
    size_t ni = q[r].k == Req::Int ? q[r].n : 0;
    for (int p = 0; p < n; p++) {
      auto& o = all[p][r];
      requireEq(o.b.size(), nb, "boolean tuples from request ", r, " at party ", p);
      requireEq(o.i.size(), ni, "integer tuples from request ", r, " at party ", p);
      requireEq(o.c.size(), q[r].sizes.size(), "composite groups from request ", r);
      for (auto& [sz, cnt] : q[r].sizes) {
        require(o.c.count(sz), "request ", r, " returned no tuples of size ", sz);
        requireEq(o.c.at(sz).size(), cnt, "tuples of size ", sz, " from request ", r);
        for (auto& t : o.c.at(sz)) {
          requireEq(t.getB().size(), sz, "length of b in a composite tuple");
          requireEq(t.getC().size(), sz, "length of c in a composite tuple");
        }
      }
    }
    for (size_t i = 0; i < nb; i++) {
      bool a = 0, b = 0, cc = 0;
      for (int p = 0; p < n; p++) {
        auto& t = all[p][r].b[i];
        a ^= t.getA();
        b ^= t.getB();
        cc ^= t.getC();
      }
      requireEq(cc, a && b, "boolean tuple ", i, " of request ", r, " with a=", a, " b=", b);
      unsigned char sh = 0;
      for (int p = 0; p < 2; p++) {
        auto& t = all[p][r].b[i];
        sh = sh * 4 + t.getA() * 2 + t.getB();
      }
      stream.push_back(sh);
    }
    for (size_t i = 0; i < ni; i++) {
      uint64_t a = 0, b = 0, cc = 0;
      for (int p = 0; p < n; p++) {
        auto& t = all[p][r].i[i];
        a += t.getA();
        b += t.getB();
        cc += t.getC();
      }
      requireEq(cc, a * b, "integer tuple ", i, " of request ", r, " with a=", a, " b=", b);
      if (g.e != Eng::Dummy) {
        require(
            seen.insert({all[0][r].i[i].getA(), all[0][r].i[i].getB()}).second,
            "integer tuple ", i, " of request ", r, " was handed out before");
      }
    }
    for (auto& [sz, cnt] : q[r].sizes) {
      for (uint32_t i = 0; i < cnt; i++) {
        bool a = 0;
        std::vector<bool> b(sz), cc(sz);
        for (int p = 0; p < n; p++) {
          auto& t = all[p][r].c.at(sz)[i];
          a ^= t.getA();
          for (size_t j = 0; j < sz; j++) {
            b[j] = b[j] ^ t.getB()[j];
            cc[j] = cc[j] ^ t.getC()[j];
          }
        }
        for (size_t j = 0; j < sz; j++) {
          requireEq(
              (bool)cc[j], a && b[j],
              "element ", j, " of composite tuple ", i, " of size ", sz,
              " of request ", r, " with a=", a);
        }
        // compared in pieces of 40 elements, so that tuples of different sizes
        // made from the same correlation are seen as well
        for (size_t j = 0; g.e != Eng::Dummy && j + 40 <= sz; j += 40) {
          std::string fp;
          for (int p = 0; p < 2; p++) {
            auto v = all[p][r].c.at(sz)[i].getB();
            for (size_t k = j; k < j + 40; k++) {
              fp += '0' + v[k];
            }
          }
          require(
              seenC.insert(fp).second,
              "elements ", j, " to ", j + 39, " of composite tuple ", i, " of size ", sz,
              " of request ", r, " were handed out before");
        }
      }
    }
  }
  if (g.e != Eng::Dummy) { // 24 tuples in a row never come again
    const size_t W = 24;
    std::set<std::string> w;
    for (size_t i = 0; i + W <= stream.size(); i++) {
      require(
          w.insert(std::string(stream.begin() + i, stream.begin() + i + W)).second,
          "the ", W, " boolean tuples from ", i, " on were handed out before");
    }
    // ... and are not all alike in their hidden values
    if (stream.size() >= 64) {
      int ones[4] = {};
      for (auto x : stream) {
        for (int k = 0; k < 4; k++) {
          ones[k] += x >> k & 1;
        }
      }
      for (int k = 0; k < 4; k++) {
        require(
            ones[k] > 0 && ones[k] < (int)stream.size(),
            "a share of ", stream.size(), " boolean tuples is constant");
      }
    }
  }
}
} // namespace
PROPERTY(dummy, 400, 10000) {
  run(s, c, {Eng::Dummy}, 4, s.coin());
}
PROPERTY(two_party, 300, 8000) {
  run(s, c, {Eng::Dealer}, 2, false);
}
PROPERTY(product_share, 200, 6000) {
  run(s, c, {Eng::Product}, 4, false);
}
PROPERTY(integers, 150, 5000) {
  run(s, c, {Eng::Product, Eng::Dealer}, 4, true);
}
PROPERTY(real_oblivious_transfer, 5, 200) {
  run(s, c, {Eng::Iknp, Eng::Ferret}, 2, false);
}
