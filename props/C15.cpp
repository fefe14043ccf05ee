// C15: bits and bit strings follow boolean logic, also when regrouped.
#include "front.h"
using namespace pbt;
namespace {
enum Op { In, Pub, And, Xor, Or, Not, Vec, Arr, Mux, Get, Set, Resize, Copy, Join, Split, kOps };
const char* nm[] = {"in", "pub", "and", "xor", "or", "not", "vec-and", "arr-and", "mux", "get", "set", "resize", "copy", "join", "split"};
using Rows = std::vector<std::vector<bool>>; // [position][batch entry]
struct Step {
  Op op;
  bool str = false; // works on strings
  int d = -1, a = -1, b = -1, c = -1;
  size_t k = 0;
  Rows v;
  std::vector<int> more;
  std::vector<uint32_t> sizes;
  int bad = 0; // the last step: operands that do not fit
};
struct Val {
  bool str, secret;
  size_t len, n; // positions, entries per position
  Rows v;
};
struct Prog {
  bool batch;
  int parties;
  std::vector<Step> steps;
  std::vector<Val> vals;
};
struct Out {
  std::vector<Rows> v;
};

template <bool Bt, int sid>
struct Exec {
  template <bool sec>
  using B = ff::Bit<sec, sid, Bt>;
  template <bool sec>
  using T = ff::BitString<sec, sid, Bt>;
  using Raw = std::conditional_t<Bt, std::vector<bool>, bool>;
  const Prog& p;
  std::vector<B<true>> sb;
  std::vector<B<false>> pb;
  std::vector<T<true>> st;
  std::vector<T<false>> pt;

  static Raw raw(const std::vector<bool>& r) {
    if constexpr (Bt) {
      return r;
    } else {
      return (bool)r[0];
    }
  }
  static std::vector<Raw> raws(const Rows& v) {
    std::vector<Raw> r;
    for (auto& x : v) {
      r.push_back(raw(x));
    }
    return r;
  }
  static std::vector<bool> row(const Raw& r) {
    if constexpr (Bt) {
      return r;
    } else {
      return {r};
    }
  }
  template <typename F>
  void bit(int i, F&& f) {
    p.vals[i].secret ? f(sb[i]) : f(pb[i]);
  }
  template <typename F>
  void str(int i, F&& f) {
    p.vals[i].secret ? f(st[i]) : f(pt[i]);
  }
  void put(int d, const B<true>& x) { sb[d] = x; }
  void put(int d, const B<false>& x) { pb[d] = x; }
  void put(int d, const T<true>& x) { st[d] = x; }
  void put(int d, const T<false>& x) { pt[d] = x; }
  template <typename F>
  void two(const Step& t, F&& f) {
    if (t.str) {
      str(t.a, [&](auto& x) { str(t.b, [&](auto& y) { put(t.d, f(x, y)); }); });
    } else {
      bit(t.a, [&](auto& x) { bit(t.b, [&](auto& y) { put(t.d, f(x, y)); }); });
    }
  }
  template <bool sec>
  auto& bitsOf() {
    if constexpr (sec) {
      return sb;
    } else {
      return pb;
    }
  }
  void step(const Step& t) {
    switch (t.op) {
      case In:
        if (t.str) {
          st[t.d] = T<true>(raws(t.v), t.k);
        } else {
          sb[t.d] = B<true>(raw(t.v[0]), t.k);
        }
        break;
      case Pub:
        if (t.str) {
          pt[t.d] = T<false>(raws(t.v));
        } else {
          pb[t.d] = B<false>(raw(t.v[0]));
        }
        break;
      case And: two(t, [](auto& x, auto& y) { return x & y; }); break;
      case Xor: two(t, [](auto& x, auto& y) { return x ^ y; }); break;
      case Or:
        bit(t.a, [&](auto& x) { bit(t.b, [&](auto& y) { put(t.d, x | y); }); });
        break;
      case Not:
        if (t.str) {
          str(t.a, [&](auto& x) { put(t.d, !x); });
        } else {
          bit(t.a, [&](auto& x) { put(t.d, !x); });
        }
        break;
      case Vec: { // all of `more` are equally secret
        auto go = [&]<bool sec>() {
          std::vector<B<sec>> o;
          for (int i : t.more) {
            o.push_back(bitsOf<sec>()[i]);
          }
          bit(t.a, [&](auto& x) {
            auto r = x & o;
            requireEq(r.size(), o.size(), "results of a vector AND");
            for (size_t i = 0; i < r.size(); i++) {
              put(t.d + i, r[i]);
            }
          });
        };
        p.vals[t.more[0]].secret ? go.template operator()<true>() : go.template operator()<false>();
        break;
      }
      case Arr: {
        auto go = [&]<bool sec>() {
          std::array<B<sec>, 3> o;
          for (int i = 0; i < 3; i++) {
            o[i] = bitsOf<sec>()[t.more[i]];
          }
          bit(t.a, [&](auto& x) {
            auto r = x & o;
            for (size_t i = 0; i < 3; i++) {
              put(t.d + i, r[i]);
            }
          });
        };
        p.vals[t.more[0]].secret ? go.template operator()<true>() : go.template operator()<false>();
        break;
      }
      case Mux:
        str(t.a, [&](auto& x) {
          str(t.b, [&](auto& y) {
            bit(t.c, [&](auto& z) { put(t.d, x.mux(z, y)); });
          });
        });
        break;
      case Get:
        str(t.a, [&](auto& x) {
          put(t.d, t.more.empty() ? x[t.k] : std::as_const(x).at(t.k));
          requireThrows<std::out_of_range>([&] { x.at(x.size()); }, "a position past the end");
        });
        break;
      case Set:
        if (p.vals[t.a].secret) {
          st[t.d] = st[t.a];
          st[t.d][t.k] = sb[t.b];
        } else {
          pt[t.d] = pt[t.a];
          pt[t.d][t.k] = pb[t.b];
        }
        break;
      case Resize:
        str(t.a, [&](auto& x) {
          auto y = x;
          y.resize(t.k);
          put(t.d, y);
        });
        break;
      case Copy:
        if (t.str) {
          str(t.a, [&](auto& x) {
            auto y(x);
            auto z(std::move(y));
            put(t.d, z);
          });
        } else {
          bit(t.a, [&](auto& x) {
            auto y(x);
            auto z(std::move(y));
            put(t.d, z);
          });
        }
        break;
      case Join:
        if constexpr (Bt) {
          if (t.str) {
            std::vector<T<true>> o;
            for (int i : t.more) {
              o.push_back(st[i]);
            }
            st[t.d] = st[t.a].batchingWith(o);
          } else {
            std::vector<B<true>> o;
            for (int i : t.more) {
              o.push_back(sb[i]);
            }
            sb[t.d] = sb[t.a].batchingWith(o);
          }
        }
        break;
      case Split:
        if constexpr (Bt) {
          auto sizes = std::make_shared<std::vector<uint32_t>>(t.sizes);
          auto go = [&](auto v, auto& to) {
            requireEq(v.size(), t.sizes.size(), "parts after splitting");
            for (size_t i = 0; i < v.size(); i++) {
              to[t.d + i] = v[i];
            }
          };
          if (t.str) {
            go(st[t.a].unbatching(sizes), st);
          } else {
            go(sb[t.a].unbatching(sizes), sb);
          }
        }
        break;
      default: break;
    }
    if constexpr (Bt) {
      if (t.d >= 0 && !t.bad) {
        auto& w = p.vals[t.d];
        if (!w.str || w.len) {
          size_t n = w.str ? (w.secret ? st[t.d].getBatchSize() : pt[t.d].getBatchSize())
                           : (w.secret ? sb[t.d].getBatchSize() : pb[t.d].getBatchSize());
          requireEq(n, w.n, "batch size after ", nm[t.op]);
        }
      }
    }
    if (t.str && t.d >= 0 && !t.bad) {
      requireEq(p.vals[t.d].secret ? st[t.d].size() : pt[t.d].size(), p.vals[t.d].len, "length after ", nm[t.op]);
    }
  }
  Rows read(int i, B<false>& b, T<false>& t) {
    Rows r;
    if (p.vals[i].str) {
      for (auto x : t.getValue()) {
        r.push_back(row(x));
      }
    } else {
      r.push_back(row(b.getValue()));
    }
    return r;
  }
  Out run() {
    size_t n = p.vals.size();
    sb.resize(n);
    pb.resize(n);
    st.resize(n);
    pt.resize(n);
    const Step* bad = nullptr;
    for (auto& t : p.steps) {
      if (t.bad) {
        bad = &t;
      } else {
        step(t);
      }
    }
    std::vector<B<false>> ob(n);
    std::vector<T<false>> ot(n);
    Out out;
    for (size_t i = 0; i < n; i++) {
      auto& w = p.vals[i];
      if (bad && (int)i == bad->d) {
        continue;
      }
      if (w.str) {
        ot[i] = w.secret ? st[i].openToParty(0) : pt[i];
      } else {
        ob[i] = w.secret ? sb[i].openToParty(0) : pb[i];
      }
    }
    for (size_t i = 0; i < n; i++) {
      out.v.push_back(bad && (int)i == bad->d ? Rows() : read(i, ob[i], ot[i]));
    }
    if (bad) {
      int d = bad->d;
      auto& w = p.vals[d];
      bool threw = false;
      try {
        step(*bad);
        if (w.str) {
          ot[d] = w.secret ? st[d].openToParty(0) : pt[d];
        } else {
          ob[d] = w.secret ? sb[d].openToParty(0) : pb[d];
        }
        read(d, ob[d], ot[d]);
      } catch (Failure&) {
        throw;
      } catch (std::exception&) {
        threw = true;
      }
      require(threw, nm[bad->op], " accepted operands that do not fit");
    }
    return out;
  }
};

struct Gen {
  Src& s;
  Prog& p;
  size_t len, n;
  int secure = 0, regroup = 0;
  bool many = false; // operands of one operation

  Rows rows(size_t l, size_t k) {
    if (l * k > 2000) { // one seed for all
      auto r = s.rng();
      Rows v(l, std::vector<bool>(k));
      for (auto& x : v) {
        for (size_t j = 0; j < k; j++) {
          x[j] = r.below(2);
        }
      }
      return v;
    }
    auto b = s.bits(l * k);
    Rows r(l);
    for (size_t i = 0; i < l; i++) {
      r[i].assign(b.begin() + i * k, b.begin() + (i + 1) * k);
    }
    return r;
  }
  int add(bool str, bool sec, Rows v, size_t n) {
    size_t l = v.size();
    p.vals.push_back({str, sec, l, n, std::move(v)});
    return p.vals.size() - 1;
  }
  template <typename F>
  int pick(F&& f) {
    std::vector<int> c;
    for (size_t i = 0; i < p.vals.size(); i++) {
      if (f(p.vals[i])) {
        c.push_back(i);
      }
    }
    return c.empty() ? -1 : s.coin() ? c[c.size() - 1 - s.below(std::min<size_t>(c.size(), 3))] : c[s.below(c.size())];
  }
  int like(int a) {
    auto w = p.vals[a];
    return pick([&](const Val& x) { return x.str == w.str && x.len == w.len && x.n == w.n; });
  }
  int any(bool str) {
    return pick([&](const Val& x) { return x.str == str; });
  }
  Rows zip(int a, int b, Op op) {
    Rows r = p.vals[a].v;
    for (size_t i = 0; i < r.size(); i++) {
      for (size_t j = 0; j < r[i].size(); j++) {
        bool x = r[i][j], y = p.vals[b].v[i][j];
        r[i][j] = op == And ? x && y : op == Xor ? x != y : op == Or ? x || y : !x;
      }
    }
    return r;
  }
  bool step(Op op, bool str) {
    Step t;
    t.op = op;
    t.str = str;
    switch (op) {
      case In: case Pub: {
        size_t l = str ? (s.coin() ? len : s.size(0, 20)) : 1;
        size_t k = !p.batch ? 1 : s.chance(2, 3) ? n : 1 + s.size(0, 12);
        t.v = rows(l, k);
        t.k = s.below(p.parties);
        t.d = add(str, op == In, t.v, k);
        break;
      }
      case Or:
        t.str = str = false;
        [[fallthrough]];
      case And: case Xor: case Not: {
        t.a = any(str);
        if (t.a < 0) return false;
        t.b = op == Not ? t.a : like(t.a);
        bool sec = p.vals[t.a].secret || p.vals[t.b].secret;
        t.d = add(str, sec, zip(t.a, t.b, op), p.vals[t.a].n);
        secure += sec && op != Not && op != Xor && p.vals[t.a].len;
        break;
      }
      case Vec: case Arr: {
        t.str = false;
        t.a = any(false);
        if (t.a < 0) return false;
        int f = like(t.a);
        size_t k = op == Arr ? 3 : many ? 11 + s.below(300) : 1 + s.size(0, 10);
        for (size_t i = 0; i < k; i++) {
          auto want = p.vals[f];
          t.more.push_back(pick([&](const Val& x) { return !x.str && x.n == want.n && x.secret == want.secret; }));
        }
        for (size_t i = 0; i < k; i++) {
          bool sec = p.vals[t.a].secret || p.vals[f].secret;
          int d = add(false, sec, zip(t.a, t.more[i], And), p.vals[t.a].n);
          t.d = t.d < 0 ? d : t.d;
          secure += sec;
        }
        break;
      }
      case Mux: {
        t.str = true;
        t.a = any(true);
        if (t.a < 0) return false;
        t.b = like(t.a);
        auto n0 = p.vals[t.a].n;
        t.c = pick([&](const Val& x) { return !x.str && x.n == n0; });
        if (t.c < 0) return false;
        bool sec = p.vals[t.a].secret || p.vals[t.b].secret || p.vals[t.c].secret;
        Rows r = p.vals[t.a].v;
        for (size_t i = 0; i < r.size(); i++) {
          for (size_t j = 0; j < n0; j++) {
            if (p.vals[t.c].v[0][j]) {
              r[i][j] = p.vals[t.b].v[i][j];
            }
          }
        }
        t.d = add(true, sec, r, n0);
        secure += sec && r.size();
        break;
      }
      case Get: {
        t.str = false;
        t.a = pick([&](const Val& x) { return x.str && x.len; });
        if (t.a < 0) return false;
        t.k = s.below(p.vals[t.a].len);
        if (s.coin()) {
          t.more = {1};
        }
        t.d = add(false, p.vals[t.a].secret, {p.vals[t.a].v[t.k]}, p.vals[t.a].n);
        break;
      }
      case Set: {
        t.str = true;
        t.a = pick([&](const Val& x) { return x.str && x.len; });
        if (t.a < 0) return false;
        auto w = p.vals[t.a];
        t.b = pick([&](const Val& x) { return !x.str && x.n == w.n && x.secret == w.secret; });
        if (t.b < 0) return false;
        t.k = s.below(w.len);
        w.v[t.k] = p.vals[t.b].v[0];
        t.d = add(true, w.secret, w.v, w.n);
        break;
      }
      case Resize: {
        t.str = true;
        t.a = any(true);
        if (t.a < 0) return false;
        auto w = p.vals[t.a];
        t.k = s.below(w.len + 1); // growing leaves positions that hold no value
        w.v.resize(t.k);
        t.d = add(true, w.secret, w.v, w.n);
        break;
      }
      case Copy:
        t.a = any(str);
        if (t.a < 0) return false;
        t.d = add(str, p.vals[t.a].secret, p.vals[t.a].v, p.vals[t.a].n);
        break;
      case Join: {
        if (!p.batch) return false;
        t.a = pick([&](const Val& x) { return x.str == str && x.secret; });
        if (t.a < 0) return false;
        auto w = p.vals[t.a];
        size_t k = many ? 4 + s.below(300) : s.below(4);
        for (size_t i = 0; i < k; i++) {
          t.more.push_back(pick([&](const Val& x) { return x.str == str && x.secret && x.len == w.len; }));
          auto& o = p.vals[t.more.back()];
          w.n += o.n;
          for (size_t j = 0; j < w.len; j++) {
            w.v[j].insert(w.v[j].end(), o.v[j].begin(), o.v[j].end());
          }
        }
        if (w.n > 150 && w.n > 3 * n && (!many || w.n > 9000)) return false;
        t.d = add(str, true, w.v, w.n);
        regroup++;
        break;
      }
      case Split: {
        if (!p.batch) return false;
        t.a = pick([&](const Val& x) { return x.str == str && x.secret; });
        if (t.a < 0) return false;
        auto w = p.vals[t.a];
        for (size_t at = 0; at < w.n;) {
          size_t k = t.sizes.size() < (many ? 250 : 5) ? 1 + s.below(many ? std::min<size_t>(3, w.n - at) : w.n - at) : w.n - at;
          t.sizes.push_back(k);
          Rows r;
          for (auto& x : w.v) {
            r.push_back({x.begin() + at, x.begin() + at + k});
          }
          int d = add(str, true, r, k);
          t.d = t.d < 0 ? d : t.d;
          at += k;
        }
        regroup++;
        break;
      }
      default: return false;
    }
    p.steps.push_back(t);
    return true;
  }
  // operands of different lengths, as a last step
  bool misfit() {
    Step t;
    t.bad = 1;
    t.op = s.pick({And, Xor, Or, Mux, Join});
    t.str = t.op == Or ? false : t.op == Mux || t.op == Join ? true : s.coin();
    t.a = any(t.str);
    if (t.a < 0) return false;
    auto w = p.vals[t.a];
    bool byLen = t.str && (!p.batch || t.op == Join || s.coin());
    t.b = pick([&](const Val& x) {
      return x.str == t.str && (byLen ? x.len != w.len : x.len == w.len && x.len && x.n != w.n);
    });
    if (t.b < 0) return false;
    bool sec = w.secret || p.vals[t.b].secret;
    if (t.op == Join) {
      if (!p.batch || !w.secret || !p.vals[t.b].secret) return false;
      t.more = {t.b};
    }
    if (t.op == Mux) {
      t.c = pick([&](const Val& x) { return !x.str && x.n == w.n; });
      if (t.c < 0) return false;
      sec |= p.vals[t.c].secret;
    }
    t.d = add(t.str, sec, w.v, w.n);
    p.steps.push_back(t);
    return true;
  }
};
void go(Src& s, Ctx& c, const SchedCfg& g, size_t most, size_t wide = 0, bool many = false) {
  Prog p;
  p.batch = wide || (many ? s.chance(3, 4) : s.coin());
  p.parties = g.eng.parties;
  Gen gen{s, p, wide ? s.below(8) : s.size(0, 20), wide ? wide : p.batch ? 1 + s.size(0, 20) : 1};
  gen.many = many;
  gen.step(In, true);
  gen.step(s.coin() ? In : Pub, true);
  gen.step(In, false);
  size_t len = 2 + s.below(most);
  for (size_t i = 0; i < len; i++) {
    gen.step(many && s.coin() ? s.pick({Vec, Join, Split}) : (Op)s.below(kOps), s.coin());
  }
  bool bad = s.chance(1, 4) && gen.misfit();
  c.desc = cat(show(g), p.batch ? " batched" : "", ":");
  for (auto& t : p.steps) {
    c.desc += cat(" ", nm[t.op], t.str ? cat("[", t.d >= 0 ? p.vals[t.d].len : 0, "]") : "");
    if (t.d >= 0 && p.batch) {
      c.desc += cat("x", p.vals[t.d].n);
    }
  }
  c.nontrivial = gen.secure >= 2 && p.steps.size() >= 5;
  c.labelIf(p.batch, "batched");
  c.labelIf(gen.regroup >= 2, "joined or split twice");
  c.labelIf(bad, "operands that do not fit");
  std::vector<Out> out(g.eng.parties);
  runGame<3>(g, c.caseSeed, [&]<int sid>(int me) {
    if (p.batch) {
      out[me] = Exec<true, sid>{p}.run();
    } else {
      out[me] = Exec<false, sid>{p}.run();
    }
  });
  for (int me = 0; me < g.eng.parties; me++) {
    for (auto& t : p.steps) {
      int last = t.op == Split ? t.d + (int)t.sizes.size() : t.op == Vec || t.op == Arr ? t.d + (int)t.more.size() : t.d + 1;
      for (int i = t.d; i < last && !t.bad; i++) {
        auto& w = p.vals[i];
        if (w.secret && me != 0) {
          continue;
        }
        auto what = cat("party ", me, ": value ", i, ", ", nm[t.op], t.str ? " on strings" : "");
        requireEq(out[me].v[i].size(), w.len, what, ": length");
        for (size_t j = 0; j < w.len; j++) {
          requireEq(show(out[me].v[i][j]), show(w.v[j]), what, ", position ", j, t.a >= 0 ? cat(" of ", show(p.vals[t.a].v[std::min(j, p.vals[t.a].len - 1)])) : "");
        }
      }
    }
  }
}
} // namespace
PROPERTY(plaintext, 5000, 120000) {
  go(s, c, genSched(s, {Sched::Plain, Sched::Plain, Sched::NetPlain}, 3, false), 30);
}
// batches of thousands of bits: what goes through in blocks must not show
PROPERTY(wideBatches, 100, 3000) {
  auto g = genSched(s, {Sched::Plain, Sched::Plain, Sched::Lazy, Sched::Eager}, 3, false);
  if (g.k != Sched::Plain) {
    g.eng.e = Eng::Dummy;
  }
  size_t n = s.pick({1000, 1023, 1024, 1025, 2048, 4095, 4097, 5000}) + s.below(3);
  go(s, c, g, 8, n);
}
// one bit against hundreds, hundreds of bits and strings into one
PROPERTY(manyOperands, 160, 3000) {
  auto g = genSched(s, {Sched::Plain, Sched::Plain, Sched::NetPlain, Sched::Lazy, Sched::Eager}, 3, false);
  if (g.k >= Sched::Eager) {
    g.eng.e = Eng::Dummy;
  }
  go(s, c, g, 5, 0, true);
}
PROPERTY(eager, 800, 10000) {
  go(s, c, genSched(s, {Sched::Eager}, 3, false), 15);
}
PROPERTY(lazy, 1200, 15000) {
  auto g = genSched(s, {Sched::Lazy}, 3, false);
  if (g.eng.e > Eng::Product && !s.chance(1, 4)) {
    g.eng.e = Eng::Product;
  }
  go(s, c, g, 25);
}
