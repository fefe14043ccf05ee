// C17: oblivious permutation applies exactly the secret order.
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/permuter/DummyPermuterFactory.h"
#include "stdkit.h"
using namespace pbt;
namespace {
namespace pm = msl::permuter;
enum class Kind { Waksman, Dummy };
std::vector<uint32_t> genOrder(Src& s, size_t n) {
  std::vector<uint32_t> o(n);
  for (size_t i = 0; i < n; i++) {
    o[i] = i;
  }
  switch (s.below(6)) {
    case 0: break; // identity
    case 1: std::reverse(o.begin(), o.end()); break;
    case 2: std::rotate(o.begin(), o.begin() + s.below(n), o.end()); break;
    case 3: { // a few swaps
      for (int k = 0; k < 3; k++) {
        std::swap(o[s.below(n)], o[s.below(n)]);
      }
      break;
    }
    default: {
      auto p = s.permutation(n);
      o.assign(p.begin(), p.end());
    }
  }
  return o;
}
struct Round {
  int owner;
  std::vector<uint32_t> order;
};
template <typename T>
void permuteCase(Src& s, Ctx& c, const SchedCfg& g, size_t n, Kind kind, const char* what) {
  size_t len = n < 40 && s.chance(1, 6) ? 60 + s.below(140) : s.pick({1, 2, 7, 40}), w = widthOf(std::type_identity<T>{}, len);
  Rows src = genRows(s, w, n), want = src;
  int from = s.below(g.eng.parties);
  std::vector<Round> rounds(1 + (s.chance(1, 4) ? 1 : 0));
  for (auto& r : rounds) {
    r.owner = s.below(g.eng.parties);
    r.order = genOrder(s, n);
    want = pickRows(want, r.order);
  }
  c.desc = cat(show(g), kind == Kind::Dummy ? " dummy " : " ", what, "/", w, " n ", n);
  for (auto& r : rounds) {
    c.desc += cat(" party ", r.owner, n <= 40 ? list(r.order) : std::string("[...]"));
  }
  bool moved = want != src;
  c.nontrivial = n >= 3 && moved;
  c.labelIf(n <= 5, "n <= 5");
  c.labelIf((n & (n - 1)) && n > 5, "not a power of two");
  c.labelIf(n > 64, "more than 64 records");
  std::vector<std::vector<Rows>> share(rounds.size() + 1, std::vector<Rows>(2));
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    using B = Sec<T, sid>;
    std::unique_ptr<pm::IPermuterFactory<B>> f;
    if (kind == Kind::Dummy) {
      f = std::make_unique<pm::insecure::DummyPermuterFactory<T, sid>>(me, 1 - me);
    } else {
      f = std::make_unique<pm::AsWaksmanPermuterFactory<T, sid>>(me, 1 - me);
    }
    auto p = f->create();
    auto x = enter<T, sid>(src, from, len);
    share[0][me] = sharesOf<sid>(x);
    for (size_t k = 0; k < rounds.size(); k++) {
      auto& r = rounds[k];
      x = r.owner == me ? p->permute(x, n, r.order) : p->permute(x, n);
      share[k + 1][me] = sharesOf<sid>(x);
    }
    for (int to = 0; to < g.eng.parties; to++) {
      auto got = openAll<sid>(x, to);
      if (to == me) {
        requireEq(got.size(), w, "bits per record");
        for (auto& b : got) {
          requireEq(b.size(), n, "number of records");
        }
        for (size_t j = 0; j < n; j++) {
          requireEq(column(got, j), column(want, j), "record ", j);
        }
      }
    }
  });
  // a record's new share tells the other party nothing about where it came from
  if (g.eng.parties == 2 && g.k >= Sched::Eager && g.eng.e != Eng::Dummy && kind == Kind::Waksman && w >= 32 && n >= 2) {
    c.label("fresh shares checked");
    for (size_t k = 0; k < rounds.size(); k++) {
      int other = 1 - rounds[k].owner;
      auto before = columns(share[k][other]), after = columns(share[k + 1][other]);
      std::set<std::string> old;
      std::map<std::string, int> seen;
      for (auto& b : before) {
        if (b.find('1') != b.npos) { // the inputs of one party are zero shares of the other
          old.insert(b);
        }
      }
      for (size_t j = 0; j < after.size(); j++) {
        require(!old.count(after[j]), "party ", other, "'s share of record ", j, " is one of the shares it held before");
      }
    }
  }
}
template <typename F>
void withType(Src& s, F&& f) {
  switch (s.below(6)) {
    case 0: return f(std::type_identity<bool>{}, "bit");
    case 1: return f(std::type_identity<uint32_t>{}, "uint32");
    case 2:
    case 3: return f(std::type_identity<std::vector<bool>>{}, "string");
    case 4: return f(std::type_identity<std::pair<uint32_t, bool>>{}, "uint32+bit");
    default: return f(std::type_identity<Intp<true, 13>>{}, "int13");
  }
}
size_t genLen(Src& s, size_t most) {
  switch (s.below(4)) {
    case 0: return 1 + s.below(5);
    case 1: { // around powers of two
      size_t k = 1ull << (1 + s.below(7));
      return std::min<size_t>(most, k - 1 + s.below(3));
    }
    default: return 1 + s.below(most);
  }
}
void go(Src& s, Ctx& c, const SchedCfg& g, size_t most) {
  size_t n = genLen(s, most);
  withType(s, [&]<typename T>(std::type_identity<T>, const char* what) {
    permuteCase<T>(s, c, g, n, Kind::Waksman, what);
  });
}
PROPERTY(plain, 700, 40000) {
  go(s, c, genSched(s, {Sched::Plain, Sched::NetPlain}, 2, false), 150);
}
size_t genLong(Src& s, size_t most) { // more records than a byte counts
  if (s.coin()) {
    size_t k = 1ull << (8 + s.below(4));
    return std::min(most, k - 1 + s.below(3));
  }
  return 151 + s.below(most - 150);
}
PROPERTY(longer, 24, 400) {
  auto g = genSched(s, {Sched::Plain, Sched::NetPlain}, 2, false);
  size_t n = genLong(s, 1100);
  c.label("more than 150 records");
  withType(s, [&]<typename T>(std::type_identity<T>, const char* what) {
    permuteCase<T>(s, c, g, n, Kind::Waksman, what);
  });
}
PROPERTY(longest, 1, 6) { // more than 16 bits count
  auto g = genSched(s, {Sched::Plain}, 2, false);
  size_t n = 65536 + s.below(3000);
  permuteCase<bool>(s, c, g, n, Kind::Waksman, "bit");
}
PROPERTY(eager, 250, 8000) {
  auto g = genSched(s, {Sched::Eager}, 2, false);
  go(s, c, g, 40);
}
PROPERTY(lazy, 250, 8000) {
  auto g = genSched(s, {Sched::Lazy}, 2, false);
  go(s, c, g, 60);
}
PROPERTY(dummy, 150, 3000) {
  auto g = genSched(s, {Sched::Plain, Sched::NetPlain, Sched::Eager, Sched::Lazy}, 2, false);
  size_t n = genLen(s, 30);
  if (s.coin()) {
    permuteCase<uint32_t>(s, c, g, n, Kind::Dummy, "uint32");
  } else {
    permuteCase<bool>(s, c, g, n, Kind::Dummy, "bit");
  }
}
// What each swap of the network does is fixed by the parameters; routing them by
// hand must give the order.  Reaches lengths the protocol is too slow for.
std::vector<uint32_t> route(const std::vector<uint32_t>& in, std::vector<uint32_t> order) {
  size_t n = in.size();
  if (n == 1) {
    return in;
  }
  if (n == 2) {
    return order[0] == 1 ? std::vector<uint32_t>{in[1], in[0]} : in;
  }
  pm::AsWaksmanParameterCalculator calc(order);
  auto first = calc.getFirstSwapConditions(), second = calc.getSecondSwapConditions();
  auto o1 = calc.getFirstSubPermuteOrder(), o2 = calc.getSecondSubPermuteOrder();
  size_t h = n / 2;
  requireEq(first.size(), h, "first layer of ", n);
  requireEq(second.size(), (n - 1) / 2, "last layer of ", n);
  requireEq(o1.size(), h, "upper half of ", n);
  requireEq(o2.size(), n - h, "lower half of ", n);
  std::vector<uint32_t> a(in.begin(), in.begin() + h), b(in.begin() + h, in.end());
  for (size_t i = 0; i < h; i++) {
    if (first[i]) {
      std::swap(a[i], b[i]);
    }
  }
  a = route(a, o1);
  b = route(b, o2);
  for (size_t i = 0; i < (n - 1) / 2; i++) {
    if (second[i]) {
      std::swap(a[i], b[i]);
    }
  }
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
PROPERTY(network, 1500, 60000) {
  size_t n = genLen(s, s.chance(1, 8) ? 3000 : 200);
  if (s.chance(1, 300)) {
    n = 65534 + s.below(2000);
  }
  auto o = genOrder(s, n);
  c.desc = cat("n ", n, n <= 40 ? list(o) : std::string());
  c.nontrivial = n >= 3;
  std::vector<uint32_t> in(n);
  for (size_t i = 0; i < n; i++) {
    in[i] = i;
  }
  auto got = route(in, o);
  for (size_t i = 0; i < n; i++) {
    requireEq(got[i], o[i], "output ", i);
  }
}
PROPERTY(everyOrder, 24, 150) { // all orders of a length up to 5 (6), in one computation
  size_t n = c.caseSeed % 3 == 0 ? 3 : c.caseSeed % 3 == 1 ? 4 : 2;
  n = s.range(1, 5);
  auto g = genSched(s, {Sched::Plain, Sched::NetPlain, Sched::Lazy}, 2, false);
  if (n == 5 && g.k == Sched::Lazy) {
    g.eng.e = Eng::Dummy;
  }
  bool str = s.coin();
  c.desc = cat(show(g), " every order of ", n, str ? " strings" : " numbers");
  c.nontrivial = n >= 3;
  auto all = [&]<typename T>(std::type_identity<T>, size_t w) {
    Rows src(w, std::vector<bool>(n));
    for (size_t i = 0; i < 4; i++) {
      for (size_t j = 0; j < n; j++) {
        src[i][j] = (j >> i) & 1;
      }
    }
    runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
      pm::AsWaksmanPermuter<T, sid> p(me, 1 - me);
      std::vector<uint32_t> o(n);
      for (size_t i = 0; i < n; i++) {
        o[i] = i;
      }
      auto x = enter<T, sid>(src, 0, w);
      int k = 0;
      do {
        int owner = g.eng.parties == 1 ? 0 : k++ % 2;
        auto y = owner == me ? p.permute(x, n, o) : p.permute(x, n);
        auto got = openAll<sid>(y, 0);
        if (me == 0) {
          requireEq(list(columns(got)), list(columns(pickRows(src, o))), "order ", list(o));
        }
      } while (std::next_permutation(o.begin(), o.end()));
    });
  };
  str ? all(std::type_identity<std::vector<bool>>{}, 4) : all(std::type_identity<Intp<false, 8>>{}, 8);
}
PROPERTY(rejected, 1500, 20000) {
  size_t n = s.size(1, 12);
  std::vector<uint32_t> o(s.chance(1, 4) ? s.below(n + 4) : n);
  for (size_t i = 0; i < o.size(); i++) {
    o[i] = i;
  }
  auto p = s.permutation(o.size());
  o.assign(p.begin(), p.end());
  for (size_t k = s.below(3); k && !o.empty(); k--) {
    o[s.below(o.size())] = s.chance(1, 3) ? s.u64() : s.below(n + 2);
  }
  auto sorted = o;
  std::sort(sorted.begin(), sorted.end());
  bool ok = o.size() == n;
  for (size_t i = 0; i < sorted.size(); i++) {
    ok = ok && sorted[i] == i;
  }
  c.desc = cat("n ", n, " order ", list(o), ok ? " fits" : " does not fit");
  c.nontrivial = !ok;
  SchedCfg g;
  g.eng.parties = 1;
  withType(s, [&]<typename T>(std::type_identity<T>, const char* what) {
    c.desc += cat(" ", what);
    size_t w = widthOf(std::type_identity<T>{}, 5);
    Rows src = genRows(s, w, n);
    bool dummy = s.coin() && !std::is_same_v<T, std::vector<bool>>;
    runGame<1>(g, c.caseSeed, [&]<int sid>(int me) {
      if constexpr (sid == 0) {
        auto x = enter<T, sid>(src, 0, 5);
        std::unique_ptr<pm::IPermuter<Sec<T, sid>>> q;
        if (dummy) {
          if constexpr (!std::is_same_v<T, std::vector<bool>>) {
            q = std::make_unique<pm::insecure::DummyPermuter<T, sid>>(0, 1);
          }
        } else {
          q = std::make_unique<pm::AsWaksmanPermuter<T, sid>>(0, 1);
        }
        if (ok) {
          auto got = openAll<sid>(q->permute(x, n, o), 0);
          requireEq(list(columns(got)), list(columns(pickRows(src, o))), "permuted");
        } else {
          requireThrows<std::runtime_error>([&] { q->permute(x, n, o); }, "an order that is not a permutation");
        }
      }
    });
  });
}
} // namespace
