// C18: shuffling only reorders, and the order depends on both parties.
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/permuter/DummyPermuterFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/NonShufflerFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShufflerFactory.h"
#include "stdkit.h"
using namespace pbt;
namespace {
namespace pm = msl::permuter;
namespace sh = msl::shuffler;
namespace eu = fbpcf::engine::util;
// creates generators from fixed keys
struct KeyedPrg final : eu::IPrgFactory {
  uint64_t key;
  explicit KeyedPrg(uint64_t k) : key(k) {}
  std::unique_ptr<eu::IPrg> create(__m128i) const override {
    return eu::AesPrgFactory(256).create(_mm_set_epi64x(key, ++calls));
  }
  mutable uint64_t calls = 0;
};
enum class Kind { Waksman, Dummy, Non };
template <typename T, int sid>
std::unique_ptr<sh::IShuffler<Sec<T, sid>>> make(Kind k, int me, std::unique_ptr<eu::IPrgFactory> prg, bool flip = false) {
  using B = Sec<T, sid>;
  int a = flip ? 1 - me : me;
  if (k == Kind::Non) {
    return sh::insecure::NonShufflerFactory<B>().create();
  }
  std::unique_ptr<pm::IPermuterFactory<B>> f;
  if (k == Kind::Dummy) {
    if constexpr (!std::is_same_v<T, std::vector<bool>>) {
      f = std::make_unique<pm::insecure::DummyPermuterFactory<T, sid>>(a, 1 - a);
    }
  } else {
    f = std::make_unique<pm::AsWaksmanPermuterFactory<T, sid>>(a, 1 - a);
  }
  return sh::PermuteBasedShufflerFactory<B>(a, 1 - a, std::move(f), std::move(prg)).create();
}
template <typename F>
void withType(Src& s, F&& f) {
  switch (s.below(6)) {
    case 0: return f(std::type_identity<bool>{}, "bit");
    case 1: return f(std::type_identity<uint32_t>{}, "uint32");
    case 2:
    case 3: return f(std::type_identity<std::vector<bool>>{}, "string");
    case 4: return f(std::type_identity<std::pair<uint32_t, bool>>{}, "uint32+bit");
    default: return f(std::type_identity<Intp<true, 13>>{}, "int13");
  }
}
void go(Src& s, Ctx& c, const SchedCfg& g, size_t most, size_t least = 0) {
  size_t n = least ? s.range(least, most) : s.chance(1, 4) ? 1 + s.below(4) : s.sizeUpTo(most);
  c.labelIf(n > 255, "more than 255 records");
  bool sysPrg = s.coin();
  uint64_t k0 = s.u64(), k1 = s.u64();
  int times = 1 + (s.chance(1, 4) ? 1 : 0);
  withType(s, [&]<typename T>(std::type_identity<T>, const char* what) {
    Kind kind = s.chance(1, 10) ? Kind::Non : s.chance(1, 8) && !std::is_same_v<T, std::vector<bool>> ? Kind::Dummy : Kind::Waksman;
    size_t len = s.pick({1, 3, 20}), w = widthOf(std::type_identity<T>{}, len);
    Rows src = genRows(s, w, n);
    int from = s.below(2);
    c.desc = cat(show(g), kind == Kind::Non ? " non-shuffler " : kind == Kind::Dummy ? " dummy " : " ", what, "/", w, " n ", n, " times ", times, " ", list(columns(src)).substr(0, 300));
    auto sorted = columns(src);
    std::sort(sorted.begin(), sorted.end());
    c.nontrivial = n >= 3 && sorted.front() != sorted.back();
    c.labelIf(std::adjacent_find(sorted.begin(), sorted.end()) != sorted.end(), "equal records");
    c.labelIf(n <= 3, "n <= 3");
    Rows seen;
    runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
      std::unique_ptr<eu::IPrgFactory> prg;
      if (sysPrg) {
        prg = std::make_unique<eu::AesPrgFactory>(256);
      } else {
        prg = std::make_unique<KeyedPrg>(me ? k1 : k0);
      }
      auto q = make<T, sid>(kind, me, std::move(prg));
      auto x = enter<T, sid>(src, from, len);
      for (int t = 0; t < times; t++) {
        x = q->shuffle(x, n);
        auto got = openAll<sid>(x, t % 2);
        if (me == t % 2) {
          requireEq(got.size(), w, "bits per record");
          auto a = columns(got);
          std::sort(a.begin(), a.end());
          requireEq(list(a), list(sorted), "records after shuffle ", t);
          if (kind == Kind::Non) {
            require(got == src, "the non-shuffler reordered");
          }
        }
      }
    });
  });
}
PROPERTY(networked, 500, 15000) {
  go(s, c, genSched(s, {Sched::NetPlain}, 2, false), 120);
}
PROPERTY(longer, 12, 200) {
  go(s, c, genSched(s, {Sched::NetPlain}, 2, false), 1100, 250);
}
PROPERTY(eager, 200, 6000) {
  go(s, c, genSched(s, {Sched::Eager}, 2, false), 30);
}
PROPERTY(lazy, 200, 6000) {
  go(s, c, genSched(s, {Sched::Lazy}, 2, false), 50);
}
// Same records, other randomness: a change on either side alone changes the order.
PROPERTY(bothParties, 80, 1500) {
  auto g = genSched(s, {Sched::NetPlain, Sched::Eager, Sched::Lazy}, 2, false);
  size_t n = 20 + s.below(30); // 20! orders
  bool str = s.coin();
  uint64_t a = s.u64(), b = s.u64(), a2 = s.u64(), b2 = s.u64();
  a2 += a2 == a;
  b2 += b2 == b;
  Rows src(8, std::vector<bool>(n));
  for (size_t i = 0; i < 8; i++) {
    for (size_t j = 0; j < n; j++) {
      src[i][j] = (j >> i) & 1;
    }
  }
  c.desc = cat(show(g), " n ", n, str ? " strings" : " numbers", " keys ", a, "/", a2, " ", b, "/", b2);
  c.nontrivial = true;
  auto order = [&](uint64_t k0, uint64_t k1) {
    Rows out;
    auto run = [&]<typename T>(std::type_identity<T>) {
      runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
        auto q = make<T, sid>(Kind::Waksman, me, std::make_unique<KeyedPrg>(me ? k1 : k0));
        auto got = openAll<sid>(q->shuffle(enter<T, sid>(src, 0, 8), n), 0);
        if (me == 0) {
          out = got;
        }
      });
    };
    str ? run(std::type_identity<std::vector<bool>>{}) : run(std::type_identity<Intp<false, 8>>{});
    return list(columns(out));
  };
  auto base = order(a, b);
  requireEq(order(a, b), base, "the same randomness gave another order");
  require(base != list(columns(src)), "nothing moved");
  require(order(a2, b) != base, "the order does not depend on party 0's randomness");
  require(order(a, b2) != base, "the order does not depend on party 1's randomness");
}
// Every shuffle gets an order of its own: by one shuffler, by shufflers of one factory and by shufflers of different
// factories, also when the other party's randomness stays the same.
PROPERTY(freshOrders, 60, 1200) {
  auto g = genSched(s, {Sched::NetPlain, Sched::Eager, Sched::Lazy}, 2, false);
  size_t n = 20 + s.below(20);
  int still = s.range(-1, 1);
  uint64_t k = s.u64();
  size_t buffer = s.pick({1, 16, 256, 4096});
  std::vector<int> how; // 0: the same shuffler, 1: the same factory, 2: a new factory
  for (size_t i = 1 + s.below(3); i > 0; i--) {
    how.push_back(still < 0 ? s.below(3) : 2);
  }
  using T = Intp<false, 8>;
  Rows src(8, std::vector<bool>(n));
  for (size_t i = 0; i < 8; i++) {
    for (size_t j = 0; j < n; j++) {
      src[i][j] = (j >> i) & 1;
    }
  }
  c.desc = cat(show(g), " n ", n, " fixed ", still, " again: ", list(how));
  c.nontrivial = true;
  std::vector<std::string> orders;
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    using B = Sec<T, sid>;
    std::unique_ptr<sh::PermuteBasedShufflerFactory<B>> f;
    std::unique_ptr<sh::IShuffler<B>> q;
    auto fresh = [&](int h) {
      if (h == 2) {
        std::unique_ptr<eu::IPrgFactory> prg;
        if (me == still) {
          prg = std::make_unique<KeyedPrg>(k);
        } else {
          prg = std::make_unique<eu::AesPrgFactory>(buffer);
        }
        f = std::make_unique<sh::PermuteBasedShufflerFactory<B>>(
            me, 1 - me, std::make_unique<pm::AsWaksmanPermuterFactory<T, sid>>(me, 1 - me), std::move(prg));
      }
      if (h) {
        q = f->create();
      }
    };
    auto x = enter<T, sid>(src, 0, 8);
    fresh(2);
    for (size_t i = 0;; i++) {
      auto got = openAll<sid>(q->shuffle(x, n), 0);
      if (me == 0) {
        orders.push_back(list(columns(got)));
      }
      if (i == how.size()) {
        break;
      }
      fresh(how[i]);
    }
  });
  for (size_t i = 0; i < orders.size(); i++) {
    for (size_t j = 0; j < i; j++) {
      require(orders[i] != orders[j], "shuffles ", j, " and ", i, " gave the same order");
    }
  }
}
// Every order of few records comes up.
PROPERTY(everyOrder, 6, 60) {
  SchedCfg g;
  g.k = Sched::NetPlain;
  g.eng.parties = 2;
  size_t n = s.range(2, 3), orders = n == 2 ? 2 : 6, tries = n == 2 ? 40 : 150;
  bool still = s.coin(); // one party's generator always the same
  uint64_t k = s.u64();
  Rng r = s.rng();
  std::vector<uint64_t> keys(tries);
  for (auto& x : keys) {
    x = r.u64();
  }
  int fixed = s.below(2);
  c.desc = cat(n, " records, ", tries, " shuffles", still ? cat(", party ", fixed, " fixed") : "");
  c.nontrivial = true;
  Rows src(2, std::vector<bool>(n));
  for (size_t j = 0; j < n; j++) {
    src[0][j] = j & 1;
    src[1][j] = j >> 1;
  }
  std::map<std::string, int> seen;
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    using T = std::pair<bool, bool>;
    for (size_t t = 0; t < tries; t++) {
      uint64_t key = still && me == fixed ? k : keys[t] + me * 77;
      auto q = make<T, sid>(Kind::Waksman, me, std::make_unique<KeyedPrg>(key));
      auto got = openAll<sid>(q->shuffle(enter<T, sid>(src, 0, 2), n), 0);
      if (me == 0) {
        seen[list(columns(got))]++;
      }
    }
  });
  requireEq(seen.size(), orders, "different orders seen in ", tries, " shuffles");
}
} // namespace
