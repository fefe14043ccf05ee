// C27: union maps become exactly the intersection, aligned for both parties.
#include "stdkit.h"
#include "fbpcf/mpc_std_lib/unified_data_process/adapter/AdapterFactory.h"
using namespace pbt;
namespace {
namespace ad = msl::unified_data_process::adapter;
enum class Kind { Waksman, Insecure, None };
const char* kindName[] = {"Waksman shuffle", "stand-in shuffle", "no shuffle"};
template <int sid>
std::unique_ptr<ad::IAdapter> make(Kind k, bool zero, int me) {
  switch (k) {
    case Kind::Waksman: return ad::getAdapterFactoryWithAsWaksmanBasedShuffler<sid>(zero, me, 1 - me)->create();
    case Kind::Insecure: return ad::getAdapterFactoryWithInsecureShuffler<sid>(zero, me, 1 - me)->create();
    default: return ad::getAdapterFactoryWithNonShuffler<sid>(zero, me, 1 - me)->create();
  }
}
using Map = std::vector<int32_t>;
struct Union {
  std::array<Map, 2> map;
  std::set<std::pair<int, int>> pairs;
};
Union genUnion(Src& s, Ctx& c, size_t most) {
  Union u;
  size_t n = s.chance(1, 4) ? 1 + s.below(5) : s.sizeUpTo(most);
  int mode = s.below(5); // none matched, all, one, some
  std::vector<int> owner(n); // 0, 1, or 2 for both
  for (auto& x : owner) {
    x = mode == 1 ? 2 : mode <= 2 ? s.below(2) : s.below(3);
  }
  if (mode == 2) {
    owner[s.below(n)] = 2;
  }
  for (int p = 0; p < 2; p++) {
    auto rows = s.permutation(n); // numbers of p's rows, spread over what is allowed
    bool dense = s.coin();
    std::vector<size_t> have;
    for (size_t i = 0; i < n; i++) {
      if (owner[i] == p || owner[i] == 2) {
        have.push_back(i);
      }
    }
    if (dense) { // 0 .. count-1, in any order
      auto q = s.permutation(have.size());
      std::copy(q.begin(), q.end(), rows.begin());
    }
    u.map[p].assign(n, -1);
    for (size_t i = 0; i < have.size(); i++) {
      u.map[p][have[i]] = rows[i];
    }
  }
  for (size_t i = 0; i < n; i++) {
    if (owner[i] == 2) {
      u.pairs.insert({u.map[0][i], u.map[1][i]});
    }
  }
  c.desc += cat("; ", n, ": ", list(u.map[0]), " ", list(u.map[1]));
  c.nontrivial |= n >= 3;
  c.labelIf(u.pairs.empty(), "none matched");
  c.labelIf(u.pairs.size() == n, "all matched");
  c.labelIf(n == 1, "a union of one");
  c.labelIf((n & (n - 1)) == 0, "a power of two");
  return u;
}
void go(Src& s, Ctx& c, const SchedCfg& g, size_t most) {
  auto kind = s.pick({Kind::Waksman, Kind::Waksman, Kind::Insecure, Kind::None});
  bool swapped = s.chance(1, 3);
  c.desc = cat(show(g), " ", kindName[(int)kind], swapped ? " roles swapped" : "");
  c.label(kindName[(int)kind]);
  c.label(name(g.k));
  std::vector<Union> us;
  for (size_t k = 1 + (s.chance(1, 4) ? 1 : 0); k > 0; k--) {
    us.push_back(genUnion(s, c, most));
  }
  c.labelIf(us.size() > 1, "one adapter twice");
  std::vector<std::array<Map, 2>> got(us.size());
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto a = make<sid>(kind, (me == 0) != swapped, me);
    for (size_t k = 0; k < us.size(); k++) {
      got[k][me] = a->adapt(us[k].map[me]);
    }
  });
  for (size_t k = 0; k < us.size(); k++) {
    auto& [mine, theirs] = got[k]; // what party 0 got are party 1's rows
    requireEq(mine.size(), us[k].pairs.size(), "rows in party 0's result");
    requireEq(theirs.size(), us[k].pairs.size(), "rows in party 1's result");
    std::set<std::pair<int, int>> pairs;
    for (size_t i = 0; i < mine.size(); i++) {
      pairs.insert({theirs[i], mine[i]});
    }
    require(pairs == us[k].pairs, cat("union ", k, ": party 0 got ", list(mine), ", party 1 got ", list(theirs)));
  }
}
PROPERTY(intersections, 200, 9000) {
  auto g = genSched(s, {Sched::NetPlain, Sched::NetPlain, Sched::Lazy, Sched::Eager}, 2, false);
  if (g.eng.e != Eng::Dummy && g.k != Sched::NetPlain) {
    g.eng.e = Eng::Dummy;
  }
  go(s, c, g, s.chance(1, 16) ? 600 : s.chance(1, 10) ? 140 : s.chance(1, 4) ? 70 : 24);
}
PROPERTY(long_maps, 4, 80) {
  SchedCfg g;
  g.k = Sched::NetPlain;
  g.eng.parties = 2;
  go(s, c, g, 5000);
}
PROPERTY(intersections_over_tuples, 16, 600) {
  auto g = genSched(s, {Sched::Lazy, Sched::Eager}, 2, false);
  if (g.eng.e == Eng::Dummy || g.eng.e == Eng::Iknp || g.eng.e == Eng::Ferret) {
    g.eng.e = Eng::Dealer;
  }
  g.eng.buffer = 1024;
  go(s, c, g, 9);
}
PROPERTY(rejected_maps, 400, 10000) {
  size_t n = 1 + s.below(12);
  auto p = s.permutation(n);
  Map m(p.begin(), p.end());
  for (auto& x : m) {
    if (s.chance(1, 4)) {
      x = -1;
    }
  }
  int how = s.below(4);
  if (how == 0) {
    m.clear();
  } else if (how == 1 && n > 1) {
    size_t i = s.below(n), j = (i + 1 + s.below(n - 1)) % n;
    m[i] = m[j] = s.below(n);
  } else if (how == 2) {
    m[s.below(n)] = s.coin() ? (int64_t)n : s.range(n, INT32_MAX);
  } else {
    how = 3;
    m[s.below(n)] = s.coin() ? -2 : s.range(INT32_MIN, -2);
  }
  auto kind = s.pick({Kind::Waksman, Kind::Insecure, Kind::None});
  c.desc = cat(kindName[(int)kind], " ", list(m));
  c.nontrivial = true;
  c.label(std::array{"empty", "an index twice", "an index too large", "a negative index"}[how]);
  SchedCfg g;
  g.k = Sched::NetPlain;
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto a = make<sid>(kind, me == 0, me);
    requireThrows<std::runtime_error>([&] { a->adapt(m); }, "adapting it");
  });
}
} // namespace
