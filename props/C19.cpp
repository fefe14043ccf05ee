// C19: compaction keeps exactly the labelled records.
#include "fbpcf/mpc_std_lib/compactor/DummyCompactorFactory.h"
#include "fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactorFactory.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/permuter/DummyPermuterFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/NonShufflerFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShufflerFactory.h"
#include "stdkit.h"
using namespace pbt;
namespace {
namespace cp = msl::compactor;
namespace sh = msl::shuffler;
namespace pm = msl::permuter;
enum class Kind { Shuffle, NonShuffle, Dummy };
template <typename T, int sid>
std::unique_ptr<cp::ICompactor<Sec<T, sid>, Sec<bool, sid>>> make(Kind k, int me) {
  if constexpr (!std::is_same_v<T, std::vector<bool>>) {
    if (k == Kind::Dummy) {
      return cp::insecure::DummyCompactorFactory<T, bool, sid>(me, 1 - me).create();
    }
  }
  using P = std::pair<T, bool>;
  using B = Sec<P, sid>;
  std::unique_ptr<sh::IShufflerFactory<B>> f;
  if (k == Kind::NonShuffle) {
    f = std::make_unique<sh::insecure::NonShufflerFactory<B>>();
  } else {
    f = std::make_unique<sh::PermuteBasedShufflerFactory<B>>(
        me, 1 - me, std::make_unique<pm::AsWaksmanPermuterFactory<P, sid>>(me, 1 - me),
        std::make_unique<fbpcf::engine::util::AesPrgFactory>(256));
  }
  return cp::ShuffleBasedCompactorFactory<T, bool, sid>(me, 1 - me, std::move(f)).create();
}
template <typename F>
void withType(Src& s, F&& f) {
  switch (s.below(6)) {
    case 0: return f(std::type_identity<uint32_t>{}, "uint32");
    case 1: return f(std::type_identity<std::vector<bool>>{}, "string");
    case 2: return f(std::type_identity<std::pair<uint32_t, bool>>{}, "uint32+bit");
    case 3: return f(std::type_identity<bool>{}, "bit");
    case 4: return f(std::type_identity<Intp<false, 64>>{}, "uint64");
    default: return f(std::type_identity<Intp<true, 13>>{}, "int13");
  }
}
void go(Src& s, Ctx& c, const SchedCfg& g, size_t most, size_t least = 0) {
  size_t n = least ? s.range(least, most) : s.chance(1, 4) ? 1 + s.below(4) : s.sizeUpTo(most);
  c.labelIf(n > 255, "more than 255 records");
  std::vector<bool> label(n);
  int mode = s.below(5); // none, all, one, some
  if (mode == 1) {
    label.assign(n, true);
  } else if (mode == 2) {
    label[s.below(n)] = true;
  } else if (mode > 2) {
    label = s.bits(n);
  }
  size_t want = std::count(label.begin(), label.end(), true);
  withType(s, [&]<typename T>(std::type_identity<T>, const char* what) {
    Kind kind = s.chance(1, 8) ? Kind::NonShuffle : Kind::Shuffle;
    if (s.chance(1, 5) && !std::is_same_v<T, std::vector<bool>> && (want || g.k == Sched::NetPlain)) {
      kind = Kind::Dummy; // real engines take no empty list of private inputs
    }
    size_t len = s.pick({1, 3, 20}), w = widthOf(std::type_identity<T>{}, len);
    Rows src = genRows(s, w, n);
    int from = s.below(2), to = s.below(2);
    bool reject = s.chance(1, 12) && kind != Kind::Dummy;
    c.desc = cat(show(g), kind == Kind::Dummy ? " dummy " : kind == Kind::NonShuffle ? " non-shuffled " : " ", what, "/", w, " n ", n, " labels ",
                 list(label), reject ? " size not to be revealed" : "", " ", list(columns(src)).substr(0, 300));
    c.nontrivial = !reject && (n >= 3 && want > 0 && want < n || want == 0 || want == n);
    c.labelIf(want == 0, "none labelled");
    c.labelIf(want == n, "all labelled");
    c.labelIf(want == 1 && n > 1, "one labelled");
    c.labelIf(reject, "size must not be revealed");
    std::vector<std::string> expect;
    for (size_t j = 0; j < n; j++) {
      if (label[j]) {
        expect.push_back(column(src, j));
      }
    }
    if (kind != Kind::NonShuffle) {
      std::sort(expect.begin(), expect.end());
    }
    runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
      auto q = make<T, sid>(kind, me);
      auto x = enter<T, sid>(src, from, len);
      auto l = enter<bool, sid>({label}, 1 - from, 1);
      if (reject) {
        requireThrows<std::runtime_error>([&] { q->compaction(x, l, n, false); }, "compaction that may not reveal the size");
        return;
      }
      auto [rs, rl] = q->compaction(x, l, n, true);
      auto got = openAll<sid>(rs, to);
      auto gotL = openAll<sid>(rl, to);
      if (me == to) {
        requireEq(got.size(), w, "bits per record");
        auto a = columns(got);
        if (kind != Kind::NonShuffle) {
          std::sort(a.begin(), a.end());
        }
        requireEq(list(a), list(expect), "records kept");
        requireEq(list(gotL.at(0)), list(std::vector<bool>(want, true)), "labels of the records kept");
      }
      // the originals are untouched
      if (me == to) {
        auto again = openAll<sid>(x, to);
        require(again == src, "the source list changed");
      } else {
        openAll<sid>(x, to);
      }
    });
  });
}
PROPERTY(networked, 500, 15000) {
  go(s, c, genSched(s, {Sched::NetPlain}, 2, false), 100);
}
PROPERTY(longer, 12, 200) {
  go(s, c, genSched(s, {Sched::NetPlain}, 2, false), 1100, 250);
}
PROPERTY(eager, 200, 6000) {
  go(s, c, genSched(s, {Sched::Eager}, 2, false), 30);
}
PROPERTY(lazy, 200, 6000) {
  go(s, c, genSched(s, {Sched::Lazy}, 2, false), 50);
}
} // namespace
