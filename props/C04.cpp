// C04: allocators behave as a map from live handles to values.
#include <unordered_map>
#include <unordered_set>
#include "fbpcf/scheduler/UnorderedMapAllocator.h"
#include "fbpcf/scheduler/VectorArenaAllocator.h"
#include "pbt.h"
using namespace pbt;
namespace fs = fbpcf::scheduler;

struct Rec { // like the records the wire keepers store
  std::vector<bool> v;
  uint32_t level = 0, refs = 0;
  bool operator==(const Rec&) const = default;
};
static std::ostream& operator<<(std::ostream& o, const Rec& r) {
  return o << r.v.size() << "/" << r.level << "/" << r.refs;
}
static void make(Rng& r, uint64_t& x) {
  x = r.u64();
}
static void make(Rng& r, std::string& x) {
  x.assign(r.below(40), 'a' + r.below(26));
}
static void make(Rng& r, Rec& x) {
  x.v.resize(r.below(20));
  for (size_t i = 0; i < x.v.size(); i++) {
    x.v[i] = r.bit();
  }
  x.level = r.below(100);
  x.refs = r.below(5);
}
template <typename T>
static void history(
    fs::IAllocator<T>& al,
    bool safe,
    Src& s,
    Ctx& c,
    size_t maxBurst,
    size_t crowd) {
  std::unordered_map<uint64_t, T> model;
  std::vector<uint64_t> live, dead;
  std::unordered_set<uint64_t> everFreed;
  size_t phases = 2 + s.size(0, 30), peak = 0, reused = 0, afterFree = 0, ops = 0;
  requireEq(al.isSafe(), safe, "isSafe");
  auto readAll = [&](const char* when) {
    for (auto& [id, v] : model) {
      requireEq(al.get(id), v, when, ": handle ", id);
    }
  };
  auto rejected = [&](uint64_t id, bool write, const std::string& what) {
    bool threw = false;
    try {
      if (write) {
        al.getWritableReference(id);
      } else {
        al.get(id);
      }
    } catch (const std::exception&) {
      threw = true;
    }
    require(threw, what, " handle ", id, " was accepted");
  };
  for (size_t ph = 0; ph < phases; ph++) {
    int op = ph == 0 && crowd ? 0 : s.below(7);
    size_t n = ph == 0 && crowd ? crowd : s.chance(1, 6) ? 1 + s.below(maxBurst) : 1 + s.below(12);
    Rng r = s.rng();
    c.desc += std::string(1, "AAFWGDL"[op]) + cat(n, " ");
    switch (op) {
      case 0:
      case 1: // allocate
        for (size_t i = 0; i < n; i++) {
          T v;
          make(r, v);
          T copy = v;
          auto id = al.allocate(std::move(copy));
          require(!model.count(id), "live handle ", id, " was handed out again");
          reused += everFreed.count(id);
          afterFree += !everFreed.empty();
          everFreed.erase(id);
          model[id] = v;
          live.push_back(id);
          if (r.below(8) == 0) {
            requireEq(al.get(id), v, "just allocated handle ", id);
          }
        }
        break;
      case 2: // free, last-in or anywhere
      case 6:
        for (size_t i = 0; i < n && !live.empty(); i++) {
          size_t k = op == 6 ? live.size() - 1 : r.below(live.size());
          auto id = live[k];
          live[k] = live.back();
          live.pop_back();
          model.erase(id);
          al.free(id);
          everFreed.insert(id);
          dead.push_back(id);
        }
        break;
      case 3: // write
        for (size_t i = 0; i < n && !live.empty(); i++) {
          auto id = live[r.below(live.size())];
          T v;
          make(r, v);
          al.getWritableReference(id) = v;
          model[id] = v;
        }
        break;
      case 4: // read
        for (size_t i = 0; i < n && !live.empty(); i++) {
          auto id = live[r.below(live.size())];
          requireEq(al.get(id), model[id], "handle ", id);
          requireEq(
              al.getWritableReference(id), model[id], "writable handle ", id);
        }
        break;
      case 5: // handles that are not live
        if (safe) {
          for (size_t i = 0; i < n && !dead.empty(); i++) {
            auto id = dead[r.below(dead.size())];
            if (!model.count(id)) {
              rejected(id, r.bit(), "freed");
            }
          }
          uint64_t never = 0;
          for (auto& [id, v] : model) {
            never = std::max(never, id);
          }
          for (auto id : dead) {
            never = std::max(never, id);
          }
          never += 1 + r.below(5000);
          rejected(never, r.bit(), "never allocated");
        }
        break;
    }
    ops += n;
    peak = std::max(peak, model.size());
    if (s.chance(1, 4)) {
      readAll("mid-way");
    }
  }
  readAll("in the end");
  for (auto id : live) {
    al.free(id);
    if (safe) {
      rejected(id, false, "freed at the end");
    }
  }
  c.nontrivial = afterFree >= 2 && peak >= 3;
  c.labelIf(peak > 1024, "beyond one chunk");
  c.labelIf(peak > 2048, "beyond two chunks");
  c.labelIf(peak > 65536, "more than 65536 at once");
  c.labelIf(reused > 0, "handles reused");
}
template <typename T>
static void kinds(Src& s, Ctx& c, size_t maxBurst, size_t crowd = 0) {
  switch (s.below(3)) {
    case 0: {
      c.desc = "arena(unchecked) ";
      fs::VectorArenaAllocator<T, true> a;
      return history<T>(a, false, s, c, maxBurst, crowd);
    }
    case 1: {
      c.desc = "arena(checked) ";
      fs::VectorArenaAllocator<T, false> a;
      return history<T>(a, true, s, c, maxBurst, crowd);
    }
    default: {
      c.desc = "map ";
      fs::UnorderedMapAllocator<T> a;
      return history<T>(a, true, s, c, maxBurst, crowd);
    }
  }
}
PROPERTY(words, 1500, 60000) {
  kinds<uint64_t>(s, c, 2500);
}
PROPERTY(strings, 600, 30000) {
  kinds<std::string>(s, c, 1500);
}
PROPERTY(records, 1000, 50000) {
  kinds<Rec>(s, c, 1500);
}
// Far more entries than any chunk or narrow index holds.
PROPERTY(crowded, 16, 600) {
  kinds<uint64_t>(s, c, 60000, 60000 + s.below(80000));
}
