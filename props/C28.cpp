// C28: rows survive serialisation and the way back into secret columns.
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h"
#include "front.h"
using namespace pbt;
namespace {
namespace sz = fbpcf::mpc_std_lib::unified_data_process::serialization;
namespace udp = fbpcf::mpc_std_lib::unified_data_process::data_processor;
template <int sid>
using Def = sz::IColumnDefinition<sid>;
enum Type { Bit = 0, Packed = 1, U32 = 2, U64 = 3, I32 = 4, I64 = 5, U32V = 6, U64V = 7, I32V = 8, I64V = 9 };
const char* typeName[] = {"bit", "packed", "uint32", "uint64", "int32", "int64", "uint32[]", "uint64[]", "int32[]", "int64[]"};
bool wide(int t) {
  return t == U64 || t == I64 || t == U64V || t == I64V;
}
bool isSigned(int t) {
  return t == I32 || t == I64 || t == I32V || t == I64V;
}
struct Column {
  int type;
  std::vector<std::vector<uint64_t>> cells; // [row][element], as two's complement
  // what the library is given
  std::vector<bool> b;
  std::vector<uint32_t> u32;
  std::vector<uint64_t> u64;
  std::vector<int32_t> i32;
  std::vector<int64_t> i64;
  std::vector<std::vector<uint32_t>> u32v;
  std::vector<std::vector<uint64_t>> u64v;
  std::vector<std::vector<int32_t>> i32v;
  std::vector<std::vector<int64_t>> i64v;
  void fill() {
    b.clear(), u32.clear(), u64.clear(), i32.clear(), i64.clear();
    u32v.clear(), u64v.clear(), i32v.clear(), i64v.clear();
    for (auto& r : cells) {
      auto first = r.empty() ? 0 : r[0];
      b.push_back(first & 1);
      u32.push_back(first);
      u64.push_back(first);
      i32.push_back(first);
      i64.push_back(first);
      u32v.emplace_back(r.begin(), r.end());
      u64v.emplace_back(r.begin(), r.end());
      i32v.emplace_back(r.begin(), r.end());
      i64v.emplace_back(r.begin(), r.end());
    }
  }
  template <int sid>
  typename Def<sid>::InputColumnDataType input() {
    switch (type) {
      case Bit: return std::ref(b);
      case U32: return std::ref(u32);
      case U64: return std::ref(u64);
      case I32: return std::ref(i32);
      case I64: return std::ref(i64);
      case U32V: return std::ref(u32v);
      case U64V: return std::ref(u64v);
      case I32V: return std::ref(i32v);
      default: return std::ref(i64v);
    }
  }
  size_t bytes(size_t pad) const {
    return (wide(type) ? 8 : 4) * (type >= U32V ? pad : 1);
  }
};
struct Table {
  std::map<std::string, Column> cols;
  size_t n, pad;
  size_t bits() const {
    size_t k = 0;
    for (auto& [_, c] : cols) {
      k += c.type == Bit;
    }
    return k;
  }
  size_t width() const {
    size_t w = (bits() + 7) / 8;
    for (auto& [_, c] : cols) {
      w += c.type == Bit ? 0 : c.bytes(pad);
    }
    return w;
  }
  template <int sid>
  std::map<std::string, typename Def<sid>::SupportedColumnTypes> schema() const {
    std::map<std::string, typename Def<sid>::SupportedColumnTypes> r;
    for (auto& [k, c] : cols) {
      r[k] = (typename Def<sid>::SupportedColumnTypes)c.type;
    }
    return r;
  }
  template <int sid>
  std::unordered_map<std::string, typename Def<sid>::InputColumnDataType> data() {
    std::unordered_map<std::string, typename Def<sid>::InputColumnDataType> r;
    for (auto& [k, c] : cols) {
      r.emplace(k, c.template input<sid>());
    }
    return r;
  }
};
Table genTable(Src& s, Ctx& c, size_t rows, bool large = false) {
  Table t;
  t.n = 1 + s.below(rows);
  t.pad = s.chance(1, 3) ? 1 : s.below(6);
  size_t n = 1 + s.below(7), bits = s.chance(1, 3) ? s.below(20) : s.below(4);
  bool listed = false;
  if (large) { // in rows, in the length of the lists, or in columns
    int way = s.below(4);
    t.n = way == 0 ? s.range(250, 1200) : way == 1 ? 1 + s.below(5) : 1 + s.below(20);
    t.pad = way == 1 ? (s.chance(1, 3) ? s.range(30, 255) : s.range(256, 600)) : t.pad;
    bits = way == 2 ? s.range(120, 700) : bits;
    n = way == 3 ? s.range(30, 150) : way == 1 ? 3 : n;
    listed = way == 1;
    c.label(std::array{"many rows", "long lists", "many bits", "many columns"}[way]);
  }
  for (size_t i = 0; i < n + bits; i++) {
    // names that sort into any order, so that bits lie between other columns
    std::string name = cat((char)('a' + s.below(26)), s.coin() ? "_" : "", i);
    auto& x = t.cols[name];
    x.type = i < n && listed ? s.pick({U32V, U64V, I32V, I64V}) : i < n ? s.pick({Bit, U32, U64, I32, I64, U32V, U64V, I32V, I64V}) : Bit;
    for (size_t r = 0; r < t.n; r++) {
      std::vector<uint64_t> v(x.type >= U32V ? t.pad : 1);
      for (auto& e : v) {
        e = s.edgyU(x.type == Bit ? 1 : wide(x.type) ? UINT64_MAX : UINT32_MAX);
        if (x.type != Bit && s.chance(1, 6)) { // the sign bit alone, or all but it
          e = wide(x.type) ? 1ull << 63 : 1ull << 31;
          e -= s.below(2);
        }
        if (isSigned(x.type) && !wide(x.type)) {
          e = (uint64_t)(int64_t)(int32_t)e;
        }
      }
      x.cells.push_back(v);
    }
    x.fill();
  }
  c.desc += cat(t.n, " rows, lists of ", t.pad, ":");
  for (auto& [k, x] : t.cols) {
    c.desc += cat(" ", k, ":", typeName[x.type]);
    if (t.n <= 4) {
      c.desc += show(x.cells);
    }
    c.label(typeName[x.type]);
  }
  c.labelIf(t.bits() > 8, "more than eight bits");
  c.labelIf(t.bits() == 8 || t.bits() == 16, "bits fill their bytes");
  return t;
}
template <typename X>
std::vector<uint64_t> opened(X x, int to) {
  auto o = x.openToParty(to);
  auto v = o.getValue();
  std::vector<uint64_t> r;
  for (auto e : v) {
    r.push_back((uint64_t)e);
  }
  return r;
}
// the secret columns are opened to a party and compared
template <int sid>
void compare(
    Table& t,
    std::unordered_map<std::string, typename Def<sid>::DeserializeType> got,
    const std::vector<size_t>& order,
    int me,
    int to) {
  requireEq(got.size(), t.cols.size(), "columns");
  for (auto& [k, c] : t.cols) {
    require(got.count(k), "there is no column " + k);
    auto& x = got.at(k);
    std::vector<std::vector<uint64_t>> cols; // by element
    std::visit(
        [&]<typename X>(X& v) {
          using M = ff::MpcGame<sid>;
          auto typed = [&]<typename E>(E& e) {
            using B = ff::Bit<true, sid, true>;
            bool ok = c.type == Bit ? std::is_same_v<E, B>
                : c.type == U32 || c.type == U32V ? std::is_same_v<E, ff::Int<false, 32, true, sid, true>>
                : c.type == U64 || c.type == U64V ? std::is_same_v<E, ff::Int<false, 64, true, sid, true>>
                : c.type == I32 || c.type == I32V ? std::is_same_v<E, ff::Int<true, 32, true, sid, true>>
                                                  : std::is_same_v<E, ff::Int<true, 64, true, sid, true>>;
            require(ok, cat("column ", k, " has another type than ", typeName[c.type]));
            cols.push_back(opened(e, to));
          };
          if constexpr (requires { v.begin(); }) {
            require(c.type >= U32V, cat("column ", k, " is a list"));
            for (auto& e : v) {
              typed(e);
            }
          } else {
            require(c.type < U32V, cat("column ", k, " is no list"));
            typed(v);
          }
        },
        x);
    requireEq(cols.size(), c.type >= U32V ? t.pad : (size_t)1, "length of the lists of " + k);
    for (size_t e = 0; e < cols.size(); e++) {
      requireEq(cols[e].size(), order.size(), "rows of " + k);
      for (size_t r = 0; me == to && r < order.size(); r++) {
        auto want = c.cells[order[r]][e];
        require(cols[e][r] == want, cat("column ", k, " (", typeName[c.type], ") row ", r, " element ", e, " is ", cols[e][r], ", not ", want));
      }
    }
  }
}
template <int sid>
std::vector<std::vector<unsigned char>> serialized(Table& t, sz::RowStructureDefinition<sid>& d) {
  requireEq(d.getRowSizeBytes(), t.width(), "bytes of a row");
  auto rows = d.serializeDataAsBytesForUDP(t.data<sid>(), t.n);
  requireEq(rows.size(), t.n, "serialised rows");
  for (auto& r : rows) {
    requireEq(r.size(), t.width(), "bytes of a serialised row");
  }
  return rows;
}
void everyCell(Src& s, Ctx& c, bool large) {
  auto g = large ? genSched(s, {Sched::NetPlain, Sched::NetPlain, Sched::Lazy}, 2, false) : genSched(s, {Sched::NetPlain, Sched::Lazy, Sched::Eager}, 2, false);
  g.eng.e = !large && s.chance(1, 4) ? Eng::Dealer : Eng::Dummy;
  c.desc = show(g) + " ";
  auto t = genTable(s, c, s.chance(1, 10) ? 80 : 8, large);
  c.nontrivial = t.cols.size() >= 2;
  c.label(name(g.k));
  int owner = s.below(2), to = s.below(2);
  std::vector<size_t> all(t.n);
  for (size_t i = 0; i < t.n; i++) {
    all[i] = i;
  }
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto mine = t; // the schema is common, only the owner has the cells
    sz::RowStructureDefinition<sid> d(t.schema<sid>(), t.pad);
    std::vector<std::vector<bool>> bits(t.width() * 8, std::vector<bool>(t.n));
    if (me == owner) {
      auto rows = serialized<sid>(mine, d);
      for (size_t i = 0; i < t.n; i++) {
        for (size_t b = 0; b < bits.size(); b++) {
          bits[b][i] = rows[i][b / 8] >> (b % 8) & 1;
        }
      }
    }
    ff::BitString<true, sid, true> str(bits, owner);
    compare<sid>(t, d.deserializeUDPOutputIntoMPCTypes(str), all, me, to);
  });
}
PROPERTY(every_cell_comes_back, 500, 20000) {
  everyCell(s, c, false);
}
PROPERTY(large_tables, 32, 600) {
  everyCell(s, c, true);
}
PROPERTY(through_the_processor, 16, 500) {
  SchedCfg g = genSched(s, {Sched::NetPlain, Sched::Lazy}, 2, false);
  g.eng.e = Eng::Dummy;
  c.desc = show(g) + " ";
  auto t = genTable(s, c, 6);
  if (t.width() == 0 || t.width() > 48) { // several AES blocks are enough
    c.desc += " (no data to join, or more than this family takes)";
    return;
  }
  c.nontrivial = t.n >= 2;
  int owner = s.below(2), to = s.below(2);
  auto order = s.permutation(t.n);
  order.resize(1 + s.below(t.n));
  c.desc += " chosen " + show(order);
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    auto mine = t;
    auto f = net->factory(me, 2);
    auto p = udp::getDataProcessorFactoryWithAesCtr<sid>(me, 1 - me, *f)->create();
    sz::RowStructureDefinition<sid> d(t.schema<sid>(), t.pad);
    auto str = me == owner ? p->processMyData(serialized<sid>(mine, d), order.size())
                           : p->processPeersData(t.n, {order.begin(), order.end()}, d.getRowSizeBytes());
    compare<sid>(t, d.deserializeUDPOutputIntoMPCTypes(str), order, me, to);
  }, net);
}
PROPERTY(mismatches_are_rejected, 600, 20000) {
  auto t = genTable(s, c, 6);
  int how = s.below(6);
  auto pick = [&](auto&& ok) -> Column* {
    std::vector<Column*> v;
    for (auto& [_, x] : t.cols) {
      if (ok(x)) {
        v.push_back(&x);
      }
    }
    return v.empty() ? nullptr : v[s.below(v.size())];
  };
  auto d = sz::RowStructureDefinition<0>(t.schema<0>(), t.pad);
  auto data = t.data<0>();
  size_t n = t.n;
  std::string what;
  std::vector<bool> spareBits(n);
  std::vector<int64_t> spare(n);
  if (how == 0) {
    what = "a column missing";
    data.erase(std::next(t.cols.begin(), s.below(t.cols.size()))->first);
  } else if (how == 1) {
    what = "a column too many";
    data.emplace("zzz", std::ref(spareBits));
  } else if (how == 2) {
    what = "a column under another name";
    auto it = std::next(t.cols.begin(), s.below(t.cols.size()));
    data.emplace(it->first + "x", data.at(it->first));
    data.erase(it->first);
  } else if (how == 3) {
    what = "another number of rows than said";
    n = s.coin() ? n + 1 + s.below(3) : n - 1;
  } else if (how == 4) {
    what = "a column of another length";
    auto* x = pick([](auto&) { return true; });
    s.coin() ? x->cells.push_back(x->cells[0]) : x->cells.pop_back();
    x->fill();
  } else {
    auto* x = pick([](auto& y) { return y.type >= U32V; });
    if (!x) {
      what = "a packed column in the schema";
      auto schema = t.schema<0>();
      schema["p"] = Def<0>::SupportedColumnTypes::PackedBitField;
      c.label(what);
      c.desc += " " + what;
      c.nontrivial = true;
      requireThrows<std::runtime_error>([&] { sz::RowStructureDefinition<0> bad(schema, t.pad); }, what);
      return;
    }
    what = "a list of another length";
    auto& v = x->cells[s.below(t.n)];
    v.empty() || s.coin() ? v.push_back(7) : v.pop_back();
    x->fill();
  }
  c.desc += " with " + what;
  c.nontrivial = true;
  c.label(what);
  requireThrows<std::runtime_error>([&] { d.serializeDataAsBytesForUDP(data, n); }, what);
}
} // namespace
