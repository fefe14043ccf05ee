// C22: breakdown tuples are numbered without loss.
#include "fbpcf/mpc_std_lib/oram/encoder/OramDecoder.h"
#include "fbpcf/mpc_std_lib/oram/encoder/OramEncoder.h"
#include "pbt.h"
#include "scratch.h"
using namespace pbt;
namespace {
namespace om = fbpcf::mpc_std_lib::oram;
using Tuple = std::vector<uint32_t>;
using FT = om::IFilter::FilterType;
std::string show(const Tuple& t) {
  std::string r = "(";
  for (auto v : t) {
    r += (r.size() > 1 ? "," : "") + std::to_string(v);
  }
  return r + ")";
}
std::string show(const std::vector<Tuple>& t) {
  std::string r;
  for (auto& x : t) {
    r += show(x);
  }
  return r;
}
struct Filter {
  FT type;
  size_t col;
  Tuple values; // one unless a set
  bool set() const {
    return type == FT::SUBSET_OF || type == FT::NOT_SUBSET_OF;
  }
  bool pass(const Tuple& t) const {
    uint32_t x = t.at(col);
    bool in = std::find(values.begin(), values.end(), x) != values.end();
    switch (type) {
      case FT::GT: return x > values[0];
      case FT::LT: return x < values[0];
      case FT::GTE: return x >= values[0];
      case FT::LTE: return x <= values[0];
      case FT::EQ: return x == values[0];
      case FT::NEQ: return x != values[0];
      case FT::SUBSET_OF: return in;
      default: return !in;
    }
  }
  std::unique_ptr<om::IFilter> make() const {
    if (set()) {
      return std::make_unique<om::VectorValueFilter>(type, col, values);
    }
    return std::make_unique<om::SingleValueFilter>(type, col, values[0]);
  }
  std::string show() const {
    return cat(std::array{">", "<", ">=", "<=", "==", "!=", " in ", " not in "}[type], pbt_values(), "@", col);
  }
  std::string pbt_values() const {
    return ::show(values);
  }
};
std::string name(const Filter& f) {
  return f.show();
}
struct Model {
  std::vector<Filter> filters;
  std::map<Tuple, uint32_t> ids;
  std::map<uint32_t, Tuple> back;
  bool filtered = false;
  uint32_t filterId = 0, next = 0;
  // false: a filter asks for a column the tuple does not have
  bool add(const Tuple& t, uint32_t& id) {
    for (auto& f : filters) {
      if (f.col >= t.size()) {
        return false;
      }
      if (!f.pass(t)) {
        if (!filtered) {
          filtered = true;
          filterId = next++;
          back[filterId] = {};
        }
        id = filterId;
        return true;
      }
    }
    auto [it, fresh] = ids.emplace(t, next);
    if (fresh) {
      back[next++] = t;
    }
    id = it->second;
    return true;
  }
};
uint32_t value(Src& s, int spread) {
  switch (spread) {
    case 0: return s.below(3);
    case 1: return s.pick({1, 11, 111, 1111, 12, 2, 21, 0, 10, 100});
    case 2: return s.below(1000);
    default: return s.edgyU(UINT32_MAX);
  }
}
// more indexes than 8 or 16 bits count, in batches of thousands
PROPERTY(manyTuples, 6, 60) {
  size_t distinct = s.coin() ? 65536 + s.below(5000) : 250 + s.below(9000);
  size_t cols = 1 + s.below(3), batches = 1 + s.below(4);
  uint32_t mul = s.u64() | 1;
  bool filter = s.coin();
  uint32_t cut = s.below(distinct);
  auto tuple = [&](uint32_t k) {
    Tuple t(cols, 7);
    t[0] = k;
    if (cols > 1) {
      t[cols - 1] = k * mul;
    }
    return t;
  };
  Model m;
  auto fs = std::make_unique<std::vector<std::unique_ptr<om::IFilter>>>();
  if (filter) {
    Filter f{FT::GTE, 0, {cut / 4}};
    m.filters.push_back(f);
    fs->push_back(f.make());
  }
  c.desc = cat(distinct, " tuples of ", cols, filter ? cat(" from ", cut / 4) : std::string(), " in ", batches);
  c.nontrivial = true;
  c.labelIf(distinct > 65535, "more than 65535 tuples");
  om::OramEncoder e(std::move(fs));
  Rng r = s.rng();
  for (size_t b = 0; b < batches; b++) {
    std::vector<Tuple> in;
    std::vector<uint32_t> want;
    for (size_t i = distinct * b / batches; i < distinct * (b + 1) / batches; i++) {
      in.push_back(tuple(i));
      if (i % 3 == 0) { // one seen before, or to come
        in.push_back(tuple(r.below(distinct)));
      }
    }
    for (auto& t : in) {
      uint32_t id = 0;
      m.add(t, id);
      want.push_back(id);
    }
    auto got = e.generateORAMIndexes(in);
    requireEq(got.size(), want.size(), "indexes of batch ", b);
    for (size_t i = 0; i < want.size(); i++) {
      requireEq(got[i], want[i], "index of tuple ", i, " of batch ", b);
    }
    requireEq(e.getOramSize(), m.next, "number of indexes");
  }
  auto cfg = om::OramMappingConfig::fromSerializedString(e.exportMappingConfig()->serializeAsString());
  om::OramDecoder dec(std::move(cfg));
  std::vector<uint32_t> all;
  for (auto& [id, t] : m.back) {
    all.push_back(id);
  }
  auto got = dec.decodeORAMIndexes(all);
  requireEq(got.size(), all.size(), "decoded tuples");
  for (size_t i = 0; i < all.size(); i++) {
    require(got[i] == m.back.at(all[i]), cat("index ", all[i], " decoded to ", show(got[i]), ", not ", show(m.back.at(all[i]))));
  }
}
PROPERTY(encodeDecode, 12000, 600000) {
  size_t cols = s.chance(1, 6) ? 5 + s.below(8) : s.below(5);
  int spread = s.below(4);
  bool varied = s.chance(1, 4); // tuples of different lengths
  Model m;
  size_t nf = s.below(4);
  for (size_t i = 0; i < nf && cols; i++) {
    Filter f;
    f.type = (FT)s.below(8);
    f.col = s.below(cols);
    size_t k = f.set() ? s.below(4) : 1;
    for (size_t j = 0; j < k; j++) {
      f.values.push_back(value(s, spread));
    }
    m.filters.push_back(f);
  }
  size_t batches = 1 + s.below(4), total = 0;
  std::vector<std::vector<Tuple>> in(batches);
  for (auto& b : in) {
    size_t n = s.chance(1, 10) ? 0 : s.chance(1, 20) ? 200 + s.below(300) : s.below(25);
    total += n;
    for (size_t i = 0; i < n; i++) {
      Tuple t;
      size_t len = varied ? s.below(cols + 3) : cols;
      if (total > 60 && i > 3 && s.chance(1, 2)) {
        t = b[s.below(i)];
      } else {
        for (size_t j = 0; j < len; j++) {
          t.push_back(value(s, spread));
        }
      }
      b.push_back(t);
    }
  }
  c.desc = "filters:";
  for (auto& f : m.filters) {
    c.desc += " " + name(f);
  }
  for (auto& b : in) {
    c.desc += " | " + show(b).substr(0, 300);
  }
  auto fs = std::make_unique<std::vector<std::unique_ptr<om::IFilter>>>();
  for (auto& f : m.filters) {
    fs->push_back(f.make());
  }
  om::OramEncoder e(std::move(fs));
  requireEq(e.getOramSize(), 0u, "size before anything is encoded");
  bool missing = false;
  for (auto& b : in) {
    std::vector<uint32_t> want;
    bool ok = true;
    for (auto& t : b) {
      uint32_t id;
      if (!(ok = m.add(t, id))) {
        break;
      }
      want.push_back(id);
    }
    if (ok) {
      auto got = e.generateORAMIndexes(b);
      requireEq(show(got), show(want), "indexes of ", show(b).substr(0, 300));
    } else {
      missing = true;
      requireThrows<std::invalid_argument>([&] { e.generateORAMIndexes(b); }, "filter of a missing column");
    }
    requireEq(e.getOramSize(), m.next, "number of indexes");
  }
  c.nontrivial = m.ids.size() > 1 && total > m.ids.size();
  c.labelIf(m.filtered, "some filtered");
  c.labelIf(missing, "missing column");
  c.labelIf(total > 150, "many tuples");
  c.labelIf(varied, "lengths differ");
  // the mapping, in one piece
  int how = s.below(8);
  std::unique_ptr<om::OramMappingConfig> cfg = e.exportMappingConfig();
  if (how == 0) {
    Scratch d;
    cfg->writeMappingToFile(d / "mapping");
    cfg = om::OramMappingConfig::readMappingFromFile(d / "mapping");
  } else if (how < 6) {
    cfg = om::OramMappingConfig::fromSerializedString(cfg->serializeAsString());
  }
  requireEq(cfg->wereBreakdownsFiltered(), m.filtered, "whether anything was filtered");
  requireEq(cfg->getBreakdownMapping().size(), m.ids.size(), "tuples in the mapping");
  om::OramDecoder dec(std::move(cfg));
  std::vector<uint32_t> all;
  std::vector<Tuple> want;
  for (auto& [id, t] : m.back) {
    all.push_back(id);
    want.push_back(t);
  }
  for (size_t i = 0, k = s.below(5); i < k && m.next; i++) {
    uint32_t id = s.below(m.next);
    all.push_back(id);
    want.push_back(m.back.at(id));
  }
  auto got = dec.decodeORAMIndexes(all);
  requireEq(show(got), show(want), "decoded tuples");
  requireEq(got.size(), want.size(), "number of decoded tuples");
  uint32_t unknown = m.next + s.edgyU(UINT32_MAX - m.next);
  auto with = all;
  with.insert(with.begin() + s.below(with.size() + 1), unknown);
  requireThrows<std::runtime_error>([&] { dec.decodeORAMIndexes(with); }, cat("decoding the unknown index ", unknown));
  // a later index does not make the earlier ones unknown
  requireEq(show(dec.decodeORAMIndexes(all)), show(want), "decoded after the error");
}
PROPERTY(filters, 6000, 300000) {
  Filter f;
  f.type = (FT)s.below(8);
  f.col = s.below(4);
  int spread = s.below(4);
  size_t k = f.set() ? s.below(6) : 1;
  for (size_t j = 0; j < k; j++) {
    f.values.push_back(value(s, spread));
  }
  Tuple t;
  size_t n = s.below(6);
  for (size_t i = 0; i < n; i++) {
    t.push_back(!f.values.empty() && s.chance(1, 3) ? f.values[s.below(f.values.size())] + s.below(3) - 1 : value(s, spread));
  }
  c.desc = cat(name(f), " on ", show(t));
  c.nontrivial = n > f.col;
  auto x = f.make();
  if (n > f.col) {
    c.label(f.pass(t) ? "passes" : "fails");
    requireEq(x->apply(t), f.pass(t), "filter");
  } else {
    requireThrows<std::invalid_argument>([&] { x->apply(t); }, "missing column");
  }
  requireThrows<std::invalid_argument>(
      [&] {
        if (f.set()) {
          om::SingleValueFilter(f.type, f.col, 1);
        } else {
          om::VectorValueFilter(f.type, f.col, f.values);
        }
      },
      "filter of the wrong kind");
}
} // namespace
