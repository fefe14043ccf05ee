// Lists of secret records of the types the standard library works on, as bits:
// rows[i][j] is bit i of record j.
#pragma once
#include "fbpcf/mpc_std_lib/util/util.h"
#include "front.h"

namespace pbt {
namespace msl = fbpcf::mpc_std_lib;
using Rows = std::vector<std::vector<bool>>;
template <bool S, int8_t W>
using Intp = msl::util::Intp<S, W>;

template <typename T, int sid>
using Sec = typename msl::util::SecBatchType<T, sid>::type;

// calls f(bit) for every bit of a batch, lowest first
template <int sid, typename F>
void eachBit(ff::Bit<true, sid, true>& x, F&& f) {
  f(x);
}
template <bool S, int8_t W, int sid, typename F>
void eachBit(ff::Int<S, W, true, sid, true>& x, F&& f) {
  for (int i = 0; i < W; i++) {
    f(x[i]);
  }
}
template <int sid, typename F>
void eachBit(ff::BitString<true, sid, true>& x, F&& f) {
  for (size_t i = 0; i < x.size(); i++) {
    f(x[i]);
  }
}
template <typename A, typename B, typename F>
void eachBit(std::pair<A, B>& x, F&& f) {
  eachBit(x.first, f);
  eachBit(x.second, f);
}
template <int sid, typename F>
void eachBit(msl::util::SecretAggregationValue<sid>& x, F&& f) {
  eachBit(x.conversionCount, f);
  eachBit(x.conversionValue, f);
}
template <typename X>
void setLength(X&, size_t) {}
template <int sid>
void setLength(ff::BitString<true, sid, true>& x, size_t len) {
  x = ff::BitString<true, sid, true>(len);
}
template <typename A, typename B>
void setLength(std::pair<A, B>& x, size_t len) {
  setLength(x.first, len);
}
// len: length of the strings in the type, if any
template <typename T, int sid>
Sec<T, sid> enter(const Rows& rows, int from, size_t len) {
  Sec<T, sid> x;
  setLength(x, len);
  size_t i = 0;
  eachBit(x, [&](ff::Bit<true, sid, true>& b) {
    b = ff::Bit<true, sid, true>(rows.at(i++), from);
  });
  return x;
}
// bits of the record, given to each party by XOR shares
template <typename T, int sid>
Sec<T, sid> enterShares(const Rows& rows, size_t len) {
  Sec<T, sid> x;
  setLength(x, len);
  size_t i = 0;
  eachBit(x, [&](ff::Bit<true, sid, true>& b) {
    b = ff::Bit<true, sid, true>(
        typename ff::Bit<true, sid, true>::ExtractedBit(rows.at(i++)));
  });
  return x;
}
template <int sid, typename X>
Rows sharesOf(X x) {
  Rows r;
  eachBit(x, [&](ff::Bit<true, sid, true>& b) { r.push_back(b.extractBit().getValue()); });
  return r;
}
template <int sid, typename X>
Rows openAll(X x, int to) {
  std::vector<ff::Bit<false, sid, true>> o;
  eachBit(x, [&](ff::Bit<true, sid, true>& b) { o.push_back(b.openToParty(to)); });
  Rows r;
  for (auto& b : o) {
    r.push_back(b.getValue());
  }
  return r;
}
inline size_t widthOf(std::type_identity<bool>, size_t) {
  return 1;
}
inline size_t widthOf(std::type_identity<uint32_t>, size_t) {
  return 32;
}
inline size_t widthOf(std::type_identity<std::vector<bool>>, size_t len) {
  return len;
}
inline size_t widthOf(std::type_identity<msl::util::AggregationValue>, size_t) {
  return 64;
}
template <bool S, int8_t W>
size_t widthOf(std::type_identity<Intp<S, W>>, size_t) {
  return W;
}
template <typename A>
size_t widthOf(std::type_identity<std::pair<A, bool>>, size_t len) {
  return widthOf(std::type_identity<A>{}, len) + 1;
}

inline std::string column(const Rows& r, size_t j) {
  std::string s;
  for (auto& x : r) {
    s += x.at(j) ? '1' : '0';
  }
  return s;
}
inline std::vector<std::string> columns(const Rows& r) {
  std::vector<std::string> o;
  for (size_t j = 0; !r.empty() && j < r[0].size(); j++) {
    o.push_back(column(r, j));
  }
  return o;
}
inline Rows genRows(Src& s, size_t width, size_t n) {
  Rows r(width);
  if (s.chance(1, 6)) { // many equal records
    std::vector<bool> a = s.bits(width), pick = s.bits(n);
    for (size_t i = 0; i < width; i++) {
      r[i].resize(n);
      for (size_t j = 0; j < n; j++) {
        r[i][j] = a[i] && pick[j];
      }
    }
    return r;
  }
  Rng g = s.rng();
  for (auto& x : r) {
    x.resize(n);
    for (size_t j = 0; j < n; j++) {
      x[j] = g.bit();
    }
  }
  return r;
}
inline Rows pickRows(const Rows& r, const std::vector<uint32_t>& order) {
  Rows o(r.size());
  for (size_t i = 0; i < r.size(); i++) {
    for (auto k : order) {
      o[i].push_back(r[i].at(k));
    }
  }
  return o;
}
template <typename V>
std::string list(const V& v) {
  std::string o = "[";
  for (auto&& x : v) {
    o += (o.size() > 1 ? " " : "") + cat(x);
  }
  return o + "]";
}
} // namespace pbt
