// Typed messages over an IPartyCommunicationAgent, for the channel properties.
#pragma once
#include "fbpcf/engine/communication/IPartyCommunicationAgent.h"
#include "m128.h"
#include "pbt.h"

namespace pbt {
namespace comm = fbpcf::engine::communication;
struct Rec {
  uint32_t a;
  uint16_t b;
  unsigned char c[10];
  bool operator==(const Rec& o) const {
    return a == o.a && b == o.b && !memcmp(c, o.c, sizeof c);
  }
};
static_assert(sizeof(Rec) == 16);
struct Msg {
  enum Kind { Bytes, Bools, Ints, TBytes, TBools, TRecs, TBlocks, TShort, OneInt, OneRec, OneBlock, OneBool, OneByte, kinds };
  Kind kind;
  size_t n;
  uint64_t seed;
  size_t wire() const { // bytes on the wire
    switch (kind) {
      case Bytes: case TBytes: return n;
      case Bools: case TBools: return (n + 7) / 8;
      case Ints: return 8 * n;
      case TRecs: case TBlocks: return 16 * n;
      case TShort: return 2 * n;
      case OneInt: return 8;
      case OneRec: case OneBlock: return 16;
      default: return 1;
    }
  }
  std::string name() const {
    static const char* nm[] = {"bytes", "bools", "ints", "t-bytes", "t-bools", "t-recs", "t-blocks", "t-short", "one-int", "one-rec", "one-block", "one-bool", "one-byte"};
    return kind >= OneInt ? std::string(nm[kind]) : cat(nm[kind], n);
  }
  bool oddBits() const {
    return (kind == Bools || kind == TBools) && n % 8;
  }
  template <typename T>
  std::vector<T> make(size_t k) const {
    Rng r(seed);
    std::vector<T> v(k);
    for (size_t i = 0; i < k; i++) {
      if constexpr (std::is_same_v<T, bool>) {
        v[i] = r.bit();
      } else if constexpr (std::is_same_v<T, Rec>) {
        v[i].a = r.u64();
        v[i].b = r.u64();
        for (auto& x : v[i].c) {
          x = r.u64();
        }
      } else if constexpr (std::is_same_v<T, __m128i>) {
        v[i] = toM(rand128(r));
      } else {
        v[i] = (T)(r.below(6) ? r.u64() : r.below(3) - 1);
      }
    }
    return v;
  }
  static Msg gen(Src& s, size_t maxBytes) {
    Msg m;
    m.kind = (Kind)s.below(kinds);
    size_t per = m.kind == Ints ? 8 : m.kind == TRecs || m.kind == TBlocks ? 16 : m.kind == TShort ? 2 : 1;
    m.n = m.kind >= OneInt ? 1 : s.size(0, maxBytes / per * (m.kind == Bools || m.kind == TBools ? 4 : 1));
    m.seed = s.u64();
    return m;
  }
  void send(comm::IPartyCommunicationAgent& a) const {
    switch (kind) {
      case Bytes: return a.send(make<unsigned char>(n));
      case Bools: return a.sendBool(make<bool>(n));
      case Ints: return a.sendInt64(make<uint64_t>(n));
      case TBytes: return a.sendT<unsigned char>(make<unsigned char>(n));
      case TBools: return a.sendT<bool>(make<bool>(n));
      case TRecs: return a.sendT<Rec>(make<Rec>(n));
      case TBlocks: return a.sendT<__m128i>(make<__m128i>(n));
      case TShort: return a.sendT<int16_t>(make<int16_t>(n));
      case OneInt: return a.sendSingleT<int64_t>(make<int64_t>(1)[0]);
      case OneRec: return a.sendSingleT<Rec>(make<Rec>(1)[0]);
      case OneBlock: return a.sendSingleT<__m128i>(make<__m128i>(1)[0]);
      case OneBool: return a.sendSingleT<bool>(make<bool>(1)[0]);
      default: return a.sendSingleT<unsigned char>(make<unsigned char>(1)[0]);
    }
  }
  template <typename T>
  void compare(const std::vector<T>& got, const std::string& where) const {
    auto want = make<T>(n);
    requireEq(got.size(), want.size(), where, name(), ": length received");
    for (size_t i = 0; i < n; i++) {
      if constexpr (std::is_same_v<T, __m128i>) {
        requireEq(hex(toU(got[i])), hex(toU(want[i])), where, name(), ": element ", i);
      } else if constexpr (std::is_same_v<T, Rec>) {
        require(got[i] == want[i], where, name(), ": element ", i, " differs");
      } else {
        requireEq((uint64_t)got[i], (uint64_t)want[i], where, name(), ": element ", i);
      }
    }
  }
  // receives this message and checks it
  void expect(comm::IPartyCommunicationAgent& a, const std::string& w) const {
    switch (kind) {
      case Bytes: return compare(a.receive(n), w);
      case Bools: return compare(a.receiveBool(n), w);
      case Ints: return compare(a.receiveInt64(n), w);
      case TBytes: return compare(a.receiveT<unsigned char>(n), w);
      case TBools: return compare(a.receiveT<bool>(n), w);
      case TRecs: return compare(a.receiveT<Rec>(n), w);
      case TBlocks: return compare(a.receiveT<__m128i>(n), w);
      case TShort: return compare(a.receiveT<int16_t>(n), w);
      case OneInt: return compare(std::vector<int64_t>{a.receiveSingleT<int64_t>()}, w);
      case OneRec: return compare(std::vector<Rec>{a.receiveSingleT<Rec>()}, w);
      case OneBlock: return compare(std::vector<__m128i>{a.receiveSingleT<__m128i>()}, w);
      case OneBool: return compare(std::vector<bool>{a.receiveSingleT<bool>()}, w);
      default: return compare(std::vector<unsigned char>{a.receiveSingleT<unsigned char>()}, w);
    }
  }
};
inline std::vector<Msg> genMsgs(Src& s, size_t most, size_t maxBytes) {
  std::vector<Msg> v(s.size(0, most));
  for (auto& m : v) {
    m = Msg::gen(s, maxBytes);
  }
  return v;
}
inline std::string showMsgs(const std::vector<Msg>& v) {
  std::string r;
  for (auto& m : v) {
    r += " " + m.name();
  }
  return r;
}
} // namespace pbt
