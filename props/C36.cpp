// C36: the edit-distance example computes the true distance, and its
// fixed-capacity secret strings behave as ordinary strings.
#include <climits>
#include "example/edit_distance/AsciiString.h"
#include "example/edit_distance/EditDistanceApp.h"
#include "example/edit_distance/EditDistanceGame.h"
#include "example/edit_distance/EditDistanceResults.h"
#include "example/edit_distance/Validator.h"
#include "folly/json.h"
#include "front.h"
#include "stdkit.h"
#include "scratch.h"
using namespace pbt;
namespace {
namespace ed = fbpcf::edit_distance;
using Strings = std::vector<std::string>;
struct Params {
  int64_t threshold, del, ins;
};
struct Data {
  Params p;
  Strings words, guesses, messages;
};
// w held by one party, g by the other
int64_t distanceOf(const std::string& w, const std::string& g, const Params& p) {
  std::vector<int64_t> prev(g.size() + 1), cur(g.size() + 1);
  for (size_t j = 0; j <= g.size(); j++) {
    prev[j] = (int64_t)j * p.del;
  }
  for (size_t i = 0; i < w.size(); i++) {
    cur[0] = prev[0] + p.ins;
    for (size_t j = 0; j < g.size(); j++) {
      cur[j + 1] = std::min({prev[j] + std::abs((int)w[i] - (int)g[j]), prev[j + 1] + p.ins, cur[j] + p.del});
    }
    std::swap(prev, cur);
  }
  return prev[g.size()];
}
std::string messageOf(int64_t d, const std::string& m, const Params& p) {
  return d < p.threshold ? m : d <= 2 * p.threshold ? m.substr(0, m.size() / 2) : "";
}
std::string word(Src& s, size_t most, bool anyChar) {
  size_t n = s.chance(1, 6) ? 0 : s.chance(1, 5) ? most : s.below(most + 1);
  int style = s.below(3);
  std::string w;
  while (w.size() < n) {
    char ch = style == 0 ? 'a' + s.below(3) : style == 1 ? 'a' + s.below(26) : anyChar ? s.range(1, 127) : s.range(33, 126);
    if (!anyChar && (ch == ',' || ch == '"' || ch == '\'')) {
      ch = 'z';
    }
    w += ch;
  }
  return w;
}
std::string mutate(Src& s, std::string w, size_t most) {
  for (int k = s.below(4); k > 0; k--) {
    size_t at = s.below(w.size() + 1);
    switch (s.below(3)) {
      case 0:
        if (w.size() < most) {
          w.insert(at, 1, 'a' + s.below(26));
        }
        break;
      case 1:
        if (at < w.size()) {
          w.erase(at, 1);
        }
        break;
      default:
        if (at < w.size()) {
          w[at] = 'a' + s.below(26);
        }
    }
  }
  return w;
}
Data genData(Src& s, size_t rows, Ctx& c) {
  Data d;
  auto cost = [&]() -> int64_t {
    switch (s.below(6)) {
      case 0: return 0;
      case 1: return 1;
      case 2: return s.below(1 << 20);
      default: return 1 + s.below(60);
    }
  };
  d.p.del = cost();
  d.p.ins = s.chance(1, 5) ? d.p.del : cost();
  for (size_t i = 0; i < rows; i++) {
    auto w = word(s, ed::maxStringLength, false);
    d.words.push_back(w);
    d.guesses.push_back(s.coin() ? mutate(s, w, ed::maxStringLength) : word(s, ed::maxStringLength, false));
    d.messages.push_back(word(s, ed::maxStringLength, false));
  }
  // at, just below and just above what some row needs
  int64_t t = distanceOf(d.words[0], d.guesses[0], d.p);
  switch (s.below(6)) {
    case 0: d.p.threshold = t; break;
    case 1: d.p.threshold = t + 1; break;
    case 2: d.p.threshold = t / 2; break;
    case 3: d.p.threshold = (t + 1) / 2; break;
    case 4: d.p.threshold = std::max<int64_t>(t / 2 - 1, 0); break;
    default: d.p.threshold = cost() * 3;
  }
  for (size_t i = 0; i < rows; i++) {
    int64_t x = distanceOf(d.words[i], d.guesses[i], d.p);
    c.label(x < d.p.threshold ? "whole message" : x <= 2 * d.p.threshold ? "half message" : "no message");
    c.labelIf(x == d.p.threshold, "distance = threshold");
    c.labelIf(x == 2 * d.p.threshold, "distance = 2 thresholds");
    c.labelIf(d.words[i].empty() != d.guesses[i].empty(), "one empty word");
    c.labelIf(d.words[i].size() == ed::maxStringLength || d.guesses[i].size() == ed::maxStringLength, "full-length word");
    c.labelIf(d.messages[i].size() == ed::maxStringLength, "full-length message");
  }
  return d;
}
std::string show(const Data& d) {
  std::string r = cat("threshold ", d.p.threshold, " delete ", d.p.del, " insert ", d.p.ins);
  for (size_t i = 0; i < d.words.size(); i++) {
    r += cat(" [", d.words[i], "|", d.guesses[i], "|", d.messages[i], "]");
  }
  return r;
}
// Files in which the order of the columns is arbitrary.
std::string csv(Src& s, std::vector<std::pair<std::string, Strings>> cols) {
  if (s.coin()) {
    cols.push_back({"note", Strings(cols[0].second.size(), "x")});
  }
  auto order = s.permutation(cols.size());
  std::string r;
  for (size_t k = 0; k <= cols[0].second.size(); k++) {
    for (size_t i = 0; i < order.size(); i++) {
      auto& col = cols[order[i]];
      r += (i ? "," : "") + (k ? col.second[k - 1] : col.first);
    }
    r += "\n";
  }
  return r;
}
struct Files {
  std::string data[2], params[2];
};
Files files(Src& s, const Scratch& dir, const Data& d) {
  Files f;
  for (int me = 0; me < 2; me++) {
    f.data[me] = dir / cat("data", me);
    f.params[me] = dir / cat("params", me);
    put(f.data[me], me ? csv(s, {{"guess", d.guesses}}) : csv(s, {{"word", d.words}, {"sender_message", d.messages}}));
    put(
        f.params[me],
        csv(s,
            {{"threshold", {std::to_string(d.p.threshold)}},
             {"delete_cost", {std::to_string(d.p.del)}},
             {"insert_cost", {std::to_string(d.p.ins)}}}));
  }
  return f;
}
template <int sid>
struct Free {
  ~Free() {
    fs::SchedulerKeeper<sid>::freeScheduler();
  }
};
template <typename F>
void parties(const SchedCfg& g, uint64_t seed, F&& f) {
  auto net = std::make_shared<Net>(seed | 1);
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
  for (int i = 0; i < 2; i++) {
    af.push_back(net->factory(i, 2));
  }
  runParties(*net, 2, seed, [&](int me) {
    auto go = [&]<int sid>() {
      Free<sid> guard;
      f.template operator()<sid>(me, makeScheduler(g, me, *af[me]));
    };
    me ? go.template operator()<1>() : go.template operator()<0>();
  });
}
void check(const Data& d, const Strings& outputs) {
  std::vector<folly::dynamic> shares;
  for (auto& o : outputs) {
    shares.push_back(folly::parseJson(o));
  }
  ed::EditDistanceResults r(shares);
  requireEq(r.editDistances.size(), d.words.size(), "number of distances");
  requireEq(r.receiverMessages.size(), d.words.size(), "number of messages");
  for (size_t i = 0; i < d.words.size(); i++) {
    int64_t want = distanceOf(d.words[i], d.guesses[i], d.p);
    requireEq(r.editDistances[i], want, "distance of ", d.words[i], " and ", d.guesses[i]);
    requireEq(r.receiverMessages[i], messageOf(want, d.messages[i], d.p), "message of row ", i, " at distance ", want);
  }
}
void game(Src& s, Ctx& c, const SchedCfg& g, size_t most) {
  size_t rows = s.chance(1, 4) ? 1 : 1 + s.below(most);
  auto d = genData(s, rows, c);
  c.desc = cat(pbt::show(g), " ", show(d));
  c.nontrivial = rows >= 2;
  Scratch dir;
  auto f = files(s, dir, d);
  Strings out(2);
  parties(g, c.caseSeed, [&]<int sid>(int me, std::unique_ptr<fs::IScheduler> q) {
    ed::EditDistanceGame<sid> play(me, std::move(q));
    out[me] = play.play(ed::EditDistanceInputReader(f.data[me], f.params[me]));
  });
  check(d, out);
}
PROPERTY(gameNetworked, 25, 3000) {
  game(s, c, genSched(s, {Sched::NetPlain}, 2, false), 40);
}
PROPERTY(gameSecret, 4, 300) {
  auto g = genSched(s, {Sched::Lazy, Sched::Lazy, Sched::Eager}, 2, false);
  g.eng.e = s.chance(1, 3) ? Eng::Dealer : Eng::Dummy;
  game(s, c, g, 6);
}
// Parties that disagree about the configuration notice.
PROPERTY(gameMismatch, 60, 2000) {
  auto g = genSched(s, {Sched::NetPlain, Sched::Lazy, Sched::Eager}, 2, false);
  g.eng.e = Eng::Dummy;
  auto d = genData(s, 1 + s.below(3), c);
  auto e = d;
  const char* what = nullptr;
  int64_t by = s.coin() ? 1 : 1 + s.below(1000);
  switch (s.below(4)) {
    case 0: what = "threshold"; e.p.threshold += by; break;
    case 1: what = "delete cost"; e.p.del += by; break;
    case 2: what = "insert cost"; e.p.ins += by; break;
    default:
      what = "rows";
      for (int64_t k = 1 + s.below(3); k > 0; k--) {
        e.words.push_back("more");
        e.guesses.push_back("mode");
        e.messages.push_back("yes");
      }
  }
  bool flip = s.coin();
  c.desc = cat(pbt::show(g), " differ in ", what, " by ", by, flip ? " (0) " : " (1) ", show(d));
  c.nontrivial = true;
  c.label(what);
  Scratch dir, dir2;
  auto f = files(s, dir, d), h = files(s, dir2, e);
  parties(g, c.caseSeed, [&]<int sid>(int me, std::unique_ptr<fs::IScheduler> q) {
    ed::EditDistanceGame<sid> play(me, std::move(q));
    auto& mine = (me == 0) == flip ? h : f;
    requireThrows<std::runtime_error>([&] { play.play(ed::EditDistanceInputReader(mine.data[me], mine.params[me])); }, cat("party ", me));
  });
}
// The application: files in, files of shares out, the validator accepts them.
PROPERTY(application, 1, 12) {
  auto d = genData(s, 1 + s.below(20), c);
  c.desc = show(d);
  c.nontrivial = d.words.size() >= 2;
  Scratch dir;
  auto f = files(s, dir, d);
  Strings out{dir / "out0", dir / "out1"};
  auto net = std::make_shared<Net>(c.caseSeed | 1);
  std::vector<std::unique_ptr<comm::IPartyCommunicationAgentFactory>> af;
  for (int i = 0; i < 2; i++) {
    af.push_back(net->factory(i, 2));
  }
  runParties(*net, 2, c.caseSeed, [&](int me) {
    auto go = [&]<int sid>() {
      Free<sid> guard;
      ed::EditDistanceApp<sid>(me, std::move(af[me]), f.data[me], f.params[me], out[me]).run();
    };
    me ? go.template operator()<1>() : go.template operator()<0>();
  });
  check(d, {slurp(out[0]), slurp(out[1])});
  Strings dist, msg;
  for (size_t i = 0; i < d.words.size(); i++) {
    auto x = distanceOf(d.words[i], d.guesses[i], d.p);
    dist.push_back(std::to_string(x));
    msg.push_back(messageOf(x, d.messages[i], d.p));
  }
  put(dir / "expected", csv(s, {{"distance", dist}, {"receiver_message", msg}}));
  requireEq(ed::Validator(out, dir / "expected").validate(), (int)ed::Validator::SUCCESS, "validation");
}
// Reading what a party holds.
PROPERTY(reader, 300, 20000) {
  size_t rows = s.below(12);
  auto d = genData(s, std::max<size_t>(rows, 1), c);
  for (auto v : {&d.words, &d.guesses, &d.messages}) {
    v->resize(rows);
  }
  int held = 1 + s.below(7);
  c.desc = cat("columns ", held, " ", show(d));
  c.nontrivial = rows >= 2;
  Scratch dir;
  std::vector<std::pair<std::string, Strings>> cols;
  if (held & 1) {
    cols.push_back({"word", d.words});
  }
  if (held & 2) {
    cols.push_back({"guess", d.guesses});
  }
  if (held & 4) {
    cols.push_back({"sender_message", d.messages});
  }
  put(dir / "data", csv(s, cols));
  auto f = files(s, dir, d);
  ed::EditDistanceInputReader r(dir / "data", f.params[0]);
  Strings none(rows, "");
  requireEq(r.getNumRows(), (int)rows, "rows");
  requireEq(list(r.getWords()), list(held & 1 ? d.words : none), "words");
  requireEq(list(r.getGuesses()), list(held & 2 ? d.guesses : none), "guesses");
  requireEq(list(r.getSenderMessages()), list(held & 4 ? d.messages : none), "messages");
  requireEq(r.getThreshold(), (int)d.p.threshold, "threshold");
  requireEq(r.getDeleteCost(), (int)d.p.del, "delete cost");
  requireEq(r.getInsertCost(), (int)d.p.ins, "insert cost");
}
// Combining shares of any number of parties, and judging them.
PROPERTY(results, 400, 20000) {
  size_t rows = 1 + s.below(8), n = 1 + s.below(4);
  auto rng = s.rng();
  std::vector<int64_t> dist;
  Strings msg, shown;
  for (size_t i = 0; i < rows; i++) {
    dist.push_back(s.chance(1, 3) ? s.below(5) : s.below(1 << 30));
    msg.push_back(word(s, ed::maxStringLength, false));
    shown.push_back(std::to_string(dist.back()));
  }
  Scratch dir;
  Strings paths;
  std::vector<std::vector<int64_t>> ds(n, std::vector<int64_t>(rows));
  std::vector<Strings> ms(n, Strings(rows));
  for (size_t i = 0; i < rows; i++) {
    int64_t x = dist[i];
    std::string y = msg[i];
    y.resize(ed::maxStringLength);
    for (size_t p = 1; p < n; p++) {
      ds[p][i] = (int32_t)rng.u64();
      x ^= ds[p][i];
      ms[p][i].resize(ed::maxStringLength);
      for (size_t k = 0; k < y.size(); k++) {
        ms[p][i][k] = (char)rng.u64();
        y[k] ^= ms[p][i][k];
      }
    }
    ds[0][i] = x;
    ms[0][i] = y;
  }
  std::vector<folly::dynamic> parsed;
  for (size_t p = 0; p < n; p++) {
    folly::dynamic o = folly::dynamic::object;
    o["editDistanceShares"] = folly::dynamic::array_range(ds[p]);
    o["receiverMessageShares"] = folly::dynamic::array_range(ms[p]);
    paths.push_back(dir / cat("share", p));
    put(paths.back(), folly::toJson(o));
    parsed.push_back(o);
  }
  ed::EditDistanceResults r(parsed);
  requireEq(list(r.editDistances), list(dist), "distances");
  requireEq(list(r.receiverMessages), list(msg), "messages");
  int want = ed::Validator::SUCCESS;
  auto expected = dist;
  auto expectedMsg = msg;
  const char* what = "same";
  size_t at = s.below(rows);
  switch (s.below(5)) {
    case 0:
      what = "another distance";
      shown[at] = std::to_string(dist[at] + 1 + s.below(5));
      want = ed::Validator::RESULT_MISMATCH;
      break;
    case 1:
      what = "another message";
      if (s.coin() || msg[at].empty()) {
        expectedMsg[at] += "q";
      } else if (s.coin()) {
        expectedMsg[at].pop_back();
      } else {
        expectedMsg[at][s.below(msg[at].size())] ^= 1;
        if (expectedMsg[at].find_first_of(",\"' ") != std::string::npos) {
          expectedMsg[at] = msg[at] + "q";
        }
      }
      want = ed::Validator::RESULT_MISMATCH;
      break;
    case 2:
      what = "a row more";
      shown.insert(shown.begin() + at, "5");
      expectedMsg.insert(expectedMsg.begin() + at, "x");
      want = ed::Validator::SIZE_MISMATCH;
      break;
    case 3:
      what = "a row less";
      shown.erase(shown.begin() + at);
      expectedMsg.erase(expectedMsg.begin() + at);
      want = ed::Validator::SIZE_MISMATCH;
      break;
  }
  c.desc = cat(n, " parties ", what, " at ", at, " ", list(dist), list(msg));
  c.label(what);
  c.nontrivial = rows >= 2 && n >= 2;
  put(dir / "expected", csv(s, {{"distance", shown}, {"receiver_message", expectedMsg}}));
  requireEq(ed::Validator(paths, dir / "expected").validate(), want, "verdict");
}

// Strings
template <int W, int sid, bool B>
struct Str {
  using Sec = ed::AsciiString<W, true, sid, B>;
  using Pub = ed::AsciiString<W, false, sid, B>;
  using V = std::conditional_t<B, Strings, std::string>;
};
std::string upper(std::string v) {
  for (auto& ch : v) {
    ch = ch >= 'a' && ch <= 'z' ? ch - 'a' + 'A' : ch;
  }
  return v;
}
struct Op {
  int kind, a, b, to;
  bool flag, pub;
  Strings text;
  std::vector<bool> bits;
  std::string chars;
};
template <int W, bool B>
void strings(Src& s, Ctx& c, const SchedCfg& g) {
  size_t n = B ? 1 + s.below(6) : 1;
  int steps = 3 + s.below(8);
  std::vector<Op> ops;
  std::string d = cat(pbt::show(g), " capacity ", W, B ? cat(" batch ", n) : "");
  int useful = 0;
  for (int k = 0; k < steps; k++) {
    Op o;
    o.kind = k < 2 ? s.below(2) : s.below(9);
    o.a = s.below(100);
    o.b = s.below(100);
    o.to = s.below(2);
    o.flag = s.coin();
    o.pub = s.coin();
    for (size_t i = 0; i < n; i++) {
      o.text.push_back(word(s, W, true));
      o.bits.push_back(s.coin());
      o.chars += (char)s.range(1, 127);
    }
    static const char* names[] = {"private", "public", "upper", "mux", "assign", "size", "open", "extract", "extracted"};
    d += cat("; ", names[o.kind], o.flag ? "+" : "", o.pub ? "p" : "", " ", o.a, ",", o.b, "->", o.to);
    if (o.kind < 2) {
      d += list(o.text);
    }
    c.label(names[o.kind]);
    useful += o.kind >= 2;
    ops.push_back(o);
  }
  c.desc = d;
  c.nontrivial = useful >= 2;
  runGame<2>(g, c.caseSeed, [&]<int sid>(int me) {
    using S = Str<W, sid, B>;
    using V = typename S::V;
    auto value = [&](const Strings& x) -> V {
      if constexpr (B) {
        return x;
      } else {
        return x[0];
      }
    };
    auto pick = [&](const auto& x) {
      if constexpr (B) {
        return x;
      } else {
        return x[0];
      }
    };
    auto strs = [&](const V& x) -> Strings {
      if constexpr (B) {
        return x;
      } else {
        return {x};
      }
    };
    auto sizes = [&](const auto& x) -> std::string {
      if constexpr (B) {
        return list(x);
      } else {
        return list(std::vector<size_t>{x});
      }
    };
    auto lengths = [](const Strings& x) {
      std::vector<size_t> r;
      for (auto& y : x) {
        r.push_back(y.size());
      }
      return list(r);
    };
    std::vector<typename S::Sec> secs;
    std::vector<Strings> secM;
    std::vector<typename S::Pub> pubs;
    std::vector<Strings> pubM;
    auto addSec = [&](typename S::Sec x, Strings m) {
      secs.push_back(std::move(x));
      secM.push_back(std::move(m));
    };
    auto checkPub = [&](const typename S::Pub& x, const Strings& m, const std::string& what, bool size = true) { // known finding: size() of public strings made of others is not set
      requireEq(list(strs(x.getValue())), list(m), what);
      if (size) {
        requireEq(sizes(x.size()), lengths(m), what, ": size");
      }
      requireEq(x.width(), (size_t)W, what, ": width");
      for (size_t i = 0; i < W; i++) {
        std::vector<int64_t> got, want;
        if constexpr (B) {
          got = x.at(i).getValue();
        } else {
          got = {x[i].getValue()};
        }
        for (auto& y : m) {
          want.push_back(i < y.size() ? y[i] : 0);
        }
        requireEq(list(got), list(want), what, ": characters ", i);
      }
    };
    auto mux = [](const Strings& a, const Strings& b, const std::vector<bool>& w) {
      Strings r;
      for (size_t i = 0; i < a.size(); i++) {
        r.push_back(w[i] ? b[i] : a[i]);
      }
      return r;
    };
    auto bits = [&](const std::vector<bool>& x) {
      return pick(x);
    };
    auto check = [&](const typename S::Sec& x, const Strings& m, int to, const std::string& what) {
      auto o = x.openToParty(to);
      if (me == to) {
        checkPub(o, m, what);
      } else {
        requireEq(o.width(), (size_t)W, what);
      }
    };
    Strings zero(n, "");
    addSec(typename S::Sec(value(zero), 0), zero);
    pubs.push_back(typename S::Pub(value(zero)));
    pubM.push_back(zero);
    for (auto& o : ops) {
      size_t a = o.a % secs.size(), b = o.b % secs.size(), pa = o.a % pubs.size(), pb = o.b % pubs.size();
      switch (o.kind) {
        case 0:
          addSec(typename S::Sec(value(me == o.to ? o.text : zero), o.to), o.text);
          break;
        case 1:
          pubs.push_back(typename S::Pub(value(o.text)));
          pubM.push_back(o.text);
          checkPub(pubs.back(), pubM.back(), "public string");
          break;
        case 2: {
          auto up = [](Strings v) {
            for (auto& y : v) {
              y = upper(y);
            }
            return v;
          };
          if (o.pub) {
            pubs.push_back(pubs[pa].toUpperCase());
            pubM.push_back(up(pubM[pa]));
            checkPub(pubs.back(), pubM.back(), "upper case of a public string", false);
          } else {
            addSec(secs[a].toUpperCase(), up(secM[a]));
          }
          break;
        }
        case 3: {
          ff::Bit<true, sid, B> sb(bits(me == o.to ? o.bits : std::vector<bool>(n)), o.to);
          ff::Bit<false, sid, B> qb(bits(o.bits));
          switch (o.a % 7) {
            case 0: addSec(secs[a].mux(sb, secs[b]), mux(secM[a], secM[b], o.bits)); break;
            case 1: addSec(secs[a].mux(qb, secs[b]), mux(secM[a], secM[b], o.bits)); break;
            case 2: addSec(secs[a].mux(sb, pubs[pb]), mux(secM[a], pubM[pb], o.bits)); break;
            case 3: addSec(secs[a].mux(qb, pubs[pb]), mux(secM[a], pubM[pb], o.bits)); break;
            case 4: addSec(pubs[pa].mux(sb, secs[b]), mux(pubM[pa], secM[b], o.bits)); break;
            case 5: addSec(pubs[pa].mux(sb, pubs[pb]), mux(pubM[pa], pubM[pb], o.bits)); break;
            default:
              pubs.push_back(pubs[pa].mux(qb, pubs[pb]));
              pubM.push_back(mux(pubM[pa], pubM[pb], o.bits));
              checkPub(pubs.back(), pubM.back(), "public choice of public strings", false);
          }
          break;
        }
        case 4: { // replace or append a character of every row
          auto m = secM[a];
          size_t at = o.b % W;
          std::vector<int64_t> v;
          bool fits = true;
          for (size_t i = 0; i < n; i++) {
            fits &= at <= m[i].size();
            v.push_back(o.chars[i]);
          }
          if (!fits) {
            break;
          }
          for (size_t i = 0; i < n; i++) {
            m[i].resize(std::max(m[i].size(), at + 1));
            m[i][at] = o.chars[i];
          }
          auto x = secs[a];
          x[at] = ff::Int<true, 8, true, sid, B>(pick(me == o.to ? v : std::vector<int64_t>(n)), o.to);
          check(secs[a], secM[a], o.to, "string whose copy changed");
          addSec(x, m);
          break;
        }
        case 5: {
          auto z = secs[a].template privateSize<8>().openToParty(o.to).getValue();
          if (me == o.to) {
            requireEq(sizes(z), lengths(secM[a]), "secret size");
          }
          break;
        }
        case 6:
          if (o.flag) { // too long for the capacity
            auto t = o.text;
            t[o.a % n] = std::string(W + 1 + o.b % 3, 'w');
            requireThrows<std::runtime_error>([&] { typename S::Pub y(value(t)); }, "public string beyond the capacity");
            requireThrows<std::runtime_error>([&] { typename S::Sec y(value(t), me); }, "private string beyond the capacity");
          }
          check(secs[a], secM[a], o.to, "string");
          break;
        case 7: {
          auto e = secs[a].extractAsciiStringShare();
          addSec(typename S::Sec(std::move(e)), secM[a]);
          break;
        }
        default: { // known finding: no string can be made of the values of shares
          auto e = secs[a].extractAsciiStringShare();
          auto v = e.getValue();
          for (auto& y : strs(v)) {
            requireEq(y.size(), (size_t)W, "size of a share");
          }
          requireEq(e.width(), (size_t)W, "width of a share");
        }
      }
      if constexpr (B) {
        requireEq(secs.back().getBatchSize(), n, "batch size");
      }
    }
    for (size_t i = 0; i < secs.size(); i++) {
      check(secs[i], secM[i], (i + n) % 2, cat("string ", i));
    }
  });
}
template <bool B>
void anyStrings(Src& s, Ctx& c, const SchedCfg& g) {
  s.chance(1, 3) ? strings<2, B>(s, c, g) : strings<15, B>(s, c, g);
}
PROPERTY(stringsScalar, 250, 8000) {
  anyStrings<false>(s, c, genSched(s, {Sched::NetPlain, Sched::Eager, Sched::Lazy}, 2, false));
}
PROPERTY(stringsBatch, 250, 8000) {
  anyStrings<true>(s, c, genSched(s, {Sched::NetPlain, Sched::Eager, Sched::Lazy}, 2, false));
}
} // namespace
