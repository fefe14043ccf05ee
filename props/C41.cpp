// C41: collection and call helpers do what the plain loop does.
#include <list>
#include <memory>
#include "fbpcf/common/FunctionalUtil.h"
#include "fbpcf/common/VectorUtil.h"
#include "fbpcf/mpc_std_lib/util/util.h"
#include "fbpcf/perf/PerfUtil.h"
#include "pbt.h"
using namespace pbt;
namespace fn = fbpcf::functional;
namespace vec = fbpcf::vector;

struct Boom : std::runtime_error {
  using runtime_error::runtime_error;
};
static size_t length(Src& s) {
  return s.chance(1, 12) ? s.sizeUpTo(70000) - 1 : s.chance(1, 6) ? 0 : s.sizeUpTo(300);
}
static std::vector<std::string> strings(Src& s, size_t n) {
  Rng r = s.rng();
  std::vector<std::string> v(n);
  for (auto& x : v) {
    x.assign(r.below(30), (char)('a' + r.below(26)));
  }
  return v;
}

// map: one result per element, in order, from one call each
PROPERTY(mapNumbers, 1500, 80000) {
  auto in = s.words(length(s));
  auto before = in;
  uint64_t k = s.u64();
  size_t calls = 0;
  c.desc = cat(in.size(), " numbers");
  auto out = fn::map<uint64_t, std::string>(in, [&](const uint64_t& x) {
    calls++;
    return std::to_string(x ^ k);
  });
  requireEq(out.size(), in.size(), "results");
  requireEq(calls, in.size(), "calls");
  require(in == before, "the input changed");
  for (size_t i = 0; i < in.size(); i++) {
    requireEq(out[i], std::to_string(in[i] ^ k), "result ", i);
  }
  c.nontrivial = in.size() >= 2;
}
PROPERTY(mapKinds, 800, 40000) {
  size_t n = length(s);
  c.desc = cat(n, " elements, ");
  switch (s.below(4)) {
    case 0: { // to and from bits
      auto in = s.bits(n);
      c.desc += "bits";
      std::vector<bool> out = fn::map<bool, bool>(in, [](const bool& b) { return !b; });
      requireEq(out.size(), n, "results");
      for (size_t i = 0; i < n; i++) {
        require(out[i] != in[i], "result ", i);
      }
      break;
    }
    case 1: { // the function sees the elements themselves, not copies of other ones
      auto in = strings(s, n);
      c.desc += "addresses";
      auto out = fn::map<std::string, const std::string*>(in, [](const std::string& x) { return &x; });
      requireEq(out.size(), n, "results");
      for (size_t i = 0; i < n; i++) {
        require(out[i] == &in[i], "result ", i, " is of another element");
      }
      break;
    }
    case 2: { // values that can only be moved
      auto in = s.words(n);
      c.desc += "move-only results";
      auto out = fn::map<uint64_t, std::shared_ptr<uint64_t>>(in, [](const uint64_t& x) { return std::make_shared<uint64_t>(x); });
      requireEq(out.size(), n, "results");
      for (size_t i = 0; i < n; i++) {
        require(out[i] && *out[i] == in[i] && out[i].use_count() == 1, "result ", i);
      }
      break;
    }
    default: { // a failure is passed on
      auto in = s.words(n);
      size_t at = n ? s.below(n) : 0, calls = 0;
      c.desc += cat("failing at ", at);
      bool threw = false;
      try {
        fn::map<uint64_t, int>(in, [&](const uint64_t&) -> int {
          if (calls++ == at) {
            throw Boom("at");
          }
          return 0;
        });
      } catch (const Boom&) {
        threw = true;
      }
      requireEq(threw, n > 0, "the failure reaches the caller");
    }
  }
  c.nontrivial = n >= 2;
}
// reduce: the left fold, which tells any other order or grouping apart
PROPERTY(reduceAll, 1500, 80000) {
  size_t n = length(s);
  c.desc = cat(n, " elements, ");
  if (n == 0) {
    c.desc += "refused";
    if (s.coin()) {
      requireThrows<std::invalid_argument>([] { fn::reduce<int64_t>({}, [](const int64_t& a, const int64_t&) { return a; }); }, "reducing nothing");
    } else {
      requireThrows<std::invalid_argument>([] { fn::reduce<std::string>({}, [](const std::string& a, const std::string& b) { return a + b; }); }, "reducing nothing");
    }
    return;
  }
  size_t calls = 0;
  switch (s.below(4)) {
    case 0: {
      auto in = s.words(n);
      uint64_t k = s.u64() | 1;
      c.desc += "hashed";
      auto f = [k](const uint64_t& a, const uint64_t& b) { return (a * k) ^ (b + (a >> 7)); };
      uint64_t want = in[0];
      for (size_t i = 1; i < n; i++) {
        want = f(want, in[i]);
      }
      auto before = in;
      auto got = fn::reduce<uint64_t>(in, [&](const uint64_t& a, const uint64_t& b) {
        calls++;
        return f(a, b);
      });
      requireEq(got, want, "reduced value");
      requireEq(calls, n - 1, "calls");
      require(in == before, "the input changed");
      break;
    }
    case 1: {
      n = std::min<size_t>(n, 2000);
      auto in = strings(s, n);
      c.desc += "joined";
      std::string want = in[0];
      for (size_t i = 1; i < n; i++) {
        want = "(" + want + "," + in[i] + ")";
        if (want.size() > 3000) {
          want = want.substr(1000);
        }
      }
      auto got = fn::reduce<std::string>(in, [&](const std::string& a, const std::string& b) {
        std::string r = "(" + a + "," + b + ")";
        return r.size() > 3000 ? r.substr(1000) : r;
      });
      requireEq(got, want, "reduced value");
      break;
    }
    case 2: {
      auto in = s.bits(n);
      c.desc += "bits";
      bool want = in[0];
      for (size_t i = 1; i < n; i++) {
        want = !(want && in[i]);
      }
      requireEq(fn::reduce<bool>(in, [](const bool& a, const bool& b) { return !(a && b); }), want, "reduced value");
      break;
    }
    default: { // the last and the first of a kind that is not summable
      auto in = s.words(n);
      c.desc += "first and last";
      using P = std::pair<uint64_t, uint64_t>;
      std::vector<P> v;
      for (size_t i = 0; i < n; i++) {
        v.push_back({i, in[i]});
      }
      requireEq(fn::reduce<P>(v, [](const P& a, const P&) { return a; }).second, in[0], "first");
      requireEq(fn::reduce<P>(v, [](const P&, const P& b) { return b; }).second, in[n - 1], "last");
      requireEq(fn::reduce<P>(v, [](const P& a, const P& b) { return a.second >= b.second ? a : b; }).second, *std::max_element(in.begin(), in.end()), "largest");
    }
  }
  c.nontrivial = n >= 2;
  c.labelIf(n == 1, "single");
}
// apply, Add, Xor: position by position; different lengths are refused
template <typename T>
static void elementwise(const std::vector<T>& a, const std::vector<T>& b, const std::string& what, Ctx& c) {
  auto a0 = a, b0 = b;
  size_t calls = 0;
  auto f = [&](T x, T y) -> T {
    calls++;
    return (T)(x * 3 - y);
  };
  if (a.size() != b.size()) {
    c.label("lengths differ");
    requireThrows<std::invalid_argument>([&] { vec::apply<T>(a, b, f); }, "apply of ", a.size(), " and ", b.size());
    requireThrows<std::invalid_argument>([&] { vec::Add<T>(a, b); }, "Add of ", a.size(), " and ", b.size());
    requireThrows<std::invalid_argument>([&] { vec::Xor<T>(a, b); }, "Xor of ", a.size(), " and ", b.size());
    return;
  }
  auto r = vec::apply<T>(a, b, f);
  requireEq(calls, a.size(), "calls");
  auto sum = vec::Add<T>(a, b), x = vec::Xor<T>(a, b);
  requireEq(r.size(), a.size(), "results of apply");
  requireEq(sum.size(), a.size(), "results of Add");
  requireEq(x.size(), a.size(), "results of Xor");
  require(a == a0 && b == b0, "an input changed");
  for (size_t i = 0; i < a.size(); i++) {
    require(r[i] == (T)(a[i] * 3 - b[i]), what, " apply at ", i);
    require(sum[i] == (T)(a[i] + b[i]), what, " sum at ", i);
    require(x[i] == (T)(a[i] ^ b[i]), what, " exclusive or at ", i);
  }
}
template <typename T>
static std::vector<T> values(Src& s, size_t n) {
  auto w = s.words(n);
  return std::vector<T>(w.begin(), w.end());
}
PROPERTY(elementwise, 1500, 80000) {
  size_t n = length(s), m = s.chance(1, 4) ? (s.coin() ? n + 1 : s.below(n + 1)) : n;
  if (s.coin()) {
    std::swap(n, m);
  }
  c.nontrivial = n >= 2 || n != m;
  int kind = s.below(5);
  c.desc = cat(n, " and ", m, " elements of kind ", kind);
  switch (kind) {
    case 0:
      return elementwise(values<uint64_t>(s, n), values<uint64_t>(s, m), "64-bit", c);
    case 1:
      return elementwise(values<uint32_t>(s, n), values<uint32_t>(s, m), "32-bit", c);
    case 2:
      return elementwise(values<uint8_t>(s, n), values<uint8_t>(s, m), "8-bit", c);
    case 3: { // signed, small enough not to overflow
      auto a = values<int64_t>(s, n), b = values<int64_t>(s, m);
      for (auto* v : {&a, &b}) {
        for (auto& x : *v) {
          x >>= 3;
        }
      }
      return elementwise(a, b, "signed", c);
    }
    default: { // bits
      auto a = s.bits(n), b = s.bits(m);
      if (n != m) {
        requireThrows<std::invalid_argument>([&] { vec::Xor<bool>(a, b); }, "Xor of ", n, " and ", m, " bits");
        requireThrows<std::invalid_argument>([&] { vec::Add<bool>(a, b); }, "Add of ", n, " and ", m, " bits");
        return;
      }
      std::vector<bool> x = vec::Xor<bool>(a, b), y = vec::apply<bool>(a, b, [](bool p, bool q) { return p && !q; });
      requireEq(x.size(), n, "results");
      requireEq(y.size(), n, "results");
      for (size_t i = 0; i < n; i++) {
        requireEq((bool)x[i], a[i] != b[i], "exclusive or at ", i);
        requireEq((bool)y[i], a[i] && !b[i], "and-not at ", i);
      }
    }
  }
}
// ... also for types that only define what they need
PROPERTY(elementwiseTypes, 600, 30000) {
  size_t n = length(s) % 2000, m = s.chance(1, 4) ? s.below(n + 2) : n;
  c.desc = cat(n, " and ", m, " elements");
  c.nontrivial = n >= 2 || n != m;
  using I = fbpcf::mpc_std_lib::util::Intp<true, 20>;
  if (s.coin()) {
    auto a = strings(s, n), b = strings(s, m);
    if (n != m) {
      requireThrows<std::invalid_argument>([&] { vec::Add<std::string>(a, b); }, "Add of strings");
      return;
    }
    auto r = vec::Add<std::string>(a, b);
    requireEq(r.size(), n, "results");
    for (size_t i = 0; i < n; i++) {
      requireEq(r[i], a[i] + b[i], "string ", i);
    }
  } else {
    auto gen = [&](size_t k) {
      Rng r = s.rng();
      std::vector<I> v;
      for (size_t i = 0; i < k; i++) {
        v.push_back(I((int64_t)r.below(1 << 19) - (1 << 18)));
      }
      return v;
    };
    auto a = gen(n), b = gen(m);
    if (n != m) {
      requireThrows<std::invalid_argument>([&] { vec::Add<I>(a, b); }, "Add of modular integers");
      return;
    }
    auto r = vec::Add<I>(a, b);
    requireEq(r.size(), n, "results");
    for (size_t i = 0; i < n; i++) {
      requireEq((int64_t)r[i], (int64_t)(a[i] + b[i]), "modular integer ", i);
    }
  }
}
// A decorated function is called once per call, with the same arguments, and
// its result, its effects on arguments and its failures are the caller's.
PROPERTY(decorated, 1200, 60000) {
  std::string name = s.pick<const char*>({"f", "", "{}", "a {} b {}", "%s%n", "Class::method"});
  if (s.chance(1, 6)) {
    name.assign(s.below(500), 'x');
  }
  c.desc = "'" + name.substr(0, 20) + "' ";
  size_t calls = 0, times = 1 + s.below(6);
  switch (s.below(6)) {
    case 0: {
      c.desc += "values";
      auto f = fbpcf::perf::decorate(name, std::function<uint64_t(uint64_t, int32_t, bool)>([&](uint64_t a, int32_t b, bool k) {
        calls++;
        return a * 3 + (int64_t)b * 5 + k;
      }));
      for (size_t i = 0; i < times; i++) {
        uint64_t a = s.edgyU(UINT64_MAX);
        int32_t b = (int32_t)s.edgy(INT32_MIN, INT32_MAX);
        bool k = s.coin();
        requireEq(f(a, b, k), (uint64_t)(a * 3 + (int64_t)b * 5 + k), "result");
      }
      break;
    }
    case 1: {
      c.desc += "strings";
      auto f = fbpcf::perf::decorate(name, std::function<std::string(const std::string&, std::string)>([&](const std::string& a, std::string b) {
        calls++;
        return a + "|" + b;
      }));
      for (size_t i = 0; i < times; i++) {
        auto v = strings(s, 2);
        requireEq(f(v[0], v[1]), v[0] + "|" + v[1], "result");
      }
      break;
    }
    case 2: {
      c.desc += "references";
      auto f = fbpcf::perf::decorate(name, std::function<void(std::vector<int>&, int)>([&](std::vector<int>& v, int x) {
        calls++;
        v.push_back(x);
      }));
      std::vector<int> v;
      for (size_t i = 0; i < times; i++) {
        f(v, (int)i * 7);
        requireEq(v.size(), i + 1, "elements after the call");
        requireEq(v.back(), (int)i * 7, "element");
      }
      break;
    }
    case 3: {
      c.desc += "move-only";
      auto f = fbpcf::perf::decorate(name, std::function<std::unique_ptr<int>(std::unique_ptr<int>)>([&](std::unique_ptr<int> p) {
        calls++;
        ++*p;
        return p;
      }));
      for (size_t i = 0; i < times; i++) {
        auto p = std::make_unique<int>((int)i);
        auto* at = p.get();
        auto r = f(std::move(p));
        require(r.get() == at && *r == (int)i + 1, "what comes back");
      }
      break;
    }
    case 4: {
      c.desc += "failing";
      size_t bad = s.below(times);
      bool isVoid = s.coin();
      auto body = [&](size_t i) {
        calls++;
        if (i == bad) {
          throw Boom("bad");
        }
      };
      auto f = fbpcf::perf::decorate(name, std::function<void(size_t)>(body));
      auto g = fbpcf::perf::decorate(name, std::function<int(size_t)>([&](size_t i) {
        body(i);
        return (int)i;
      }));
      for (size_t i = 0; i < times; i++) {
        bool threw = false;
        try {
          if (isVoid) {
            f(i);
          } else {
            requireEq(g(i), (int)i, "result");
          }
        } catch (const Boom&) {
          threw = true;
        }
        requireEq(threw, i == bad, "the failure reaches the caller");
      }
      break;
    }
    default: {
      c.desc += "methods, after the original is gone";
      struct K {
        int64_t sum = 0;
        size_t calls = 0;
        int64_t add(int64_t x) {
          calls++;
          return sum += x;
        }
        void reset() {
          calls++;
          sum = 0;
        }
      } k;
      std::function<int64_t(K*, int64_t)> add;
      std::function<void(K*)> reset;
      {
        auto original = std::make_unique<std::function<int64_t(K*, int64_t)>>(&K::add);
        auto n2 = std::make_unique<std::string>(name);
        add = fbpcf::perf::decorate(*n2, *original);
        reset = fbpcf::perf::decorate(*n2, std::function<void(K*)>(&K::reset));
        n2->assign(n2->size(), '#');
      }
      int64_t sum = 0;
      for (size_t i = 0; i < times; i++) {
        if (s.chance(1, 4)) {
          reset(&k);
          sum = 0;
        } else {
          int64_t x = s.range(-1000, 1000);
          requireEq(add(&k, x), sum += x, "result");
        }
        requireEq(k.sum, sum, "effect");
      }
      calls = k.calls;
    }
  }
  requireEq(calls, times, "calls of the function");
  c.nontrivial = times >= 2;
}
