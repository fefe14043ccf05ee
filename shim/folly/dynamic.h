// Offline stand-in for the part of folly::dynamic that fbpcf uses.
#pragma once
#include <cstdint>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace folly {
class dynamic;
using DynMap = std::map<std::string, dynamic>;
class TypeError : public std::runtime_error {
 public:
  using std::runtime_error::runtime_error;
};
class dynamic {
 public:
  enum Type { NULLT, ARRAY, BOOL, DOUBLE, INT64, OBJECT, STRING };
  struct ObjectMaker;
  dynamic() = default;
  dynamic(std::nullptr_t) {}
  dynamic(const dynamic&) = default;
  dynamic(dynamic&&) = default;
  dynamic& operator=(const dynamic&) = default;
  dynamic& operator=(dynamic&&) = default;
  dynamic(bool b) : t_(BOOL), i_(b) {}
  template <
      typename I,
      std::enable_if_t<std::is_integral_v<I> && !std::is_same_v<I, bool>, int> = 0>
  dynamic(I i) : t_(INT64), i_(static_cast<int64_t>(i)) {}
  template <
      typename F,
      std::enable_if_t<std::is_floating_point_v<F>, int> = 0,
      int = 0>
  dynamic(F d) : t_(DOUBLE), d_(d) {}
  dynamic(const char* s) : t_(STRING), s_(s) {}
  dynamic(std::string s) : t_(STRING), s_(std::move(s)) {}
  inline dynamic(ObjectMaker m);
  using ObjFn = ObjectMaker (*)();
  inline dynamic(ObjFn f);
  static inline ObjectMaker object();
  static inline ObjectMaker object(std::string k, dynamic v);
  template <typename C>
  static dynamic array_range(const C& c) {
    dynamic d;
    d.t_ = ARRAY;
    for (const auto& x : c) {
      d.a_.push_back(dynamic(x));
    }
    return d;
  }
  static dynamic emptyArray() {
    dynamic d;
    d.t_ = ARRAY;
    return d;
  }
  static inline dynamic emptyObject();
  Type type() const {
    return t_;
  }
  bool isNumber() const {
    return t_ == INT64 || t_ == DOUBLE;
  }
  bool isInt() const {
    return t_ == INT64;
  }
  bool isDouble() const {
    return t_ == DOUBLE;
  }
  bool isString() const {
    return t_ == STRING;
  }
  bool isObject() const {
    return t_ == OBJECT;
  }
  bool isArray() const {
    return t_ == ARRAY;
  }
  bool isBool() const {
    return t_ == BOOL;
  }
  bool isNull() const {
    return t_ == NULLT;
  }
  int64_t asInt() const {
    switch (t_) {
      case INT64:
      case BOOL:
        return i_;
      case DOUBLE:
        return (int64_t)d_;
      case STRING:
        return std::stoll(s_);
      default:
        throw TypeError("asInt");
    }
  }
  double asDouble() const {
    switch (t_) {
      case INT64:
      case BOOL:
        return (double)i_;
      case DOUBLE:
        return d_;
      case STRING:
        return std::stod(s_);
      default:
        throw TypeError("asDouble");
    }
  }
  bool asBool() const {
    return asInt() != 0;
  }
  int64_t getInt() const {
    if (t_ != INT64) {
      throw TypeError("getInt");
    }
    return i_;
  }
  const std::string& getString() const {
    if (t_ != STRING) {
      throw TypeError("getString");
    }
    return s_;
  }
  std::string asString() const {
    switch (t_) {
      case STRING:
        return s_;
      case INT64:
        return std::to_string(i_);
      case BOOL:
        return i_ ? "true" : "false";
      case DOUBLE: {
        std::ostringstream o;
        o << d_;
        return o.str();
      }
      default:
        throw TypeError("asString");
    }
  }
  size_t size() const {
    if (t_ == ARRAY) {
      return a_.size();
    }
    if (t_ == OBJECT) {
      return o_.size();
    }
    if (t_ == STRING) {
      return s_.size();
    }
    throw TypeError("size");
  }
  bool empty() const {
    return size() == 0;
  }
  size_t count(const std::string& k) const {
    needObj();
    return o_.count(k);
  }
  template <typename V>
  void insert(const std::string& k, V&& v) {
    needObj();
    set(k, dynamic(std::forward<V>(v)));
  }
  void push_back(dynamic d) {
    a_.push_back(std::move(d));
  }
  dynamic& operator[](const std::string& k) {
    needObj();
    return o_[k];
  }
  const dynamic& operator[](const std::string& k) const {
    return at(k);
  }
  dynamic& operator[](const char* k) {
    return (*this)[std::string(k)];
  }
  const dynamic& operator[](const char* k) const {
    return at(k);
  }
  template <typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
  dynamic& operator[](I i) {
    return a_.at(i);
  }
  template <typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
  const dynamic& operator[](I i) const {
    return a_.at(i);
  }
  inline const dynamic& at(const std::string& k) const;
  // (key, value) pairs; as in folly, the keys are dynamics themselves.
  inline std::vector<std::pair<dynamic, dynamic>> items() const;
  std::vector<dynamic>::const_iterator begin() const {
    return a_.begin();
  }
  std::vector<dynamic>::const_iterator end() const {
    return a_.end();
  }
  dynamic& operator+=(const dynamic& x) {
    if (t_ == INT64 && x.t_ == INT64) {
      i_ += x.i_;
    } else if (isNumber() && x.isNumber()) {
      double r = asDouble() + x.asDouble();
      t_ = DOUBLE;
      d_ = r;
    } else {
      throw TypeError("+=");
    }
    return *this;
  }
  inline bool operator==(const dynamic& o) const;
  bool operator!=(const dynamic& o) const {
    return !(*this == o);
  }
  inline void set(const std::string& k, dynamic v);
  std::vector<dynamic>& arr() {
    return a_;
  }
  DynMap& obj() {
    return o_;
  }

 private:
  void needObj() const {
    if (t_ != OBJECT) {
      throw TypeError("not an object");
    }
  }
  friend struct ObjectMaker;
  Type t_ = NULLT;
  int64_t i_ = 0;
  double d_ = 0;
  std::string s_;
  std::vector<dynamic> a_;
  DynMap o_;
};
struct dynamic::ObjectMaker {
  dynamic d;
  ObjectMaker() {
    d.t_ = OBJECT;
  }
  ObjectMaker operator()(std::string k, dynamic v) && {
    d.set(k, std::move(v));
    return std::move(*this);
  }
};
inline dynamic::dynamic(ObjectMaker m) : dynamic(std::move(m.d)) {}
inline dynamic::dynamic(ObjFn f) : dynamic(f()) {}
inline dynamic::ObjectMaker dynamic::object() {
  return ObjectMaker();
}
inline dynamic::ObjectMaker dynamic::object(std::string k, dynamic v) {
  ObjectMaker m;
  m.d.set(k, std::move(v));
  return m;
}
inline dynamic dynamic::emptyObject() {
  return dynamic(ObjectMaker());
}
inline void dynamic::set(const std::string& k, dynamic v) {
  auto it = o_.find(k);
  if (it == o_.end()) {
    o_.emplace(k, std::move(v));
  } else {
    it->second = std::move(v);
  }
}
inline const dynamic& dynamic::at(const std::string& k) const {
  needObj();
  auto it = o_.find(k);
  if (it == o_.end()) {
    throw std::out_of_range("couldn't find key " + k + " in dynamic object");
  }
  return it->second;
}
inline std::vector<std::pair<dynamic, dynamic>> dynamic::items() const {
  needObj();
  std::vector<std::pair<dynamic, dynamic>> r;
  for (const auto& [k, v] : o_) {
    r.emplace_back(dynamic(k), v);
  }
  return r;
}
inline bool dynamic::operator==(const dynamic& o) const {
  if (t_ != o.t_) {
    return isNumber() && o.isNumber() && asDouble() == o.asDouble();
  }
  switch (t_) {
    case NULLT:
      return true;
    case BOOL:
    case INT64:
      return i_ == o.i_;
    case DOUBLE:
      return d_ == o.d_;
    case STRING:
      return s_ == o.s_;
    case ARRAY:
      return a_ == o.a_;
    case OBJECT:
      return o_ == o.o_;
  }
  return false;
}
} // namespace folly
