// In-memory stand-in for the part of google-cloud-cpp storage that fbpcf uses.
#pragma once
#include <algorithm>
#include <cstdint>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
namespace google::cloud {
enum class StatusCode { kOk = 0, kUnknown = 2, kNotFound = 5, kInternal = 13, kOutOfRange = 11 };
class Status {
 public:
  StatusCode code() const {
    return c_;
  }
  Status() = default;
  Status(StatusCode c, std::string m) : c_(c), m_(std::move(m)) {}
  bool ok() const {
    return c_ == StatusCode::kOk;
  }
  const std::string& message() const {
    return m_;
  }

 private:
  StatusCode c_ = StatusCode::kOk;
  std::string m_;
};
template <typename T>
class StatusOr {
 public:
  StatusOr() : s_(StatusCode::kUnknown, "default") {}
  StatusOr(T t) : v_(std::move(t)) {}
  StatusOr(Status s) : s_(std::move(s)) {}
  explicit operator bool() const {
    return v_.has_value();
  }
  bool ok() const {
    return v_.has_value();
  }
  const Status& status() const {
    return s_;
  }
  T* operator->() {
    return &*v_;
  }
  T& operator*() {
    return *v_;
  }
  T& value() {
    return *v_;
  }

 private:
  std::optional<T> v_;
  Status s_;
};
namespace storage {
struct ReadRange {
  bool set = false;
  int64_t a = 0, b = 0;
  ReadRange() = default;
  ReadRange(int64_t x, int64_t y) : set(true), a(x), b(y) {}
};
struct ContentType {
  std::string t;
  explicit ContentType(std::string s) : t(std::move(s)) {}
};
struct FakeGcs {
  std::map<std::string, std::string> objects;
  // objects too large to hold: their bytes are a function of the position
  struct Vast {
    uint64_t size;
    std::function<char(uint64_t)> at;
  };
  std::map<std::string, Vast> vast;
  std::function<bool(const char*)> fail;
  int deleted = 0, sessions = 0;
  static FakeGcs& get() {
    static FakeGcs g;
    return g;
  }
  bool shouldFail(const char* o) {
    return fail && fail(o);
  }
  void reset() {
    *this = FakeGcs();
  }
  static std::string id(const std::string& b, const std::string& k) {
    return b + "\n" + k;
  }
};
class ObjectMetadata {
 public:
  uint64_t n = 0;
  uint64_t size() const {
    return n;
  }
};
class ObjectReadStream : public std::istream {
 public:
  ObjectReadStream() : std::istream(nullptr) {}
  ObjectReadStream(std::string d, Status s)
      : std::istream(nullptr), b_(std::make_unique<std::stringbuf>(d)), s_(s) {
    rdbuf(b_.get());
  }
  ObjectReadStream(ObjectReadStream&& o)
      : std::istream(nullptr), b_(std::move(o.b_)), s_(std::move(o.s_)) {
    rdbuf(b_.get());
  }
  const Status& status() const {
    return s_;
  }

 private:
  std::unique_ptr<std::stringbuf> b_;
  Status s_;
};
class ObjectWriteStream : public std::ostream {
 public:
  ObjectWriteStream() : std::ostream(nullptr) {}
  ObjectWriteStream(std::string b, std::string k)
      : std::ostream(nullptr),
        buf_(std::make_unique<std::stringbuf>()),
        bucket_(std::move(b)),
        key_(std::move(k)),
        session_("session-" + std::to_string(++FakeGcs::get().sessions)) {
    rdbuf(buf_.get());
  }
  ObjectWriteStream(ObjectWriteStream&& o) : std::ostream(nullptr) {
    *this = std::move(o);
  }
  ObjectWriteStream& operator=(ObjectWriteStream&& o) {
    buf_ = std::move(o.buf_);
    bucket_ = std::move(o.bucket_);
    key_ = std::move(o.key_);
    session_ = std::move(o.session_);
    last_ = std::move(o.last_);
    meta_ = std::move(o.meta_);
    rdbuf(buf_.get());
    clear();
    return *this;
  }
  // As in the real library, write() through the stream reports errors by
  // last_status().
  ObjectWriteStream& write(const char* p, std::streamsize n) {
    if (FakeGcs::get().shouldFail("write")) {
      last_ = Status(StatusCode::kInternal, "write failed");
      return *this;
    }
    std::ostream::write(p, n);
    return *this;
  }
  const Status& last_status() const {
    return last_;
  }
  const std::string& resumable_session_id() const {
    return session_;
  }
  void Close() {
    if (!last_.ok() || FakeGcs::get().shouldFail("close")) {
      meta_ = StatusOr<ObjectMetadata>(Status(StatusCode::kInternal, "close failed"));
      return;
    }
    std::string d = buf_->str();
    FakeGcs::get().objects[FakeGcs::id(bucket_, key_)] = d;
    ObjectMetadata m;
    m.n = d.size();
    meta_ = StatusOr<ObjectMetadata>(m);
  }
  StatusOr<ObjectMetadata> const& metadata() const& {
    return meta_;
  }
  StatusOr<ObjectMetadata>&& metadata() && {
    return std::move(meta_);
  }

 private:
  std::unique_ptr<std::stringbuf> buf_;
  std::string bucket_, key_, session_;
  Status last_;
  StatusOr<ObjectMetadata> meta_;
};
class Client {
 public:
  ObjectReadStream
  ReadObject(const std::string& b, const std::string& k, ReadRange r = ReadRange()) {
    auto& g = FakeGcs::get();
    if (g.shouldFail("read")) {
      return ObjectReadStream("", Status(StatusCode::kInternal, "read failed"));
    }
    if (auto v = g.vast.find(FakeGcs::id(b, k)); v != g.vast.end()) {
      auto& o = v->second;
      uint64_t to = std::min<uint64_t>(r.b, o.size);
      if (!r.set || r.a < 0 || r.a >= r.b || (uint64_t)r.a >= o.size || to - r.a > (1u << 24)) {
        return ObjectReadStream("", Status(StatusCode::kOutOfRange, "bad range"));
      }
      std::string d;
      for (uint64_t i = r.a; i < to; i++) {
        d += o.at(i);
      }
      return ObjectReadStream(d, Status());
    }
    auto it = g.objects.find(FakeGcs::id(b, k));
    if (it == g.objects.end()) {
      return ObjectReadStream("", Status(StatusCode::kNotFound, "not found"));
    }
    std::string d = it->second;
    if (r.set) {
      if (r.a < 0 || r.a >= r.b || (size_t)r.a >= d.size()) {
        return ObjectReadStream("", Status(StatusCode::kOutOfRange, "bad range"));
      }
      d = d.substr(r.a, r.b - r.a);
    }
    return ObjectReadStream(d, Status());
  }
  StatusOr<ObjectMetadata> GetObjectMetadata(const std::string& b, const std::string& k) {
    auto& g = FakeGcs::get();
    if (auto v = g.vast.find(FakeGcs::id(b, k)); v != g.vast.end()) {
      ObjectMetadata m;
      m.n = v->second.size;
      return m;
    }
    auto it = g.objects.find(FakeGcs::id(b, k));
    if (g.shouldFail("meta") || it == g.objects.end()) {
      return Status(StatusCode::kNotFound, "not found");
    }
    ObjectMetadata m;
    m.n = it->second.size();
    return m;
  }
  template <typename... O>
  ObjectWriteStream WriteObject(const std::string& b, const std::string& k, O&&...) {
    return ObjectWriteStream(b, k);
  }
  StatusOr<ObjectMetadata>
  UploadFile(const std::string& f, const std::string& b, const std::string& k) {
    std::ifstream i(f, std::ios::binary);
    if (!i || FakeGcs::get().shouldFail("upload")) {
      return Status(StatusCode::kNotFound, "cannot upload");
    }
    std::stringstream s;
    s << i.rdbuf();
    FakeGcs::get().objects[FakeGcs::id(b, k)] = s.str();
    ObjectMetadata m;
    m.n = s.str().size();
    return m;
  }
  Status DeleteResumableUpload(const std::string&) {
    FakeGcs::get().deleted++;
    return Status();
  }
};
} // namespace storage
} // namespace google::cloud
