// In-memory stand-in for the part of the AWS SDK that fbpcf uses. It keeps the
// multipart-upload rules the real service enforces: parts are addressed by
// number, an upload can be completed once, an aborted upload is gone, and the
// list given to Complete must name parts (number + ETag) that were uploaded.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
namespace Aws {
using String = std::string;
template <typename T>
using Vector = std::vector<T>;
using StringStream = std::stringstream;
using IOStream = std::iostream;
template <typename T, typename... A>
std::shared_ptr<T> MakeShared(const char*, A&&... a) {
  return std::make_shared<T>(std::forward<A>(a)...);
}
template <typename T, typename... A>
T* New(const char*, A&&... a) {
  return new T(std::forward<A>(a)...);
}
struct SDKOptions {};
inline void InitAPI(SDKOptions&) {}
inline void ShutdownAPI(SDKOptions&) {}
namespace Http {
enum class Scheme { HTTP, HTTPS };
}
namespace Client {
struct ClientConfiguration {
  String region = "us-east-1";
  String proxyHost;
  unsigned proxyPort = 0;
  Http::Scheme proxyScheme = Http::Scheme::HTTP;
  String proxySSLCertPath;
};
enum class CoreErrors { UNKNOWN = 100 };
template <typename E>
struct AWSError {
  String msg;
  AWSError() = default;
  explicit AWSError(String m) : msg(std::move(m)) {}
  AWSError(E, bool) {}
  const String& GetMessage() const {
    return msg;
  }
  friend std::ostream& operator<<(std::ostream& o, const AWSError& e) {
    return o << e.msg;
  }
};
} // namespace Client
namespace Auth {
struct AWSCredentials {
  String id, key;
  AWSCredentials(String i, String k) : id(std::move(i)), key(std::move(k)) {}
};
} // namespace Auth
namespace Utils {
template <typename R, typename E>
class Outcome {
 public:
  Outcome() = default;
  Outcome(R r) : r_(std::move(r)), ok_(true) {}
  Outcome(E e) : e_(std::move(e)), ok_(false) {}
  bool IsSuccess() const {
    return ok_;
  }
  const R& GetResult() const {
    return r_;
  }
  R& GetResult() {
    return r_;
  }
  R GetResultWithOwnership() {
    return std::move(r_);
  }
  const E& GetError() const {
    return e_;
  }

 private:
  R r_;
  E e_;
  bool ok_ = false;
};
} // namespace Utils
namespace S3 {
using S3Error = Aws::Client::AWSError<Client::CoreErrors>;
enum class S3Errors { UNKNOWN = 100 };
namespace Model {
#define FAKE_BK                    \
  String bucket, key;              \
  void SetBucket(const String& b) { \
    bucket = b;                    \
  }                                \
  void SetKey(const String& k) {   \
    key = k;                       \
  }                                \
  const String& GetBucket() const { \
    return bucket;                 \
  }                                \
  const String& GetKey() const {   \
    return key;                    \
  }
struct GetObjectRequest {
  FAKE_BK
  String range;
  bool hasRange = false;
  void SetRange(const String& r) {
    range = r;
    hasRange = true;
  }
};
struct HeadObjectRequest {
  FAKE_BK
};
struct PutObjectRequest {
  FAKE_BK
  std::shared_ptr<IOStream> body;
  void SetBody(std::shared_ptr<IOStream> b) {
    body = std::move(b);
  }
};
struct CreateMultipartUploadRequest {
  FAKE_BK
  String contentType;
  void SetContentType(const String& c) {
    contentType = c;
  }
};
struct UploadPartRequest {
  FAKE_BK
  String uploadId;
  int partNumber = 0;
  long long contentLength = -1;
  std::shared_ptr<IOStream> body;
  void SetUploadId(const String& u) {
    uploadId = u;
  }
  void SetPartNumber(int p) {
    partNumber = p;
  }
  int GetPartNumber() const {
    return partNumber;
  }
  void SetContentLength(long long l) {
    contentLength = l;
  }
  void SetBody(std::shared_ptr<IOStream> b) {
    body = std::move(b);
  }
};
struct CompletedPart {
  int partNumber = 0;
  String etag;
  void SetPartNumber(int p) {
    partNumber = p;
  }
  void SetETag(const String& e) {
    etag = e;
  }
};
struct CompletedMultipartUpload {
  Vector<CompletedPart> parts;
  CompletedMultipartUpload& WithParts(const Vector<CompletedPart>& p) {
    parts = p;
    return *this;
  }
  void SetParts(const Vector<CompletedPart>& p) {
    parts = p;
  }
  CompletedMultipartUpload& AddParts(const CompletedPart& p) {
    parts.push_back(p);
    return *this;
  }
};
struct CompleteMultipartUploadRequest {
  FAKE_BK
  String uploadId;
  CompletedMultipartUpload mp;
  void SetUploadId(const String& u) {
    uploadId = u;
  }
  void SetMultipartUpload(const CompletedMultipartUpload& m) {
    mp = m;
  }
};
struct AbortMultipartUploadRequest {
  FAKE_BK
  String uploadId;
  void SetUploadId(const String& u) {
    uploadId = u;
  }
};
struct GetObjectResult {
  std::shared_ptr<std::stringstream> body = std::make_shared<std::stringstream>();
  IOStream& GetBody() const {
    return *body;
  }
};
struct HeadObjectResult {
  long long len = 0;
  long long GetContentLength() const {
    return len;
  }
};
struct PutObjectResult {};
struct CreateMultipartUploadResult {
  String id;
  const String& GetUploadId() const {
    return id;
  }
  void SetUploadId(const String& u) {
    id = u;
  }
};
struct UploadPartResult {
  String etag;
  const String& GetETag() const {
    return etag;
  }
  void SetETag(const String& e) {
    etag = e;
  }
};
struct CompleteMultipartUploadResult {};
struct AbortMultipartUploadResult {};
#undef FAKE_BK
template <typename R>
using Out = Utils::Outcome<R, S3Error>;
using GetObjectOutcome = Out<GetObjectResult>;
using HeadObjectOutcome = Out<HeadObjectResult>;
using PutObjectOutcome = Out<PutObjectResult>;
using CreateMultipartUploadOutcome = Out<CreateMultipartUploadResult>;
using UploadPartOutcome = Out<UploadPartResult>;
using CompleteMultipartUploadOutcome = Out<CompleteMultipartUploadResult>;
using AbortMultipartUploadOutcome = Out<AbortMultipartUploadResult>;
} // namespace Model

// The simulated service.
struct FakeService {
  struct Upload {
    std::string bucket, key;
    std::map<int, std::pair<std::string, std::string>> parts; // n -> etag,data
  };
  std::map<std::string, std::string> objects; // "bucket\nkey" -> bytes
  // objects too large to hold: their bytes are a function of the position
  struct Vast {
    unsigned long long size;
    std::function<char(unsigned long long)> at;
  };
  std::map<std::string, Vast> vast;
  std::map<std::string, Upload> uploads;
  int nextUpload = 1, nextTag = 1;
  int aborted = 0, completed = 0, partCalls = 0;
  std::string lastRegion;
  std::string requestRegion; // region of the client the last request came by
  // Decides whether a request of the named kind fails this time.
  std::function<bool(const char*)> fail;
  // Largest number of bytes one GetObject returns (0: no limit).
  bool shouldFail(const char* op) {
    return fail && fail(op);
  }
  static FakeService& get() {
    static FakeService s;
    return s;
  }
  void reset() {
    *this = FakeService();
  }
};

class S3Client {
 public:
  // what the client was made with
  Client::ClientConfiguration config;
  std::string credId, credKey;
  S3Client() = default;
  explicit S3Client(const Client::ClientConfiguration& c) : config(c) {
    FakeService::get().lastRegion = c.region;
  }
  S3Client(
      const Auth::AWSCredentials& a,
      const Client::ClientConfiguration& c)
      : config(c), credId(a.id), credKey(a.key) {
    FakeService::get().lastRegion = c.region;
  }
  virtual ~S3Client() = default;
  static std::string id(const std::string& b, const std::string& k) {
    return b + "\n" + k;
  }
  virtual Model::GetObjectOutcome GetObject(const Model::GetObjectRequest& r) const {
    auto& s = FakeService::get();
    s.requestRegion = config.region;
    if (s.shouldFail("get")) {
      return S3Error("get failed");
    }
    if (auto v = s.vast.find(id(r.bucket, r.key)); v != s.vast.end()) {
      unsigned long long a = 0, b = 0;
      char junk = 0;
      auto& o = v->second;
      if (std::sscanf(r.range.c_str(), "bytes=%llu-%llu%c", &a, &b, &junk) != 2 ||
          a > b || a >= o.size || std::min(b, o.size - 1) - a > (1u << 24)) {
        return S3Error("InvalidRange");
      }
      std::string d;
      for (auto i = a; i <= b && i < o.size; i++) {
        d += o.at(i);
      }
      Model::GetObjectResult res;
      res.body->str(d);
      return res;
    }
    auto it = s.objects.find(id(r.bucket, r.key));
    if (it == s.objects.end()) {
      return S3Error("NoSuchKey");
    }
    std::string d = it->second;
    if (r.hasRange) {
      unsigned long long a = 0, b = 0;
      char junk = 0;
      // As in HTTP, a range that is none is ignored.
      if (std::sscanf(r.range.c_str(), "bytes=%llu-%llu%c", &a, &b, &junk) == 2 &&
          a <= b) {
        if (a >= d.size()) {
          return S3Error("InvalidRange");
        }
        d = d.substr(a, b - a == ~0ull ? std::string::npos : b - a + 1);
      }
    }
    Model::GetObjectResult res;
    res.body->str(d);
    return res;
  }
  virtual Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest& r) const {
    auto& s = FakeService::get();
    s.requestRegion = config.region;
    if (s.shouldFail("head")) {
      return S3Error("head failed");
    }
    if (auto v = s.vast.find(id(r.bucket, r.key)); v != s.vast.end()) {
      Model::HeadObjectResult res;
      res.len = v->second.size;
      return res;
    }
    auto it = s.objects.find(id(r.bucket, r.key));
    if (it == s.objects.end()) {
      return S3Error("NoSuchKey");
    }
    Model::HeadObjectResult res;
    res.len = it->second.size();
    return res;
  }
  virtual Model::PutObjectOutcome PutObject(const Model::PutObjectRequest& r) const {
    auto& s = FakeService::get();
    s.requestRegion = config.region;
    if (s.shouldFail("put")) {
      return S3Error("put failed");
    }
    std::stringstream o;
    if (r.body && r.body->peek() != EOF) {
      o << r.body->rdbuf();
    }
    s.objects[id(r.bucket, r.key)] = o.str();
    return Model::PutObjectResult();
  }
  virtual Model::CreateMultipartUploadOutcome CreateMultipartUpload(
      const Model::CreateMultipartUploadRequest& r) const {
    auto& s = FakeService::get();
    s.requestRegion = config.region;
    if (s.shouldFail("create")) {
      return S3Error("create failed");
    }
    std::string u = "upload-" + std::to_string(s.nextUpload++);
    s.uploads[u] = {r.bucket, r.key, {}};
    Model::CreateMultipartUploadResult res;
    res.id = u;
    return res;
  }
  virtual Model::UploadPartOutcome UploadPart(const Model::UploadPartRequest& r) const {
    auto& s = FakeService::get();
    s.requestRegion = config.region;
    s.partCalls++;
    std::string d;
    if (r.body) {
      r.body->clear();
      r.body->seekg(0);
      std::stringstream o;
      if (r.body->peek() != EOF) {
        o << r.body->rdbuf();
      }
      d = o.str();
    }
    if (s.shouldFail("part")) {
      return S3Error("part failed");
    }
    auto it = s.uploads.find(r.uploadId);
    if (it == s.uploads.end() || it->second.bucket != r.bucket ||
        it->second.key != r.key) {
      return S3Error("NoSuchUpload");
    }
    if (r.partNumber < 1 || r.partNumber > 10000) {
      return S3Error("InvalidArgument: part number");
    }
    if (r.contentLength >= 0 && (size_t)r.contentLength != d.size()) {
      return S3Error("IncompleteBody");
    }
    std::string tag = "etag-" + std::to_string(s.nextTag++);
    it->second.parts[r.partNumber] = {tag, d};
    Model::UploadPartResult res;
    res.etag = tag;
    return res;
  }
  virtual Model::CompleteMultipartUploadOutcome CompleteMultipartUpload(
      const Model::CompleteMultipartUploadRequest& r) const {
    auto& s = FakeService::get();
    s.requestRegion = config.region;
    if (s.shouldFail("complete")) {
      return S3Error("complete failed");
    }
    auto it = s.uploads.find(r.uploadId);
    if (it == s.uploads.end() || it->second.bucket != r.bucket ||
        it->second.key != r.key) {
      return S3Error("NoSuchUpload");
    }
    if (r.mp.parts.empty()) {
      return S3Error("MalformedXML");
    }
    std::string d;
    int last = 0;
    for (const auto& p : r.mp.parts) {
      auto q = it->second.parts.find(p.partNumber);
      if (q == it->second.parts.end() || q->second.first != p.etag) {
        return S3Error("InvalidPart");
      }
      if (p.partNumber <= last) {
        return S3Error("InvalidPartOrder");
      }
      last = p.partNumber;
      d += q->second.second;
    }
    s.objects[id(r.bucket, r.key)] = d;
    s.uploads.erase(it);
    s.completed++;
    return Model::CompleteMultipartUploadResult();
  }
  virtual Model::AbortMultipartUploadOutcome AbortMultipartUpload(
      const Model::AbortMultipartUploadRequest& r) const {
    auto& s = FakeService::get();
    s.requestRegion = config.region;
    if (s.shouldFail("abort")) {
      return S3Error("abort failed");
    }
    auto it = s.uploads.find(r.uploadId);
    if (it == s.uploads.end()) {
      return S3Error("NoSuchUpload");
    }
    s.uploads.erase(it);
    s.aborted++;
    return Model::AbortMultipartUploadResult();
  }
};
} // namespace S3
} // namespace Aws
