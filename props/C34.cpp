// C34: cloud paths are recognised and decomposed into their true parts.
#include <thread>
#include "fbpcf/aws/S3Util.h"
#include "fbpcf/exception/AwsException.h"
#include "fbpcf/exception/GcpException.h"
#include "fbpcf/exception/PcfException.h"
#include "fbpcf/gcp/GCSUtil.h"
#include "fbpcf/io/FileManagerUtil.h"
#include "fbpcf/io/LocalFileManager.h"
#include "fbpcf/io/S3FileManager.h"
#include "fbpcf/io/api/IOUtils.h"
#include "fbpcf/io/cloud_util/CloudFileUtil.h"
#include "fbpcf/io/cloud_util/GCSFileReader.h"
#include "fbpcf/io/cloud_util/GCSFileUploader.h"
#include "fbpcf/io/cloud_util/S3Client.h"
#include "fbpcf/io/cloud_util/S3FileReader.h"
#include "fbpcf/io/cloud_util/S3FileUploader.h"
#include "pbt.h"
using namespace pbt;
namespace {
namespace cio = fbpcf::cloudio;
using cio::CloudFileType;
std::string letters(Src& s, const char* from, size_t lo, size_t hi) {
  std::string r, f = from;
  for (size_t n = lo + s.below(hi - lo + 1); r.size() < n;) {
    r += f[s.below(f.size())];
  }
  return r;
}
const char* kLower = "abcdefghijklmnopqrstuvwxyz0123456789";
std::string genBucket(Src& s) {
  std::string b = letters(s, kLower, 1, 6);
  for (int n = s.below(4); n--;) {
    static const char* odd[] = {"s3", "amazonaws", "com", "storage", "googleapis", "s3-x", "us-west-2", "0"};
    b += s.coin() ? "-" : ".";
    b += s.chance(1, 4) ? odd[s.below(8)] : letters(s, kLower, 1, 6);
  }
  return b;
}
std::string genRegion(Src& s) {
  static const char* known[] = {"us-west-2", "us-east-1", "ap-southeast-1", "eu-central-1", "us-gov-west-1", "region"};
  return s.coin() ? known[s.below(6)] : letters(s, kLower, 2, 3) + "-" + letters(s, kLower, 1, 8) + "-" + letters(s, "0123456789", 1, 2);
}
std::string genKey(Src& s) {
  std::string k;
  for (int n = 1 + s.below(s.chance(1, 8) ? 12 : 4); n--;) {
    static const char* odd[] = {"s3", "a.csv", "storage.googleapis.com", "x.s3.us-west-2.amazonaws.com", "https:", "0", ".", "gs:"};
    k += s.chance(1, 6) ? odd[s.below(8)] : letters(s, "abcXYZ019._-=+,!*'() @:~$&;%", 1, 9);
    if (n) {
      k += "/";
    }
  }
  if (s.chance(1, 10)) {
    k += "/";
  }
  return k;
}
// the region by default, restored afterwards
struct Env {
  std::vector<std::string> names;
  void set(const std::string& n, const std::string& v) {
    setenv(n.c_str(), v.c_str(), 1);
    names.push_back(n);
  }
  ~Env() {
    for (auto& n : names) {
      unsetenv(n.c_str());
    }
  }
};
struct Path {
  bool s3;
  int form;
  std::string region, bucket, key, url;
};
Path genPath(Src& s) {
  Path p;
  p.s3 = s.coin();
  p.bucket = genBucket(s);
  p.key = genKey(s);
  p.region = genRegion(s);
  if (p.s3) {
    p.form = s.below(3);
    p.url = p.form == 0 ? "https://" + p.bucket + ".s3." + p.region + ".amazonaws.com/" + p.key
        : p.form == 1   ? "https://" + p.bucket + ".s3-" + p.region + ".amazonaws.com/" + p.key
                        : "s3://" + p.bucket + "/" + p.key;
  } else {
    p.form = s.below(4);
    if (s.chance(1, 10)) {
      p.bucket = (s.coin() ? "s3." : "s3-") + p.region + ".amazonaws.com";
    }
    if (p.form != 1 && s.chance(1, 6)) {
      p.bucket += "_" + letters(s, kLower, 1, 4);
    }
    p.url = p.form == 0 ? "https://storage.cloud.google.com/" + p.bucket + "/" + p.key
        : p.form == 1   ? "https://" + p.bucket + ".storage.googleapis.com/" + p.key
        : p.form == 2   ? "https://storage.googleapis.com/" + p.bucket + "/" + p.key
                        : "gs://" + p.bucket + "/" + p.key;
  }
  return p;
}
PROPERTY(cloud_paths, 12000, 800000) {
  auto p = genPath(s);
  unsetenv("AWS_DEFAULT_REGION");
  Env env;
  bool envSet = s.coin();
  std::string other = genRegion(s);
  if (envSet) {
    env.set("AWS_DEFAULT_REGION", other);
  }
  c.desc = cat(p.url, envSet ? " with a region by default" : "");
  c.nontrivial = p.key.find('/') != std::string::npos || p.bucket.find_first_of(".-_") != std::string::npos;
  c.label(cat(p.s3 ? "S3" : "GCS", " form ", p.form + 1));
  c.labelIf(p.bucket.find('.') != std::string::npos, "bucket with dots");
  c.labelIf(p.key.find('/') != std::string::npos, "nested key");
  require(cio::getCloudFileType(p.url) == (p.s3 ? CloudFileType::S3 : CloudFileType::GCS), "not recognised as a path of its provider");
  requireEq(cio::getCloudProviderString(p.url), std::string(p.s3 ? "AWS" : "GCP"), "provider");
  requireEq(cio::getCloudStorageServiceString(p.url), std::string(p.s3 ? "S3" : "GCS"), "service");
  bool https = p.url.rfind("https://", 0) == 0;
  if (https) {
    require(fbpcf::io::IOUtils::isCloudFile(p.url), "taken for a local file");
    requireEq(fbpcf::io::IOUtils::getDefaultReaderChunkSizeForFile(p.url), fbpcf::io::kCloudBufferedReaderChunkSize, "chunk size for reading");
    requireEq(fbpcf::io::IOUtils::getDefaultWriterChunkSizeForFile(p.url), fbpcf::io::kCloudBufferedWriterChunkSize, "chunk size for writing");
  }
  if (p.s3) {
    auto parse = [&] { return fbpcf::aws::uriToObjectReference(p.url); };
    if (p.form == 2 && !envSet) {
      requireThrows<fbpcf::AwsException>(parse, "a path without a region");
      requireThrows<fbpcf::AwsException>([&] { cio::getCloudFileReader(p.url); }, "reading a path without a region");
      return;
    }
    auto r = parse();
    requireEq(r.bucket, p.bucket, "bucket");
    requireEq(r.key, p.key, "key");
    requireEq(r.region, p.form == 2 ? other : p.region, "region");
    if (https) {
      // host names are the same in any case
      auto mixed = "https://" + p.bucket + (p.form ? ".S3-" : ".S3.") + p.region + ".AmazonAWS.COM/" + p.key;
      auto m2 = fbpcf::aws::uriToObjectReference(mixed);
      require(m2.bucket == p.bucket && m2.key == p.key && m2.region == p.region, cat(mixed, " decomposed into other parts"));
      require(fbpcf::io::getFileType(p.url) == fbpcf::io::FileType::S3, "file type is not S3");
      auto m = fbpcf::io::getFileManager(p.url);
      require(dynamic_cast<fbpcf::S3FileManager*>(m.get()), "the manager is not one for S3");
      requireEq(Aws::S3::FakeService::get().lastRegion, p.region, "region of the manager's client");
    }
  } else {
    auto r = fbpcf::gcp::uriToObjectReference(p.url);
    requireEq(r.bucket, p.bucket, "bucket");
    requireEq(r.key, p.key, "key");
    if (https) {
      requireThrows<fbpcf::AwsException>([&] { fbpcf::aws::uriToObjectReference(p.url); }, "a GCS path as an S3 path");
    }
  }
  auto reader = cio::getCloudFileReader(p.url);
  auto uploader = cio::getCloudFileUploader(p.url);
  require(p.s3 ? !!dynamic_cast<cio::S3FileReader*>(reader.get()) : !!dynamic_cast<cio::GCSFileReader*>(reader.get()), "reader of another provider");
  require(p.s3 ? !!dynamic_cast<cio::S3FileUploader*>(uploader.get()) : !!dynamic_cast<cio::GCSFileUploader*>(uploader.get()), "uploader of another provider");
  // what a part was found to be is what the service is asked for
  std::string id = p.bucket + "\n" + p.key, got;
  auto& f = Aws::S3::FakeService::get();
  auto& g = google::cloud::storage::FakeGcs::get();
  (p.s3 ? f.objects : g.objects)[id] = "content";
  got = reader->readBytes(p.url, 0, 7);
  if (p.s3) {
    requireEq(f.requestRegion, p.form == 2 ? other : p.region, "region of the client that reads");
  }
  f.reset();
  g.reset();
  requireEq(got, std::string("content"), "content read");
}
PROPERTY(other_paths, 12000, 800000) {
  Env env;
  env.set("AWS_DEFAULT_REGION", "us-west-2");
  auto b = genBucket(s), k = genKey(s), r = genRegion(s);
  int kind = s.below(3);
  if (kind == 0) { // local
    std::string p;
    switch (s.below(6)) {
      case 0: p = "/" + k; break;
      case 1: p = k; break;
      case 2: p = "./" + k; break;
      case 3: p = "../" + b + "/" + k; break;
      case 4: p = "/mnt/https://" + b + ".s3." + r + ".amazonaws.com/" + k; break;
      default: p = "data/s3://" + b + "/" + k;
    }
    c.desc = p;
    c.label("local path");
    c.nontrivial = k.find('/') != std::string::npos;
    require(cio::getCloudFileType(p) == CloudFileType::UNKNOWN, "recognised as a cloud path");
    requireEq(cio::getCloudProviderString(p), std::string(), "provider");
    requireEq(cio::getCloudStorageServiceString(p), std::string(), "service");
    require(!fbpcf::io::IOUtils::isCloudFile(p), "not taken for a local file");
    requireEq(fbpcf::io::IOUtils::getDefaultReaderChunkSizeForFile(p), fbpcf::io::kLocalBufferedReaderChunkSize, "chunk size for reading");
    requireEq(fbpcf::io::IOUtils::getDefaultWriterChunkSizeForFile(p), fbpcf::io::kLocalBufferedWriterChunkSize, "chunk size for writing");
    require(fbpcf::io::getFileType(p) == fbpcf::io::FileType::Local, "file type is not local");
    auto m = fbpcf::io::getFileManager(p);
    require(dynamic_cast<fbpcf::LocalFileManager*>(m.get()), "the manager is not the local one");
    requireThrows<fbpcf::PcfException>([&] { cio::getCloudFileReader(p); }, "a cloud reader for a local path");
    requireThrows<fbpcf::PcfException>([&] { cio::getCloudFileUploader(p); }, "a cloud uploader for a local path");
    return;
  }
  std::string h = ".amazonaws.com", p;
  if (kind == 1) {
    int w = s.below(11);
    const std::string forms[] = {
        "https://" + b + ".s3." + r + h,
        "https://" + b + ".s3." + r + h + "/",
        "https://" + b + ".s3-" + r + h + "/",
        "s3://" + b,
        "s3://" + b + "/",
        "s3:///" + k,
        "https://s3." + r + h + "/" + k,
        "https://" + letters(s, kLower, 1, 8) + ".s3" + h + "/" + k,
        "https://" + letters(s, kLower, 1, 8) + "." + r + h + "/" + k,
        "https://" + b + ".s3." + r + h + ".example.org/" + k,
        "https://storage.example.org/" + b + "/" + k};
    p = forms[w];
    c.label(w < 5 ? "S3 without a key" : w < 7 ? "S3 without a bucket" : "no S3 host");
    c.nontrivial = w != 0 && w != 3;
    c.desc = p;
    requireThrows<fbpcf::AwsException>([&] { fbpcf::aws::uriToObjectReference(p); }, p);
    if (w > 7 || w == 6 || w == 0) {
      require(cio::getCloudFileType(p) != CloudFileType::GCS, "recognised as a GCS path");
      requireThrows<fbpcf::PcfException>([&] { cio::getCloudFileReader(p); }, "a reader for " + p);
    }
  } else {
    int w = s.below(11);
    const std::string forms[] = {
        "https://storage.cloud.google.com/",
        "https://storage.cloud.google.com/" + b,
        "https://storage.cloud.google.com/" + b + "/",
        "https://storage.googleapis.com",
        "https://storage.googleapis.com/" + b + "/",
        "https://" + b + ".storage.googleapis.com",
        "https://" + b + ".storage.googleapis.com/",
        "gs://" + b,
        "gs://" + b + "/",
        "gs:///" + k,
        "https://storage.googleapis.com//" + letters(s, kLower, 1, 9)};
    p = forms[w];
    c.label(w < 9 ? "GCS without a key" : "GCS without a bucket");
    c.nontrivial = w != 0 && w != 3;
    c.desc = p;
    requireThrows<fbpcf::GcpException>([&] { fbpcf::gcp::uriToObjectReference(p); }, p);
  }
}
PROPERTY(client_options, 4000, 300000) {
  for (auto n : {"AWS_DEFAULT_REGION", "AWS_PROXY_HOST", "AWS_PROXY_PORT", "AWS_PROXY_SCHEME", "AWS_PROXY_CERT_PATH"}) {
    unsetenv(n);
  }
  Env env;
  fbpcf::aws::S3ClientOption o;
  int mask = 0, bit = 1;
  auto choose = [&](const char* name, const std::string& inEnv, const std::string& inOption, std::optional<std::string>* opt, const std::string& none) {
    bool e = s.coin(), p = s.coin();
    if (e) {
      env.set(name, inEnv);
    }
    if (p && opt) {
      *opt = inOption;
    }
    mask |= (e || p) * bit;
    bit <<= 1;
    c.desc += cat(" ", name, e ? " env=" + inEnv : "", p ? " option=" + inOption : "");
    return std::pair(p ? inOption : e ? inEnv : none, p);
  };
  auto region = choose("AWS_DEFAULT_REGION", genRegion(s), genRegion(s), &o.region, "us-east-1").first;
  auto host = choose("AWS_PROXY_HOST", letters(s, kLower, 1, 9), letters(s, kLower, 1, 9), &o.proxyHost, "").first;
  auto cert = choose("AWS_PROXY_CERT_PATH", genKey(s), genKey(s), &o.proxySSLCertPath, "").first;
  auto scheme = choose("AWS_PROXY_SCHEME", s.coin() ? "HTTPS" : "HTTP", s.coin() ? "HTTPS" : "HTTP", &o.proxyScheme, "HTTP").first;
  auto [port, given] = choose("AWS_PROXY_PORT", std::to_string(1 + s.below(65535)), std::to_string(1 + s.below(65535)), nullptr, "0");
  if (given) {
    o.proxyPort = std::stoi(port);
  }
  int creds = s.below(4);
  auto id = letters(s, kLower, 1, 9), key = letters(s, kLower, 1, 9);
  if (creds & 1) {
    o.accessKeyId = id;
  }
  if (creds & 2) {
    o.secretKey = key;
  }
  c.desc += cat(" credentials ", creds);
  c.nontrivial = __builtin_popcount(mask) >= 2;
  auto cl = fbpcf::aws::createS3Client(o);
  requireEq(cl->config.region, region, "region");
  requireEq(cl->config.proxyHost, host, "proxy host");
  requireEq(cl->config.proxySSLCertPath, cert, "proxy certificate");
  requireEq(cl->config.proxyPort, (unsigned)std::stoi(port), "proxy port");
  require((cl->config.proxyScheme == Aws::Http::Scheme::HTTPS) == (scheme == "HTTPS"), "proxy scheme");
  requireEq(cl->credId, creds == 3 ? id : std::string(), "access key");
  requireEq(cl->credKey, creds == 3 ? key : std::string(), "secret key");
}
PROPERTY(clients_by_region, 150, 5000) {
  // names no other case uses, as clients live as long as the process
  std::vector<std::string> regions;
  for (int n = 1 + s.below(5); n--;) {
    regions.push_back(cat("r", c.caseSeed, "-", regions.size()));
  }
  int threads = 1 + s.below(4);
  std::vector<std::vector<size_t>> asks(threads);
  size_t total = 0;
  for (auto& a : asks) {
    for (int n = 1 + s.below(12); n--;) {
      a.push_back(s.below(regions.size()));
      total++;
    }
  }
  c.desc = cat(regions.size(), " regions, ", threads, " threads, ", total, " uses");
  c.nontrivial = total > regions.size();
  c.labelIf(threads > 1, "threads");
  std::vector<std::vector<std::shared_ptr<cio::S3Client>>> got(threads);
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; t++) {
    ts.emplace_back([&, t] {
      for (auto r : asks[t]) {
        fbpcf::aws::S3ClientOption o;
        o.region = regions[r];
        got[t].push_back(cio::S3Client::getInstance(o));
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  std::map<size_t, cio::S3Client*> of;
  for (int t = 0; t < threads; t++) {
    for (size_t i = 0; i < asks[t].size(); i++) {
      auto r = asks[t][i];
      requireEq(got[t][i]->getS3Client()->config.region, regions[r], "region of the client");
      require(of.emplace(r, got[t][i].get()).first->second == got[t][i].get(), "two clients for a region");
    }
  }
}
} // namespace
