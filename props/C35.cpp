// C35: cloud upload and download preserve content under service failures.
#include "fbpcf/aws/S3Util.h"
#include "fbpcf/exception/AwsException.h"
#include "fbpcf/exception/GcpException.h"
#include "fbpcf/exception/PcfException.h"
#include "fbpcf/gcp/GCSUtil.h"
#include "fbpcf/io/FileManagerUtil.h"
#include "fbpcf/io/GCSFileManager.h"
#include "fbpcf/io/S3FileManager.h"
#include "fbpcf/io/api/BufferedReader.h"
#include "fbpcf/io/api/BufferedWriter.h"
#include "fbpcf/io/api/CloudFileReader.h"
#include "fbpcf/io/api/CloudFileWriter.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/FileReader.h"
#include "pbt.h"
#include "scratch.h"
using namespace pbt;
namespace {
namespace io = fbpcf::io;
namespace cio = fbpcf::cloudio;
using Chars = std::vector<char>;
using Aws::S3::FakeService;
using google::cloud::storage::FakeGcs;
std::string text(Src& s, size_t n) {
  std::string t(n, 0);
  int style = s.below(3);
  for (auto& x : t) {
    auto r = s.rng().u64();
    x = style == 0 ? (char)r : style == 1 ? "ab\n"[r % 3] : (char)('0' + r % 10);
  }
  return t;
}
std::string brief(const std::string& t) {
  std::string r = cat(t.size(), " bytes ");
  for (size_t i = 0; i < t.size() && i < 24; i++) {
    char b[8];
    snprintf(b, sizeof b, t[i] >= 32 && t[i] < 127 ? "%c" : "\\x%02x", (unsigned char)t[i]);
    r += b;
  }
  return r;
}
// both services, with a tape of failures
struct Cloud {
  struct Call {
    std::string op;
    bool failed;
  };
  std::map<std::string, std::vector<bool>> faults; // by operation, in turn
  std::map<std::string, size_t> at;
  std::vector<Call> calls;
  bool on = true;
  Cloud() {
    unsetenv("AWS_DEFAULT_REGION");
    setenv("AWS_DEFAULT_REGION", "us-west-2", 1);
    FakeService::get().reset();
    FakeGcs::get().reset();
    auto hook = [this](const char* op) {
      auto& f = faults[op];
      auto& i = at[op];
      bool fails = on && i < f.size() && f[i];
      i += on;
      calls.push_back({op, fails});
      return fails;
    };
    FakeService::get().fail = hook;
    FakeGcs::get().fail = hook;
  }
  ~Cloud() {
    FakeService::get().reset();
    FakeGcs::get().reset();
    unsetenv("AWS_DEFAULT_REGION");
  }
  void gen(Src& s, std::string& desc, std::initializer_list<const char*> ops) {
    for (auto op : ops) {
      if (!s.chance(2, 5)) {
        continue;
      }
      auto& f = faults[op];
      int one = s.below(4);
      for (int n = 1 + s.below(12); n--;) {
        f.push_back(one == 0 ? true : one == 1 ? s.chance(1, 5) : s.coin());
      }
      desc += cat(" ", op, "-faults ", show(f));
    }
  }
  std::map<std::string, std::string> objects() {
    auto r = FakeService::get().objects;
    for (auto& [k, v] : FakeGcs::get().objects) {
      r["gcs " + k] = v;
    }
    return r;
  }
  bool any(size_t from, const char* op = nullptr) {
    for (size_t i = from; i < calls.size(); i++) {
      if (calls[i].failed && (!op || calls[i].op == op)) {
        return true;
      }
    }
    return false;
  }
};
struct Object {
  bool s3;
  std::string url, id;
};
Object genObject(Src& s) {
  Object o;
  o.s3 = s.coin();
  std::string b = s.coin() ? "bucket" : "data.bucket", k = cat(s.coin() ? "folder/" : "", "key", s.below(2));
  o.id = (o.s3 ? "" : "gcs ") + b + "\n" + k;
  switch (s.below(3)) {
    case 0: o.url = (o.s3 ? "s3://" : "gs://") + b + "/" + k; break;
    case 1: o.url = "https://" + b + (o.s3 ? ".s3.us-east-1.amazonaws.com/" : ".storage.googleapis.com/") + k; break;
    default: o.url = o.s3 ? "https://" + b + ".s3-eu-west-1.amazonaws.com/" + k : "https://storage.googleapis.com/" + b + "/" + k;
  }
  return o;
}
void put(const Object& o, const std::string& t) {
  o.s3 ? void(FakeService::get().objects[o.id] = t) : void(FakeGcs::get().objects[o.id.substr(4)] = t);
}
struct Upload {
  Object o;
  int kind; // bare uploader, writer, buffered writer
  size_t chunk;
  std::vector<std::string> parts;
  size_t next = 0;
  bool open = false, told = false, done = false, stubborn = false;
  std::string all;
  std::unique_ptr<cio::IFileUploader> up;
  std::unique_ptr<io::CloudFileWriter> w;
  std::unique_ptr<io::BufferedWriter> bw;
};
PROPERTY(uploads, 6000, 400000) {
  Cloud cloud;
  auto& model = *new std::map<std::string, std::string>;
  std::unique_ptr<std::map<std::string, std::string>> hold(&model);
  std::vector<Upload> ups(1 + (s.chance(1, 3) ? 1 + s.below(2) : 0));
  size_t bytes = 0;
  for (auto& u : ups) {
    u.o = genObject(s);
    u.kind = s.below(3);
    u.chunk = 1 + s.below(20);
    u.stubborn = s.coin();
    for (int n = s.below(6); n--;) {
      // writers do not upload empty parts
      u.parts.push_back(text(s, u.kind == 2 ? s.below(50) : 1 + s.below(30)));
      bytes += u.parts.back().size();
    }
    if (s.chance(1, 3)) {
      auto before = text(s, s.below(30));
      put(u.o, before);
      model[u.o.id] = before;
      c.label("overwrites an object");
    }
    c.desc += cat("; ", u.o.url, " by ", u.kind == 0 ? "uploader" : u.kind == 1 ? "writer" : cat("buffered writer of ", u.chunk), " parts");
    for (auto& p : u.parts) {
      c.desc += cat(" ", p.size());
    }
    c.label(u.o.s3 ? "S3" : "GCS");
    c.labelIf(u.parts.empty(), "empty file");
  }
  cloud.gen(s, c.desc, {"create", "part", "complete", "abort", "write", "close"});
  c.labelIf(ups.size() > 1, "several uploads");
  c.labelIf(!cloud.faults.empty(), "faults");
  auto check = [&](const std::string& when) {
    auto o = cloud.objects();
    for (auto& [k, v] : o) {
      auto want = model.count(k) ? brief(model[k]) : "no object";
      require(model.count(k) && model[k] == v, cat("after ", when, " ", k, " has ", brief(v), ", not ", want));
    }
    requireEq(o.size(), model.size(), "objects after " + when);
  };
  // one part's worth of calls: up to three retries, then given up
  auto checkCalls = [&](size_t from, bool ok) {
    size_t row = 0;
    bool lastFailed = false;
    for (size_t i = from; i < cloud.calls.size(); i++) {
      if (cloud.calls[i].op != "part") {
        continue;
      }
      row = row && lastFailed ? row + 1 : 1;
      lastFailed = cloud.calls[i].failed;
      require(row <= 4, "a part was tried more than four times");
    }
    bool wrote = cloud.any(from, "write");
    requireEq(ok, !lastFailed && !wrote, "whether the upload went well");
    if (!ok && row) {
      requireEq(row, 4ul, "tries of a part that was given up");
    }
  };
  while (true) {
    std::vector<size_t> todo;
    for (size_t i = 0; i < ups.size(); i++) {
      if (!ups[i].done) {
        todo.push_back(i);
      }
    }
    if (todo.empty()) {
      break;
    }
    auto& u = ups[todo[s.below(todo.size())]];
    size_t from = cloud.calls.size();
    if (!u.open) {
      bool created = true;
      try {
        if (u.kind == 0) {
          u.up = cio::getCloudFileUploader(u.o.url);
        } else {
          u.w = std::make_unique<io::CloudFileWriter>(u.o.url);
          if (u.kind == 2) {
            u.bw = std::make_unique<io::BufferedWriter>(std::move(u.w), u.chunk);
          }
        }
      } catch (const fbpcf::AwsException&) {
        created = false;
      }
      requireEq(created, !cloud.any(from), "whether the upload could be started");
      u.open = created;
      u.done = !created;
      check("starting");
      continue;
    }
    bool last = u.next == u.parts.size() || (u.told && !u.stubborn);
    if (!last) {
      auto& p = u.parts[u.next++];
      Chars b(p.begin(), p.end());
      bool ok = true, before = u.told;
      if (u.kind == 2) {
        try {
          requireEq(u.bw->write(b), b.size(), "bytes written");
          if (s.chance(1, 4)) {
            u.bw->flush();
          }
        } catch (const std::runtime_error&) {
          ok = false;
        }
      } else {
        auto n = u.kind ? u.w->write(b) : (size_t)u.up->upload(b);
        require(n == b.size() || n == 0, cat(n, " of ", b.size(), " bytes reported as uploaded"));
        ok = n != 0;
      }
      if (!before) {
        checkCalls(from, ok);
      } else if (u.kind != 2) {
        require(!ok, "a part after a failed one was reported as uploaded");
      }
      u.told |= !ok;
      u.all += p;
      check("a part");
      continue;
    }
    bool flushed = true;
    int r = 1;
    if (u.kind == 2) {
      try {
        r = u.bw->close();
      } catch (const std::runtime_error&) {
        flushed = false;
      }
    } else {
      r = u.kind ? u.w->close() : u.up->complete();
    }
    bool ok = flushed && r == 0;
    if (u.told) {
      require(!ok, "an upload with a failed part was reported as finished");
    } else {
      bool lost = !flushed || cloud.any(from, "complete") || cloud.any(from, "close");
      if (!lost && u.o.s3) { // the last part, or that of an empty file
        size_t row = 0;
        for (size_t i = from; i < cloud.calls.size(); i++) {
          row = cloud.calls[i].op != "part" ? row : cloud.calls[i].failed ? row + 1 : 0;
        }
        lost = row > 0;
      }
      lost |= cloud.any(from, "write");
      requireEq(ok, !lost, "whether the upload was finished");
    }
    if (ok) {
      model[u.o.id] = u.all;
      c.label("finished");
    } else {
      c.label("not finished");
      u.told = true;
    }
    check("finishing");
    u.up.reset();
    u.w.reset();
    u.bw.reset();
    check("releasing");
    u.done = true;
  }
  // what was given up is not left behind at the service
  if (!cloud.any(0, "abort")) {
    requireEq(FakeService::get().uploads.size(), 0ul, "unfinished uploads left at S3");
  }
  for (auto& u : ups) {
    if (u.open && !u.told) {
      auto r = cio::getCloudFileReader(u.o.url);
      requireEq(r->getFileContentLength(u.o.url), model[u.o.id].size(), "length");
      if (!model[u.o.id].empty()) {
        require(r->readBytes(u.o.url, 0, model[u.o.id].size()) == model[u.o.id], "reading back gives other content");
      }
    }
  }
  c.nontrivial = bytes > 20 && cloud.calls.size() > 4;
}
PROPERTY(downloads, 6000, 400000) {
  Cloud cloud;
  auto o = genObject(s);
  auto t = text(s, s.chance(1, 8) ? 0 : s.chance(1, 8) ? s.below(20000) : s.below(120));
  put(o, t);
  int kind = s.below(4);
  c.desc = cat(o.url, " ", brief(t), " read by ", kind);
  cloud.gen(s, c.desc, {"get", "head", "read", "meta"});
  c.label(o.s3 ? "S3" : "GCS");
  c.labelIf(t.empty(), "empty object");
  size_t reads = 0, failures = 0;
  auto missing = o.url + "-missing";
  using Both = std::exception;
  auto attempt = [&](auto&& f) { // whether the service let it succeed
    size_t from = cloud.calls.size();
    try {
      f();
    } catch (const Failure&) {
      throw;
    } catch (const fbpcf::ExceptionBase& e) {
      require(cloud.any(from), cat("failed though the service did not: ", e.what()));
      failures++;
      return false;
    }
    require(!cloud.any(from), "a failure of the service was not reported");
    reads++;
    return true;
  };
  if (kind == 0) {
    auto r = cio::getCloudFileReader(o.url);
    for (int n = 1 + s.below(6); n--;) {
      if (s.chance(1, 4)) {
        attempt([&] { requireEq(r->getFileContentLength(o.url), t.size(), "length"); });
        continue;
      }
      size_t a = s.below(t.size() + 2), b = s.chance(1, 6) ? s.below(t.size() + 2) : a + s.below(t.size() + 3);
      c.desc += cat(" ", a, "-", b);
      if (a > b || (a < b && a >= t.size())) {
        requireThrows<Both>([&] { r->readBytes(o.url, a, b); }, "a range that is not there");
      } else if (a == b) {
        // nothing, or a refusal
        std::string got;
        try {
          got = r->readBytes(o.url, a, b);
        } catch (const fbpcf::ExceptionBase&) {
        }
        require(got.empty(), cat("an empty range gave ", brief(got)));
        c.label("empty range");
      } else {
        attempt([&] {
          auto got = r->readBytes(o.url, a, b);
          require(got == t.substr(a, b - a), cat("range ", a, "-", b, " gave ", brief(got)));
        });
      }
    }
    requireThrows<Both>([&] { r->readBytes(missing, 0, 1); }, "a missing object");
    requireThrows<Both>([&] { r->getFileContentLength(missing); }, "the length of a missing object");
  } else {
    std::unique_ptr<io::IReaderCloser> r;
    bool https = o.url[0] == 'h';
    if (!attempt([&] { kind == 1 && https ? r = std::make_unique<io::FileReader>(o.url) : r = std::make_unique<io::CloudFileReader>(o.url); })) {
      c.label("faults");
      return;
    }
    requireThrows<Both>([&] { io::CloudFileReader x(missing); }, "a reader of a missing object");
    requireEq(r->getFilePath(), o.url, "path of the reader");
    size_t at = 0;
    if (kind == 3) {
      auto b = io::BufferedReader(std::move(r), 1 + s.below(40));
      while (at < t.size() && !failures) {
        require(!b.eof(), "end reported too early");
        if (s.coin()) {
          attempt([&] {
            auto end = t.find('\n', at);
            auto want = t.substr(at, end == std::string::npos ? end : end - at);
            auto got = b.readLine();
            require(got == want, cat("line at ", at, " is ", brief(got), ", not ", brief(want)));
            at += want.size() + (end != std::string::npos);
          });
        } else {
          attempt([&] {
            Chars buf(1 + s.below(60));
            size_t n = b.read(buf);
            requireEq(n, std::min(buf.size(), t.size() - at), "bytes read");
            require(std::string(buf.begin(), buf.begin() + n) == t.substr(at, n), cat("other bytes at ", at));
            at += n;
          });
        }
      }
      require(failures || b.eof(), "end not reported");
    } else {
      while (at < t.size()) {
        require(!r->eof(), "end reported too early");
        size_t n = 1 + s.below(50);
        attempt([&] { // and the next attempt goes on from here
          Chars buf(n, '#');
          size_t got = r->read(buf);
          requireEq(got, std::min(n, t.size() - at), "bytes read");
          require(buf.size() >= got && std::string(buf.begin(), buf.begin() + got) == t.substr(at, got), cat("other bytes at ", at));
          at += got;
        });
      }
      require(r->eof(), "end not reported");
      Chars buf(5);
      requireEq(r->read(buf), (size_t)-1, "reading at the end");
      requireEq(r->close(), 0, "close");
    }
  }
  c.labelIf(failures > 0, "faults");
  c.nontrivial = reads >= 2 && t.size() > 10;
}
// parts of objects of more bytes than 31 or 32 bits can number
PROPERTY(vast, 400, 20000) {
  Cloud cloud;
  auto o = genObject(s);
  uint64_t size = s.pick<uint64_t>({1ull << 31, 1ull << 32, 5ull << 30, 1ull << 40}) + s.range(-3, 3), key = s.u64();
  auto at = [key](uint64_t i) { return (char)((i * 0x9e3779b97f4a7c15ull ^ key) >> 37); };
  if (o.s3) {
    FakeService::get().vast[o.id] = {size, at};
  } else {
    FakeGcs::get().vast[o.id.substr(4)] = {size, at};
  }
  c.desc = cat(o.url, " of ", size);
  c.nontrivial = true;
  c.label(o.s3 ? "S3" : "GCS");
  auto r = cio::getCloudFileReader(o.url);
  std::unique_ptr<fbpcf::IFileManager> m;
  if (o.s3) {
    m = std::make_unique<fbpcf::S3FileManager>(fbpcf::aws::createS3Client({}));
  } else {
    m = std::make_unique<fbpcf::GCSFileManager<google::cloud::storage::Client>>(fbpcf::gcp::createGCSClient());
  }
  requireEq(r->getFileContentLength(o.url), size, "length");
  for (int n = 1 + s.below(4); n--;) {
    uint64_t from = s.coin() ? s.below(size) : std::min(size - 1, s.pick<uint64_t>({(1ull << 31) - 1, 1ull << 31, (1ull << 32) - 5, 1ull << 32, size - 9}) + s.below(10));
    uint64_t to = from + 1 + s.below(s.chance(1, 4) ? 3000 : 30);
    if (!o.s3 && s.chance(1, 5)) {
      to = from + (1ull << 32); // only what is there
      from = size - 1 - s.below(20);
    }
    to = std::max(to, from + 1);
    c.desc += cat(" ", from, "-", to);
    std::string want;
    for (auto i = from; i < std::min(to, size); i++) {
      want += at(i);
    }
    auto got = s.coin() ? r->readBytes(o.url, from, to) : m->readBytes(o.url, from, to);
    require(got == want, cat("bytes ", from, "-", to, " of ", size, ": ", brief(got), ", not ", brief(want)));
  }
}
PROPERTY(managers, 4000, 250000) {
  Cloud cloud;
  Scratch dir;
  std::map<std::string, std::string> model;
  std::string desc;
  c.desc = "";
  cloud.gen(s, c.desc, {"get", "put", "read", "close", "upload"});
  c.labelIf(!cloud.faults.empty(), "faults");
  size_t ok = 0, steps = 2 + s.below(9);
  for (size_t i = 0; i < steps; i++) {
    auto o = genObject(s);
    std::unique_ptr<fbpcf::IFileManager> m;
    bool util = o.s3 && o.url[0] == 'h' && s.coin();
    if (util) {
      m = io::getFileManager(o.url);
    } else if (o.s3) {
      m = std::make_unique<fbpcf::S3FileManager>(fbpcf::aws::createS3Client({}));
    } else {
      m = std::make_unique<fbpcf::GCSFileManager<google::cloud::storage::Client>>(fbpcf::gcp::createGCSClient());
    }
    c.label(o.s3 ? "S3" : "GCS");
    size_t from = cloud.calls.size();
    bool there = model.count(o.id);
    auto& t = there ? model[o.id] : desc;
    auto attempt = [&](const char* what, bool possible, auto&& f) {
      c.desc += cat("; ", what, " ", o.url);
      bool good = true;
      try {
        f();
      } catch (const Failure&) {
        throw;
      } catch (const fbpcf::ExceptionBase& e) {
        good = false;
      }
      requireEq(good, possible && !cloud.any(from), cat("whether ", what, " of ", o.url, " succeeded"));
      ok += good;
      return good;
    };
    switch (s.below(6)) {
      case 0:
      case 1: {
        auto n = text(s, s.below(80));
        if (attempt("write", true, [&] { util ? io::write(o.url, n) : m->write(o.url, n); })) {
          model[o.id] = n;
        }
        break;
      }
      case 2:
        attempt("read", there, [&] {
          auto got = util ? io::read(o.url) : m->read(o.url);
          require(got == t, cat("read gave ", brief(got), ", not ", brief(t)));
        });
        break;
      case 3:
        attempt("stream", there, [&] {
          auto in = util ? io::getInputStream(o.url) : m->getInputStream(o.url);
          std::string got{std::istreambuf_iterator<char>(in->get()), {}};
          require(got == t, cat("stream gave ", brief(got), ", not ", brief(t)));
        });
        break;
      case 4: {
        size_t a = s.below(t.size() + 2), b = s.below(t.size() + 3);
        if (there && a == b) {
          std::string got;
          try {
            got = m->readBytes(o.url, a, b);
          } catch (const fbpcf::ExceptionBase&) {
          }
          require(got.empty(), cat("an empty range gave ", brief(got)));
          c.label("empty range");
          break;
        }
        if (!there && a >= b) {
          break;
        }
        attempt("slice", there && a < b && a < t.size(), [&] {
          auto got = m->readBytes(o.url, a, b);
          require(got == t.substr(a, b - a), cat("range ", a, "-", b, " gave ", brief(got)));
        });
        break;
      }
      default: {
        auto n = text(s, s.below(80));
        bool exists = s.chance(4, 5);
        auto f = dir / cat("f", i);
        if (exists) {
          pbt::put(f, n);
        }
        c.labelIf(!exists, "copy of a missing file");
        if (attempt("copy", exists, [&] { m->copy(f, o.url); })) {
          model[o.id] = n;
        }
      }
    }
    auto now = cloud.objects();
    for (auto& [k, v] : now) {
      require(model.count(k) && model[k] == v, cat(k, " has ", brief(v), ", not ", model.count(k) ? brief(model[k]) : "no object"));
    }
    requireEq(now.size(), model.size(), "objects");
  }
  c.nontrivial = ok >= 2 && steps >= 3;
}
// by default a gigabyte is set aside for reading from a cloud
PROPERTY(whole_files, 16, 150) {
  Cloud cloud;
  Scratch dir;
  Object o = genObject(s);
  while (o.url[0] != 'h') {
    o = genObject(s);
  }
  std::string t = "a,b\n";
  size_t most = s.chance(1, 2) ? 100 : 11000000;
  while (t.size() < most) {
    t += text(s, s.below(most / 3 + 2)) + "\n";
  }
  t.resize(s.chance(1, 6) ? 0 : t.size() - s.below(3));
  int op = s.below(5);
  bool fail = s.chance(2, 5);
  const char* ops[] = {"part", "complete", "write", "close"};
  int which = (o.s3 ? 0 : 2) + s.below(2);
  c.desc = cat(o.url, " ", brief(t), " op ", op, fail ? " failing " : "", fail ? ops[which] : "");
  c.label(o.s3 ? "S3" : "GCS");
  c.labelIf(fail && op < 2, "faults");
  c.nontrivial = t.size() > 10;
  if (op < 2) {
    if (fail) {
      cloud.faults[ops[which]] = std::vector<bool>(50, true);
    }
    auto run = [&] {
      if (op == 0) {
        io::FileIOWrappers::writeFile(o.url, t);
      } else {
        pbt::put(dir / "f", t);
        io::FileIOWrappers::transferFileInParts(dir / "f", o.url);
      }
    };
    // an empty file is not written in parts at GCS
    if (fail && !(t.empty() && which == 2)) {
      requireThrows<std::exception>(run, "writing that the service refuses");
      requireEq(cloud.objects().size(), 0ul, "objects");
    } else {
      run();
      require(cloud.objects()[o.id] == t, "the object has other content");
    }
    return;
  }
  put(o, t);
  if (fail) {
    cloud.faults[o.s3 ? "get" : "read"] = {true};
  }
  std::string got;
  auto run = [&] {
    if (op == 2) {
      got = io::FileIOWrappers::readFile(o.url);
    } else if (op == 3) {
      io::FileIOWrappers::transferFileInParts(o.url, dir / "g");
      got = slurp(dir / "g");
    } else {
      size_t rows = 0;
      io::FileIOWrappers::readCsv(o.url, [&](auto&, auto&) { rows++; });
      requireEq(rows + 1, (size_t)std::count(t.begin(), t.end(), '\n') + (t.back() != '\n'), "rows");
      got = t;
    }
  };
  if ((fail && !t.empty()) || (op == 4 && t.empty())) {
    requireThrows<std::exception>(run, "reading that the service refuses");
  } else {
    run();
    require(got == t, cat("got ", brief(got), ", not ", brief(t)));
  }
}
} // namespace
