// C32: buffered reading and writing is transparent.
#include "fbpcf/io/api/BufferedReader.h"
#include "fbpcf/io/api/BufferedWriter.h"
#include "fbpcf/io/api/CloudFileReader.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/FileReader.h"
#include "fbpcf/io/api/FileWriter.h"
#include "fbpcf/io/api/LocalFileReader.h"
#include "fbpcf/io/api/LocalFileWriter.h"
#include "pbt.h"
#include "scratch.h"
using namespace pbt;
namespace {
namespace io = fbpcf::io;
using Chars = std::vector<char>;
// text made of lines whose lengths sit around the chunk size, or any bytes
std::string genContent(Src& s, size_t chunk, size_t most) {
  std::string t;
  if (s.chance(1, 8)) {
    for (auto b : s.bytes(s.below(most + 1))) {
      t += (char)b;
    }
    return t;
  }
  bool any = s.chance(1, 3);
  size_t lines = s.below(12);
  for (size_t i = 0; i < lines && t.size() < most; i++) {
    size_t n;
    switch (s.below(5)) {
      case 0: n = 0; break;
      case 1: n = s.below(5); break;
      case 2: n = s.below(3 * chunk + 2); break;
      case 3: { // up to a chunk boundary, or one byte around it
        size_t at = t.size() % chunk;
        n = std::max<int64_t>(0, (int64_t)(chunk - at) + (int64_t)s.below(4) - 2);
        break;
      }
      default: n = s.below(40);
    }
    n = std::min(n, most);
    for (size_t j = 0; j < n; j++) {
      char ch = any ? (char)s.rng().u64() : "abc, \r\t"[s.rng().u64() % 7];
      t += ch == '\n' ? 'n' : ch;
    }
    t += '\n';
  }
  if (s.coin()) { // a last line without its end
    size_t n = s.chance(1, 3) ? chunk : s.below(30);
    t.append(std::min(n, most), 'z');
  }
  return t;
}
std::string brief(const std::string& t) {
  std::string r = cat(t.size(), " bytes ");
  for (size_t i = 0; i < t.size() && i < 60; i++) {
    unsigned char u = t[i];
    char b[8];
    if (u == '\n') {
      r += "\\n";
    } else if (u >= 32 && u < 127) {
      r += (char)u;
    } else {
      snprintf(b, sizeof b, "\\x%02x", u);
      r += b;
    }
  }
  return r + (t.size() > 60 ? "..." : "");
}
// returns as little as it likes, at least one byte
class ShortReader final : public io::IReaderCloser {
 public:
  ShortReader(std::string t, uint64_t seed) : t_(std::move(t)), rng_(seed) {
    filepath_ = "memory";
  }
  int close() override {
    return 0;
  }
  size_t read(Chars& buf) override {
    require(at_ < t_.size(), "the underlying reader was read at its end");
    size_t n = std::min(buf.size(), t_.size() - at_);
    require(n > 0, "the underlying reader was asked for nothing");
    if (rng_.u64() % 3 == 0) {
      n = 1 + rng_.u64() % n;
    }
    std::copy_n(t_.begin() + at_, n, buf.begin());
    at_ += n;
    return n;
  }
  bool eof() override {
    return at_ >= t_.size();
  }

 private:
  std::string t_;
  Rng rng_;
  size_t at_ = 0;
};
// the same object in the cloud
class RangeReader final : public fbpcf::cloudio::IFileReader {
 public:
  RangeReader(std::string path, std::string t) : path_(std::move(path)), t_(std::move(t)) {}
  std::string readBytes(const std::string& f, size_t a, size_t b) override {
    requireEq(f, path_, "path that is read");
    require(a < b && a < t_.size(), cat("range ", a, "-", b, " of ", t_.size(), " bytes is asked for"));
    return t_.substr(a, b - a);
  }
  size_t getFileContentLength(const std::string& f) override {
    requireEq(f, path_, "path whose length is asked");
    return t_.size();
  }

 private:
  std::string path_, t_;
};
const char* readerName[] = {"memory", "local", "file", "cloud"};
std::unique_ptr<io::IReaderCloser> makeReader(int kind, const std::string& path, const std::string& t, uint64_t seed) {
  switch (kind) {
    case 0: return std::make_unique<ShortReader>(t, seed);
    case 1: return std::make_unique<io::LocalFileReader>(path);
    case 2: return std::make_unique<io::FileReader>(path);
    default: return std::make_unique<io::CloudFileReader>(path, std::make_shared<RangeReader>(path, t));
  }
}
PROPERTY(reading, 3000, 200000) {
  int kind = s.below(4);
  bool buffered = s.chance(7, 8), dflt = s.chance(1, 6) && kind != 3;
  size_t chunk = dflt ? 4096 : s.chance(1, 4) ? 1 + s.below(4) : 1 + s.below(64);
  auto t = genContent(s, chunk, dflt ? 20000 : 400);
  Scratch dir;
  std::string path = kind == 3 ? "s3://bucket/key" : dir / "in";
  if (kind != 3) {
    put(path, t);
  }
  c.desc = cat(readerName[kind], buffered ? cat(" chunk ", chunk) : " unbuffered", " ", brief(t));
  c.label(readerName[kind]);
  c.labelIf(!buffered, "unbuffered");
  c.labelIf(t.empty(), "empty");
  c.labelIf(!t.empty() && t.back() != '\n', "last line without an end");
  c.labelIf(t.size() && t.size() % chunk == 0, "ends with a chunk");
  auto base = makeReader(kind, path, t, c.caseSeed);
  requireEq(base->getFilePath(), kind == 0 ? std::string("memory") : path, "path of the reader");
  size_t at = 0, lines = 0, reads = 0;
  auto readSome = [&](io::IReaderCloser& r, size_t n, bool exact) {
    Chars buf(n, '#');
    size_t got = r.read(buf);
    size_t want = std::min(n, t.size() - at);
    c.desc += cat(" read(", n, ")=", got);
    require(exact ? got == want : got >= 1 && got <= want, cat("read(", n, ") at ", at, " of ", t.size(), " returned ", got));
    require(std::string(buf.begin(), buf.begin() + got) == t.substr(at, got), cat("read(", n, ") at ", at, " returned other bytes"));
    at += got;
    reads++;
  };
  if (!buffered) {
    while (true) {
      requireEq(base->eof(), at == t.size(), cat("end reported at ", at, " of ", t.size()));
      if (at == t.size()) {
        break;
      }
      readSome(*base, 1 + s.below(80), kind != 0);
    }
    requireEq(base->close(), 0, "close");
    requireEq(base->close(), 0, "second close");
    c.nontrivial = reads >= 2;
    return;
  }
  auto r = dflt ? std::make_unique<io::BufferedReader>(std::move(base)) : std::make_unique<io::BufferedReader>(std::move(base), chunk);
  requireEq(r->getFilePath(), kind == 0 ? std::string("memory") : path, "path of the buffered reader");
  int style = s.below(3);
  bool stopEarly = s.chance(1, 10);
  while (at < t.size() && !(stopEarly && s.chance(1, 4))) {
    if (s.coin()) {
      require(!r->eof(), cat("end reported at ", at, " of ", t.size()));
    }
    if (style == 0 || (style == 2 && s.coin())) {
      auto end = t.find('\n', at);
      auto want = t.substr(at, end == std::string::npos ? end : end - at);
      auto got = r->readLine();
      c.desc += " line";
      require(got == want, cat("line at ", at, " is ", brief(got), ", not ", brief(want)));
      at += want.size() + (end != std::string::npos);
      lines++;
    } else {
      readSome(*r, s.chance(1, 20) ? 0 : 1 + s.below(3 * chunk), true);
    }
  }
  if (at == t.size()) {
    require(r->eof(), "end not reported at the end");
    requireThrows<std::runtime_error>([&] { r->readLine(); }, "reading a line at the end");
    Chars b(3);
    requireThrows<std::runtime_error>([&] { r->read(b); }, "reading at the end");
    require(r->eof(), "end not reported any more");
  }
  requireEq(r->close(), 0, "close");
  if (s.coin()) {
    requireEq(r->close(), 0, "second close");
  }
  c.labelIf(lines && reads, "lines and bytes mixed");
  c.nontrivial = lines + reads >= 2 && t.size() > chunk;
}
struct Target {
  std::string got;
  int closed = 0, writes = 0;
  int failAt = -1; // this write fails
  bool throwing = false;
};
class MemoryWriter final : public io::IWriterCloser {
 public:
  explicit MemoryWriter(Target& t) : t_(t) {
    filepath_ = "memory";
  }
  int close() override {
    t_.closed++;
    return 0;
  }
  size_t write(Chars& b) override {
    require(!b.empty(), "nothing is written to the target");
    if (t_.writes++ == t_.failAt) {
      if (t_.throwing) {
        throw std::logic_error("target broke");
      }
      return 0;
    }
    t_.got.append(b.begin(), b.end());
    return b.size();
  }

 private:
  Target& t_;
};
const char* writerName[] = {"memory", "local", "file"};
PROPERTY(writing, 3000, 200000) {
  int kind = s.below(3);
  bool buffered = s.chance(7, 8), dflt = s.chance(1, 6);
  size_t chunk = dflt ? 4096 : s.chance(1, 4) ? 1 + s.below(4) : 1 + s.below(64);
  Scratch dir;
  // also into folders that do not exist yet
  std::string path = dir / (s.coin() ? "out" : s.coin() ? "a/out" : "a/b.c/d e/out");
  bool over = kind && s.chance(1, 3) && path == dir / "out";
  if (over) {
    put(path, std::string(s.below(300), 'o'));
  }
  Target target;
  if (kind == 0 && s.chance(1, 3)) {
    target.failAt = s.below(6);
    target.throwing = s.coin();
  }
  c.desc = cat(writerName[kind], buffered ? cat(" chunk ", chunk) : " unbuffered", over ? " over a file" : "", target.failAt >= 0 ? cat(" write ", target.failAt, target.throwing ? " throws" : " fails") : "");
  c.label(writerName[kind]);
  c.labelIf(!buffered, "unbuffered");
  c.labelIf(over, "over a file");
  std::unique_ptr<io::IWriterCloser> base;
  if (kind == 0) {
    base = std::make_unique<MemoryWriter>(target);
  } else if (kind == 1) {
    base = std::make_unique<io::LocalFileWriter>(path);
  } else {
    base = std::make_unique<io::FileWriter>(path);
  }
  requireEq(base->getFilePath(), kind == 0 ? std::string("memory") : path, "path of the writer");
  auto content = [&] { return kind ? slurp(path) : target.got; };
  std::string all;
  size_t writes = 0;
  auto next = [&] { return genContent(s, chunk, dflt ? 9000 : 150); };
  bool implicit = s.coin();
  if (!buffered) {
    for (size_t n = s.below(6); n--;) {
      auto t = next();
      Chars b(t.begin(), t.end());
      if (kind == 0 && (b.empty() || target.failAt >= 0)) {
        continue;
      }
      requireEq(base->write(b), t.size(), "bytes written");
      all += t;
      writes++;
    }
    if (!implicit) {
      requireEq(base->close(), 0, "close");
      requireEq(base->close(), 0, "second close");
    }
    base.reset();
    require(content() == all, cat("target has ", brief(content()), ", not ", brief(all)));
    c.nontrivial = writes >= 2;
    return;
  }
  auto w = dflt ? std::make_unique<io::BufferedWriter>(std::move(base)) : std::make_unique<io::BufferedWriter>(std::move(base), chunk);
  requireEq(w->getFilePath(), kind == 0 ? std::string("memory") : path, "path of the buffered writer");
  bool failed = false;
  auto step = [&](auto&& f) {
    bool due = target.failAt >= 0 && !failed;
    try {
      f();
    } catch (const Failure&) {
      throw;
    } catch (const std::exception& e) {
      require(due && target.writes == target.failAt + 1, cat("writing failed: ", e.what()));
      failed = true;
      return;
    }
    require(!due || target.writes <= target.failAt, "a failing write to the target was not reported");
  };
  size_t bytes = 0;
  for (size_t n = s.below(9); n-- && !failed;) {
    switch (s.below(5)) {
      case 0:
        c.desc += " flush";
        step([&] {
          w->flush();
          require(kind == 1 || kind == 2 || target.got == all, cat("after a flush the target has ", brief(target.got), ", not ", brief(all)));
        });
        break;
      case 1:
      case 2: {
        auto t = next();
        c.desc += cat(" write(", t.size(), ")");
        all += t;
        bytes += t.size();
        Chars b(t.begin(), t.end());
        step([&] { requireEq(w->write(b), t.size(), "bytes written"); });
        require(std::string(b.begin(), b.end()) == t, "the written buffer changed");
        writes++;
        break;
      }
      default: {
        auto t = next();
        c.desc += cat(" writeString(", t.size(), ")");
        all += t;
        bytes += t.size();
        step([&] { requireEq(w->writeString(t), t.size(), "bytes written"); });
        writes++;
      }
    }
    if (kind == 0) {
      require(all.compare(0, target.got.size(), target.got) == 0, cat("target has ", brief(target.got), ", no prefix of ", brief(all)));
      require(failed || all.size() - target.got.size() <= chunk, "more than a chunk is held back");
    }
  }
  if (!implicit && !failed) {
    step([&] {
      requireEq(w->close(), 0, "close");
      require(content() == all, cat("after close the target has ", brief(content()), ", not ", brief(all)));
    });
    if (!failed) {
      requireEq(w->close(), 0, "second close");
    }
  } else if (target.failAt >= 0 && !failed) {
    // a destructor has nobody to report to
    step([&] { w->flush(); });
  }
  w.reset();
  c.labelIf(failed, "a write fails");
  if (!failed) {
    require(content() == all, cat("target has ", brief(content()), ", not ", brief(all)));
  }
  require(kind || target.closed >= 1, "target was not closed");
  c.nontrivial = writes >= 2 && bytes > chunk;
}
PROPERTY(whole_files, 1200, 60000) {
  Scratch dir;
  auto t = genContent(s, 4096, s.chance(1, 3) ? 20000 : 200);
  std::string a = dir / "new/folder/a", b = dir / "b", d = dir / "c";
  c.desc = brief(t);
  c.nontrivial = t.size() >= 2;
  c.labelIf(t.empty(), "empty");
  c.labelIf(t.size() > 4096, "several chunks");
  c.labelIf(!t.empty() && t.back() != '\n', "last line without an end");
  io::FileIOWrappers::writeFile(a, t);
  require(slurp(a) == t, cat("file has ", brief(slurp(a)), ", not ", brief(t)));
  auto got = io::FileIOWrappers::readFile(a);
  require(got == t, cat("read back ", brief(got), ", not ", brief(t)));
  if (s.coin()) {
    put(b, std::string(s.below(500), 'o'));
  }
  io::FileIOWrappers::transferFileInParts(a, b);
  require(slurp(b) == t, cat("copy has ", brief(slurp(b)), ", not ", brief(t)));
  require(slurp(a) == t, "the source changed");
  std::string t2 = genContent(s, 4096, 200);
  io::FileIOWrappers::writeFile(a, t2);
  require(slurp(a) == t2, cat("rewritten file has ", brief(slurp(a)), ", not ", brief(t2)));
  if (!t.empty()) { // a device that is always full
    requireThrows<std::exception>([&] { io::FileIOWrappers::writeFile("/dev/full", t); }, "writing to a full device");
    requireThrows<std::exception>([&] { io::FileIOWrappers::transferFileInParts(b, "/dev/full"); }, "copying to a full device");
    auto w = io::LocalFileWriter("/dev/full");
    Chars c2(t.begin(), t.end());
    bool told = false;
    try {
      w.write(c2);
      told = w.close() != 0;
    } catch (const std::runtime_error&) {
      told = true;
    }
    require(told, "a full device was not reported by the writer");
  }
  auto missing = dir / "none";
  requireThrows<std::runtime_error>([&] { io::FileIOWrappers::readFile(missing); }, "reading a missing file");
  requireThrows<std::runtime_error>([&] { io::LocalFileReader r(missing); }, "opening a missing file");
}
} // namespace
