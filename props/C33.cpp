// C33: file helpers read, write and slice files faithfully.
#include <fcntl.h>
#include <unistd.h>
#include "fbpcf/exception/PcfException.h"
#include "fbpcf/io/FileManagerUtil.h"
#include "fbpcf/io/LocalFileManager.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/IOUtils.h"
#include "pbt.h"
#include "scratch.h"
using namespace pbt;
namespace {
namespace io = fbpcf::io;
struct Inside { // works in a folder
  int old;
  explicit Inside(const std::string& d) : old(open(".", O_RDONLY | O_DIRECTORY)) {
    require(chdir(d.c_str()) == 0, "cannot enter the scratch folder");
  }
  ~Inside() {
    (void)!fchdir(old);
    close(old);
  }
};
std::string genContent(Src& s) {
  std::string t;
  size_t n = s.chance(1, 10) ? s.below(70000) : s.chance(1, 4) ? s.below(4) : s.below(200);
  int style = s.below(4);
  for (size_t i = 0; i < n; i++) {
    auto r = s.rng().u64();
    t += style == 0 ? (char)r : style == 1 ? "ab\n"[r % 3] : style == 2 ? (r % 8 ? 'x' : '\0') : (char)(32 + r % 95);
  }
  return t;
}
std::string shown(const std::string& t) {
  std::string r = cat(t.size(), " bytes ");
  for (size_t i = 0; i < t.size() && i < 24; i++) {
    char b[8];
    snprintf(b, sizeof b, t[i] >= 32 && t[i] < 127 ? "%c" : "\\x%02x", (unsigned char)t[i]);
    r += b;
  }
  return r;
}
struct Mgr {
  int kind;
  fbpcf::LocalFileManager m;
  void write(const std::string& p, const std::string& d) {
    kind == 0 ? m.write(p, d) : kind == 1 ? io::write(p, d) : io::getFileManager(p)->write(p, d);
  }
  std::string read(const std::string& p) {
    if (kind == 0) {
      return m.read(p);
    }
    return kind == 1 ? io::read(p) : io::getFileManager(p)->read(p);
  }
  std::string stream(const std::string& p) {
    auto in = kind == 0 ? m.getInputStream(p) : kind == 1 ? io::getInputStream(p) : io::getFileManager(p)->getInputStream(p);
    return {std::istreambuf_iterator<char>(in->get()), {}};
  }
  std::string bytes(const std::string& p, size_t a, size_t b) {
    return kind == 0 ? m.readBytes(p, a, b) : io::getFileManager(p)->readBytes(p, a, b);
  }
  void copy(const std::string& a, const std::string& b) {
    kind == 0 ? m.copy(a, b) : io::getFileManager(a)->copy(a, b);
  }
};
PROPERTY(files, 2500, 150000) {
  Scratch dir;
  Inside in(dir.dir());
  Mgr m{(int)s.below(3)};
  const char* names[] = {"plain", "./here", "sub/one", "sub/deep/er/two", "with space.txt", "sub/one.b", "https", "a,b"};
  std::vector<std::string> paths;
  for (int i = 1 + s.below(4); i--;) {
    std::string n = names[s.below(8)];
    paths.push_back(s.coin() ? n : dir / n);
  }
  std::map<std::string, std::string> model;
  auto key = [&](const std::string& p) { return std::filesystem::absolute(p).lexically_normal().string(); };
  size_t steps = 2 + s.below(9), slices = 0, checked = 0;
  c.desc = cat("manager ", m.kind);
  for (size_t i = 0; i < steps; i++) {
    auto p = paths[s.below(paths.size())], k = key(p);
    bool there = model.count(k);
    int op = there ? s.below(8) : s.below(3);
    auto same = [&](const std::string& got, const std::string& want, const std::string& what) {
      require(got == want, cat(what, " gave ", shown(got), ", not ", shown(want)));
      checked++;
    };
    if (op < 2) {
      auto t = genContent(s);
      c.desc += cat("; write ", p, " ", shown(t));
      c.labelIf(p.find('/') == std::string::npos, "bare file name");
      c.labelIf(there, "overwrite");
      c.labelIf(t.find('\0') != std::string::npos, "NUL bytes");
      m.write(p, t);
      model[k] = t;
      same(slurp(p), t, "the file after write of " + p);
    } else if (!there) {
      c.desc += cat("; missing ", p);
      c.label("missing file");
      auto q = paths[s.below(paths.size())];
      requireThrows<fbpcf::PcfException>([&] { m.read(p); }, "reading a missing file");
      requireThrows<fbpcf::PcfException>([&] { m.stream(p); }, "opening a missing file");
      requireThrows<fbpcf::PcfException>([&] { m.bytes(p, 0, 1); }, "reading bytes of a missing file");
      requireThrows<fbpcf::PcfException>([&] { m.copy(p, q); }, "copying a missing file");
    } else if (op == 2) {
      c.desc += cat("; read ", p);
      same(m.read(p), model[k], "read of " + p);
    } else if (op == 3) {
      c.desc += cat("; stream ", p);
      same(m.stream(p), model[k], "stream of " + p);
    } else if (op == 4) {
      auto q = paths[s.below(paths.size())];
      c.desc += cat("; copy ", p, " to ", q);
      m.copy(p, q);
      model[key(q)] = model[k];
      same(slurp(q), model[k], "copy to " + q);
      c.label("copy");
    } else {
      auto& t = model[k];
      size_t a, b;
      switch (s.below(4)) {
        case 0: a = s.below(t.size() + 3), b = s.below(t.size() + 3); break;
        case 1: a = s.below(t.size() + 1), b = a + s.below(t.size() - a + 1); break;
        case 2: a = s.below(t.size() + 1), b = s.coin() ? SIZE_MAX : t.size() + s.below(1000); break;
        default: a = 0, b = t.size();
      }
      c.desc += cat("; bytes ", a, "-", b, " of ", p);
      if (a > b || a > t.size()) {
        requireThrows<fbpcf::PcfException>([&] { m.bytes(p, a, b); }, a > b ? "an inverted range" : "a range beyond the end");
        c.label("bad range");
      } else {
        same(m.bytes(p, a, b), t.substr(a, b - a), cat("range ", a, "-", b));
        slices++;
      }
    }
  }
  for (auto& [k, t] : model) {
    require(slurp(k) == t, cat(k, " has ", shown(slurp(k)), " at the end, not ", shown(t)));
  }
  if (s.chance(1, 8)) {
    requireThrows<fbpcf::PcfException>([&] { m.write("/dev/full", "x" + genContent(s)); }, "writing to a full device");
    c.label("full device");
  }
  c.labelIf(slices > 0, "slices");
  c.nontrivial = checked >= 2 && steps >= 3;
}
std::string genField(Src& s) {
  std::string t;
  size_t n = s.chance(1, 4) ? 0 : s.below(7);
  for (size_t i = 0; i < n; i++) {
    t += s.chance(1, 5) ? " \t"[s.below(2)] : "aZ09\"';-_.\x80\xff"[s.below(12)];
  }
  return t;
}
std::string trimmed(const std::string& t) {
  auto ws = " \t\r\n\v\f";
  auto a = t.find_first_not_of(ws);
  return a == std::string::npos ? "" : t.substr(a, t.find_last_not_of(ws) - a + 1);
}
struct Line {
  std::string text;
  std::vector<std::string> fields;
};
Line genLine(Src& s) {
  Line l;
  size_t n = 1 + s.below(s.chance(1, 6) ? 20 : 5);
  for (size_t i = 0; i < n; i++) {
    auto f = genField(s);
    l.text += (i ? "," : "") + f;
    l.fields.push_back(trimmed(f));
  }
  if (s.chance(1, 6)) {
    l.text += "\r";
  }
  return l;
}
// slices of a file of more bytes than 31 or 32 bits can number (most of them in holes)
PROPERTY(vast, 60, 2000) {
  Scratch dir;
  auto path = dir / "vast";
  uint64_t size = s.pick<uint64_t>({1ull << 31, 1ull << 32, 5ull << 30}) + s.range(-3, 3);
  std::map<uint64_t, std::string> parts; // data, elsewhere zeros
  int fd = open(path.c_str(), O_RDWR | O_CREAT, 0600);
  require(fd >= 0, "cannot create a scratch file");
  if (ftruncate(fd, size) != 0) {
    close(fd);
    c.desc = "no sparse files here";
    return;
  }
  uint64_t last = 0;
  for (uint64_t at : {0ull, (1ull << 31) - 20, (1ull << 32) - 20, (unsigned long long)size - 30}) {
    if (at < size && at >= last) {
      auto b = s.bytes(std::min<uint64_t>(40, size - at));
      std::string d(b.begin(), b.end());
      require(pwrite(fd, d.data(), d.size(), at) == (ssize_t)d.size(), "cannot write a scratch file");
      parts[at] = d;
      last = at + 40;
    }
  }
  close(fd);
  c.desc = cat("file of ", size);
  c.nontrivial = true;
  Mgr m{s.coin() ? 0 : 2};
  for (int n = 1 + s.below(5); n--;) {
    auto it = parts.begin();
    std::advance(it, s.below(parts.size()));
    uint64_t from = s.chance(1, 4) ? s.below(size) : std::min<uint64_t>(size, it->first + s.below(60));
    from -= std::min<uint64_t>(from, s.below(20));
    uint64_t to = from + s.below(s.chance(1, 4) ? 3000 : 80);
    if (s.chance(1, 6)) {
      from = size - s.below(50);
      to = from + (1ull << 32) + s.below(9); // only what is there
    }
    c.desc += cat(" ", from, "-", to);
    std::string want(std::min(to, size) - from, 0);
    for (auto& [at, d] : parts) {
      for (size_t i = 0; i < d.size(); i++) {
        if (at + i >= from && at + i - from < want.size()) {
          want[at + i - from] = d[i];
        }
      }
    }
    auto got = m.bytes(path, from, to);
    require(got == want, cat("bytes ", from, "-", to, " of ", size, ": ", shown(got), ", not ", shown(want)));
  }
}
PROPERTY(tables, 4000, 250000) {
  auto header = genLine(s);
  std::vector<Line> rows(s.below(s.chance(1, 8) ? 300 : 8));
  std::string text = header.text;
  for (auto& r : rows) {
    r = genLine(s);
    text += "\n" + r.text;
  }
  bool end = s.coin();
  // without an end there has to be a line
  if (end || rows.empty() || rows.back().text.empty() || header.text.empty()) {
    text += "\n";
  }
  c.desc = shown(text).substr(0, 60) + cat(" ", rows.size(), " rows");
  c.nontrivial = rows.size() >= 2 && header.fields.size() >= 2;
  c.labelIf(text.size() > 4096, "several chunks");
  c.labelIf(rows.empty(), "no rows");
  for (auto* l : {&header, rows.empty() ? &header : &rows.back()}) {
    auto t = l->text;
    requireEq(show(io::IOUtils::splitByComma(t)), show(l->fields), "fields of a line");
    // and again, as the line may have been trimmed in place
    requireEq(show(io::IOUtils::splitByComma(t)), show(l->fields), "fields of the same line again");
  }
  Scratch dir;
  put(dir / "t.csv", text);
  size_t seen = 0, headers = 0;
  bool withHeader = s.coin();
  auto row = [&](const std::vector<std::string>& h, const std::vector<std::string>& p) {
    requireEq(show(h), show(header.fields), "header given with a row");
    require(seen < rows.size(), "more rows than lines");
    requireEq(show(p), show(rows[seen].fields), cat("row ", seen));
    require(!withHeader || headers == 1, "a row came before the header");
    seen++;
  };
  bool ok = withHeader ? io::FileIOWrappers::readCsv(dir / "t.csv", row, [&](const std::vector<std::string>& h) {
    requireEq(show(h), show(header.fields), "header");
    headers++;
  })
                       : io::FileIOWrappers::readCsv(dir / "t.csv", row);
  require(ok, "readCsv reported a failure");
  requireEq(seen, rows.size(), "rows");
  requireEq(headers, withHeader ? 1ul : 0ul, "headers");
}
} // namespace
