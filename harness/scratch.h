// A scratch directory that is removed with everything in it.
#pragma once
#include <stdlib.h>
#include <filesystem>
#include <fstream>
#include <string>

namespace pbt {
class Scratch {
 public:
  Scratch() {
    std::string t = (std::filesystem::temp_directory_path() / "pbt-XXXXXX").string();
    if (!mkdtemp(t.data())) {
      throw std::runtime_error("mkdtemp failed");
    }
    dir_ = t;
  }
  Scratch(const Scratch&) = delete;
  ~Scratch() {
    std::error_code e;
    std::filesystem::remove_all(dir_, e);
  }
  const std::string& dir() const {
    return dir_;
  }
  std::string operator/(const std::string& name) const {
    return dir_ + "/" + name;
  }

 private:
  std::string dir_;
};
inline void put(const std::string& path, const std::string& bytes) {
  std::ofstream f(path, std::ios::binary);
  f.write(bytes.data(), bytes.size());
}
inline std::string slurp(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
} // namespace pbt
