#pragma once
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include "folly/Conv.h"
#include "folly/Range.h"
namespace folly {
template <typename C>
inline std::string join(std::string_view d, const C& c) {
  std::string out;
  bool first = true;
  for (const auto& x : c) {
    if (!first) {
      out.append(d);
    }
    first = false;
    std::ostringstream o;
    o << x;
    out += o.str();
  }
  return out;
}
template <typename C>
inline std::string join(char d, const C& c) {
  return join(std::string_view(&d, 1), c);
}
// folly semantics: splitting an empty input yields one empty piece.
template <typename O>
inline void
split(char d, std::string_view in, std::vector<O>& out, bool ignoreEmpty = false) {
  size_t start = 0;
  while (true) {
    size_t p = in.find(d, start);
    std::string_view tok = in.substr(
        start, p == std::string_view::npos ? std::string_view::npos : p - start);
    if (!(ignoreEmpty && tok.empty())) {
      out.push_back(O(tok));
    }
    if (p == std::string_view::npos) {
      break;
    }
    start = p + 1;
  }
}
template <typename O>
inline void split(
    std::string_view d,
    std::string_view in,
    std::vector<O>& out,
    bool ignoreEmpty = false) {
  if (d.size() == 1) {
    split(d[0], in, out, ignoreEmpty);
    return;
  }
  size_t start = 0;
  while (true) {
    size_t p = d.empty() ? std::string_view::npos : in.find(d, start);
    std::string_view tok = in.substr(
        start, p == std::string_view::npos ? std::string_view::npos : p - start);
    if (!(ignoreEmpty && tok.empty())) {
      out.push_back(O(tok));
    }
    if (p == std::string_view::npos) {
      break;
    }
    start = p + d.size();
  }
}
} // namespace folly
