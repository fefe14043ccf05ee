#pragma once
#include <cctype>
#include <regex>
#include <stdexcept>
#include <string>
namespace folly {
// Same grammar as folly::Uri: scheme ':' rest, authority after "//".
class Uri {
 public:
  explicit Uri(const std::string& s) {
    size_t c = s.find(':');
    if (c == std::string::npos || c == 0 || !std::isalpha((unsigned char)s[0])) {
      throw std::invalid_argument("invalid URI " + s);
    }
    for (size_t i = 0; i < c; i++) {
      unsigned char ch = s[i];
      if (!(std::isalnum(ch) || ch == '+' || ch == '.' || ch == '-')) {
        throw std::invalid_argument("invalid URI " + s);
      }
      scheme_.push_back((char)std::tolower(ch));
    }
    std::string rest = s.substr(c + 1);
    size_t e = rest.find_first_of("?#");
    if (rest.rfind("//", 0) == 0) {
      size_t p = rest.find('/', 2);
      if (e != std::string::npos && (p == std::string::npos || p > e)) {
        p = std::string::npos;
      }
      size_t hostEnd = p != std::string::npos ? p
          : e != std::string::npos            ? e
                                              : rest.size();
      std::string auth = rest.substr(2, hostEnd - 2);
      size_t at = auth.find('@');
      if (at != std::string::npos) {
        auth = auth.substr(at + 1);
      }
      size_t colon = auth.find(':');
      if (colon != std::string::npos) {
        std::string port = auth.substr(colon + 1);
        for (char d : port) {
          if (!std::isdigit((unsigned char)d)) {
            throw std::invalid_argument("invalid URI authority " + auth);
          }
        }
        auth = auth.substr(0, colon);
      }
      host_ = auth;
      path_ = rest.substr(
          hostEnd, e == std::string::npos ? std::string::npos : e - hostEnd);
    } else {
      path_ = rest.substr(0, e);
    }
  }
  const std::string& scheme() const {
    return scheme_;
  }
  const std::string& host() const {
    return host_;
  }
  const std::string& path() const {
    return path_;
  }

 private:
  std::string scheme_, host_, path_;
};
} // namespace folly
