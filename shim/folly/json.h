#pragma once
#include <cstdio>
#include <stdexcept>
#include <string>
#include "folly/dynamic.h"
namespace folly {
namespace json {
struct parse_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
} // namespace json
namespace shim {
inline void ser(const dynamic& d, std::string& o) {
  switch (d.type()) {
    case dynamic::NULLT:
      o += "null";
      break;
    case dynamic::BOOL:
    case dynamic::INT64:
    case dynamic::DOUBLE:
      o += d.asString();
      break;
    case dynamic::STRING: {
      o += '"';
      for (unsigned char c : d.getString()) {
        if (c == '"' || c == '\\') {
          o += '\\';
          o += (char)c;
        } else if (c < 0x20) {
          char b[8];
          std::snprintf(b, sizeof b, "\\u%04x", c);
          o += b;
        } else {
          o += (char)c;
        }
      }
      o += '"';
      break;
    }
    case dynamic::ARRAY: {
      o += '[';
      bool f = true;
      for (const auto& x : d) {
        if (!f) {
          o += ',';
        }
        f = false;
        ser(x, o);
      }
      o += ']';
      break;
    }
    case dynamic::OBJECT: {
      o += '{';
      bool f = true;
      for (const auto& [k, v] : d.items()) {
        if (!f) {
          o += ',';
        }
        f = false;
        ser(dynamic(k), o);
        o += ':';
        ser(v, o);
      }
      o += '}';
      break;
    }
  }
}
struct P {
  const std::string& s;
  size_t i = 0;
  void ws() {
    while (i < s.size() &&
           (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) {
      i++;
    }
  }
  [[noreturn]] void bad() {
    throw json::parse_error("json parse error at " + std::to_string(i));
  }
  char peek() {
    ws();
    if (i >= s.size()) {
      bad();
    }
    return s[i];
  }
  std::string str() {
    if (peek() != '"') {
      bad();
    }
    i++;
    std::string r;
    while (true) {
      if (i >= s.size()) {
        bad();
      }
      char c = s[i++];
      if (c == '"') {
        return r;
      }
      if (c == '\\') {
        if (i >= s.size()) {
          bad();
        }
        c = s[i++];
        switch (c) {
          case 'n':
            r += '\n';
            break;
          case 't':
            r += '\t';
            break;
          case 'r':
            r += '\r';
            break;
          case 'b':
            r += '\b';
            break;
          case 'f':
            r += '\f';
            break;
          case 'u': {
            if (i + 4 > s.size()) {
              bad();
            }
            unsigned v = std::stoul(s.substr(i, 4), nullptr, 16);
            i += 4;
            if (v < 0x80) {
              r += (char)v;
            } else if (v < 0x800) {
              r += (char)(0xC0 | (v >> 6));
              r += (char)(0x80 | (v & 63));
            } else {
              r += (char)(0xE0 | (v >> 12));
              r += (char)(0x80 | ((v >> 6) & 63));
              r += (char)(0x80 | (v & 63));
            }
            break;
          }
          default:
            r += c;
        }
      } else {
        r += c;
      }
    }
  }
  dynamic val() {
    char c = peek();
    if (c == '{') {
      i++;
      dynamic d = dynamic::emptyObject();
      if (peek() == '}') {
        i++;
        return d;
      }
      while (true) {
        std::string k = str();
        if (peek() != ':') {
          bad();
        }
        i++;
        d.set(k, val());
        c = peek();
        i++;
        if (c == '}') {
          return d;
        }
        if (c != ',') {
          bad();
        }
      }
    }
    if (c == '[') {
      i++;
      dynamic d = dynamic::emptyArray();
      if (peek() == ']') {
        i++;
        return d;
      }
      while (true) {
        d.push_back(val());
        c = peek();
        i++;
        if (c == ']') {
          return d;
        }
        if (c != ',') {
          bad();
        }
      }
    }
    if (c == '"') {
      return dynamic(str());
    }
    if (s.compare(i, 4, "true") == 0) {
      i += 4;
      return dynamic(true);
    }
    if (s.compare(i, 5, "false") == 0) {
      i += 5;
      return dynamic(false);
    }
    if (s.compare(i, 4, "null") == 0) {
      i += 4;
      return dynamic(nullptr);
    }
    size_t j = i;
    bool fl = false;
    while (j < s.size() &&
           (isdigit((unsigned char)s[j]) || s[j] == '-' || s[j] == '+' ||
            s[j] == '.' || s[j] == 'e' || s[j] == 'E')) {
      fl |= s[j] == '.' || s[j] == 'e' || s[j] == 'E';
      j++;
    }
    if (j == i) {
      bad();
    }
    std::string n = s.substr(i, j - i);
    i = j;
    return fl ? dynamic(std::stod(n)) : dynamic((int64_t)std::stoll(n));
  }
};
} // namespace shim
inline std::string toJson(const dynamic& d) {
  std::string o;
  shim::ser(d, o);
  return o;
}
inline std::string toPrettyJson(const dynamic& d) {
  return toJson(d);
}
inline dynamic parseJson(const std::string& s) {
  shim::P p{s};
  dynamic d = p.val();
  p.ws();
  if (p.i != s.size()) {
    p.bad();
  }
  return d;
}
} // namespace folly
