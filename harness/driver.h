// Common part of all drivers: reads a script (one operation per line, blank separated), applies every line to the real
// code and writes exactly one ndjson line per script line: {"op":..,"a":[..],"o":{..}}.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <algorithm>

namespace drv {
using Args = std::vector<std::string>;

inline std::string quote(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if (c == '\n') {
      r += "\\n";
    } else if (c == '\t') {
      r += "\\t";
    } else if (c < 0x20) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += char(c);
    }
  }
  return r + "\"";
}

inline std::string js(const std::string& s) { return quote(s); }
inline std::string js(const char* s) { return quote(s); }
inline std::string js(bool b) { return b ? "true" : "false"; }
inline std::string js(long long i) { return std::to_string(i); }
inline std::string js(long i) { return std::to_string(i); }
inline std::string js(int i) { return std::to_string(i); }
inline std::string js(unsigned long i) { return std::to_string(i); }
inline std::string js(unsigned i) { return std::to_string(i); }
template <typename A, typename B>
std::string js(const std::pair<A, B>& p);
template <typename T>
std::string js(const std::vector<T>& v) {
  std::string r = "[";
  bool first = true;
  for (const auto& e : v) {
    if (!first) r += ",";
    first = false;
    r += js(T(e));
  }
  return r + "]";
}
template <typename A, typename B>
std::string js(const std::pair<A, B>& p) {
  return "[" + js(p.first) + "," + js(p.second) + "]";
}
struct Raw {
  std::string s;
};
inline std::string js(const Raw& r) { return r.s; }

//! ordered json object
struct Obj {
  std::string body;
  template <typename T>
  Obj& operator()(const std::string& k, const T& v) {
    if (!body.empty()) body += ",";
    body += quote(k) + ":" + js(v);
    return *this;
  }
  std::string str() const { return "{" + body + "}"; }
};
inline std::string js(const Obj& o) { return o.str(); }

template <typename T>
std::vector<T> sorted(std::vector<T> v) {
  std::sort(v.begin(), v.end());
  return v;
}

//! handler returns the observation as a json object; may throw
using Handler = std::function<Obj(const std::string& op, const Args& a)>;
//! names the class of an exception (set by the driver for library specific classes)
using ExName = std::function<std::string(const std::exception&)>;

inline bool isInt(const std::string& s) {
  if (s.empty() || s.size() > 9) return false;
  size_t i = s[0] == '-' ? 1 : 0;
  if (i == s.size()) return false;
  for (; i < s.size(); ++i)
    if (s[i] < '0' || s[i] > '9') return false;
  return true;
}

//! tells for which operations arguments that look like integers become json numbers (default: all)
inline std::function<bool(const std::string&)>& numericArgs() {
  static std::function<bool(const std::string&)> f;
  return f;
}

//! arguments that look like small integers become json numbers, everything else a string
inline int run(int argc, char** argv, const Handler& h, const ExName& exName = {}, bool rawArgs = false) {
  if (argc < 3) {
    std::cerr << "usage: " << argv[0] << " script trace\n";
    return 64;
  }
  std::ifstream in(argv[1]);
  FILE* out = fopen(argv[2], "w");
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ss(line);
    std::string op, t;
    ss >> op;
    Args a;
    while (ss >> t) a.push_back(t == "_" ? std::string() : t);
    Obj o;
    try {
      o = h(op, a);
    } catch (const std::exception& e) {
      o = Obj();
      o("ex", exName ? exName(e) : std::string("std"));
    } catch (...) {
      o = Obj();
      o("ex", "unknown");
    }
    std::string as = "[";
    if (!rawArgs) {
      bool num = !numericArgs() || numericArgs()(op);
      for (size_t i = 0; i < a.size(); ++i) {
        if (i) as += ",";
        as += num && isInt(a[i]) ? a[i] : quote(a[i]);
      }
    }
    as += "]";
    fprintf(out, "{\"op\":%s,\"a\":%s,\"o\":%s}\n", quote(op).c_str(), as.c_str(), o.str().c_str());
    fflush(out);
  }
  fclose(out);
  return 0;
}
}  // namespace drv
