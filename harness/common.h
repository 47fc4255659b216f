// Shared by the drivers: JSON in and out, byte strings, virtual time.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <string>
#include <string_view>
#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>

// vclock.cc
extern bool vclock_on;
extern int64_t vclock_ns;  // both the wall clock and the monotonic clock

using JV = rapidjson::Value;

// strings travel as JSON strings with one code point (< 256) per byte
inline std::string bytes(const char* utf8, size_t n) {
  std::string r;
  for (size_t i = 0; i < n; ++i) {
    auto c = static_cast<unsigned char>(utf8[i]);
    if (c < 0x80) {
      r += static_cast<char>(c);
    } else {
      auto d = static_cast<unsigned char>(utf8[++i]);
      r += static_cast<char>(((c & 3) << 6) | (d & 0x3f));
    }
  }
  return r;
}
inline std::string bytes(const JV& v) { return bytes(v.GetString(), v.GetStringLength()); }

struct Out {
  rapidjson::StringBuffer sb;
  rapidjson::Writer<rapidjson::StringBuffer> w{sb};
  void str(std::string_view s) {
    std::string u;
    for (char ch : s) {
      auto c = static_cast<unsigned char>(ch);
      if (c < 0x80) {
        u += ch;
      } else {
        u += static_cast<char>(0xC0 | (c >> 6));
        u += static_cast<char>(0x80 | (c & 0x3f));
      }
    }
    w.String(u.data(), static_cast<rapidjson::SizeType>(u.size()));
  }
  void key(const char* k) { w.Key(k); }
  void num(double d) {  // as text: also NaN, infinities
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", d);
    w.String(b);
  }
  void i64(int64_t i) { w.Int64(i); }
  void u64(uint64_t i) { w.Uint64(i); }
  void boolean(bool b) { w.Bool(b); }
};

// One JSON value per line in, one "@R <json>" line out.
template <typename F>
int drive(F&& one) {
  std::string line;
  std::ios::sync_with_stdio(false);
  while (std::getline(std::cin, line)) {
    rapidjson::Document d;
    d.Parse(line.c_str(), line.size());
    if (d.HasParseError()) {
      std::fprintf(stderr, "bad case\n");
      return 3;
    }
    Out out;
    one(d, out);
    std::fprintf(stdout, "@R %s\n", out.sb.GetString());
    std::fflush(stdout);
  }
  return 0;
}

inline int64_t geti(const JV& v, const char* k, int64_t dflt = 0) {
  auto it = v.FindMember(k);
  return it == v.MemberEnd() ? dflt : it->value.GetInt64();
}
// a number is a JSON number or, for non-finite and exact ones, text
inline double getd(const JV& v) {
  return v.IsString() ? std::strtod(v.GetString(), nullptr) : v.GetDouble();
}
