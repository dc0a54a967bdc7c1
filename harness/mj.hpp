// Minimal JSON reader/writer for the C++ drivers.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

struct J {
  enum T {NUL, BOOL, NUM, STR, ARR, OBJ} t = NUL;
  double n = 0; bool b = false; std::string s;
  std::vector<J> a; std::vector<std::pair<std::string, J>> o;
  bool has(const std::string& k) const { for (auto& p : o) if (p.first == k) return true; return false; }
  const J& operator[](const std::string& k) const {
    for (auto& p : o) if (p.first == k) return p.second;
    throw std::runtime_error("missing key " + k);
  }
  const J& operator[](const char* k) const { return (*this)[std::string(k)]; }
  const J& operator[](std::size_t i) const { return a.at(i); }
  const J& operator[](int i) const { return a.at(i); }
  std::size_t size() const { return t == OBJ ? o.size() : a.size(); }
  operator double() const { return n; }
  int i() const { return (int) std::llround(n); }
  std::vector<double> vec() const { std::vector<double> v; for (auto& x : a) v.push_back(x.n); return v; }
};

struct JP {
  const char* p;
  void ws() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++; }
  J parse() {
    ws(); J j;
    if (*p == '{') {
      j.t = J::OBJ; p++; ws();
      if (*p == '}') { p++; return j; }
      while (true) { ws(); J k = parse(); ws(); p++; J v = parse(); j.o.push_back({k.s, v}); ws(); if (*p++ == '}') break; }
    } else if (*p == '[') {
      j.t = J::ARR; p++; ws();
      if (*p == ']') { p++; return j; }
      while (true) { j.a.push_back(parse()); ws(); if (*p++ == ']') break; }
    } else if (*p == '"') {
      j.t = J::STR; p++;
      while (*p != '"') {
        if (*p == '\\') {
          p++;
          switch (*p) { case 'n': j.s += '\n'; break; case 't': j.s += '\t'; break; case 'r': j.s += '\r'; break;
            case 'u': { j.s += (char) std::strtol(std::string(p + 1, 4).c_str(), nullptr, 16); p += 4; break; }
            default: j.s += *p; }
          p++;
        } else j.s += *p++;
      }
      p++;
    } else if (*p == 't') { j.t = J::BOOL; j.b = true; j.n = 1; p += 4; }
    else if (*p == 'f') { j.t = J::BOOL; p += 5; }
    else if (*p == 'n') { p += 4; }
    else { char* e; j.t = J::NUM; j.n = std::strtod(p, &e); if (e == p) throw std::runtime_error("bad json"); p = e; }
    return j;
  }
};
inline J jparse(const std::string& s) { JP q{s.c_str()}; return q.parse(); }

struct W {   // tiny writer
  std::string s;
  static std::string num(double x) {
    if (std::isnan(x)) return "\"nan\"";
    if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
    char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return b;
  }
  static std::string str(const std::string& x) {
    std::string r = "\"";
    for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
  }
  template <class V> static std::string arr(const V& v) {
    std::string r = "["; bool f = true;
    for (auto x : v) { if (!f) r += ","; f = false; r += num((double) x); }
    return r + "]";
  }
  bool first = true;
  W() { s = "{"; }
  W& raw(const std::string& k, const std::string& v) { if (!first) s += ","; first = false; s += str(k) + ":" + v; return *this; }
  W& n(const std::string& k, double x) { return raw(k, num(x)); }
  W& t(const std::string& k, const std::string& x) { return raw(k, str(x)); }
  template <class V> W& v(const std::string& k, const V& x) { return raw(k, arr(x)); }
  std::string done() { return s + "}"; }
};

inline int serve(int argc, char** argv, std::function<std::string(const J&)> fn) {
  std::ifstream fi(argv[1]); std::ofstream fo(argv[2]); std::string line;
  while (std::getline(fi, line)) {
    std::string r;
    J j = jparse(line);
    try { r = fn(j); }
    catch (const std::exception& e) { W w; w.t("exception", e.what()); r = w.done(); }
    fo << r << "\n"; fo.flush();
  }
  return 0;
}
