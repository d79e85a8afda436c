// Harness plumbing: reads a script of operations (one JSON object per line), runs each against the real code and
// writes the same object with the observations added as field "r" (one line per operation, flushed before the next).
#pragma once
#include <unistd.h>
#include <sys/wait.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace hx {
struct Js {
  enum K { Nul, Bool, Int, Str, Arr, Obj } k = Nul;
  long long i = 0;
  std::string s;
  std::vector<Js> a;
  std::map<std::string, Js> o;
  Js() {}
  Js(bool b) : k(Bool), i(b) {}
  Js(int v) : k(Int), i(v) {}
  Js(unsigned v) : k(Int), i(v) {}
  Js(long v) : k(Int), i(v) {}
  Js(unsigned long v) : k(Int), i((long long)v) {}
  Js(long long v) : k(Int), i(v) {}
  Js(const char* v) : k(Str), s(v) {}
  Js(const std::string& v) : k(Str), s(v) {}
  template <class T> Js(const std::vector<T>& v) : k(Arr) { for (const auto& x : v) a.push_back(Js(x)); }
  static Js obj() { Js j; j.k = Obj; return j; }
  static Js arr() { Js j; j.k = Arr; return j; }
  Js& operator[](const std::string& key) { k = Obj; return o[key]; }
  bool has(const std::string& key) const { return o.count(key) > 0; }
  const Js& at(const std::string& key) const {
    auto it = o.find(key);
    if (it == o.end()) { fprintf(stderr, "harness: field %s missing\n", key.c_str()); _exit(97); }
    return it->second;
  }
  void push(const Js& j) { k = Arr; a.push_back(j); }
  int num(const std::string& key) const { return (int)at(key).i; }
  int num(const std::string& key, int d) const { return has(key) ? (int)at(key).i : d; }
  bool flag(const std::string& key) const { return at(key).i != 0; }
  const std::string& str(const std::string& key) const { return at(key).s; }
  std::vector<int> ints(const std::string& key) const { std::vector<int> v; for (auto& x : at(key).a) v.push_back((int)x.i); return v; }
  std::vector<unsigned char> bytes(const std::string& key) const { std::vector<unsigned char> v; for (auto& x : at(key).a) v.push_back((unsigned char)x.i); return v; }
  std::string dump() const {
    switch (k) {
      case Bool: return i ? "true" : "false";
      case Int: return std::to_string(i);
      case Str: {
        std::string r = "\"";
        for (unsigned char c : s) {
          if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
          else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
          else r += (char)c;
        }
        return r + "\"";
      }
      case Arr: { std::string r = "["; for (size_t n = 0; n < a.size(); n++) r += (n ? "," : "") + a[n].dump(); return r + "]"; }
      case Obj: { std::string r = "{"; bool f = true; for (auto& p : o) { r += (f ? "\"" : ",\"") + p.first + "\":" + p.second.dump(); f = false; } return r + "}"; }
      default: return "\"null\"";
    }
  }
};

struct Parser {
  const char* p;
  explicit Parser(const std::string& t) : p(t.c_str()) {}
  void ws() { while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++; }
  Js val() {
    ws();
    Js j;
    if (*p == '{') {
      j.k = Js::Obj; p++; ws();
      while (*p && *p != '}') { ws(); Js key = val(); ws(); if (*p == ':') p++; j.o[key.s] = val(); ws(); if (*p == ',') p++; ws(); }
      if (*p) p++;
    } else if (*p == '[') {
      j.k = Js::Arr; p++; ws();
      while (*p && *p != ']') { j.a.push_back(val()); ws(); if (*p == ',') p++; ws(); }
      if (*p) p++;
    } else if (*p == '"') {
      j.k = Js::Str; p++;
      while (*p && *p != '"') {
        if (*p == '\\') {
          p++;
          if (*p == 'n') j.s += '\n'; else if (*p == 't') j.s += '\t'; else if (*p == 'r') j.s += '\r';
          else if (*p == 'u') { char h[5] = {p[1], p[2], p[3], p[4], 0}; j.s += (char)strtol(h, nullptr, 16); p += 4; }
          else j.s += *p;
          p++;
        } else j.s += *p++;
      }
      if (*p) p++;
    } else if (!strncmp(p, "true", 4)) { j = Js(true); p += 4; }
    else if (!strncmp(p, "false", 5)) { j = Js(false); p += 5; }
    else if (!strncmp(p, "null", 4)) { p += 4; }
    else { char* e; j = Js((long long)strtoll(p, &e, 10)); if (e == p) { fprintf(stderr, "harness: bad json at %s\n", p); _exit(97); } p = e; }
    return j;
  }
};

// Scaled integer of a double. exact(): the value must be a multiple of 1/scale, otherwise a value no specification
// accepts is returned (strings never equal integers are avoided: TLC cannot compare them, so use the sentinel).
const long long kBad = -2147483647LL;
inline long long clampi(double v) { if (!(v == v)) return kBad; if (v > 2147483000.0) return 2147483001LL; if (v < -2147483000.0) return -2147483001LL; return (long long)v; }
inline long long exact(double v, double scale = 1.0) {
  double w = v * scale;
  if (!(w == w) || std::fabs(w) > 2147483000.0) return kBad;
  double r = std::nearbyint(w);
  return r == w ? (long long)r : kBad;
}
inline long long rnd(double v, double scale = 1.0) { return clampi(std::nearbyint(v * scale)); }

using Handler = std::function<Js(const Js&)>;
inline int run(int argc, char** argv, const Handler& h) {
  if (argc < 3) { fprintf(stderr, "usage: driver SCRIPT OUT\n"); return 96; }
  std::ifstream in(argv[1]);
  FILE* out = fopen(argv[2], "w");
  if (!in || !out) return 96;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    Js e = Parser(line).val();
    Js r;
    try { r = h(e); }
    catch (const std::exception& x) { r = Js::obj(); r["exc"] = Js(true); }
    catch (...) { r = Js::obj(); r["exc"] = Js(true); }
    size_t end = line.find_last_of('}');
    std::string o = line.substr(0, end) + ",\"r\":" + r.dump() + "}\n";
    fputs(o.c_str(), out);
    fflush(out);
  }
  fclose(out);
  fflush(nullptr);
  _exit(0);
}

// Runs f in a child; returns its exit code (or 1000+signal).
inline int forked(const std::function<int()>& f) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) { int c = 99; try { c = f(); } catch (...) { c = 98; } _exit(c); }
  int st = 0; waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
}  // namespace hx
