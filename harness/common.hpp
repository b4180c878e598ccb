// Light JSON trace emission shared by the harness drivers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <bitset>
#include <random>
#include <set>
#include <map>
#include <string>
#include <vector>
#include <utility>
#include <functional>
#include <algorithm>

namespace vh {

inline std::string js(bool v) { return v ? "true" : "false"; }
inline std::string js(int v) { return std::to_string(v); }
inline std::string js(long v) { return std::to_string(v); }
inline std::string js(long long v) { return std::to_string(v); }
inline std::string js(unsigned v) { return std::to_string(v); }
inline std::string js(unsigned long v) { return std::to_string(v); }
inline std::string js(unsigned long long v) { return std::to_string(v); }
inline std::string js(const std::string& v) {
  std::string o = "\"";
  for(char c : v) {
    if(c == '"' || c == '\\') { o += '\\'; o += c; }
    else if((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o + "\"";
}
inline std::string js(const char* v) { return js(std::string(v)); }
template <size_t N>
std::string js(const std::bitset<N>& b) {
  std::string o = "[";
  for(size_t i = 0; i < N; ++i)
    if(b.test(i)) { if(o.size() > 1) o += ','; o += std::to_string(i); }
  return o + "]";
}
template <class A, class B>
std::string js(const std::pair<A, B>& p);
template <class T, class Al>
std::string js(const std::vector<T, Al>& v) {
  std::string o = "[";
  for(size_t i = 0; i < v.size(); ++i) {
    if(i) o += ',';
    o += js((T)v[i]);
  }
  return o + "]";
}
template <class A, class B>
std::string js(const std::pair<A, B>& p) { return "[" + js(p.first) + "," + js(p.second) + "]"; }

// A real number which is expected to be an integer: scaled by `scale` and
// rounded; off-integer or non-finite values become a sentinel no
// specification accepts.
constexpr long BAD = 1999999999;
inline long I(double x, double scale = 1, double tol = 1e-6) {
  double y = x * scale;
  if(!(std::abs(y) < 1.9e9)) return BAD;
  double r = std::nearbyint(y);
  if(std::abs(y - r) > tol * std::max(1., std::abs(scale))) return BAD - 1;
  return (long)r;
}
// Rounded fixed-point (no integrality expected).
inline long F(double x, double scale) {
  double y = x * scale;
  if(!(std::abs(y) < 1.9e9)) return BAD;
  return (long)std::nearbyint(y);
}
inline std::vector<long> I(const std::vector<double>& v, double scale = 1, double tol = 1e-6) {
  std::vector<long> o; for(double x : v) o.push_back(I(x, scale, tol)); return o;
}
inline std::vector<long> F(const std::vector<double>& v, double scale) {
  std::vector<long> o; for(double x : v) o.push_back(F(x, scale)); return o;
}

struct Rec {
  std::string s;
  explicit Rec(const std::string& op) { s = "{\"op\":" + js(op); }
  template <class T>
  Rec& operator()(const char* k, const T& v) { s += ",\""; s += k; s += "\":"; s += js(v); return *this; }
  Rec& raw(const char* k, const std::string& v) { s += ",\""; s += k; s += "\":"; s += v; return *this; }
};

struct Out {
  FILE* f = nullptr;
  bool own = false;
  long n = 0;
  Out() {}
  explicit Out(const std::string& suffix) { open(suffix); }
  void open(const std::string& suffix) {
    const char* p = getenv("VERIF_OUT");
    f = fopen((std::string(p ? p : "/dev/stdout") + suffix).c_str(), "w");
    if(!f) { perror("VERIF_OUT"); exit(3); }
  }
  void operator()(const Rec& r) { fputs(r.s.c_str(), f); fputs("}\n", f); fflush(f); ++n; }
  ~Out() { if(f) fclose(f); }
};

inline unsigned seed() { const char* s = getenv("VERIF_SEED"); return s ? (unsigned)strtoul(s, nullptr, 10) : 1u; }
inline bool thorough() { const char* s = getenv("VERIF_TIER"); return s && std::string(s) == "thorough"; }

struct Rng {
  std::mt19937 g;
  explicit Rng(unsigned salt) : g(seed() * 7919u + salt) {}
  // uniform in [lo,hi]; portable
  int operator()(int lo, int hi) { return lo + (int)(g() % (unsigned)(hi - lo + 1)); }
  bool coin() { return g() & 1u; }
};

}  // namespace vh
