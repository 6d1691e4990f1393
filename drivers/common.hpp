// Shared by the drivers: JSON output of exact numbers.  The drivers only call the
// public API and log what it returned; every judgement is made by TLC on the log.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <typeinfo>
#include <vector>

namespace vf {

// A number as [s, e, [digits]] in base 2^15 (see spec/DyadicPure.tla); exact for
// every finite double, canonical.  Non-finite values become [2,0,[1]].
inline void num(std::string& o, double x) {
  if(!std::isfinite(x)) { o += "[2,0,[1]]"; return; }
  if(x == 0) { o += "[0,0,[]]"; return; }
  int q; double f = std::frexp(std::fabs(x), &q);
  uint64_t m = (uint64_t)std::ldexp(f, 53); q -= 53;
  int e = q >= 0 ? q / 15 : -((-q + 14) / 15);
  int r = q - 15 * e;
  unsigned __int128 M = (unsigned __int128)m << r;
  while((M & 32767) == 0) { M >>= 15; e++; }
  char b[64];
  snprintf(b, sizeof b, "[%d,%d,[", x < 0 ? -1 : 1, e); o += b;
  bool first = true;
  while(M) { snprintf(b, sizeof b, first ? "%d" : ",%d", (int)(M & 32767)); o += b; first = false; M >>= 15; }
  o += "]]";
}
template <class V> void nums(std::string& o, const V& v) {
  o += "["; bool first = true;
  for(auto x : v) { if(!first) o += ","; first = false; num(o, (double)x); }
  o += "]";
}
template <class V> void pts3(std::string& o, const V& v) {
  o += "["; bool first = true;
  for(auto& p : v) { if(!first) o += ","; first = false; nums(o, p); }
  o += "]";
}
inline void key(std::string& o, const char* k) { if(o.back() != '{' && o.back() != '[') o += ","; o += "\""; o += k; o += "\":"; }
inline long clip(long v) { return v > 2000000000l ? 2000000000l : v < -2000000000l ? -2000000000l : v; } // TLC integers
inline void kv(std::string& o, const char* k, long v) { key(o, k); o += std::to_string(clip(v)); }
inline void kv(std::string& o, const char* k, int v) { kv(o, k, (long)v); }
inline void kv(std::string& o, const char* k, size_t v) { kv(o, k, v > 2000000000ul ? 2000000000l : (long)v); }
inline void kv(std::string& o, const char* k, bool v) { key(o, k); o += v ? "true" : "false"; }
inline void kv(std::string& o, const char* k, const std::string& v) { key(o, k); o += "\"" + v + "\""; }
inline void kv(std::string& o, const char* k, const char* v) { kv(o, k, std::string(v)); }
inline void kn(std::string& o, const char* k, double v) { key(o, k); num(o, v); }
template <class V> void kns(std::string& o, const char* k, const V& v) { key(o, k); nums(o, v); }
template <class V> void kp3(std::string& o, const char* k, const V& v) { key(o, k); pts3(o, v); }
inline void kr(std::string& o, const char* k, const std::string& raw) { key(o, k); o += raw; }

inline void save(const std::string& f, const std::string& s) {
  std::ofstream os(f, std::ios::binary); os << s; os.close();
  if(!os) { fprintf(stderr, "cannot write %s\n", f.c_str()); exit(3); }
}
// FNV-1a over the bytes of doubles: bit-exact comparison of large containers
struct Hash {
  uint64_t h = 1469598103934665603ull;
  void add(const void* p, size_t n) { auto b = (const unsigned char*)p; for(size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } }
  void add(double x) { add(&x, sizeof x); }
  template <class X, size_t N> void add(const std::array<X, N>& a) { for(auto x : a) add((double)x); }
  std::string str() const { char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }
};
template <class P, class W> std::string hash(const P& p, const W& w) {
  Hash h; for(auto& x : p) h.add(x); for(auto& x : w) h.add(x); return h.str();
}
} // namespace vf
