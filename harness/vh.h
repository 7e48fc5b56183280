// Helpers of the conformance drivers: trace records as ndjson, seeded choices.
#ifndef VERIF_VH_H
#define VERIF_VH_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace vh {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int64_t in(int64_t a, int64_t b) {  // inclusive
    return a + static_cast<int64_t>(next() % static_cast<uint64_t>(b - a + 1));
  }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T>
  const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

inline std::string esc(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}

struct J {  // a JSON value as text
  std::string t;
  J() : t("null") {}
  J(bool b) : t(b ? "true" : "false") {}
  J(int v) : t(std::to_string(v)) {}
  J(unsigned v) : t(std::to_string(v)) {}
  J(long v) : t(std::to_string(v)) {}
  J(unsigned long v) : t(std::to_string(v)) {}
  J(long long v) : t(std::to_string(v)) {}
  J(const char *s) : t(esc(s)) {}
  J(const std::string &s) : t(esc(s)) {}
  template <class T>
  J(const std::vector<T> &v) {
    t = "[";
    for (size_t i = 0; i < v.size(); i++) t += (i ? "," : "") + J(v[i]).t;
    t += "]";
  }
  template <class T, size_t N>
  J(const std::array<T, N> &v) {
    t = "[";
    for (size_t i = 0; i < N; i++) t += (i ? "," : "") + J(v[i]).t;
    t += "]";
  }
  static J raw(const std::string &s) { J j; j.t = s; return j; }
};

struct Rec {  // one record
  std::string t = "{";
  Rec &operator()(const std::string &k, const J &v) {
    t += (t.size() > 1 ? "," : "") + esc(k) + ":" + v.t;
    return *this;
  }
  J j() const { return J::raw(t + "}"); }
};

struct Log {
  FILE *f;
  explicit Log(const std::string &path) : f(std::fopen(path.c_str(), "w")) {
    if (!f) { std::perror(path.c_str()); std::exit(3); }
  }
  ~Log() { std::fclose(f); }
  void operator()(const Rec &r) {
    std::fputs((r.t + "}\n").c_str(), f);
    std::fflush(f);
  }
};

// Fixed-point number of a double; saturates so that TLC's 32-bit integers never wrap.
inline int64_t fix(double x, double unit) {
  if (std::isnan(x)) return 2147000000;
  double y = std::nearbyint(x / unit);
  if (y > 2e9) return 2000000000;
  if (y < -2e9) return -2000000000;
  return static_cast<int64_t>(y);
}
// A wide integer as [high, low] with low in 0..2^30-1, exact for |v| < 2^60.
inline J wide(int64_t v) {
  int64_t lo = v & ((1ll << 30) - 1), hi = (v - lo) / (1ll << 30);
  return J::raw("[" + std::to_string(hi) + "," + std::to_string(lo) + "]");
}
// A number of BigInt.tla: sign and limbs of base 10000, in multiples of a unit.
inline J big(double x, double unit = 1e-9) {
  const long double y = std::nearbyint(static_cast<long double>(x) / unit);
  if (!(std::fabs(y) < 1e30L)) return J::raw("[1,9999,9999,9999,9999,9999,9999,9999,9999]");
  __int128 v = static_cast<__int128>(y);
  if (v == 0) return J::raw("[0]");
  std::string s = v < 0 ? "[-1" : "[1";
  if (v < 0) v = -v;
  while (v) {
    s += "," + std::to_string(static_cast<int>(v % 10000));
    v /= 10000;
  }
  return J::raw(s + "]");
}
template <class F>
std::string outcome(F f) {  // "ok", or "exception"
  try { f(); return "ok"; } catch (const std::exception &) { return "exception"; }
}
}  // namespace vh
#endif
