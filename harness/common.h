// Native replay harness support: real river code, random + solver-model inputs,
// independent oracle written in long double.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <fstream>
#include <chrono>
#include <functional>
#include <algorithm>
#include <limits>
#include <sstream>
#include <csignal>
#include <unistd.h>

namespace H {
typedef long double ld;
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  uint64_t u() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; }
  double f() { return (u() >> 11) * (1.0 / 9007199254740992.0); }
  double f(double a, double b) { return a + (b - a) * f(); }
  int i(int n) { return (int)(u() % (uint64_t)n); }
  bool b() { return u() & (1ull << 40); }
};
typedef std::map<std::string, double> Model;
inline double get(const Model& m, const std::string& k, double d = 0) {
  auto it = m.find(k);
  if (it == m.end()) it = m.find("|" + k + "|");
  return it == m.end() ? d : it->second;
}
inline bool has(const Model& m, const std::string& k) { return m.count(k) || m.count("|" + k + "|"); }
inline std::vector<Model> models(const char* file) {
  std::vector<Model> r;
  std::ifstream f(file);
  std::string ln;
  while (std::getline(f, ln)) {
    if (ln == "model") { r.push_back(Model()); continue; }
    auto p = ln.rfind(' ');
    if (p == std::string::npos || r.empty()) continue;
    r.back()[ln.substr(0, p)] = atof(ln.c_str() + p + 1);
  }
  return r;
}
inline void fail(const std::string& what) {
  printf("FAIL: %s\n", what.c_str());
  fflush(stdout);
  exit(1);
}
inline std::string str(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
// coordinates of several flavours: small integers, unit range, big, clustered
struct Gen {
  Rng& r; int mode;
  explicit Gen(Rng& r) : r(r), mode(r.i(6)) {}
  double c() {
    switch (mode) {
    case 0: return r.i(5) - 2;
    case 1: return r.i(21) - 10;
    case 2: return r.f(-1, 1);
    case 3: return r.f(-100, 100);
    case 4: return (r.i(81) - 40) * 0.25;
    default: return r.i(3) ? r.f(-10, 10) : r.i(7) - 3;
    }
  }
};
struct Timer {
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  double s; explicit Timer(double sec) : s(sec) {}
  bool more() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < s; }
};
inline void hung(int) { static const char m[] = "FAIL: no answer within 60 s on one input\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
inline int drive(int argc, char** argv, std::function<void(const Model&)> onmodel, std::function<void(Rng&)> one) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  double sec = argc > 2 ? atof(argv[2]) : 5;
  if (argc > 3 && onmodel) for (auto& m : models(argv[3])) onmodel(m);
  Timer t(sec);
  long n = 0;
  Rng r(seed + 77);
  signal(SIGALRM, hung);
  while (t.more()) { for (int k = 0; k < 64; ++k, ++n) { if (k % 8 == 0) alarm(60); one(r); } }
  alarm(0);
  printf("OK: %ld random cases passed\n", n);
  return 0;
}
}
