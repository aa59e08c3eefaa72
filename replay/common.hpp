// Replay harnesses: the real code of /repo, built with the address and undefined-behaviour
// sanitizers, run on directed and pseudo-random inputs and compared with the property.
// A failing input is printed and ends the run with exit status 1.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <any>
#include <Eigen/Core>
#include <Eigen/Eigen>
#include <Eigen/Dense>
#ifdef WITH_CERES
#include <ceres/ceres.h>
#endif
#define private public
#define protected public

namespace rp
{
inline uint64_t seed()
{
  const char * s = getenv("VERIF_SEED");
  return s ? strtoull(s, nullptr, 10) : 1;
}
inline bool thorough() { const char * t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t k = 0) : s(seed() * 0x9E3779B97F4A7C15ull + k * 0xD1B54A32D192ED03ull + 1) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  int i(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }
  bool b(double p = 0.5) { return u() < p; }
  template <class T> const T & pick(const std::vector<T> & v) { return v[next() % v.size()]; }
  double angle() { switch (i(0, 5)) { case 0: return 0; case 1: return M_PI / 2 * i(-4, 4); case 2: return u(-20, 20); default: return u(-M_PI, M_PI); } }
  // coordinates of every size, often round numbers
  double coord(double m = 10) { switch (i(0, 6)) { case 0: return i(-int(m), int(m)); case 1: return i(-int(4 * m), int(4 * m)) * 0.25; case 2: return u(-0.01, 0.01); default: return u(-m, m); } }
};
inline long cases = 0;
inline std::string & context() { static thread_local std::string s; return s; }
inline std::string fmt(const char * f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
[[noreturn]] inline void fail(const std::string & what)
{
  printf("FAIL %s\ninput: %s\n", what.c_str(), context().c_str());
  fflush(stdout);
  _Exit(1);
}
inline void check(bool ok, const std::string & what) { if (!ok) fail(what); }
inline bool close(double a, double b, double tol) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol; }
inline void near(double a, double b, double tol, const std::string & what) { if (!close(a, b, tol)) fail(what + fmt(": got %.17g, expected %.17g (tolerance %g)", a, b, tol)); }
template <class F> void repeat(const char * name, int quick, F f)
{
  const int n = thorough() ? quick * 20 : quick;
  const auto t0 = std::chrono::steady_clock::now();
  const double lim = thorough() ? 120 : 25;
  int k = 0;
  for (; k < n; ++k)
  {
    Rng r(k * 131 + std::hash<std::string>()(name) % 1000003);
    context() = fmt("%s, case %d, VERIF_SEED=%llu", name, k, (unsigned long long)seed());
    f(r);
    ++cases;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > lim) break;
  }
}
inline void add(const std::string & s) { context() += "; " + s; }
inline double norm_angle(double a) { a = std::remainder(a, 2 * M_PI); return a; }
inline double adiff(double a, double b) { return std::fabs(norm_angle(a - b)); }
}
using rp::Rng; using rp::fmt; using rp::check; using rp::near; using rp::fail; using rp::add;
#define DONE() do { printf("OK cases=%ld\n", rp::cases); return 0; } while (0)
