// Shared by the concrete harnesses: report lines, deterministic random numbers, time budget.
#ifndef VERIF_HARNESS_H_
#define VERIF_HARNESS_H_
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include "absl/log/absl_log.h"

namespace vh {
inline std::mt19937_64& Rng() { static std::mt19937_64 r; return r; }
inline double& Budget() { static double b = 10; return b; }
inline std::chrono::steady_clock::time_point& T0() { static auto t = std::chrono::steady_clock::now(); return t; }
inline double Elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0()).count(); }
inline bool TimeLeft(double fraction = 1.0) { return Elapsed() < Budget() * fraction; }
inline int& Fails() { static int f = 0; return f; }
inline long& Cases() { static long c = 0; return c; }
inline std::set<std::string>& Seen() { static std::set<std::string> s; return s; }
inline std::string Hex(const std::string& s) {
  std::string o = "x"; char b[3];
  for (unsigned char c : s) { std::snprintf(b, 3, "%02x", c); o += b; }
  return o;
}
// One report per key; the key identifies the kind of failure.
inline void Fail(const std::string& key, const std::string& desc) {
  ++Fails();
  if (!Seen().insert(key).second) return;
  std::string d; for (char c : desc) d += (c == '\n' ? ' ' : c);
  std::printf("FAIL %s %s\n", key.c_str(), d.c_str()); std::fflush(stdout);
}
inline void Case(const std::string& desc) { std::printf("CASE %s\n", desc.c_str()); std::fflush(stdout); }
inline uint64_t R(uint64_t n) { return n ? Rng()() % n : 0; }
inline uint64_t R64() { return Rng()(); }
// Values biased towards corners.
inline uint64_t Corner64() {
  switch (R(6)) {
    case 0: return R(4);
    case 1: return ~uint64_t{0} - R(4);
    case 2: return (uint64_t{1} << R(64)) + R(3) - 1;
    case 3: return R64() >> R(64);
    default: return R64();
  }
}
inline std::string RandBytes(size_t n) { std::string s(n, 0); for (auto& c : s) c = static_cast<char>(R64()); return s; }
inline void Init(int argc, char** argv) {
  Rng().seed(argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1);
  Budget() = argc > 2 ? std::atof(argv[2]) : 10;
  T0();
}
inline int Done() { std::printf("STAT cases %ld\n", Cases()); return Fails() ? 1 : 0; }
// Runs f, returns true if it hit a fatal check.
template <typename F> bool Dies(F f) {
  try { f(); return false; } catch (const verif_log::FatalError&) { return true; }
}
}  // namespace vh
template <typename... A> std::string S(const A&... a) { std::ostringstream o; ((o << a << ' '), ...); return o.str(); }
#define CHECKP(key, cond, ...) do { ++vh::Cases(); if (!(cond)) vh::Fail(key, S(#cond, __VA_ARGS__)); } while (0)
#endif
