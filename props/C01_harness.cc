#include "harness.h"
#include "fcp/secagg/shared/math.h"
using namespace fcp::secagg;
typedef unsigned __int128 u128;
static bool Prime(uint64_t n) {
  if (n < 2) return false;
  for (uint64_t p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) if (n % p == 0) return n == p;
  auto mm = [&](uint64_t a, uint64_t b) { return (uint64_t)((u128)a * b % n); };
  uint64_t d = n - 1; int s = 0; while (d % 2 == 0) { d /= 2; ++s; }
  for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    uint64_t x = 1, b = a % n, e = d; for (; e; e >>= 1) { if (e & 1) x = mm(x, b); b = mm(b, b); }
    if (x == 1 || x == n - 1) continue;
    bool ok = false; for (int i = 1; i < s && !ok; ++i) { x = mm(x, x); ok = x == n - 1; }
    if (!ok) return false;
  }
  return true;
}
static void One(uint64_t a, uint64_t b, uint64_t z) {
  a %= z; b %= z;
  CHECKP("add", AddMod(a, b, z) == (uint64_t)(((u128)a + b) % z), a, b, z);
  CHECKP("add-opt", AddModOpt(a, b, z) == (uint64_t)(((u128)a + b) % z), a, b, z);
  CHECKP("sub", SubtractMod(a, b, z) == (uint64_t)(((u128)a + z - b) % z), a, b, z);
  CHECKP("sub-opt", SubtractModOpt(a, b, z) == (uint64_t)(((u128)a + z - b) % z), a, b, z);
  CHECKP("mul64", MultiplyMod64(a, b, z) == (uint64_t)((u128)a * b % z), a, b, z);
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    for (uint64_t z = 1; z <= 40; ++z) for (uint64_t a = 0; a < z; ++a) for (uint64_t b = 0; b < z; ++b) One(a, b, z);
    for (uint64_t z = 2; z < 3000; ++z) if (Prime(z)) for (uint64_t a = 1; a < z; a += 1 + vh::R(z / 20 + 1)) CHECKP("inverse", (u128)a * InverseModPrime(a, z) % z == 1, a, z);
    while (vh::TimeLeft()) {
      for (int k = 0; k < 200; ++k) {
        uint64_t z = vh::Corner64() % (1ull << 62) + 1; if (vh::R(4) == 0) z = (1ull << 62) - vh::R(3);
        uint64_t a = vh::Corner64(), b = vh::Corner64(); if (vh::R(3) == 0) a = z - 1 - vh::R(2) % z; if (vh::R(3) == 0) b = z - 1 - vh::R(2) % z;
        One(a, b, z);
        uint32_t x = vh::Corner64(), y = vh::Corner64(); uint64_t w = vh::R(2) ? vh::Corner64() % (1ull << 32) + 1 : 2147483659ull;
        CHECKP("mul32", MultiplyMod(x, y, w) == (uint32_t)((u128)x * y % w), x, y, w);
        uint64_t zz = vh::Corner64() | 1; if (!zz) zz = 1;
        CHECKP("mul64-wide", MultiplyMod64(a, b, zz) == (uint64_t)((u128)a * b % zz), a, b, zz);
        uint32_t p = vh::Corner64() >> 2, q = (uint32_t)(vh::Corner64() >> 2); if (!q) q = 1; if (vh::R(2)) q = 1 + q % 64;
        if ((uint64_t)p + q - 1 < (1ull << 32)) CHECKP("round-up", DivideRoundUp(p, q) == (uint32_t)(((uint64_t)p + q - 1) / q), p, q);
        std::string s = IntToByteString(x);
        CHECKP("bytes", s.size() == 4 && (uint8_t)s[0] == (x >> 24) && (uint8_t)s[1] == ((x >> 16) & 255) && (uint8_t)s[2] == ((x >> 8) & 255) && (uint8_t)s[3] == (x & 255), x);
      }
      uint64_t pr = (vh::Corner64() >> 2) | 1; while (!Prime(pr)) pr = (pr + 2) % (1ull << 62);
      uint64_t a = 1 + vh::R64() % (pr - 1); if (pr == 2) a = 1;
      CHECKP("inverse", (u128)a * InverseModPrime(a, pr) % pr == 1, a, pr);
      a = 1 + vh::R64() % 2147483658ull; CHECKP("inverse", (u128)a * InverseModPrime(a, 2147483659ull) % 2147483659ull == 1, a);
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
