// Random and enumerated runs of the packed and unpacked secure-aggregation vectors against a bit-by-bit oracle.
#include "fcp/secagg/shared/secagg_vector.h"
#include <memory>
#include <map>
#include <vector>
#include "harness.h"
using namespace fcp::secagg;
using namespace vh;
namespace {
std::string Pack(const std::vector<uint64_t>& v, int w) {
  std::string s((v.size() * w + 7) / 8, '\0');
  for (size_t i = 0; i < v.size(); ++i)
    for (int b = 0; b < w; ++b)
      if (v[i] >> b & 1) { size_t p = i * w + b; s[p / 8] = static_cast<char>(static_cast<unsigned char>(s[p / 8]) | 1u << (p % 8)); }
  return s;
}
int Width(uint64_t m) { int w = 0; for (uint64_t x = m - 1; x; x >>= 1) ++w; return w; }
std::string Show(const std::vector<uint64_t>& v) { std::string s; for (size_t i = 0; i < v.size() && i < 12; ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + (v.size() > 12 ? ",..." : ""); }
void One(uint64_t m, const std::vector<uint64_t>& v) {
  ++Cases();
  const int w = Width(m); const std::string want = Pack(v, w);
  const std::string ctx = S("modulus=", m, " n=", v.size(), " values=", Show(v));
  for (bool branchless : {false, true}) {
    SecAggVector x(v, m, branchless);
    CHECKP("packed", x.GetAsPackedBytes() == want, "packed form differs: branchless=", branchless, " ", ctx, " got ", Hex(x.GetAsPackedBytes()), " want ", Hex(want));
    CHECKP("meta", x.modulus() == m && x.num_elements() == v.size() && x.bit_width() == static_cast<size_t>(w), "modulus, width or size wrong: ", ctx);
    CHECKP("unpack", x.GetAsUint64Vector() == v, "numbers read back differ: branchless=", branchless, " ", ctx, " got ", Show(x.GetAsUint64Vector()));
    SecAggVector y(want, m, v.size(), branchless);
    CHECKP("frompacked", y.GetAsUint64Vector() == v && y.modulus() == m && y.num_elements() == v.size(), "numbers read from packed bytes differ: branchless=", branchless, " ", ctx);
    SecAggVector::Decoder d(y); bool ok = true; for (uint64_t e : v) ok &= d.ReadValue() == e;
    CHECKP("decoder", ok, "decoder values differ: ", ctx);
    SecAggVector::Decoder d2(want, m); ok = true; for (uint64_t e : v) ok &= d2.ReadValue() == e;
    CHECKP("decoder", ok, "decoder (bytes) values differ: ", ctx);
    SecAggUnpackedVector u(x);
    CHECKP("unpacked", std::vector<uint64_t>(u.begin(), u.end()) == v && u.modulus() == m && u.num_elements() == v.size(), "unpacked vector differs: ", ctx);
    SecAggVector z(std::move(x));
    CHECKP("move", z.GetAsPackedBytes() == want && z.modulus() == m && z.num_elements() == v.size() && z.GetAsUint64Vector() == v, "moved vector differs: ", ctx);
    CHECKP("moved-from", Dies([&] { (void)x.GetAsPackedBytes(); }) && Dies([&] { (void)x.GetAsUint64Vector(); }), "a moved-from vector can still be read: ", ctx);
    y = std::move(z);
    CHECKP("move", y.GetAsUint64Vector() == v && y.modulus() == m && y.bit_width() == static_cast<size_t>(w), "move-assigned vector differs: ", ctx);
    CHECKP("take", std::move(y).TakePackedBytes() == want, "taken bytes differ: ", ctx);
    CHECKP("taken", Dies([&] { (void)y.GetAsPackedBytes(); }), "bytes can be read after being taken: ", ctx);
  }
  SecAggVector::Coder c(m, w, v.size()); for (uint64_t e : v) c.WriteValue(e);
  SecAggVector cv = std::move(c).Create();
  CHECKP("coder", cv.GetAsPackedBytes() == want && cv.num_elements() == v.size() && cv.modulus() == m, "coder output differs: ", ctx, " got ", Hex(cv.GetAsPackedBytes()), " want ", Hex(want));
}
std::vector<uint64_t> Values(uint64_t m, size_t n) {
  std::vector<uint64_t> v(n); int mode = R(5);
  for (auto& e : v) switch (mode) { case 0: e = m - 1; break; case 1: e = R64() % m; break; case 2: e = Corner64() % m; break; case 3: e = R(2) ? m - 1 - R(std::min<uint64_t>(m, 3)) : R(std::min<uint64_t>(m, 3)); break; default: e = R(3) ? R64() % m : 0; }
  return v;
}
uint64_t Modulus() {
  const int b = 1 + R(62); uint64_t m;
  switch (R(4)) { case 0: m = 1ull << b; break; case 1: m = (1ull << b) - 1; break; case 2: m = (1ull << (b - 1)) + 1; break; default: m = (1ull << (b - 1)) + R64() % (1ull << (b - 1)); }
  return m < 2 ? 2 : m;
}
void Adding() {
  ++Cases();
  const uint64_t m = Modulus(); const size_t n = R(9); auto a = Values(m, n), b = Values(m, n);
  std::vector<uint64_t> sum(n); for (size_t i = 0; i < n; ++i) sum[i] = static_cast<uint64_t>((static_cast<unsigned __int128>(a[i]) + b[i]) % m);
  const std::string ctx = S("modulus=", m, " a=", Show(a), " b=", Show(b));
  auto vec = [](const SecAggUnpackedVector& u) { return std::vector<uint64_t>(u.begin(), u.end()); };
  SecAggUnpackedVector u(a, m); u.Add(SecAggVector(b, m, R(2)));
  CHECKP("add", vec(u) == sum && u.modulus() == m, "adding a packed vector: ", ctx, " got ", Show(vec(u)));
  SecAggUnpackedVector v(a, m), o(b, m); v.Add(o);
  CHECKP("add", vec(v) == sum && v.modulus() == m && vec(o) == b, "adding an unpacked vector: ", ctx, " got ", Show(vec(v)));
  SecAggUnpackedVector w(std::move(v)); CHECKP("umove", vec(w) == sum && w.modulus() == m, "moving an unpacked vector: ", ctx);
  // maps
  const size_t k = R(4); SecAggUnpackedVectorMap ma, mb; SecAggVectorMap pb; std::map<std::string, std::vector<uint64_t>> want; std::map<std::string, uint64_t> mods;
  for (size_t i = 0; i < k; ++i) {
    std::string name = S("v", i); const uint64_t mm = Modulus(); const size_t nn = R(6); auto x = Values(mm, nn), y = Values(mm, nn); std::vector<uint64_t> t(nn);
    for (size_t j = 0; j < nn; ++j) t[j] = static_cast<uint64_t>((static_cast<unsigned __int128>(x[j]) + y[j]) % mm);
    ma.emplace(name, SecAggUnpackedVector(x, mm)); mb.emplace(name, SecAggUnpackedVector(y, mm)); pb.emplace(name, SecAggVector(y, mm)); want[name] = t; mods[name] = mm;
  }
  auto same = [&](const SecAggUnpackedVectorMap& g) {
    if (g.size() != want.size()) return false;
    for (auto& [nm, t] : want) { auto it = g.find(nm); if (it == g.end() || vec(it->second) != t || it->second.modulus() != mods[nm]) return false; }
    return true;
  };
  auto r = SecAggUnpackedVectorMap::AddMaps(ma, mb);
  CHECKP("addmaps", same(*r), "sum of two maps of vectors is wrong: ", ctx);
  SecAggUnpackedVectorMap un(pb); un.Add(ma); CHECKP("mapadd", same(un), "adding an unpacked map is wrong");
  ma.Add(pb); CHECKP("mapadd", same(ma), "adding a packed map is wrong");
}
void Refusals() {
  ++Cases();
  const uint64_t m = Modulus(); const int w = Width(m); const size_t n = 1 + R(6); auto v = Values(m, n);
  for (bool br : {false, true}) {
    auto bad = v; bad[R(n)] = m + R(2) * R(5);
    CHECKP("range", Dies([&] { SecAggVector x(bad, m, br); }), "a value outside the modulus was accepted: ", Show(bad), " modulus=", m);
    for (uint64_t bm : {uint64_t{0}, uint64_t{1}, SecAggVector::kMaxModulus + 1, SecAggVector::kMaxModulus + 1 + R64() / 4}) {
      std::vector<uint64_t> z(n, 0);
      CHECKP("modulus", Dies([&] { SecAggVector x(z, bm, br); }), "modulus ", bm, " was accepted");
    }
    const std::string p = Pack(v, w);
    CHECKP("size", Dies([&] { SecAggVector x(p + std::string(1 + R(3), 0), m, n, br); }) && Dies([&] { SecAggVector x(p.substr(0, p.size() - 1), m, n, br); }), "packed bytes of the wrong length were accepted");
    CHECKP("modulus", Dies([&] { SecAggVector x(p, 1, n, br); }) && Dies([&] { SecAggVector x(std::string((n * 63 + 7) / 8, 0), SecAggVector::kMaxModulus + 1, n, br); }), "packed bytes with an invalid modulus were accepted");
  }
  SecAggUnpackedVector u(v, m); auto shorter = v; shorter.pop_back();
  CHECKP("mismatch", Dies([&] { u.Add(SecAggVector(shorter, m)); }) && Dies([&] { u.Add(SecAggUnpackedVector(shorter, m)); }), "vectors of different lengths were added");
  if (m > 2) { std::vector<uint64_t> z(n, 0); CHECKP("mismatch", Dies([&] { u.Add(SecAggVector(z, m - 1)); }) && Dies([&] { u.Add(SecAggUnpackedVector(z, m - 1)); }), "vectors of different moduli were added"); }
}
}  // namespace
int main(int argc, char** argv) {
  Init(argc, argv);
  try {
    for (int b = 1; b <= 62; ++b)
      for (size_t n : {0, 1, 2, 3, 5, 8, 9, 17, 33}) for (uint64_t m : {1ull << b, (1ull << b) - (b > 1), (1ull << (b - 1)) + 1}) { if (m < 2) continue; One(m, std::vector<uint64_t>(n, m - 1)); One(m, Values(m, n)); }
    while (TimeLeft()) { const uint64_t m = Modulus(); One(m, Values(m, R(20) ? R(12) : R(300))); Adding(); Refusals(); }
  } catch (const verif_log::FatalError& e) { Fail("abort", e.message); }
  return Done();
}
