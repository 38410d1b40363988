// Masks of random key sets: range, dependence on the inputs, additivity and cancellation; sums of vectors and maps.
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/map_of_masks.h"
#include "fcp/secagg/shared/secagg_vector.h"
#include "harness.h"
using namespace fcp::secagg;
typedef std::vector<uint64_t> Vec;
typedef std::map<std::string, Vec> Map;
static AesCtrPrngFactory factory;
static AesKey RandKey() { std::string s = vh::RandBytes(32); return AesKey(reinterpret_cast<const uint8_t*>(s.data())); }
static uint64_t Modulus() {
  int b = 1 + vh::R(62);
  switch (vh::R(5)) {
    case 0: return 1ull << b;
    case 1: return std::max<uint64_t>(2, (1ull << b) - 1);
    case 2: return b < 62 ? (1ull << b) + 1 : 1ull << 62;
    case 3: return 2 + vh::R(300);
    default: return 2 + vh::R64() % ((1ull << b) + 1) % ((1ull << 62) - 1);
  }
}
static Map Run(int how, const std::vector<AesKey>& add, const std::vector<AesKey>& sub, const std::vector<InputVectorSpecification>& specs, const SessionId& s) {
  Map r;
  if (how == 2) {
    auto m = UnpackedMapOfMasks(add, sub, specs, s, factory);
    for (auto& e : *m) { CHECKP("modulus", true, ""); r[e.first] = Vec(e.second.begin(), e.second.end()); }
    return r;
  }
  auto m = how ? MapOfMasksV3(add, sub, specs, s, factory) : MapOfMasks(add, sub, specs, s, factory);
  for (auto& e : *m) r[e.first] = e.second.GetAsUint64Vector();
  return r;
}
static uint64_t Add(uint64_t a, uint64_t b, uint64_t m) { return static_cast<uint64_t>((static_cast<unsigned __int128>(a) + b) % m); }
static std::string Show(const std::vector<InputVectorSpecification>& specs) {
  std::string r;
  for (auto& s : specs) r += S(s.name(), "length", s.length(), "modulus", s.modulus(), ";");
  return r;
}
static void Masks(bool big) {
  std::vector<InputVectorSpecification> specs;
  int ns = 1 + vh::R(3);
  for (int i = 0; i < ns; ++i) {
    uint64_t m = Modulus();
    specs.emplace_back(S("v", i), big ? 2500 + vh::R(4000) : vh::R(6) == 0 ? vh::R(3) : vh::R(90), m);
  }
  SessionId sid{vh::RandBytes(vh::R(3) ? 32 : vh::R(40))};
  std::vector<AesKey> A, B;
  for (int i = vh::R(4); i > 0; --i) A.push_back(RandKey());
  for (int i = vh::R(4); i > 0; --i) B.push_back(RandKey());
  std::string what = S("masks of", A.size(), "keys to add,", B.size(), "to subtract, for", Show(specs));
  vh::Case(what);
  Map all = Run(0, A, B, specs, sid), sum;
  CHECKP("names", all.size() == specs.size(), what);
  for (auto& s : specs) sum[s.name()] = Vec(s.length(), 0);
  auto single = [&](int how, const AesKey& k, bool subtract) { return subtract ? Run(how, {}, {k}, specs, sid) : Run(how, {k}, {}, specs, sid); };
  for (int side = 0; side < 2; ++side)
    for (const AesKey& k : side ? B : A) {
      Map p = single(vh::R(3), k, false), q = single(vh::R(3), k, true);
      for (auto& s : specs) {
        CHECKP("length", static_cast<int>(p[s.name()].size()) == s.length() && static_cast<int>(q[s.name()].size()) == s.length(), what);
        for (int i = 0; i < s.length(); ++i) {
          uint64_t x = p[s.name()][i], y = q[s.name()][i], m = s.modulus();
          CHECKP("range", x < m && y < m, what, "element", i, "of", s.name(), "is", x, "and", y);
          CHECKP("cancel", Add(x, y, m) == 0, what, "element", i, "of", s.name(), ": one side adds", x, ", the other's subtraction leaves", y);
          sum[s.name()][i] = Add(sum[s.name()][i], side ? y : x, m);
        }
      }
    }
  for (auto& s : specs)
    for (int i = 0; i < s.length(); ++i) {
      CHECKP("range", all[s.name()][i] < s.modulus(), what, "element", i, "of", s.name(), "is", all[s.name()][i]);
      CHECKP("sum", all[s.name()][i] == sum[s.name()][i], what, "element", i, "of", s.name(), "is", all[s.name()][i], "; the keys' contributions add up to", sum[s.name()][i]);
    }
  for (int how = 0; how < 3; ++how) CHECKP("variants", Run(how, A, B, specs, sid) == all, what, "variant", how, "differs");
  // the order of keys and the other vectors do not matter
  std::reverse(A.begin(), A.end()); std::reverse(B.begin(), B.end());
  CHECKP("order", Run(vh::R(3), A, B, specs, sid) == all, what, "depends on the order of the keys");
  int pick = vh::R(ns);
  Map alone = Run(vh::R(3), A, B, {specs[pick]}, sid);
  CHECKP("alone", alone[specs[pick].name()] == all[specs[pick].name()], what, "depends on the other vectors");
  // and every input does
  auto& s = specs[pick];
  if (A.size() + B.size() > 0 && s.length() * std::min(20.0, std::log2(static_cast<double>(s.modulus()))) > 60) {
    const Vec& v = all[s.name()];
    if (!sid.data.empty()) {
      SessionId other = sid; other.data[vh::R(static_cast<int>(sid.data.size()))] ^= 1 << vh::R(8);
      CHECKP("session", Run(0, A, B, {s}, other)[s.name()] != v, what, "does not depend on all of the session");
    }
    std::string nm = s.name() + "x";
    CHECKP("name", Run(0, A, B, {InputVectorSpecification(nm, s.length(), s.modulus())}, sid)[nm] != v, what, "does not depend on the name");
    std::vector<AesKey> A2 = A, B2 = B;
    auto& side = A2.empty() || (!B2.empty() && vh::R(2)) ? B2 : A2;
    AesKey& k = side[vh::R(static_cast<int>(side.size()))];
    std::string kb = k.AsString(); kb[vh::R(32)] ^= 1 << vh::R(8);
    k = AesKey(reinterpret_cast<const uint8_t*>(kb.data()));
    CHECKP("key", Run(0, A2, B2, {s}, sid)[s.name()] != v, what, "does not depend on all of a key");
    bool zero = std::all_of(v.begin(), v.end(), [](uint64_t x) { return x == 0; });
    bool same = A.size() == B.size() && A.size() == 1 && A[0] == B[0];
    CHECKP("zero", same || !zero, what, "masks nothing");
    // no repetition further on in a long vector
    if (big && s.modulus() > (1u << 20))
      for (int lag : {96, 192, 256, 384, 480, 512, 768, 840, 960, 1024, 1536, 1920, 2048})
        if (lag + 40 < s.length()) {
          bool rep = true;
          for (int i = 0; i < 30 && rep; ++i) rep = v[s.length() - 1 - i] == v[s.length() - 1 - i - lag];
          CHECKP("repeat", !rep, what, "repeats itself every", lag, "elements");
        }
  }
}
static void Sums() {
  SecAggVectorMap a, b;
  std::map<std::string, Vec> want;
  int n = vh::R(4);
  std::string what = "AddMaps:";
  for (int i = 0; i < n; ++i) {
    uint64_t m = Modulus();
    Vec x(vh::R(60)), y(x.size()), z(x.size());
    for (size_t k = 0; k < x.size(); ++k) { x[k] = vh::R(6) ? vh::R64() % m : m - 1; y[k] = vh::R(6) ? vh::R64() % m : vh::R(2) ? m - 1 : m - x[k] - (x[k] == 0); z[k] = Add(x[k], y[k], m); }
    bool br = vh::R(2);
    std::string nm = S("n", i);
    a.emplace(nm, SecAggVector(x, m, br)); b.emplace(nm, SecAggVector(y, m, vh::R(2)));
    want[nm] = z; what += S("modulus", m, "length", x.size());
  }
  b.emplace("unrelated", SecAggVector(Vec{1}, 2));
  vh::Case(what);
  auto r = AddMaps(a, b);
  CHECKP("addmaps", r->size() == want.size(), what, "has", r->size(), "names");
  for (auto& e : want) {
    auto it = r->find(e.first);
    CHECKP("addmaps", it != r->end(), what, "lacks", e.first);
    CHECKP("addmaps", it->second.modulus() == a.at(e.first).modulus() && it->second.num_elements() == e.second.size(), what, e.first);
    Vec got = it->second.GetAsUint64Vector();
    for (size_t k = 0; k < got.size(); ++k) CHECKP("addvectors", got[k] == e.second[k], what, "element", k, "is", got[k], "instead of", e.second[k]);
  }
  Vec x(3, 0);
  CHECKP("mismatch", vh::Dies([&] { AddVectors(SecAggVector(x, 8), SecAggVector(x, 16)); }), "vectors with different moduli were added");
  CHECKP("mismatch", vh::Dies([&] { AddVectors(SecAggVector(x, 8), SecAggVector(Vec(4, 0), 8)); }), "vectors of different lengths were added");
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    for (int i = 0; vh::TimeLeft(); ++i) { if (i % 3 == 2) Sums(); else Masks(i % 12 == 1); }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
