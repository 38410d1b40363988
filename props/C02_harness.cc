// Shares of random secrets against arithmetic in the field done here; reconstruction from every kind of share subset.
#include <algorithm>
#include <string>
#include <vector>
#include "fcp/secagg/shared/shamir_secret_sharing.h"
#include "harness.h"
using namespace fcp::secagg;
typedef unsigned __int128 u128;
static const uint64_t P = 2147483659ull;
static uint64_t Mul(uint64_t a, uint64_t b) { return static_cast<uint64_t>(static_cast<u128>(a) * b % P); }
static uint64_t Pow(uint64_t a, uint64_t n) {
  uint64_t r = 1;
  for (; n; n >>= 1, a = Mul(a, a)) if (n & 1) r = Mul(r, a);
  return r;
}
static uint64_t At(const std::vector<uint64_t>& xs, const std::vector<uint64_t>& ys, uint64_t at) {
  uint64_t s = 0;
  for (size_t i = 0; i < xs.size(); ++i) {
    uint64_t n = ys[i], d = 1;
    for (size_t j = 0; j < xs.size(); ++j) if (j != i) { n = Mul(n, (at + P - xs[j]) % P); d = Mul(d, (xs[i] + P - xs[j]) % P); }
    s = (s + Mul(n, Pow(d, P - 2))) % P;
  }
  return s;
}
static uint64_t Word(const std::string& s, size_t k) {
  uint64_t r = 0;
  for (int j = 0; j < 4; ++j) r = r << 8 | static_cast<uint8_t>(s[4 * k + j]);
  return r;
}
// chunk q counted from the end: 31 bits at bit 31q of the number the secret spells
static uint64_t Chunk(const std::string& s, size_t q) {
  uint64_t r = 0;
  for (int b = 0; b < 31; ++b) {
    size_t bit = 31 * q + b;
    if (bit / 8 >= s.size()) break;
    r |= static_cast<uint64_t>(static_cast<uint8_t>(s[s.size() - 1 - bit / 8]) >> (bit % 8) & 1) << b;
  }
  return r;
}
static std::string Secret() {
  size_t n = vh::R(4) == 0 ? 32 : vh::R(5) == 0 ? 31 * (1 + vh::R(3)) : 1 + vh::R(vh::R(4) ? 48 : 260);
  std::string s = vh::RandBytes(n);
  int k = vh::R(8);
  if (k == 0) s.assign(n, '\xff'); else if (k == 1) s.assign(n, '\0'); else if (k == 2) s[0] = 0; else if (k == 3) for (size_t i = 0; i < n / 2; ++i) s[i] = 0;
  return s;
}
static std::vector<int> Subset(int n, int k) {
  std::vector<int> a(n);
  for (int i = 0; i < n; ++i) a[i] = i;
  int kind = vh::R(4);
  if (kind == 0) { std::reverse(a.begin(), a.end()); } else if (kind > 1) for (int i = n - 1; i > 0; --i) std::swap(a[i], a[vh::R(i + 1)]);
  a.resize(k); std::sort(a.begin(), a.end());
  return a;
}
static void Round(ShamirSecretSharing& ss) {
  int n = 2 + vh::R(vh::R(5) == 0 ? 60 : 9), t = 2 + vh::R(n - 1);
  if (vh::R(6) == 0) t = n;
  std::string secret = Secret();
  std::string what = S(t, " of ", n, " sharing of ", vh::Hex(secret));
  std::vector<ShamirShare> sh = ss.Share(t, n, secret);
  CHECKP("count", static_cast<int>(sh.size()) == n, what + S(" gives ", sh.size(), " shares"));
  size_t words = (8 * secret.size() + 30) / 31;
  for (auto& s : sh) CHECKP("size", s.data.size() == 4 * words, what + S(" gives a share of ", s.data.size(), " bytes instead of ", 4 * words));
  // word k of the shares: values of one polynomial of degree below t whose value at zero is the chunk
  bool lower = t > 2 && words >= 3;
  for (size_t k = 0; k < words; ++k) {
    std::vector<uint64_t> xs, ys;
    for (int i = 0; i < t; ++i) { xs.push_back(i + 1); ys.push_back(Word(sh[i].data, k)); CHECKP("field", ys.back() < P, what + S(" share ", i, " has a word outside the field")); }
    uint64_t want = Chunk(secret, words - 1 - k);
    CHECKP("zero", At(xs, ys, 0) == want, what + S(": the polynomial of word ", k, " has value ", At(xs, ys, 0), " at 0, the secret's chunk is ", want));
    for (int i = t; i < n; ++i) CHECKP("degree", At(xs, ys, i + 1) == Word(sh[i].data, k), what + S(": word ", k, " of share ", i, " is not on the polynomial of the first ", t));
    xs.pop_back(); ys.pop_back();
    if (lower) lower = At(xs, ys, 0) == want;
  }
  if (words >= 3) CHECKP("hiding", t == 2 ? sh[0].data != sh[1].data : !lower, what + ": fewer shares than the threshold already give the secret");
  for (int rep = 0; rep < 4; ++rep) {
    int have = rep == 3 ? t : vh::R(n + 1);
    std::vector<int> keep = Subset(n, have);
    std::vector<ShamirShare> got(n);
    std::string pos;
    for (int i : keep) { got[i] = sh[i]; pos += S(" ", i); }
    if (vh::R(3) == 0) while (static_cast<int>(got.size()) > std::max(t, keep.empty() ? 0 : keep.back() + 1)) got.pop_back();
    vh::Case(what + " reconstructed from shares" + pos);
    auto r = ss.Reconstruct(t, got, static_cast<int>(secret.size()));
    if (have >= t) {
      CHECKP("reconstruct", r.ok(), what + ", shares" + pos + " -> " + std::string(r.status().message()));
      CHECKP("reconstruct", r.ok() && *r == secret, what + ", shares" + pos + " -> " + vh::Hex(*r));
      // shares of a shorter secret asked for at a longer length: the same number, with zero bytes in front
      int more = vh::R(9);
      auto w = ss.Reconstruct(t, got, static_cast<int>(secret.size()) + more);
      CHECKP("longer", w.ok() && *w == std::string(more, '\0') + secret, what + S(", shares", pos, " at length + ", more, " -> ", w.ok() ? vh::Hex(*w) : "error"));
    } else {
      CHECKP("too-few", !r.ok() && r.status().code() == absl::StatusCode::kFailedPrecondition, what + ", only shares" + pos + " -> " + (r.ok() ? vh::Hex(*r) : std::string(r.status().message())));
    }
  }
  // a share of another length among those used is refused
  std::vector<ShamirShare> bad = sh;
  int at = vh::R(t), cut = 1 + vh::R(static_cast<int>(std::min<size_t>(7, bad[at].data.size() - 1)));
  bad[at].data.resize(bad[at].data.size() - cut);
  vh::Case(what + S(" with share ", at, " cut by ", cut));
  bool refused = vh::Dies([&] { auto r = ss.Reconstruct(t, bad, static_cast<int>(secret.size())); if (!r.ok()) throw verif_log::FatalError{"refused"}; });
  CHECKP("inconsistent", refused, what + S(": share ", at, " cut by ", cut, " bytes was accepted"));
  for (auto& s : bad) s.data = sh[0].data + std::string(4, 'x');
  refused = vh::Dies([&] { auto r = ss.Reconstruct(t, bad, static_cast<int>(secret.size())); if (!r.ok()) throw verif_log::FatalError{"refused"}; });
  CHECKP("too-long", refused, what + ": shares with more words than the secret length allows were accepted");
}
static void Refused(ShamirSecretSharing& ss) {
  std::string s = vh::RandBytes(8);
  CHECKP("refuse", vh::Dies([&] { ss.Share(1, 3, s); }), "threshold 1 was accepted");
  CHECKP("refuse", vh::Dies([&] { ss.Share(4, 3, s); }), "a threshold above the number of shares was accepted");
  CHECKP("refuse", vh::Dies([&] { ss.Share(2, 3, std::string()); }), "an empty secret was accepted");
  CHECKP("refuse", vh::Dies([&] { ss.Share(2, 1, s); }), "a single share was accepted");
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    ShamirSecretSharing ss;
    Refused(ss);
    while (vh::TimeLeft()) {
      if (vh::R(3) == 0) { ShamirSecretSharing other; Round(other); } else Round(ss);
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
