// Random interleavings of requests against the keystream computed separately.
#include <memory>
#include <string>
#include <vector>
#include "fcp/secagg/shared/aes_ctr_prng.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/aes_key.h"
#include "openssl/evp.h"
#include "harness.h"
using namespace fcp::secagg;
static std::string Keystream(const std::string& key, size_t n) {
  std::string zeros(n, '\0'), out(n, '\0');
  uint8_t iv[16] = {0};
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  EVP_EncryptInit_ex(c, EVP_aes_256_ctr(), nullptr, reinterpret_cast<const uint8_t*>(key.data()), iv);
  int w = 0;
  for (size_t at = 0; at < n; at += w) EVP_EncryptUpdate(c, reinterpret_cast<uint8_t*>(&out[at]), &w, reinterpret_cast<const uint8_t*>(&zeros[at]), static_cast<int>(std::min<size_t>(n - at, 4096)));
  EVP_CIPHER_CTX_free(c);
  return out;
}
static void Sequence() {
  std::string kb = vh::RandBytes(32);
  AesKey key(reinterpret_cast<const uint8_t*>(kb.data()));
  AesCtrPrngFactory f;
  std::unique_ptr<SecurePrng> a = f.MakePrng(key), b = f.MakePrng(key);
  auto* p = static_cast<SecureBatchPrng*>(a.get());
  auto* q = static_cast<SecureBatchPrng*>(b.get());
  const size_t N = p->GetMaxBufferSize();
  int mode = vh::R(4);
  std::string ks = Keystream(kb, 60 * N);
  // the keystream offsets every request must come from
  size_t pos = 0, base = 0, next = N;
  std::string what = S("key ", vh::Hex(kb), ":");
  auto byte = [&] {
    if (next >= N) { base = pos; pos += N; next = 0; }
    return static_cast<uint8_t>(ks[base + next++]);
  };
  int steps = 1 + vh::R(mode == 0 ? 60 : 400);
  for (int i = 0; i < steps && pos + 4 * N < ks.size(); ++i) {
    int k = mode == 0 ? 2 : mode == 1 ? 0 : mode == 2 ? vh::R(2) : vh::R(3);
    if (k == 0) {
      int reps = vh::R(8) ? 1 : 1 + vh::R(static_cast<int>(N));
      for (int r = 0; r < reps; ++r) {
        uint8_t want = byte(), got = p->Rand8();
        CHECKP("rand8", got == want, what + S(" Rand8 #", r, " -> ", int(got), ", the keystream has ", int(want)));
        CHECKP("same", q->Rand8() == got, what + " two generators with the same key differ (Rand8)");
      }
      what += S(" Rand8*", reps);
    } else if (k == 1) {
      uint64_t want = 0;
      for (int j = 0; j < 8; ++j) want |= static_cast<uint64_t>(byte()) << (8 * j);
      uint64_t got = p->Rand64();
      what += " Rand64";
      CHECKP("rand64", got == want, what + S(" -> ", got, ", the keystream has ", want));
      CHECKP("same", q->Rand64() == got, what + " two generators with the same key differ (Rand64)");
    } else {
      int n = vh::R(4) == 0 ? static_cast<int>(N) : vh::R(4) == 0 ? static_cast<int>(N) + vh::R(100) : 16 * vh::R(static_cast<int>(N / 16) + 1);
      int m = std::min<int>(n, static_cast<int>(N));
      std::vector<uint8_t> x(n + 16, 0xA5), y(n + 16, 0xA5);
      int r = p->RandBuffer(x.data(), n);
      int r2 = q->RandBuffer(y.data(), n);
      what += S(" RandBuffer(", n, ")");
      CHECKP("buffer", r == m, what + S(" -> ", r, " bytes, expected ", m));
      CHECKP("buffer", std::string(x.begin(), x.begin() + m) == ks.substr(pos, m), what + " does not continue the keystream");
      for (size_t j = m; j < x.size(); ++j) CHECKP("buffer", x[j] == 0xA5, what + " writes beyond the bytes it reports");
      CHECKP("same", r2 == r && x == y, what + " two generators with the same key differ (RandBuffer)");
      pos += m;
    }
    if (what.size() > 1500) what = what.substr(0, 200) + " …";
  }
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    while (vh::TimeLeft()) Sequence();
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
