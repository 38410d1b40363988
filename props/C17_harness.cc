#include "harness.h"
#include <cstring>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
#include "fcp/confidentialcompute/client_payload.h"
#include "fcp/protos/confidentialcompute/aggregation_client_payload.pb.h"
using namespace fcp::confidential_compute;
typedef fcp::confidentialcompute::AggregationClientPayloadHeader Pb;
// Data placed so that it ends at an unreadable page: reading past its end stops the process.
struct Guarded {
  char* base; size_t pages; const char* p; size_t n;
  explicit Guarded(const std::string& s) : n(s.size()) {
    size_t pg = 4096; pages = (n / pg + 2) * pg; base = (char*)mmap(nullptr, pages, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(base + pages - pg, pg, PROT_NONE); char* q = base + pages - pg - n; std::memcpy(q, s.data(), n); p = q;
  }
  ~Guarded() { munmap(base, pages); }
};
static std::string Varint(uint64_t v) { std::string o; do { unsigned char b = v & 127; v >>= 7; o += (char)(v ? b | 128 : b); } while (v); return o; }
// Reference reading of the format.
static bool RefDecode(const std::string& d, Pb* h, std::string* rest) {
  if (d.compare(0, 4, "CAv1") != 0 || d.size() < 4) return false;
  size_t i = 4; uint64_t v = 0; int sh = 0; for (;;) { if (i >= d.size() || sh > 63) return false; unsigned char b = d[i++]; v |= (uint64_t)(b & 127) << sh; sh += 7; if (!(b & 128)) break; }
  v &= 0xffffffffu;
  if (v > d.size() - i) return false;
  if (!h->ParseFromString(d.substr(i, v))) return false;
  *rest = d.substr(i + v); return true;
}
static void Trip(const ClientPayloadHeader& h, const std::string& payload) {
  std::string e = EncodeClientPayload(h, payload); Guarded gd(e); absl::string_view v(gd.p, gd.n);
  auto r = DecodeAndConsumeClientPayloadHeader(v);
  std::string what = S("key", h.encrypted_symmetric_key.size(), "pub", h.encapsulated_public_key.size(), "blob", h.serialized_blob_header.size(), "gzip", h.is_gzip_compressed, "payload", vh::Hex(payload.substr(0, 40)));
  CHECKP("accept", r.ok(), what);
  if (!r.ok()) return;
  CHECKP("key", r->encrypted_symmetric_key == h.encrypted_symmetric_key, what); CHECKP("public-key", r->encapsulated_public_key == h.encapsulated_public_key, what);
  CHECKP("blob-header", r->serialized_blob_header == h.serialized_blob_header, what); CHECKP("gzip-flag", r->is_gzip_compressed == h.is_gzip_compressed, what);
  CHECKP("payload", std::string(v) == payload, what);
  // every truncation inside the header is refused
  size_t header = e.size() - payload.size();
  for (size_t k = 0; k < header; k += 1 + (header > 300 ? vh::R(header / 50) : 0)) {
    Guarded gt(e.substr(0, k)); absl::string_view t(gt.p, gt.n); auto q = DecodeAndConsumeClientPayloadHeader(t);
    CHECKP("truncated", !q.ok(), what, "cut to", k);
  }
}
static void Raw(const std::string& d) {
  Guarded gd(d); absl::string_view v(gd.p, gd.n); auto r = DecodeAndConsumeClientPayloadHeader(v); Pb h; std::string rest; bool ok = RefDecode(d, &h, &rest);
  CHECKP(ok ? "raw-accept" : "raw-refuse", r.ok() == ok, vh::Hex(d.substr(0, 200)));
  if (!r.ok() || !ok) return;
  CHECKP("raw-header", r->encrypted_symmetric_key == h.encrypted_symmetric_key() && r->encapsulated_public_key == h.encapsulated_public_key() && r->serialized_blob_header == h.blob_header() && r->is_gzip_compressed == (h.compression_type() == fcp::confidentialcompute::COMPRESSION_TYPE_GZIP), vh::Hex(d.substr(0, 200)));
  CHECKP("raw-rest", std::string(v) == rest, vh::Hex(d.substr(0, 200)), vh::Hex(std::string(v).substr(0, 100)));
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    const size_t sz[] = {0, 1, 3, 16, 100, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 200, 255, 256, 300, 16370, 16376, 16380, 16383, 16384, 20000};
    for (auto a : sz) for (auto b : {0, 1, 128}) for (auto p : {0, 1, 5, 1000}) { ClientPayloadHeader h; h.encrypted_symmetric_key = vh::RandBytes(a); h.encapsulated_public_key = vh::RandBytes(b); h.serialized_blob_header = vh::RandBytes(vh::R(2) ? 0 : vh::R(50)); h.is_gzip_compressed = vh::R(2); Trip(h, vh::RandBytes(p)); }
    { ClientPayloadHeader h; h.encrypted_symmetric_key = std::string(2100000, 'k'); Trip(h, "x"); }
    while (vh::TimeLeft()) for (int k = 0; k < 30; ++k) {
      ClientPayloadHeader h; h.encrypted_symmetric_key = vh::RandBytes(vh::R(40)); h.encapsulated_public_key = vh::RandBytes(vh::R(40)); h.serialized_blob_header = vh::RandBytes(vh::R(40)); h.is_gzip_compressed = vh::R(2);
      std::string pay = vh::RandBytes(vh::R(60)); Trip(h, pay);
      Pb pb; pb.set_encrypted_symmetric_key(h.encrypted_symmetric_key); pb.set_blob_header(h.serialized_blob_header); pb.set_compression_type((fcp::confidentialcompute::CompressionType)vh::R(4));
      std::string body = pb.SerializeAsString();
      for (int m = 0; m < 30; ++m) {
        std::string b = body; uint64_t n = b.size();
        switch (vh::R(7)) {
          case 0: n += vh::R(5); break;                                   // claims more than there is, or swallows payload
          case 1: n = vh::R(n + 1); break;                                // claims less
          case 2: n = vh::Corner64(); break;
          case 3: if (!b.empty()) b[vh::R(b.size())] = (char)vh::R64(); break;
          case 4: b += "\x0c"; n = b.size(); break;                       // stray end-group tag
          case 5: b.insert(vh::R(b.size() + 1), 1, (char)vh::R(16)); n = b.size(); break;
          case 6: n = b.size() + (vh::R(2) ? pay.size() + 1 + vh::R(3) : 0); break;
        }
        std::string d = "CAv1" + Varint(n) + b + (vh::R(3) ? pay : "");
        if (vh::R(8) == 0) d[vh::R(4)] ^= 1 << vh::R(8);
        if (vh::R(8) == 0) d = d.substr(0, vh::R(d.size() + 1));
        Raw(d);
      }
      Raw(vh::RandBytes(vh::R(12))); Raw("CAv1" + vh::RandBytes(vh::R(12)));
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
