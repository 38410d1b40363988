#include "harness.h"
#include <cstring>
#include <zlib.h>
#include "fcp/base/compression.h"
using namespace fcp;
static std::string Ref(const std::string& z, bool* ok) {   // independent decoder: zlib on the whole input
  std::string out; *ok = false; size_t pos = 0;
  do {
    z_stream s; std::memset(&s, 0, sizeof s); inflateInit2(&s, 15 + 16); s.next_in = (Bytef*)z.data() + pos; s.avail_in = z.size() - pos; int r; char buf[70000];
    do { s.next_out = (Bytef*)buf; s.avail_out = sizeof buf; r = inflate(&s, Z_NO_FLUSH); out.append(buf, sizeof buf - s.avail_out); } while (r == Z_OK);
    pos = z.size() - s.avail_in; inflateEnd(&s); if (r != Z_STREAM_END) return out;
  } while (pos < z.size());
  *ok = true; return out;
}
static std::string Deflate(const std::string& d, int level, int strategy) {
  z_stream s; std::memset(&s, 0, sizeof s); deflateInit2(&s, level, Z_DEFLATED, 15 + 16, 8, strategy); std::string o(deflateBound(&s, d.size()) + 64, 0); s.next_in = (Bytef*)d.data(); s.avail_in = d.size(); s.next_out = (Bytef*)&o[0]; s.avail_out = o.size(); deflate(&s, Z_FINISH); o.resize(o.size() - s.avail_out); deflateEnd(&s); return o;
}
static std::string Sample(size_t n) { switch (vh::R(4)) { case 0: return std::string(n, (char)vh::R(256)); case 1: { std::string s; while (s.size() < n) s += S("line", s.size() / 7, vh::R(9)); s.resize(n); return s; } case 2: { std::string s(n, 0); for (auto& c : s) c = "\0\xff"[vh::R(2)]; return s; } default: return vh::RandBytes(n); } }
static std::string Short(const std::string& s) { return S("size", s.size(), vh::Hex(s.substr(0, 24))); }
static void Trip(const std::string& d, bool cuts) {
  auto z = CompressWithGzip(d); CHECKP("compress", z.ok(), Short(d)); if (!z.ok()) return;
  bool ok; std::string ref = Ref(*z, &ok); CHECKP("gzip-format", ok && ref == d, Short(d), "an independent gzip reader gets", Short(ref));
  auto u = UncompressWithGzip(*z); CHECKP("round-trip", u.ok() && std::string(*u) == d, Short(d), u.ok() ? Short(std::string(*u)) : u.status().ToString());
  if (!cuts) return;
  for (size_t k = 1; k < z->size(); k += 1 + (k > 24 && k + 24 < z->size() ? vh::R(1 + z->size() / 12) : 0)) { auto t = UncompressWithGzip(z->substr(0, k)); CHECKP("truncated", !t.ok(), Short(d), "cut to", k, "of", z->size(), "returned", t.ok() ? t->size() : 0); }
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    for (size_t b : {0ul, 1ul, 2ul, 100ul, 4096ul, 8192ul, 32768ul, 65535ul, 65536ul, 65537ul, 131071ul, 131072ul, 131073ul, 196608ul, 262144ul, 1000000ul}) for (int i = 0; i < 3; ++i) Trip(Sample(b), true);
    Trip(Sample(9000000), false);
    while (vh::TimeLeft()) {
      size_t n = vh::R(3) ? vh::R(3000) : (vh::R(5) * 65536 + vh::R(5) - 2) % 400000; std::string d = Sample(n); Trip(d, n < 5000);
      std::string z = Deflate(d, vh::R(10), vh::R(2) ? Z_DEFAULT_STRATEGY : Z_FIXED); if (vh::R(4) == 0) z += Deflate(Sample(vh::R(300)), 6, Z_DEFAULT_STRATEGY);
      if (vh::R(2) && !z.empty()) switch (vh::R(3)) { case 0: z[vh::R(z.size())] ^= 1 << vh::R(8); break; case 1: z.resize(1 + vh::R(z.size())); break; case 2: z += vh::RandBytes(1 + vh::R(20)); break; }
      bool ok; std::string ref = Ref(z, &ok); auto u = UncompressWithGzip(z);
      CHECKP(ok ? "accept" : "corrupt", u.ok() == ok, Short(z), ok ? "valid" : "invalid");
      if (ok && u.ok()) CHECKP("content", std::string(*u) == ref, Short(z));
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
