#include "harness.h"
#include <algorithm>
#include <cstring>
#include <sstream>
#include <thread>
#include <type_traits>
#include <unordered_set>
#include <vector>
#include "absl/container/flat_hash_set.h"
#include "absl/hash/hash.h"
#include "fcp/base/process_unique_id.h"
#include "fcp/base/random_token.h"
#include "fcp/tracing/tracing_span_id.h"
#include "fcp/tracing/tracing_tag.h"
using namespace fcp;
template <typename F> static void Unique(const char* key, F draw, int threads, int per) {
  std::vector<std::vector<int64_t>> got(threads); std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] { got[t].reserve(per); for (int i = 0; i < per; ++i) got[t].push_back(draw()); });
  for (auto& t : ts) t.join();
  std::vector<int64_t> all; for (auto& g : got) all.insert(all.end(), g.begin(), g.end());
  std::sort(all.begin(), all.end());
  for (size_t i = 1; i < all.size(); ++i) CHECKP(key, all[i] != all[i - 1], all[i], "drawn twice by", threads, "threads");
}
static RandomToken Tok(const std::string& b) { return RandomToken::FromBytes(absl::Span<const char>(b.data(), b.size())); }
static void Token(const std::string& a) {
  RandomToken t = Tok(a); auto by = t.ToBytes();
  CHECKP("token-bytes", by.size() == 16 && std::memcmp(by.data(), a.data(), 16) == 0, vh::Hex(a));
  CHECKP("token-text", t.ToString() == a, vh::Hex(a), vh::Hex(t.ToString()));
  CHECKP("token-equal", Tok(t.ToString()) == t && !(Tok(t.ToString()) != t), vh::Hex(a));
  std::string hex; for (unsigned char c : a) { char b[3]; std::snprintf(b, 3, "%02x", c); hex += b; }
  CHECKP("token-printable", t.ToPrintableString() == hex, hex, t.ToPrintableString());
  CHECKP("token-hash", absl::HashOf(t) == absl::HashOf(Tok(a)), hex);
  std::string b = a; int i = vh::R(16); b[i] ^= 1 << vh::R(8); if (vh::R(3) == 0) { int j = vh::R(16); b[j] = a[i]; b[i] = a[j]; }
  CHECKP("token-different", (Tok(b) == t) == (a == b) && (Tok(b) != t) == (a != b), vh::Hex(a), vh::Hex(b));
}
static void Tag(const char (&a)[5], const char (&b)[5]) {
  TracingTag x(a), y(b); bool same = std::memcmp(a, b, 4) == 0;
  CHECKP("tag-text", x.str() == std::string(a, 4), vh::Hex(std::string(a, 4)), vh::Hex(x.str()));
  CHECKP("tag-equal", (x == y) == same && (x != y) == !same, vh::Hex(std::string(a, 4)), vh::Hex(std::string(b, 4)));
  std::ostringstream o; o << x; CHECKP("tag-print", o.str() == std::string(a, 4), vh::Hex(o.str()));
  if (same) CHECKP("tag-hash", absl::HashOf(x) == absl::HashOf(y), 0);
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    static_assert(sizeof(TracingSpanId::value) == 8, "");
    // Ids drawn far into the life of a process: the value must survive the id type unchanged.
    for (int64_t v : {(int64_t)0, (int64_t)1, (int64_t)INT32_MAX, (int64_t)INT32_MAX + 1, (int64_t)UINT32_MAX, (int64_t)UINT32_MAX + 2, INT64_MAX, (int64_t)-1}) {
      CHECKP("span-value", TracingSpanId(v).value == v, v, TracingSpanId(v).value);
      for (int64_t x : {0ll, 1ll, 1ll << 32, 1ll << 62}) {
        int64_t w = v ^ x; TracingSpanId a(v), b(w);
        CHECKP("span-compare", (a == b) == (v == w) && (a != b) == (v != w) && (a < b) == (v < w), v, w);
      }
      std::ostringstream o; o << TracingSpanId(v); CHECKP("span-print", o.str() == std::to_string(v), v, o.str());
    }
    for (int t : {1, 2, 4, 8}) for (int rep = 0; rep < 3; ++rep) {
      Unique("unique-id", [] { return (int64_t)ProcessUniqueId::Next().value(); }, t, 200000);
      Unique("unique-span", [] { return TracingSpanId::NextUniqueId().value; }, t, 200000);
    }
    std::set<std::string> seen;
    for (int i = 0; i < 20000; ++i) { RandomToken t = RandomToken::Generate(); CHECKP("token-unique", seen.insert(t.ToString()).second, "token repeated"); }
    // every byte of generated tokens varies
    for (int i = 0; i < 16; ++i) { std::set<char> cs; for (auto& s : seen) cs.insert(s[i]); CHECKP("token-random", cs.size() == 256, "byte", i, "takes", cs.size(), "values"); }
    for (size_t n = 0; n < 40; ++n) if (n != 16) CHECKP("token-length", vh::Dies([&] { std::string b(n, 'x'); Tok(b); }), n);
    while (vh::TimeLeft()) for (int k = 0; k < 200; ++k) {
      Token(vh::RandBytes(16));
      char a[5], b[5]; for (int i = 0; i < 5; ++i) a[i] = b[i] = vh::R(4) ? 'a' + vh::R(3) : (char)vh::R64(); a[4] = b[4] = 0;
      Tag(a, b); b[vh::R(4)] ^= 1 << vh::R(8); Tag(a, b); std::swap(b[vh::R(4)], b[vh::R(4)]); Tag(a, b);
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
