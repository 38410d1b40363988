// C15: response codes, header lookup, request URIs against independent re-statements of the rules.
#include "fcp/client/http/http_client_util.h"
#include "harness.h"
using namespace fcp::client::http;
static int Rn(int a, int b) { return a + (int)vh::R(b - a + 1); }
static absl::StatusCode Want(int c) {
  switch (c) {
    case 400: return absl::StatusCode::kInvalidArgument; case 401: return absl::StatusCode::kUnauthenticated; case 403: return absl::StatusCode::kPermissionDenied;
    case 404: return absl::StatusCode::kNotFound; case 409: return absl::StatusCode::kAborted; case 429: return absl::StatusCode::kResourceExhausted;
    case 499: return absl::StatusCode::kCancelled; case 501: return absl::StatusCode::kUnimplemented; case 503: return absl::StatusCode::kUnavailable; case 504: return absl::StatusCode::kDeadlineExceeded;
  }
  if (c / 100 == 2 && c > 0) return absl::StatusCode::kOk;
  if (c / 100 == 4) return absl::StatusCode::kFailedPrecondition;
  if (c / 100 == 5) return absl::StatusCode::kInternal;
  return absl::StatusCode::kUnknown;
}
static bool Unreserved(unsigned char c, bool slash) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~' || (slash && c == '/'); }
static std::string Enc(const std::string& in, bool slash, bool* ok) {
  std::string r; *ok = true; const char* hex = "0123456789ABCDEF";
  for (unsigned char c : in) { if (c > 127) *ok = false; if (Unreserved(c, slash)) r += c; else { r += '%'; r += hex[c / 16]; r += hex[c % 16]; } }
  return r;
}
static std::string Text(int max, bool ascii) { std::string s; int n = Rn(0, max); for (int i = 0; i < n; i++) { int k = Rn(0, 5); s += k == 0 ? (char)Rn(0, ascii ? 127 : 255) : k == 1 ? '/' : k == 2 ? "-_.~%& ?"[Rn(0, 7)] : (char)Rn('A', 'z'); } return s; }
static std::string Flip(std::string s) { for (auto& c : s) if (Rn(0, 1) && isalpha((unsigned char)c) && (unsigned char)c < 128) c ^= 32; return s; }
static std::string Low(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static void CheckEnc(const std::string& in) {
  bool ok; std::string w = Enc(in, false, &ok); auto r = EncodeUriSinglePathSegment(in); CHECKP("single-segment", r.ok() == ok && (!ok || *r == w), S("text ", vh::Hex(in), " -> ", r.ok() ? *r : r.status().ToString()));
  w = Enc(in, true, &ok); r = EncodeUriMultiplePathSegments(in); CHECKP("multiple-segments", r.ok() == ok && (!ok || *r == w), S("text ", vh::Hex(in), " -> ", r.ok() ? *r : r.status().ToString()));
  r = CreateByteStreamUploadUriSuffix(in); CHECKP("upload-suffix", r.ok() == ok && (!ok || *r == "/upload/v1/media/" + w), S("text ", vh::Hex(in), " -> ", r.ok() ? *r : r.status().ToString()));
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    for (int c = -1000; c < 2000; c++) { auto s = ConvertHttpCodeToStatus(c); CHECKP("code", s.code() == Want(c), S("code ", c, " -> ", s.ToString())); }
    for (int i = 0; i < 200; i++) { int c = (int)vh::Corner64(); auto s = ConvertHttpCodeToStatus(c); CHECKP("code", s.code() == Want(c), S("code ", c, " -> ", s.ToString())); }
    for (int c = 0; c < 256; c++) { CheckEnc(std::string(1, (char)c)); for (int d = 0; d < 256; d += 7) CheckEnc(std::string(1, (char)c) + (char)d); }
    const char* ms[] = {"HEAD", "GET", "POST", "PUT", "PATCH", "DELETE"}; HttpRequest::Method mm[] = {HttpRequest::Method::kHead, HttpRequest::Method::kGet, HttpRequest::Method::kPost, HttpRequest::Method::kPut, HttpRequest::Method::kPatch, HttpRequest::Method::kDelete};
    for (int i = 0; i < 6; i++) CHECKP("method", ConvertMethodToString(mm[i]) == ms[i], S("method ", ms[i]));
    while (vh::TimeLeft()) {
      CheckEnc(Text(40, true)); CheckEnc(Text(10, false));
      std::string b = Text(12, false), u = Text(12, false); if (Rn(0, 2)) u = "/" + u; if (!Rn(0, 3)) u = ""; if (Rn(0, 1)) b += "/";
      auto r = JoinBaseUriWithSuffix(b, u); bool ok = u.empty() || u[0] == '/'; std::string w = (!b.empty() && b.back() == '/' ? b.substr(0, b.size() - 1) : b) + (u.empty() ? "/" : u);
      CHECKP("join", r.ok() == ok && (!ok || *r == w), S("base ", b, " suffix ", u, " -> ", r.ok() ? *r : r.status().ToString()));
      HeaderList hs; std::vector<std::string> names = {Text(6, false), Text(3, true), "Content-Length", "content", ""};
      int n = Rn(0, 6); for (int i = 0; i < n; i++) hs.push_back({Flip(names[Rn(0, 4)]), Text(5, false)});
      std::string needle = Flip(names[Rn(0, 4)]); std::optional<std::string> want; for (auto& h : hs) if (Low(h.first) == Low(needle)) { want = h.second; break; }
      CHECKP("find-header", FindHeader(hs, needle) == want, S("needle ", vh::Hex(needle), " among ", hs.size(), " headers"));
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
