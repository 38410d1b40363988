// C16: requests and responses in memory, against a scripted HTTP client.
#include <map>
#include "fcp/base/compression.h"
#include "fcp/client/http/http_client_util.h"
#include "fcp/client/http/in_memory_request_response.h"
#include "fcp/client/http/http_resource_metadata.pb.h"
#include "harness.h"
using namespace fcp::client::http;
namespace fcp::client { absl::Status InterruptibleRunner::Run(std::function<absl::Status()> f, std::function<void()> abort_function) { return f(); } }  // on this thread
static int Rn(int a, int b) { return a + (int)vh::R(b - a + 1); }
static std::string Low(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static std::string Flip(std::string s) { if (Rn(0, 2)) return s; for (auto& c : s) if (Rn(0, 1) && isalpha((unsigned char)c)) c ^= 32; return s; }
static std::optional<std::string> Find(const HeaderList& h, const char* n) { for (auto& x : h) if (Low(x.first) == Low(n)) return x.second; return std::nullopt; }
static std::string Show(const HeaderList& h) { std::string r; for (auto& x : h) r += "[" + x.first + ": " + x.second + "]"; return r; }
struct Resp : HttpResponse { int c; HeaderList h; int code() const override { return c; } const HeaderList& headers() const override { return h; } };
struct Script { Resp r; bool start_error = false; absl::StatusCode err = absl::StatusCode::kUnavailable; std::vector<std::string> chunks; bool body_error = false; int64_t sent = 0, recv = 0; };
struct Want { absl::StatusCode code; std::string body, type, enc; int http; };
static Want Judge(const Script& s, const HeaderList& req) {
  Want w{absl::StatusCode::kOk, "", "", "", s.r.c};
  if (s.start_error) { w.code = s.err; return w; }
  auto ce = Find(s.r.h, "content-encoding"), te = Find(s.r.h, "transfer-encoding"), cl = Find(s.r.h, "content-length");
  int64_t len = -1;
  if (ce && !Find(req, "accept-encoding")) { w.code = absl::StatusCode::kInvalidArgument; return w; }
  if (te && Low(*te) != "identity") { w.code = absl::StatusCode::kInvalidArgument; return w; }
  if (cl) { std::string d = *cl; bool neg = !d.empty() && d[0] == '-'; if (neg) d = d.substr(1); bool ok = !d.empty() && d.size() < 18; for (char x : d) ok &= x >= '0' && x <= '9'; if (!ok) { w.code = absl::StatusCode::kInvalidArgument; return w; } len = std::stoll(d); if (neg && len) { w.code = absl::StatusCode::kOutOfRange; return w; } }
  for (auto& c : s.chunks) { if (len >= 0 && (int64_t)(w.body.size() + c.size()) > len) { w.code = absl::StatusCode::kOutOfRange; return w; } w.body += c; }
  if (s.body_error) { w.code = s.err; return w; }
  if (len >= 0 && (int64_t)w.body.size() != len) { w.code = absl::StatusCode::kInvalidArgument; return w; }
  w.code = ConvertHttpCodeToStatus(s.r.c).code(); w.type = Find(s.r.h, "content-type").value_or(""); w.enc = ce.value_or(""); return w;
}
static void Play(const Script& s, const HttpRequest& q, HttpRequestCallback& cb) {
  if (s.start_error) { cb.OnResponseError(q, absl::Status(s.err, "x")); return; }
  if (!cb.OnResponseStarted(q, s.r).ok()) return;
  for (auto& c : s.chunks) if (!cb.OnResponseBody(q, s.r, c).ok()) return;
  if (s.body_error) cb.OnResponseBodyError(q, s.r, absl::Status(s.err, "y")); else cb.OnResponseCompleted(q, s.r);
}
struct Handle : HttpRequestHandle { std::unique_ptr<HttpRequest> q; Script s; SentReceivedBytes TotalSentReceivedBytes() const override { return {.sent_bytes = s.sent, .received_bytes = s.recv}; } void Cancel() override {} };
struct Client : HttpClient {
  std::vector<Script> scripts; std::vector<std::string> uris; std::vector<HeaderList> hdrs; size_t next = 0; absl::Status res; bool order = false;
  std::unique_ptr<HttpRequestHandle> EnqueueRequest(std::unique_ptr<HttpRequest> q) override { auto h = std::make_unique<Handle>(); uris.push_back(std::string(q->uri())); hdrs.push_back(q->extra_headers()); h->q = std::move(q); h->s = scripts.at(next++); return h; }
  absl::Status PerformRequests(std::vector<std::pair<HttpRequestHandle*, HttpRequestCallback*>> r) override { if (order) std::reverse(r.begin(), r.end()); for (auto& [h, c] : r) { auto* x = static_cast<Handle*>(h); Play(x->s, *x->q, *c); } return res; }
};
struct Cache : fcp::client::cache::ResourceCache {
  std::map<std::string, ResourceAndMetadata> m; std::map<std::string, absl::Duration> age;
  absl::Status Put(absl::string_view id, const absl::Cord& r, const google::protobuf::Any& md, absl::Duration a) override { m[std::string(id)] = {r, md}; age[std::string(id)] = a; return absl::OkStatus(); }
  absl::StatusOr<ResourceAndMetadata> Get(absl::string_view id, std::optional<absl::Duration> a) override { auto i = m.find(std::string(id)); if (i == m.end()) return absl::NotFoundError(""); return i->second; }
};
static std::string Len(int64_t n) { switch (Rn(0, 12)) { case 0: return std::to_string(n + 1); case 1: return std::to_string(n - 1); case 2: return "x"; case 3: return ""; case 4: return "-3"; case 5: return std::to_string(n) + "x"; case 6: return "0"; default: return std::to_string(n); } }
static Script MakeScript(bool plain) {
  Script s; static const int codes[] = {200, 200, 200, 201, 204, 299, 300, 400, 404, 429, 500, 503}; s.r.c = codes[Rn(0, 11)]; int n = Rn(0, 4); int64_t total = 0;
  for (int i = 0; i < n; i++) { s.chunks.push_back(vh::RandBytes(Rn(0, 9))); total += s.chunks.back().size(); }
  if (!plain && Rn(0, 5) == 0) s.r.h.push_back({Flip("Content-Encoding"), "gzip"});
  if (Rn(0, 2) == 0) s.r.h.push_back({Flip("Content-Type"), Rn(0, 1) ? "text/x" : "application/y"});
  if (!plain && Rn(0, 5) == 0) s.r.h.push_back({Flip("Transfer-Encoding"), Rn(0, 2) ? Flip("identity") : "chunked"});
  if (Rn(0, 2)) s.r.h.push_back({Flip("Content-Length"), plain ? std::to_string(total) : Len(total)});
  for (size_t i = s.r.h.size(); i > 1; i--) std::swap(s.r.h[i - 1], s.r.h[Rn(0, i - 1)]);
  s.start_error = Rn(0, 12) == 0; s.body_error = Rn(0, 12) == 0; s.err = (absl::StatusCode)Rn(1, 16); s.sent = Rn(0, 1000); s.recv = Rn(0, 1000); return s;
}
static std::string Show(const Script& s) { std::string r = S("code ", s.r.c, " headers ", Show(s.r.h), " chunks"); for (auto& c : s.chunks) r += S(" ", c.size()); return r + (s.start_error ? " error first" : "") + (s.body_error ? " error last" : ""); }
static void Compare(const Want& w, const absl::StatusOr<InMemoryHttpResponse>& r, const std::string& d) {
  CHECKP("result-code", r.status().code() == w.code, S(d, " -> ", r.status().ToString(), " expected code ", (int)w.code));
  if (!r.ok()) return;
  CHECKP("body", std::string(r->body) == w.body, S(d, " -> ", r->body.size(), " bytes"));
  CHECKP("type", r->content_type == w.type && r->content_encoding == w.enc && r->code == w.http, S(d, " -> type ", r->content_type, " encoding ", r->content_encoding, " code ", r->code));
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    fcp::client::InterruptibleRunner run(nullptr, [] { return false; }, {}, {});
    { InMemoryHttpRequestCallback cb; CHECKP("nothing-received", !cb.Response().ok(), "no callback yet"); }
    while (vh::TimeLeft()) {
      // requests
      static const char* us[] = {"https://a/b", "HTTPS://A", "http://localhost:1/x", "http://LOCALHOST:2", "http://a/b", "ftp://x", "http://localhost", "", "https:/x", "http://localhostx:1"}; int u = Rn(0, 9); if (Rn(0, 1)) u = 0;
      HttpRequest::Method m = (HttpRequest::Method)Rn(0, 5); HeaderList h; for (int i = Rn(0, 3); i > 0; i--) h.push_back({Flip(Rn(0, 6) ? "X-A" : "Content-Length"), "7"});
      std::string body = Rn(0, 4) ? vh::RandBytes(Rn(0, 60)) : std::string(Rn(0, 4000), 'a'); bool gz = Rn(0, 3) == 0; auto q = InMemoryHttpRequest::Create(us[u], m, h, body, gz); std::string d = S("uri ", us[u], " method ", (int)m, " headers ", Show(h), " body ", body.size(), gz ? " compressed" : "");
      bool ok = u < 4 && !Find(h, "content-length") && (!(gz || !body.empty()) || (m != HttpRequest::Method::kGet && m != HttpRequest::Method::kHead));
      CHECKP("create", q.ok() == ok, S(d, " -> ", q.status().ToString()));
      if (q.ok()) {
        CHECKP("request", (*q)->uri() == us[u] && (*q)->method() == m, d); std::string got; bool end = false, many = Rn(0, 1);
        CHECKP("has-body", (*q)->HasBody() == (gz || !body.empty()), d);
        for (int i = 0; i < 100000; i++) { int64_t n = many ? Rn(1, 7) : Rn(0, 3) ? Rn(1, 5000) : (int64_t)1 << 40; std::string buf(std::min<int64_t>(n, 6000), '#'); auto k = (*q)->ReadBody(&buf[0], n); if (!k.ok()) { end = k.status().code() == absl::StatusCode::kOutOfRange; break; } CHECKP("read-size", *k > 0 && *k <= n && *k <= (int64_t)buf.size(), S(d, " read ", n, " -> ", *k)); CHECKP("read-overrun", buf.substr(*k) == std::string(buf.size() - *k, '#'), S(d, " read ", n)); got += buf.substr(0, *k); if (got.size() > body.size() + 1000) break; }
        CHECKP("read-end", end, d); std::string sent = got; if (gz) { auto r = fcp::UncompressWithGzip(got); CHECKP("compressed", r.ok(), d); got = std::string(*r); } CHECKP("read-body", got == body, S(d, " delivered ", vh::Hex(got.substr(0, 40))));
        auto k = (*q)->ReadBody(&got[0], 1); CHECKP("read-end", !k.ok(), d); HeaderList w = h; if (gz) w.push_back({"Content-Encoding", "gzip"}); if (!sent.empty()) w.push_back({"Content-Length", std::to_string(sent.size())});
        CHECKP("request-headers", (*q)->extra_headers() == w, S(d, " -> ", Show((*q)->extra_headers())));
      }
      // one response
      { Script s = MakeScript(Rn(0, 2) == 0); HeaderList rh; if (Rn(0, 1)) rh.push_back({Flip("Accept-Encoding"), "gzip"}); auto q = InMemoryHttpRequest::Create("https://x", HttpRequest::Method::kGet, rh, "", false); InMemoryHttpRequestCallback cb; Play(s, **q, cb); Compare(Judge(s, rh), cb.Response(), S(Show(s), " request ", Show(rh))); }
      // several requests at once
      { Client c; c.order = Rn(0, 1); int n = Rn(0, 4); std::vector<std::unique_ptr<HttpRequest>> qs; std::vector<HeaderList> rh; int64_t a = 5, b = 7, wa = 5, wb = 7; for (int i = 0; i < n; i++) { c.scripts.push_back(MakeScript(Rn(0, 1))); wa += c.scripts[i].recv; wb += c.scripts[i].sent; rh.push_back({}); if (Rn(0, 1)) rh[i].push_back({"accept-encoding", "gzip"}); qs.push_back(*InMemoryHttpRequest::Create(S("https://x/", i), HttpRequest::Method::kGet, rh[i], "", false)); }
        if (Rn(0, 9) == 0) c.res = absl::AbortedError("whole"); bool pa = Rn(0, 3), pb = Rn(0, 3); auto r = PerformMultipleRequestsInMemory(c, run, std::move(qs), pa ? &a : nullptr, pb ? &b : nullptr); CHECKP("traffic", (!pa || a == wa) && (!pb || b == wb), S(n, " requests: received ", a, " of ", wa, " sent ", b, " of ", wb));
        CHECKP("whole-error", r.ok() == c.res.ok(), S(n, " requests")); if (r.ok()) { CHECKP("result-count", (int)r->size() == n, S(n, " requests -> ", r->size())); for (int i = 0; i < n; i++) Compare(Judge(c.scripts[i], rh[i]), (*r)[i], S("request ", i, " of ", n, ": ", Show(c.scripts[i]))); } }
      // resources
      { Client c; Cache k; bool cached = Rn(0, 2); c.order = Rn(0, 1); std::vector<UriOrInlineData> rs; struct E { std::string body, id, wire; bool fetched, fail, bad, zip; std::string uri, type; absl::Duration age; }; std::vector<E> es; int n = Rn(0, 5); std::vector<std::string> fetched;
        for (int i = 0; i < n; i++) { E e{}; e.body = vh::RandBytes(Rn(0, 20)); std::string z = *fcp::CompressWithGzip(e.body); e.age = absl::Seconds(Rn(1, 99)); e.type = "application/octet-stream";
          if (Rn(0, 1)) { e.uri = S("https://r/", i); if (Rn(0, 1)) e.id = S("id", i); bool hit = cached && !e.id.empty() && Rn(0, 1); e.zip = Rn(0, 1);
            if (hit) { HttpResourceMetadata md; if (e.zip) md.set_compression_format(ResourceCompressionFormat::RESOURCE_COMPRESSION_FORMAT_GZIP); fcp::client::cache::ResourceCache::ResourceAndMetadata rm; rm.resource = absl::Cord(e.zip ? z : e.body); rm.metadata.PackFrom(md); k.m[e.id] = rm; k.age[e.id] = absl::Seconds(0); }
            else { e.fetched = true; fetched.push_back(e.uri); Script s; s.r.c = Rn(0, 4) ? 200 : 404; e.fail = s.r.c != 200; std::string w = e.zip ? z : e.body; if (e.zip && Rn(0, 3) == 0) { w = w.substr(0, w.size() - Rn(1, 9)); e.bad = true; } e.wire = w; e.type = e.zip ? "application/z" + Flip("+gzip") : "text/z"; s.r.h.push_back({"Content-Type", e.type}); size_t cut = Rn(0, w.size()); s.chunks = {w.substr(0, cut), w.substr(cut)}; s.sent = Rn(0, 9); s.recv = Rn(0, 9); c.scripts.push_back(s); }
            rs.push_back(UriOrInlineData::CreateUri(e.uri, e.id, e.age)); }
          else { e.zip = Rn(0, 1); if (e.zip) e.type += "+gzip"; rs.push_back(UriOrInlineData::CreateInlineData(absl::Cord(e.zip ? z : e.body), e.zip ? UriOrInlineData::InlineData::CompressionFormat::kGzip : UriOrInlineData::InlineData::CompressionFormat::kUncompressed)); }
          es.push_back(e); }
        int64_t a = 0, b = 0, wa = 0, wb = 0; for (auto& s : c.scripts) { wa += s.recv; wb += s.sent; } auto r = FetchResourcesInMemory(c, run, rs, &a, &b, cached ? &k : nullptr); CHECKP("fetch", r.ok() && (int)r->size() == n, S(n, " resources")); CHECKP("fetch-requests", c.uris == fetched, S(n, " resources, ", fetched.size(), " to fetch, ", c.uris.size(), " fetched")); CHECKP("traffic", a == wa && b == wb, S(n, " resources"));
        for (int i = 0; i < n; i++) { auto& e = es[i]; auto& x = (*r)[i]; std::string d = S("resource ", i, " of ", n, e.fetched ? " fetched" : e.uri.empty() ? " inline" : " cached", e.zip ? " compressed" : "", e.fail ? " missing" : "", e.bad ? " damaged" : ""); CHECKP("fetch-result", x.ok() == !(e.fail || e.bad), S(d, " -> ", x.status().ToString())); if (x.ok()) { CHECKP("fetch-body", std::string(x->body) == e.body, d); CHECKP("fetch-type", x->content_type == e.type, S(d, " -> ", x->content_type)); }
          if (cached && e.fetched && !e.id.empty()) { auto it = k.m.find(e.id); CHECKP("cache-put", (it != k.m.end()) == !e.fail, d); if (it != k.m.end()) { HttpResourceMetadata md; CHECKP("cache-data", std::string(it->second.resource) == e.wire && it->second.metadata.UnpackTo(&md) && (md.compression_format() == ResourceCompressionFormat::RESOURCE_COMPRESSION_FORMAT_GZIP) == e.zip && k.age[e.id] == e.age, d); } } }
        size_t ids = 0; for (auto& e : es) ids += cached && !e.id.empty() && !e.fail; CHECKP("cache-put", k.m.size() == ids, S(k.m.size(), " cached, expected ", ids)); }
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
