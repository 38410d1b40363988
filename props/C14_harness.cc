#include "harness.h"
#include <algorithm>
#include <vector>
#include "fcp/client/http/curl/curl_header_parser.h"
using fcp::client::http::curl::CurlHeaderParser;
typedef std::vector<std::pair<std::string, std::string>> Hs;
static std::string Lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static std::string Trim(const std::string& s) { size_t a = 0, b = s.size(); auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); }; while (a < b && ws(s[a])) ++a; while (b > a && ws(s[b - 1])) --b; return s.substr(a, b - a); }
static std::string Show(const Hs& h) { std::string o; for (auto& p : h) o += "[" + vh::Hex(p.first) + "=" + vh::Hex(p.second) + "]"; return o; }
// Well-formed response blocks: the documented reading.
static void Block(const std::vector<std::pair<int, Hs>>& responses, bool enc, const std::vector<std::string>& noise) {
  CurlHeaderParser p; if (enc) p.UseCurlEncoding(); std::string log; Hs want; int code = -1; bool ended = false;
  auto look = [&](const char* key) {
    Hs got; for (auto& h : p.GetHeaderList()) got.push_back(h);
    CHECKP("status", p.GetStatusCode() == code, key, log, p.GetStatusCode(), code);
    CHECKP("headers", got == want, key, vh::Hex(log), "got", Show(got), "want", Show(want));
    CHECKP("end", p.IsLastHeader() == ended, key, vh::Hex(log), p.IsLastHeader());
  };
  look("new");
  for (auto& r : responses) {
    static const char* kVer[] = {"HTTP/1.1 ", "HTTP/2 ", "HTTP/1.0 ", "HTTP/3 "}; static const char* kTail[] = {"", " OK", " Some:Custom Message", " Not Found", " a: b"};
    std::string l = std::string(kVer[vh::R(4)]) + std::to_string(r.first) + kTail[vh::R(5)] + "\r\n"; log += l;
    p.ParseHeader(l); code = r.first; want.clear(); look("status-line");
    for (auto& h : r.second) {
      static const char* kSp[] = {" ", "", "  ", "\t"};
      l = h.first + ":" + kSp[vh::R(4)] + h.second + kSp[vh::R(4)] + "\r\n"; log += l; p.ParseHeader(l);
      std::string n = Lower(h.first);
      if (!enc || (n != "content-encoding" && n != "content-length" && n != "transfer-encoding")) want.push_back({h.first, Trim(h.second)});
      look("header");
      if (!noise.empty() && vh::R(4) == 0) { l = noise[vh::R(noise.size())]; log += l; p.ParseHeader(l); look("noise"); }
    }
    log += "\r\n"; p.ParseHeader("\r\n"); if (code != 301) ended = true; look("empty-line");
  }
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  const char* names[] = {"Content-Encoding", "content-encoding", "Content-Length", "CONTENT-LENGTH", "Transfer-Encoding", "Location", "Set-Cookie", "X-Time", "ETag", "x", "Content-Lengths", "Content", "Date", "Content-Type", "Host"};
  const char* vals[] = {"", "gzip", "150", "chunked", "http://host:8080/path?a:b", "a=b; Expires=Wed, 21 Oct 2015 07:28:00 GMT", "::", ":", "12:34", "a b  c", "HTTP/1.1 500", "text/html; charset=utf-8", "HTTP/", "200", "x\ty"};
  const int codes[] = {200, 301, 302, 100, 404, 500, 503, 204, 299, 999, 307};
  const std::vector<std::string> noise = {"garbage\r\n", "HTTP/1.1\r\n", "HTTP/ abc\r\n", "", "\n", "HTTP/1.1 x00 OK\r\n", " \r\n", "http/1.1 200\r\n"};
  try {
    for (auto n : names) for (auto v : vals) for (int e = 0; e < 2; ++e) Block({{200, {{n, v}}}}, e, {});
    for (auto a : codes) for (auto b : codes) for (int e = 0; e < 2; ++e) Block({{a, {{"A", "1"}, {"Content-Length", "3"}}}, {b, {{"B", "2:3"}}}}, e, noise);
    while (vh::TimeLeft()) for (int k = 0; k < 50; ++k) {
      std::vector<std::pair<int, Hs>> rs; int n = 1 + vh::R(3);
      for (int i = 0; i < n; ++i) {
        Hs h; int m = vh::R(6); for (int j = 0; j < m; ++j) {
          std::string nm = names[vh::R(15)], v = vals[vh::R(15)];
          if (vh::R(3) == 0) { nm = ""; int q = 1 + vh::R(10); for (int z = 0; z < q; ++z) nm += "abcXYZ-_09"[vh::R(10)]; }
          if (vh::R(3) == 0) { v = ""; int q = vh::R(20); for (int z = 0; z < q; ++z) v += (char)(33 + vh::R(94)); }
          h.push_back({nm, v});
        }
        rs.push_back({codes[vh::R(11)], h});
      }
      Block(rs, vh::R(2), vh::R(2) ? noise : std::vector<std::string>{});
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
