// The header parser observed through its public interface.
#include <string>
#include "fcp/client/http/curl/curl_header_parser.h"
namespace verif_inst {
using fcp::client::http::curl::CurlHeaderParser;
struct Seen { int status; fcp::client::http::HeaderList headers; bool last; };
Seen Look(const CurlHeaderParser& p) { return {p.GetStatusCode(), p.GetHeaderList(), p.IsLastHeader()}; }
Seen Fresh() { CurlHeaderParser p; return Look(p); }
// what was visible before and after one more line
struct Step { Seen before; Seen after; };
Step Parse(CurlHeaderParser p, const std::string& line) { Seen b = Look(p); p.ParseHeader(line); return {b, Look(p)}; }
Step ParseEncoded(CurlHeaderParser p, const std::string& line) { p.UseCurlEncoding(); Seen b = Look(p); p.ParseHeader(line); return {b, Look(p)}; }
// how leaving the encoding to curl is remembered
CurlHeaderParser New() { return CurlHeaderParser(); }
void Encode(CurlHeaderParser* p) { p->UseCurlEncoding(); }
}
