// C27: status conversions, all codes.
#include "fcp/base/status_converters.h"
#include "fcp/client/http/http_client_util.h"
#include "harness.h"
using namespace fcp;
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    for (int round = 0; round < 50; round++) {
      for (int c = -40; c < 140; c++) {
        int want = c >= 0 && c <= 16 ? c : 2; std::string m = round == 0 ? "" : vh::RandBytes(vh::R(40));
        CHECKP("from-grpc-code", static_cast<int>(base::FromGrpcStatusCode(static_cast<grpc::StatusCode>(c))) == want, S("code", c));
        CHECKP("to-grpc-code", static_cast<int>(base::ToGrpcStatusCode(static_cast<StatusCode>(c))) == want, S("code", c));
        auto f = base::FromGrpcStatus(grpc::Status(static_cast<grpc::StatusCode>(c), m)); CHECKP("from-grpc", static_cast<int>(f.code()) == want && (want == 0 || f.message() == m), S("code", c, "message", vh::Hex(m)));
        google::rpc::Status rs; rs.set_code(c); rs.set_message(m); auto a = client::http::ConvertRpcStatusToAbslStatus(rs); CHECKP("from-rpc", static_cast<int>(a.code()) == want && (want == 0 || a.message() == m), S("code", c, "message", vh::Hex(m)));
        if (c < 0 || c > 16) continue;
        Status s(static_cast<StatusCode>(c), m); auto t = base::ToGrpcStatus(s); CHECKP("to-grpc", static_cast<int>(t.error_code()) == c && (c == 0 || t.error_message() == m), S("code", c, "message", vh::Hex(m)));
        CHECKP("grpc-round-trip", base::FromGrpcStatus(t) == s, S("code", c));
        auto r = client::http::ConvertAbslStatusToRpcStatus(s); CHECKP("to-rpc", r.code() == c && r.message() == (c ? m : "") && r.details_size() == 0, S("code", c, "message", vh::Hex(m)));
        CHECKP("rpc-round-trip", client::http::ConvertRpcStatusToAbslStatus(r) == s, S("code", c));
      }
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
