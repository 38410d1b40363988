#include "harness.h"
#include "absl/time/time.h"
#include "fcp/base/time_util.h"
using fcp::TimeUtil;
typedef __int128 i128;
static const int64_t kLim = INT64_MAX - 1;
static void One(int64_t s, int32_t n) {
  // instants: seconds plus a non-negative nanosecond part
  absl::Time t = absl::FromUnixSeconds(s) + absl::Nanoseconds(n);
  auto p = TimeUtil::ConvertAbslToProtoTimestamp(t);
  CHECKP("timestamp", p.seconds() == s && p.nanos() == n, s, n, p.seconds(), p.nanos());
  google::protobuf::Timestamp q; q.set_seconds(s); q.set_nanos(n);
  CHECKP("time", TimeUtil::ConvertProtoToAbslTime(q) == t, s, n);
  // a fraction of a nanosecond is cut off towards the past
  auto p2 = TimeUtil::ConvertAbslToProtoTimestamp(t + absl::Nanoseconds(1) / 2);
  CHECKP("timestamp-fraction", p2.seconds() == s && p2.nanos() == n, s, n, p2.seconds(), p2.nanos());
  for (int sg : {1, -1}) {
    int64_t ds = s; int32_t dn = n;
    if (ds < 0 || (ds == 0 && sg < 0)) dn = -dn;
    absl::Duration d = absl::Seconds(ds) + absl::Nanoseconds(dn);
    auto r = TimeUtil::ConvertAbslToProtoDuration(d);
    CHECKP("duration-message", r.seconds() == ds && r.nanos() == dn, ds, dn, r.seconds(), r.nanos());
    google::protobuf::Duration m; m.set_seconds(ds); m.set_nanos(dn);
    CHECKP("duration", TimeUtil::ConvertProtoToAbslDuration(m) == d, ds, dn);
  }
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    const int32_t ns[] = {0, 1, 2, 249, 250, 499999999, 500000000, 999, 1000, 1001, 999999, 1000000, 999999999, 999999998};
    const int64_t ss[] = {0, 1, -1, 2, -2, 59, 60, -60, 1000, -1000, 1000000, 1000000000, -1000000000, 2147483647, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 9223372035LL, 9223372036LL, 9223372037LL, -9223372036LL, -9223372037LL, -9223372038LL, 253402300799LL, -62135596800LL, 9223372036854LL, 9223372036855LL, -9223372036856LL, 9223372036854775LL, 9223372036854776LL, -9223372036854777LL, kLim, -kLim, kLim / 2, kLim / 4 + 1, -kLim / 4 - 2};
    for (auto s : ss) for (auto n : ns) One(s, n);
    while (vh::TimeLeft()) for (int k = 0; k < 500; ++k) {
      int64_t s = (int64_t)vh::Corner64(); if (s > kLim) s = kLim; if (s < -kLim) s = -kLim;
      if (vh::R(2)) s = (int64_t)vh::R(630000000000ull) - 315000000000ll;
      One(s, vh::R(3) ? (int32_t)vh::R(1000000000) : ns[vh::R(14)]);
    }
    auto i = TimeUtil::ConvertAbslToProtoDuration(absl::InfiniteDuration());
    CHECKP("infinite", i.seconds() == INT64_MAX && i.nanos() == 999999999, i.seconds(), i.nanos());
    i = TimeUtil::ConvertAbslToProtoDuration(-absl::InfiniteDuration());
    CHECKP("infinite", i.seconds() == INT64_MIN && i.nanos() == -999999999, i.seconds(), i.nanos());
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
