#include "harness.h"
#include <cmath>
#include "absl/random/random.h"
#include "absl/time/clock.h"
#include "fcp/base/time_util.h"
#include "fcp/client/federated_protocol_util.h"
using namespace fcp; using namespace fcp::client;
static google::protobuf::Duration P(int64_t s, int32_t n) { google::protobuf::Duration d; d.set_seconds(s); d.set_nanos(n); return d; }
static absl::Duration D(const google::protobuf::Duration& p) { return absl::Seconds(p.seconds()) + absl::Nanoseconds(p.nanos()); }
static absl::Duration kTick = absl::Nanoseconds(2);
static void Window(absl::BitGen& gen, int64_t s1, int32_t n1, int64_t s2, int32_t n2) {
  auto lo = P(s1, n1), hi = P(s2, n2);
  absl::Duration a = std::max(absl::ZeroDuration(), D(lo)), b = std::max(D(hi), a);
  absl::Time t0 = absl::Now(); absl::Time t = PickRetryTimeFromRange(lo, hi, gen); absl::Time t1 = absl::Now();
  CHECKP("pick-low", t >= t0 + a - kTick, "window", s1, n1, s2, n2, "delay", absl::ToDoubleSeconds(t - t0));
  CHECKP("pick-high", t <= t1 + b + kTick, "window", s1, n1, s2, n2, "delay", absl::ToDoubleSeconds(t - t1));
}
static void Target(absl::BitGen& gen, absl::Duration t, double j) {
  auto w = GenerateRetryWindowFromTargetDelay(t, j, gen); double cj = std::min(1.0, std::max(0.0, j));
  CHECKP("target-equal", w.delay_min().seconds() == w.delay_max().seconds() && w.delay_min().nanos() == w.delay_max().nanos(), absl::FormatDuration(t), j);
  absl::Duration d = D(w.delay_min()), lo = std::max(absl::ZeroDuration(), t * (1 - cj)), hi = std::max(lo, t * (1 + cj));
  absl::Duration slack = kTick + absl::Seconds(std::fabs(absl::ToDoubleSeconds(t)) * 1e-14);
  CHECKP("target-low", d >= lo - slack && d >= absl::ZeroDuration(), absl::FormatDuration(t), j, absl::FormatDuration(d));
  CHECKP("target-high", d <= hi + slack, absl::FormatDuration(t), j, absl::FormatDuration(d));
  CHECKP("target-nanos", w.delay_min().nanos() >= 0 && w.delay_min().nanos() < 1000000000, absl::FormatDuration(t), j);
}
static void Retry(absl::Duration off) {
  absl::Time t0 = absl::Now(), want = t0 + off; auto w = GenerateRetryWindowFromRetryTime(want); absl::Time t1 = absl::Now();
  absl::Duration d = D(w.delay_min());
  CHECKP("retry-equal", D(w.delay_max()) == d && w.delay_min().nanos() >= 0 && w.delay_min().nanos() < 1000000000, absl::FormatDuration(off));
  CHECKP("retry-left", d >= absl::ZeroDuration() && d <= std::max(absl::ZeroDuration(), want - t0) && d >= std::max(absl::ZeroDuration(), want - t1) - kTick, absl::FormatDuration(off), absl::FormatDuration(d));
}
int main(int argc, char** argv) {
  vh::Init(argc, argv); absl::BitGen gen;
  try {
    const int64_t ss[] = {0, 1, -1, -5, 2, 59, 60, 3600, 86400, 1000000, 5000000000LL, 100000000000LL};
    const int32_t ns[] = {0, 1, 5, 500000000, 999999999};
    for (auto a : ss) for (auto b : ss) for (auto n : ns) for (auto m : ns) { Window(gen, a, a < 0 ? -n : n, b, b < 0 ? -m : m); if (a == 0) Window(gen, 0, -n, b, b < 0 ? -m : m); }
    const double js[] = {0, 0.1, 0.2, 0.5, 1.0, 1.5, 2, 100, -0.1, -3, 0.999999};
    for (auto a : ss) for (auto n : ns) for (auto j : js) for (int k = 0; k < 8; ++k) Target(gen, absl::Seconds(a) + absl::Nanoseconds(a < 0 ? -n : n), j);
    for (auto a : ss) for (auto n : ns) { Retry(absl::Seconds(a) + absl::Nanoseconds(n)); Retry(-absl::Seconds(a) - absl::Nanoseconds(n)); }
    // the whole window is used: both halves of a wide window are hit
    int low = 0, high = 0; for (int k = 0; k < 400; ++k) { absl::Time t0 = absl::Now(); auto d = PickRetryTimeFromRange(P(1000, 0), P(3000, 0), gen) - t0; (d < absl::Seconds(2000) ? low : high)++; }
    CHECKP("spread", low > 50 && high > 50, low, high);
    while (vh::TimeLeft()) for (int k = 0; k < 200; ++k) {
      int64_t a = (int64_t)(vh::R64() >> (24 + vh::R(40))), b = a + (int64_t)(vh::R64() >> (24 + vh::R(40))); if (vh::R(4) == 0) std::swap(a, b); if (vh::R(8) == 0) a = -a;
      Window(gen, a, a < 0 ? -(int)vh::R(1000000000) : vh::R(1000000000), b, vh::R(1000000000));
      Target(gen, absl::Nanoseconds((int64_t)(vh::R64() >> (2 + vh::R(60)))), vh::R(3) ? vh::R(1001) / 1000.0 : (double)vh::R(5000) / 1000 - 2);
      Retry(absl::Nanoseconds((int64_t)(vh::R64() >> (2 + vh::R(60)))) * (vh::R(3) ? 1 : -1));
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
