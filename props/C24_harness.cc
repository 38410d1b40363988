#include "harness.h"
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include "fcp/base/clock.h"
#include "fcp/base/simulated_clock.h"
using namespace fcp;
struct Log { std::vector<std::pair<int, absl::Time>> calls; };
struct W : Clock::Waiter {
  int id; Clock* clock; Log* log; std::function<void()> act;
  W(int i, Clock* c, Log* l) : id(i), clock(c), log(l) {}
  void WakeUp() override { log->calls.push_back({id, clock->Now()}); if (act) act(); }
};
static std::string T(absl::Time t) { return absl::FormatTime(absl::RFC3339_full, t, absl::UTCTimeZone()); }
static absl::Duration RandDur() {
  switch (vh::R(5)) { case 0: return absl::ZeroDuration(); case 1: return absl::Nanoseconds(1 + vh::R(3)); case 2: return absl::Seconds(vh::R(5)); case 3: return -absl::Seconds(vh::R(3)); default: return absl::Milliseconds(vh::R(5000)); }
}
// Operations without re-entrance: exact prediction of the order of deliveries.
static void Plain() {
  bool given = vh::R(2); absl::Time t = given ? absl::FromUnixNanos((int64_t)vh::R64() >> (2 + vh::R(30))) : absl::UnixEpoch();
  std::unique_ptr<SimulatedClock> ck(given ? new SimulatedClock(t) : new SimulatedClock()); Log log; std::multimap<absl::Time, int> pend; std::vector<int> want; std::string hist = "start " + T(t); int id = 0;
  for (int n = 3 + vh::R(25); n-- > 0;) {
    auto due = [&] { while (!pend.empty() && pend.begin()->first <= t) { want.push_back(pend.begin()->second); pend.erase(pend.begin()); } };
    switch (vh::R(5)) {
      case 0: { t = t + RandDur(); ck->SetTime(t); hist += "; set " + T(t); due(); break; }
      case 1: { auto d = RandDur(); t += d; ck->AdvanceTime(d); hist += "; advance " + absl::FormatDuration(d); due(); break; }
      default: { auto d = vh::R(12) ? t + RandDur() : (vh::R(2) ? absl::InfiniteFuture() : absl::InfinitePast()); hist += S("; wake", id, "at", T(d)); auto w = std::make_shared<W>(id, ck.get(), &log); pend.insert({d, id}); ++id; ck->WakeupWithDeadline(d, w); due(); }
    }
    CHECKP("now", ck->Now() == t, hist, "shows", T(ck->Now()));
    std::vector<int> got; for (auto& c : log.calls) got.push_back(c.first);
    std::string gs; for (int g : got) gs += S(g); std::string ws; for (int g : want) ws += S(g);
    CHECKP("delivery", got == want, hist, "delivered", gs, "expected", ws);
    if (got != want) return;
  }
}
// Waiters that schedule further wake-ups, move the time or wake others while being woken.
static void Reentrant() {
  SimulatedClock ck; Log log; std::vector<absl::Time> deadline; std::vector<std::shared_ptr<W>> ws; std::string hist; int budget = 12; int depth = 0;
  std::function<void(absl::Time)> add = [&](absl::Time d) {
    int id = deadline.size(); deadline.push_back(d); auto w = std::make_shared<W>(id, &ck, &log); ws.push_back(w); hist += S("; wake", id, "at", T(d));
    uint64_t a = vh::R(5);
    w->act = [&, a, id] { if (budget-- <= 0) return; CHECKP("not-nested", depth == 0, hist); ++depth; hist += S("; [woken", id); if (a == 0) add(ck.Now() + absl::Seconds(vh::R(4))); if (a == 1) { ck.AdvanceTime(absl::Seconds(vh::R(3))); hist += " advances"; } if (a == 2) add(ck.Now()); if (a == 3) { add(ck.Now() + absl::Seconds(1)); ck.AdvanceTime(absl::Seconds(1)); hist += " advances 1"; } hist += "]"; --depth; };
    ck.WakeupWithDeadline(d, w);
  };
  for (int n = 2 + vh::R(12); n-- > 0;) {
    if (vh::R(2)) add(ck.Now() + absl::Seconds((int)vh::R(6) - 1)); else { auto d = absl::Seconds(vh::R(4)); hist += "; advance " + absl::FormatDuration(d); ck.AdvanceTime(d); }
    std::vector<int> times(deadline.size()); for (auto& c : log.calls) { times[c.first]++; CHECKP("not-early", c.second >= deadline[c.first], hist, "waiter", c.first, "woken at", T(c.second)); }
    for (size_t i = 0; i < deadline.size(); ++i) CHECKP("once", times[i] == (deadline[i] <= ck.Now() ? 1 : 0), hist, "waiter", i, "woken", times[i], "now", T(ck.Now()));
  }
}
static void Sleeping() {
  SimulatedClock ck(absl::FromUnixSeconds(1000)); std::atomic<bool> done{false}; std::atomic<bool> started{false}; auto d = absl::Seconds(5 + vh::R(5));
  std::thread th([&] { started = true; ck.Sleep(d); CHECKP("sleep-early", ck.Now() >= absl::FromUnixSeconds(1000) + d, "sleep of", absl::FormatDuration(d), "returned at", T(ck.Now())); done = true; });
  while (!started) std::this_thread::yield();
  std::this_thread::sleep_for(std::chrono::milliseconds(20));
  for (int i = 0; i < 4; ++i) { ck.AdvanceTime(absl::Seconds(1)); std::this_thread::sleep_for(std::chrono::milliseconds(2)); }
  CHECKP("sleep-early", !done, "sleep of", absl::FormatDuration(d), "returned after 4s");
  ck.AdvanceTime(absl::Hours(1));   // enough even if the sleeper read its start time late
  for (int i = 0; i < 5000 && !done; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(2));
  if (!done) { vh::Fail("sleep-late", S("sleep of", absl::FormatDuration(d), "has not returned although the time advanced by an hour")); vh::Done(); std::_Exit(1); }
  th.join();
  { auto t = ck.Now(); ck.Sleep(absl::ZeroDuration()); ck.Sleep(-absl::Seconds(1)); CHECKP("sleep-time", ck.Now() == t, "sleeping changed the time"); }
}
struct RW : Clock::Waiter { std::atomic<int> n{0}; absl::Time at; void WakeUp() override { at = absl::Now(); n++; } };
static void Real() {
  Clock* ck = Clock::RealClock(); std::vector<std::pair<absl::Time, std::shared_ptr<RW>>> ws; auto t0 = absl::Now();
  CHECKP("real-now", ck->Now() >= t0 && ck->Now() <= absl::Now() + absl::Seconds(1), "real clock shows another time");
  for (int i = 0; i < 12; ++i) { auto w = std::make_shared<RW>(); auto d = t0 + absl::Milliseconds((i * 37) % 200) + absl::Microseconds(vh::R(1000)); ws.push_back({d, w}); ck->WakeupWithDeadline(d, w); }
  for (int i = 0; i < 3000; ++i) { bool all = true; for (auto& p : ws) all = all && p.second->n > 0; if (all) break; std::this_thread::sleep_for(std::chrono::milliseconds(10)); }
  std::this_thread::sleep_for(std::chrono::milliseconds(30));
  for (auto& p : ws) { CHECKP("real-once", p.second->n == 1, "woken", p.second->n.load(), "times within 30 s"); CHECKP("real-early", p.second->n == 0 || p.second->at >= p.first, "woken before its deadline"); }
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    for (int i = 0; i < 5; ++i) Sleeping();
    Real();
    while (vh::TimeLeft()) for (int i = 0; i < 100; ++i) { Plain(); Reentrant(); }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  int r = vh::Done(); std::fflush(stdout); std::_Exit(r);
}
