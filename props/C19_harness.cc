// C19: history queries against a reference that reads the runs directly.
#include "re2/re2.h"
#include "fcp/client/opstats/opstats_utils.h"
#include "google/protobuf/util/message_differencer.h"
#include "google/protobuf/util/time_util.h"
#include "harness.h"
using namespace fcp::client::opstats;
using Ev = OperationalStats::Event; using Ph = OperationalStats::PhaseStats; using google::protobuf::util::MessageDifferencer; using google::protobuf::util::TimeUtil;
static int Rn(int a, int b) { return a + (int)vh::R(b - a + 1); }
static const char* kTasks[] = {"a/b", "a/c", "x", "a/b/d", ""};
static int64_t clk;
static Ev E(int k) { Ev e; e.set_event_type((Ev::EventKind)k); clk += Rn(0, 50); if (Rn(0, 9)) *e.mutable_timestamp() = TimeUtil::MillisecondsToTimestamp(clk); return e; }
static void Data(google::protobuf::Map<std::string, OperationalStats::DatasetStats>* m) { for (int i = Rn(0, 2); i > 0; i--) { auto& d = (*m)[S("c", Rn(0, 2))]; d.set_num_examples_read(Rn(0, 5)); d.set_num_bytes_read(Rn(0, 500)); *d.mutable_first_access_timestamp() = TimeUtil::MillisecondsToTimestamp(Rn(1, 5000)); } }
static Ph P(Ph::Phase k, const std::string& task) { Ph p; p.set_phase(k); if (Rn(0, 3) || k == Ph::COMPUTATION) p.set_task_name(task); if (!Rn(0, 3)) p.set_error_message(S("err", Rn(0, 99))); Data(p.mutable_dataset_stats()); p.set_bytes_downloaded(Rn(0, 100)); p.set_bytes_uploaded(Rn(0, 100)); if (Rn(0, 1)) *p.mutable_network_duration() = TimeUtil::MillisecondsToDuration(Rn(0, 100));
  if (k == Ph::UPLOAD) { if (Rn(0, 6)) *p.add_events() = E(Ev::EVENT_KIND_RESULT_UPLOAD_STARTED); static const int z[] = {39, 40, 41, 42, 42, 42}; if (Rn(0, 6)) *p.add_events() = E(z[Rn(0, 5)]); } else for (int i = Rn(0, 3); i > 0; i--) *p.add_events() = E(Rn(0, 8) ? Rn(1, 14) : Rn(36, 44)); return p; }
static bool Done(const OperationalStats& r) { bool s = false, a = false; for (auto& e : r.events()) { s |= e.event_type() == Ev::EVENT_KIND_RESULT_UPLOAD_STARTED; a |= e.event_type() == Ev::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED; } return s && !a; }
// one record per task: the phases before any task, the task's assignment, its computation and its uploads
static OperationalStats Join(const OperationalStats& run, const std::vector<Ph>& ps) {
  OperationalStats r; r.set_population_name(run.population_name()); r.set_session_name(run.session_name()); if (run.retry_window().has_delay_min() || run.retry_window().has_delay_max()) *r.mutable_retry_window() = run.retry_window(); if (run.has_min_sep_policy_index()) r.set_min_sep_policy_index(run.min_sep_policy_index()); int64_t d = 0, u = 0, t = 0;
  for (auto& p : ps) { if (!p.task_name().empty()) r.set_task_name(p.task_name()); if (!p.error_message().empty()) r.set_error_message(p.error_message()); for (auto& e : p.events()) *r.add_events() = e; d += p.bytes_downloaded(); u += p.bytes_uploaded(); t += TimeUtil::DurationToMilliseconds(p.network_duration());
    for (auto& [k, v] : p.dataset_stats()) { bool had = r.dataset_stats().count(k); auto& x = (*r.mutable_dataset_stats())[k]; x.set_num_bytes_read(x.num_bytes_read() + v.num_bytes_read()); x.set_num_examples_read(x.num_examples_read() + v.num_examples_read()); if (!had || v.first_access_timestamp() < x.first_access_timestamp()) *x.mutable_first_access_timestamp() = v.first_access_timestamp(); } }
  r.set_chunking_layer_bytes_downloaded(d); r.set_chunking_layer_bytes_uploaded(u); if (t) *r.mutable_network_duration() = TimeUtil::MillisecondsToDuration(t); return r;
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    while (vh::TimeLeft()) {
      OpStatsSequence seq; std::vector<OperationalStats> want; clk = 1000; int n = Rn(0, 6);
      for (int i = 0; i < n; i++) {
        auto& run = *seq.add_opstats(); run.set_population_name("pop"); run.set_session_name(S("s", i)); if (Rn(0, 1)) run.set_min_sep_policy_index(Rn(-2, 50)); if (Rn(0, 1)) run.mutable_retry_window()->mutable_delay_min()->set_seconds(Rn(0, 9)); if (!Rn(0, 3)) run.mutable_retry_window()->mutable_delay_max()->set_seconds(Rn(0, 9));
        if (Rn(0, 1)) { run.set_task_name(kTasks[Rn(0, 4)]); for (int k = Rn(0, 5); k > 0; k--) *run.add_events() = E(Rn(0, 1) ? Rn(1, 14) : Rn(38, 42)); Data(run.mutable_dataset_stats()); want.push_back(run); continue; }
        std::vector<Ph> pre, all; Ph assign; bool assigned = false; for (int k = Rn(0, 2); k > 0; k--) { pre.push_back(P(k == 2 ? Ph::ELIGIBILITY_EVAL_CHECKIN : Ph::ELIGIBILITY_COMPUTATION, "e")); all.push_back(pre.back()); }
        int tasks = Rn(0, 3); bool any = false; for (int t = 0; t < std::max(1, tasks); t++) { std::string name = kTasks[Rn(0, 3)]; if (!assigned || Rn(0, 1)) { if (tasks || Rn(0, 1)) { assign = P(Rn(0, 1) ? Ph::CHECKIN : Ph::MULTIPLE_TASK_ASSIGNMENTS, name); assigned = true; all.push_back(assign); } } if (!tasks) break; std::vector<Ph> ps = pre; ps.push_back(assign); ps.push_back(P(Ph::COMPUTATION, name)); all.push_back(ps.back()); for (int k = Rn(0, 2); k > 0; k--) { ps.push_back(P(Ph::UPLOAD, name)); all.push_back(ps.back()); } want.push_back(Join(run, ps)); any = true; }
        if (all.empty()) { want.push_back(run); continue; } for (auto& p : all) *run.add_phase_stats() = p;
        if (!any) { std::vector<Ph> ps = pre; if (assigned && !assign.events().empty()) ps.push_back(assign); want.push_back(Join(run, ps)); }
      }
      std::string d = seq.ShortDebugString().substr(0, 1500);
      auto latest = [&](auto f) -> const OperationalStats* { for (size_t i = want.size(); i-- > 0;) if (f(want[i].task_name()) && Done(want[i])) return &want[i]; return nullptr; };
      auto start = [](const OperationalStats& r) { for (auto& e : r.events()) if (e.event_type() == Ev::EVENT_KIND_RESULT_UPLOAD_STARTED) return e.timestamp(); return google::protobuf::Timestamp(); };
      for (auto t : kTasks) {
        auto* w = latest([&](const std::string& x) { return x == t; }); auto r = GetLastSuccessfulContribution(seq, t); CHECKP("last", r.has_value() == (w != nullptr) && (!w || MessageDifferencer::Equals(*r, *w)), S("task", t, "history", d, "->", r ? r->ShortDebugString() : "none"));
        auto tm = GetLastSuccessfulContributionTime(seq, t); CHECKP("time", tm.has_value() == (w != nullptr) && (!w || MessageDifferencer::Equals(*tm, start(*w))), S("task", t, "history", d, "->", tm ? tm->ShortDebugString() : "none"));
        auto ix = GetLastSuccessfulContributionMinSepPolicyIndex(seq, t); CHECKP("min-sep", ix.has_value() == (w && w->has_min_sep_policy_index()) && (!ix || *ix == w->min_sep_policy_index()), S("task", t, "history", d, "->", ix ? *ix : -99));
        auto ac = GetPreviousCollectionFirstAccessTimeMap(seq, t); bool same = ac.has_value() == (w != nullptr); if (same && w) { same = ac->size() == w->dataset_stats().size(); for (auto& [k, v] : w->dataset_stats()) same = same && ac->contains(k) && MessageDifferencer::Equals(ac->at(k), v.first_access_timestamp()); } CHECKP("access", same, S("task", t, "history", d));
      }
      for (auto p : {"a/.*", "a/b", "", "[xz]", "nothing"}) { RE2 re(p); auto* w = latest([&](const std::string& x) { return RE2::FullMatch(x, re); }); auto tm = GetLastSuccessfulContributionTimeForPattern(seq, re); CHECKP("pattern", tm.has_value() == (w != nullptr) && (!w || MessageDifferencer::Equals(*tm, start(*w))), S("pattern", p, "history", d)); }
      for (int k = 0; k < 3; k++) { absl::Time lo = k == 0 ? absl::InfinitePast() : absl::FromUnixMillis(Rn(0, clk)), hi = Rn(0, 2) ? absl::FromUnixMillis(Rn(0, clk + 10)) : absl::InfiniteFuture(); if (Rn(0, 3) == 0 && !want.empty()) { auto& w = want[Rn(0, want.size() - 1)]; if (w.events_size()) (Rn(0, 1) ? lo : hi) = absl::FromUnixMillis(TimeUtil::TimestampToMilliseconds(w.events().rbegin()->timestamp())); }
        std::vector<const OperationalStats*> sel; for (size_t i = want.size(); i-- > 0;) { absl::Time t = want[i].events().empty() ? absl::InfinitePast() : absl::FromUnixMillis(TimeUtil::TimestampToMilliseconds(want[i].events().rbegin()->timestamp())); if (t >= lo && t <= hi) sel.push_back(&want[i]); }
        auto r = GetOperationalStatsForTimeRange(seq, lo, hi); bool same = r.size() == sel.size(); for (size_t i = 0; same && i < sel.size(); i++) same = MessageDifferencer::Equals(r[i], *sel[i]); CHECKP("range", same, S("history", d, "range", absl::FormatTime(lo), absl::FormatTime(hi), "->", r.size(), "expected", sel.size())); }
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
