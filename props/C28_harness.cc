#include "harness.h"
#include <functional>
#include <map>
#include <optional>
#include <vector>
#include "fcp/client/phase_logger_impl.h"
using namespace fcp::client; using namespace fcp::client::opstats; using google::internal::federatedml::v2::RetryWindow;
struct Item { std::string who, what; std::vector<std::string> text; std::vector<ExampleStats> ex; std::vector<NetworkStats> net; std::vector<absl::Duration> dur; std::vector<int64_t> num; std::vector<absl::Time> time; };
static std::vector<Item> calls;
static void Add(Item& i, absl::string_view s) { i.text.emplace_back(s); } static void Add(Item& i, const ExampleStats& e) { i.ex.push_back(e); } static void Add(Item& i, const NetworkStats& e) { i.net.push_back(e); } static void Add(Item& i, absl::Duration d) { i.dur.push_back(d); } static void Add(Item& i, absl::Time t) { i.time.push_back(t); } static void Add(Item& i, int64_t n) { i.num.push_back(n); } static void Add(Item& i, int n) { i.num.push_back(n); }
template <class... A> static void Rec(const char* who, const char* what, A&&... a) { Item i; i.who = who; i.what = what; (Add(i, a), ...); calls.push_back(i); }
struct Publisher : EventPublisher {
  template <class... A> void Put(const char* what, A&&... a) { Rec("publisher", what, a...); }
#include "C28_publisher.inc"
  void SetModelIdentifier(const std::string& m) override { Put("SetModelIdentifier", m); }
  SecAggEventPublisher* secagg_event_publisher() override { return nullptr; }
};
struct Stats : OpStatsLogger {
  absl::Status commit; RetryWindow window;
  void AddEventAndSetTaskName(const std::string& t, OperationalStats::Event::EventKind e) override { Rec("stats", "event", (int)e, t, std::string("task")); }
  void AddEvent(OperationalStats::Event::EventKind e) override { Rec("stats", "event", (int)e); }
  void AddEventWithErrorMessage(OperationalStats::Event::EventKind e, const std::string& m) override { Rec("stats", "event", (int)e, m); }
  void UpdateDatasetStats(const std::string&, int, int64_t) override { Rec("stats", "other"); }
  void SetNetworkStats(const NetworkStats& n) override { Rec("stats", "network", n); }
  void SetMinSepPolicyIndex(int64_t i) override { Rec("stats", "index", i); }
  void SetRetryWindow(RetryWindow w) override { window = w; Rec("stats", "window"); }
  absl::Status CommitToStorage() override { Rec("stats", "commit"); return commit; }
  void StartLoggingForPhase(OperationalStats::PhaseStats::Phase p) override { Rec("stats", "start", (int)p); }
  void StopLoggingForTheCurrentPhase() override { Rec("stats", "stop"); }
  void RecordCollectionFirstAccessTime(absl::string_view u, absl::Time t) override { Rec("stats", "access", u, t); }
};
struct Logs : LogManager {
  void LogDiag(ProdDiagCode c) override { Rec("log", "diag", (int)c); } void LogDiag(DebugDiagCode c) override { Rec("log", "diag", (int)c); }
  void LogToLongHistogram(HistogramCounters h, int, int, fcp::client::engine::DataSourceType, int64_t v) override { Rec("log", "histogram", (int)h, v); }
  void SetModelIdentifier(const std::string& m) override { Rec("log", "SetModelIdentifier", m); }
};
struct MyFlags : Flags { bool tf = false; int64_t condition_polling_period_millis() const override { return 1000; } int64_t tf_execution_teardown_grace_period_millis() const override { return 1000; } int64_t tf_execution_teardown_extended_period_millis() const override { return 1000; } bool log_tensorflow_error_messages() const override { return tf; } };
// What was handed to the call.
struct Given { std::optional<absl::Status> status; std::vector<std::string> text; std::vector<ExampleStats> ex; std::vector<NetworkStats> net; std::vector<absl::Time> time; std::optional<std::optional<int64_t>> index; };
static std::string Text() { std::string s = S("text", (int)vh::R(1000000)); if (vh::R(6) == 0) s = ""; if (vh::R(6) == 0) s += std::string("\0 bin \xff", 7); return s; }
static int64_t Big() { return vh::R(2) ? (int64_t)vh::R(100000) : (int64_t)(vh::R64() >> (1 + vh::R(62))); }
static absl::Status Mk(Given& g, absl::Status*) { g.status = absl::Status((absl::StatusCode)(1 + vh::R(16)), S("message", (int)vh::R(1000000))); return *g.status; }
static absl::string_view Mk(Given& g, absl::string_view*) { static std::string keep; keep = Text(); g.text.push_back(keep); return keep; }
static NetworkStats Mk(Given& g, NetworkStats*) { NetworkStats n{.bytes_downloaded = Big(), .bytes_uploaded = Big(), .network_duration = absl::Nanoseconds(Big())}; g.net.push_back(n); return n; }
static ExampleStats Mk(Given& g, ExampleStats*) { ExampleStats e{.example_count = (int)(Big() & 0x7fffffff), .example_size_bytes = Big()}; g.ex.push_back(e); return e; }
static absl::Time Mk(Given& g, absl::Time*) { auto t = absl::Now() - absl::Hours(1 + 10 * (int)g.time.size() + vh::R(5)) - absl::Milliseconds(vh::R(100000)); g.time.push_back(t); return t; }
static std::optional<int64_t> Mk(Given& g, std::optional<int64_t>*) { std::optional<int64_t> i; if (vh::R(3)) i = (int64_t)vh::R64() >> vh::R(64); if (vh::R(8) == 0) i = 0; g.index = i; return i; }
template <class T> using Plain = std::remove_cv_t<std::remove_reference_t<T>>;
struct World { Publisher pub; Stats stats; Logs logs; MyFlags flags; };
template <class R, class... A> static absl::Status Invoke(PhaseLogger& l, R (PhaseLoggerImpl::*m)(A...), Given& g) {
  std::tuple<Plain<A>...> a{Mk(g, (Plain<A>*)nullptr)...};   // braces: left to right
  return std::apply([&](auto&... x) { if constexpr (std::is_void_v<R>) { (static_cast<PhaseLoggerImpl&>(l).*m)(x...); return absl::OkStatus(); } else return (static_cast<PhaseLoggerImpl&>(l).*m)(x...); }, a);
}
static const std::map<std::string, std::vector<int>> kLatency = {{"None", {}}, {"EligibilityEvalCheckin", {TRAINING_FL_ELIGIBILITY_EVAL_CHECKIN_LATENCY}}, {"EligibilityEvalComputation", {TRAINING_RUN_PHASE_LATENCY, TRAINING_RUN_PHASE_END_TIME}}, {"MultipleTaskAssignments", {TRAINING_FL_MULTIPLE_TASK_ASSIGNMENTS_LATENCY, TRAINING_FL_MULTIPLE_TASK_ASSIGNMENTS_END_TIME}}, {"Checkin", {TRAINING_FL_CHECKIN_LATENCY, TRAINING_FL_CHECKIN_END_TIME}}, {"Computation", {TRAINING_RUN_PHASE_LATENCY, TRAINING_RUN_PHASE_END_TIME}}, {"Report", {TRAINING_FL_REPORT_RESULTS_LATENCY, TRAINING_FL_REPORT_RESULTS_END_TIME}}};
template <class M> static void Outcome(const std::string& name, M m, const std::string& pub, int kind, int phase, int stop, const std::string& lat, int exf) {
  World w; w.flags.tf = vh::R(2); bool fail = vh::R(3) == 0; w.stats.commit = fail ? absl::Status((absl::StatusCode)(1 + vh::R(16)), "disk") : absl::OkStatus(); PhaseLoggerImpl l(&w.pub, &w.stats, &w.logs, &w.flags); Given g; calls.clear();
  auto t0 = absl::Now(); auto st = Invoke(l, m, g); auto t1 = absl::Now(); bool commits = name == "LogResultUploadStarted" || name == "LogFailureUploadStarted"; fail = fail && commits;
  std::vector<Item> P, E, H; int starts = 0, stops = 0, ci = 0, index = 0, ev_at = -1, start_at = -1, stop_at = -1, commit_at = -1, at = 0, foreign = 0, publish_at = -1; std::vector<int64_t> sp, si; std::string h = name;
  for (auto& c : calls) { h += " | " + c.what; for (auto& x : c.text) h += " '" + x + "'"; for (auto x : c.num) h += S(" ", x); for (auto x : c.dur) h += " " + absl::FormatDuration(x); ++at; if (c.who == "publisher") { P.push_back(c); publish_at = at; } else if (c.what == "event") { E.push_back(c); ev_at = at; } else if (c.what == "start") { ++starts; start_at = at; sp = c.num; } else if (c.what == "stop") { ++stops; stop_at = at; } else if (c.what == "commit") { ++ci; commit_at = at; } else if (c.what == "index") { ++index; si = c.num; } else if (c.who == "stats") ++foreign; else if (c.what == "histogram") H.push_back(c); }
  CHECKP("published", fail ? P.empty() : P.size() == 1 && P[0].what == pub, h, "expected", fail ? "nothing" : pub); CHECKP("recorded", kind ? E.size() == 1 && E[0].num[0] == kind : E.empty(), h, "expected kind", kind); CHECKP("other-figures", foreign == 0, h);
  CHECKP("commit", ci == (commits ? 1 : 0) && st == (commits ? w.stats.commit : absl::OkStatus()) && (!commits || commit_at > ev_at), h, st.ToString()); CHECKP("commit-first", !commits || fail || publish_at > commit_at, h);
  CHECKP("phase-start", starts == (phase ? 1 : 0) && (!phase || (sp[0] == phase && start_at < ev_at)), h, "expected phase", phase); CHECKP("phase-stop", stops == stop && (!stop || stop_at > ev_at), h, "expected", stop);
  bool err = name == "LogTaskNotStarted" || name.find("InvalidPayload") != std::string::npos, tf = name.find("Tensorflow") != std::string::npos, named = !g.text.empty() && !err && name != "LogCheckinCompleted";
  if (named && E.size() == 1) CHECKP("task-name", E[0].text == (std::vector<std::string>{g.text[0], "task"}), h, "expected", g.text[0]);
  if (P.size() == 1) {
    auto& p = P[0]; CHECKP("network-figures", p.net.size() == g.net.size() && (p.net.empty() || (p.net[0].bytes_downloaded == g.net[0].bytes_downloaded && p.net[0].bytes_uploaded == g.net[0].bytes_uploaded && p.net[0].network_duration == g.net[0].network_duration)), h); CHECKP("example-figures", p.ex.size() == g.ex.size() && (p.ex.empty() || p.ex[0] == g.ex[0]), h);
    if (!g.time.empty()) { bool plan = name == "LogEligibilityEvalCheckinCompleted" || name == "LogCheckinCompleted" || name == "LogMultipleTaskAssignmentsCompleted" || name == "LogMultipleTaskAssignmentsPartialCompleted"; auto t = g.time[plan ? 1 : 0]; CHECKP("duration", p.dur.size() == 1 && p.dur[0] >= t0 - t && p.dur[0] <= t1 - t, h, "expected about", absl::FormatDuration(t0 - t)); }
    if (g.status || err) {
      CHECKP("error-text", p.text.size() == 1 && (E.empty() || (E[0].text.size() == 1 && E[0].text[0] == p.text[0])), h);
      if (p.text.size() == 1) { if (err) CHECKP("error-given", p.text[0] == g.text[0], h, "expected", g.text[0]); else { bool has = p.text[0].find(std::string(g.status->message())) != std::string::npos; CHECKP("error-message", has == (!tf || w.flags.tf), h, "message", g.status->message(), "may be logged", !tf || w.flags.tf); CHECKP("error-code", p.text[0].find(absl::StatusCodeToString(g.status->code())) != std::string::npos || p.text[0].find(std::to_string((int)g.status->code())) != std::string::npos, h); } }
    }
  }
  if (g.index) CHECKP("separation-index", index == (g.index->has_value() ? 1 : 0) && (!g.index->has_value() || si[0] == **g.index), h); else CHECKP("separation-index", index == 0, h);
  auto want = kLatency.at(lat); CHECKP("histograms", H.size() == want.size() + (exf ? 2 : 0), h);
  auto val = [&](int c, int64_t lo, int64_t hi) { int n = 0; for (auto& x : H) if (x.num[0] == c) { ++n; CHECKP("histogram-value", x.num[1] >= lo && x.num[1] <= hi, h, "counter", c, "expected", lo, "to", hi); } CHECKP("histogram-once", n == 1, h, "counter", c); };
  for (size_t i = 0; i < want.size(); ++i) { auto t = i ? g.time.back() : g.time[0]; val(want[i], absl::ToInt64Milliseconds(t0 - t), absl::ToInt64Milliseconds(t1 - t)); }
  if (exf) { val(TRAINING_OVERALL_EXAMPLE_SIZE, g.ex[0].example_size_bytes, g.ex[0].example_size_bytes); val(TRAINING_OVERALL_EXAMPLE_COUNT, g.ex[0].example_count, g.ex[0].example_count); }
}
static void Others() {
  World w; PhaseLoggerImpl l(&w.pub, &w.stats, &w.logs, &w.flags); Given g; calls.clear(); RetryWindow r; r.set_retry_token("t"); r.mutable_delay_min()->set_seconds(vh::R(1000)); r.mutable_delay_max()->set_seconds(vh::R(1000)); auto n = Mk(g, (NetworkStats*)nullptr);
  l.UpdateRetryWindowAndNetworkStats(r, n); CHECKP("window", calls.size() == 2 && w.stats.window.SerializeAsString() == r.SerializeAsString(), calls.size()); for (auto& c : calls) if (c.what == "network") CHECKP("run-network", c.net[0].bytes_downloaded == n.bytes_downloaded && c.net[0].bytes_uploaded == n.bytes_uploaded && c.net[0].network_duration == n.network_duration, "network figures of the run");
  calls.clear(); auto t = Text(); l.SetModelIdentifier(t); CHECKP("model", calls.size() == 2 && calls[0].who != calls[1].who && calls[0].text[0] == t && calls[1].text[0] == t, t);
  calls.clear(); auto t0 = absl::Now(); l.MaybeLogCollectionFirstAccessTime(t); CHECKP("access", calls.size() == 1 && calls[0].what == "access" && calls[0].text[0] == t && calls[0].time[0] >= t0 && calls[0].time[0] <= absl::Now(), t);
}
#define EVENT_KIND_UNSPECIFIED EventKind(0)
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    while (vh::TimeLeft()) {
#define OUTCOME(m, pub, ev, phase, stop, lat, exf) Outcome(#m, &PhaseLoggerImpl::m, #pub, (int)OperationalStats::Event::ev, (int)OperationalStats::PhaseStats::phase, stop, #lat, exf);
#include "C28_table.inc"
      Others();
    }
  } catch (verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
