#include "harness.h"
#include <atomic>
#include <map>
#include <memory>
#include <thread>
#include <vector>
#include "google/protobuf/util/message_differencer.h"
#include "google/protobuf/util/time_util.h"
#include "fcp/client/opstats/opstats_logger_impl.h"
using namespace fcp::client; using namespace fcp::client::opstats; using google::internal::federatedml::v2::RetryWindow;
using PTime = google::protobuf::util::TimeUtil;
struct Logs : LogManager { void LogDiag(ProdDiagCode) override {} void LogDiag(DebugDiagCode) override {} void LogToLongHistogram(HistogramCounters, int, int, fcp::client::engine::DataSourceType, int64_t) override {} void SetModelIdentifier(const std::string&) override {} };
struct MyFlags : Flags { bool phases = false; bool enable_phase_stats_logging() const override { return phases; }
  int64_t condition_polling_period_millis() const override { return 1000; } int64_t tf_execution_teardown_grace_period_millis() const override { return 1000; } int64_t tf_execution_teardown_extended_period_millis() const override { return 1000; } bool log_tensorflow_error_messages() const override { return false; }
};
struct Db : OpStatsDb { OpStatsSequence* seq; bool* fail; int* writes; Db(OpStatsSequence* s, bool* f, int* w) : seq(s), fail(f), writes(w) {} absl::Status Transform(std::function<void(OpStatsSequence&)> f) override { if (*fail) return absl::InternalError("disk full"); f(*seq); ++*writes; return absl::OkStatus(); } };
static std::string Str(const google::protobuf::Message& m) { return m.ShortDebugString(); }
// Expected entry; timestamps are checked separately and then blanked.
static void Blank(OperationalStats* o, const google::protobuf::Timestamp& lo, const google::protobuf::Timestamp& hi, const std::string& h) {
  auto one = [&](auto* evs) { google::protobuf::Timestamp prev = lo; for (auto& e : *evs) { CHECKP("event-time", e.has_timestamp() && prev <= e.timestamp() && e.timestamp() <= hi, h, Str(*o)); prev = e.timestamp(); e.clear_timestamp(); } };
  one(o->mutable_events()); for (auto& p : *o->mutable_phase_stats()) one(p.mutable_events());
}
static google::protobuf::Duration Dur(int64_t ms) { return PTime::MillisecondsToDuration(ms); }
static void Sequence() {
  OpStatsSequence seq; bool fail = false; int writes = 0; Logs logs; MyFlags flags; flags.phases = vh::R(3) > 0; auto lo = PTime::GetCurrentTime();
  std::vector<std::string> others; for (int i = vh::R(3); i > 0; --i) { auto* o = seq.add_opstats(); o->set_session_name("other" + std::to_string(i)); o->set_task_name("their task"); others.push_back(o->SerializeAsString()); }
  std::string h = S("phases", flags.phases, "stored", others.size(), ":"); const std::string names[] = {"", "taskA", "taskB", "pop/task#1"}, uris[] = {"app:/a", "app:/b", "", "app:/a/b"}, errs[] = {"", "first error", "second error"};
  OperationalStats exp; OperationalStats::PhaseStats cur; bool inph = false; std::map<std::string, absl::Time> first; int64_t accd = 0, accu = 0, acct = 0, ld = 0, lu = 0, lt = 0; bool stored = false;
  exp.set_session_name(names[vh::R(4)]); exp.set_population_name(names[vh::R(4)]);
  {
    OpStatsLoggerImpl l(std::make_unique<Db>(&seq, &fail, &writes), &logs, &flags, exp.session_name(), exp.population_name()); OpStatsLogger& log = l;
    auto check = [&](bool ok, const char* when) {
      if (ok) { stored = true; }
      OperationalStats want = exp; if (inph) *want.add_phase_stats() = cur;
      size_t n = others.size() + (stored ? 1 : 0); CHECKP("entry-count", (size_t)seq.opstats_size() == n, h, when, seq.opstats_size(), "expected", n); if ((size_t)seq.opstats_size() != n) return false;
      for (size_t i = 0; i < others.size(); ++i) CHECKP("other-runs", seq.opstats(i).SerializeAsString() == others[i], h, when, Str(seq.opstats(i)));
      if (ok) { OperationalStats got = seq.opstats(n - 1); Blank(&got, lo, PTime::GetCurrentTime(), h); Blank(&want, {}, PTime::GetCurrentTime(), h); CHECKP("entry", google::protobuf::util::MessageDifferencer::Equals(got, want), h, when, "committed", Str(got), "expected", Str(want)); }
      return true;
    };
    auto name = [&] { std::string e = exp.task_name(); if (flags.phases) { e = inph ? cur.task_name() : ""; for (int i = exp.phase_stats_size() - 1; i >= 0 && e.empty(); --i) e = exp.phase_stats(i).task_name(); } auto g = log.GetCurrentTaskName(); CHECKP("task-name", g == e, h, g, "expected", e); };
    auto ev = [&](int k) { auto* e = inph ? cur.add_events() : exp.add_events(); e->set_event_type((OperationalStats::Event::EventKind)k); *e->mutable_timestamp() = PTime::SecondsToTimestamp(0); };
    for (int step = 3 + vh::R(25); step > 0; --step) {
      int k = 1 + vh::R(62); auto kind = (OperationalStats::Event::EventKind)k;
      switch (vh::R(13)) {
        case 0: h += S(" event", k); log.AddEvent(kind); ev(k); break;
        case 1: { auto n = names[vh::R(4)]; h += S(" named", k, n); log.AddEventAndSetTaskName(n, kind); ev(k); inph ? cur.set_task_name(n) : exp.set_task_name(n); break; }
        case 2: { auto n = errs[vh::R(3)]; h += S(" error", k, n); log.AddEventWithErrorMessage(kind, n); ev(k); if (inph) { if (cur.error_message().empty()) cur.set_error_message(n); } else if (exp.error_message().empty()) exp.set_error_message(n); break; }
        case 3: { int64_t i = (int64_t)vh::R64() >> vh::R(64); h += S(" index", i); log.SetMinSepPolicyIndex(i); exp.set_min_sep_policy_index(i); break; }
        case 4: { auto u = uris[vh::R(4)]; auto t = absl::FromUnixNanos((int64_t)vh::R(2000000000) * 1000000007LL); h += S(" access", u, absl::ToUnixNanos(t)); log.RecordCollectionFirstAccessTime(u, t); first.emplace(u, t); break; }
        case 5: case 6: { auto u = uris[vh::R(4)]; int n = vh::R(4) ? vh::R(100000) : 2147483647; int64_t b = vh::R(3) ? vh::R(1000000) : (int64_t)vh::R(1LL << 58); h += S(" data", u, n, b); log.UpdateDatasetStats(u, n, b); auto& d = (*(inph ? cur.mutable_dataset_stats() : exp.mutable_dataset_stats()))[u]; d.set_num_examples_read(d.num_examples_read() + n); d.set_num_bytes_read(d.num_bytes_read() + b); if (first.count(u)) *d.mutable_first_access_timestamp() = PTime::NanosecondsToTimestamp(absl::ToUnixNanos(first[u])); break; }
        case 7: case 8: { ld += vh::R(3) ? vh::R(1000) : vh::R(1LL << 40); lu += vh::R(100000); lt += vh::R(5000); h += S(" net", ld, lu, lt); NetworkStats n{.bytes_downloaded = ld, .bytes_uploaded = lu, .network_duration = absl::Milliseconds(lt)}; log.SetNetworkStats(n);
          if (inph) { cur.set_bytes_downloaded(cur.bytes_downloaded() + ld - accd); cur.set_bytes_uploaded(cur.bytes_uploaded() + lu - accu); *cur.mutable_network_duration() = Dur(PTime::DurationToMilliseconds(cur.network_duration()) + lt - acct); accd = ld; accu = lu; acct = lt; } else { exp.set_chunking_layer_bytes_downloaded(ld); exp.set_chunking_layer_bytes_uploaded(lu); *exp.mutable_network_duration() = Dur(lt); } break; }
        case 9: { RetryWindow w; w.set_retry_token("secret token"); *w.mutable_delay_min() = Dur(vh::R(5000)); if (vh::R(2)) *w.mutable_delay_max() = Dur(vh::R(9000)); h += S(" window", Str(w)); log.SetRetryWindow(w); w.clear_retry_token(); *exp.mutable_retry_window() = w; break; }
        case 10: { int p = 1 + vh::R(6); h += S(" phase", p); log.StartLoggingForPhase((OperationalStats::PhaseStats::Phase)p); if (flags.phases) { if (inph) *exp.add_phase_stats() = cur; cur = OperationalStats::PhaseStats(); cur.set_phase((OperationalStats::PhaseStats::Phase)p); inph = true; } break; }
        case 11: h += " stop"; log.StopLoggingForTheCurrentPhase(); if (inph) { *exp.add_phase_stats() = cur; cur = OperationalStats::PhaseStats(); inph = false; } break;
        case 12: { fail = vh::R(4) == 0; if (!fail && stored && vh::R(8) == 0) { h += " wiped"; seq.clear_opstats(); others.clear(); } int w0 = writes; h += fail ? " commit(fails)" : " commit"; auto st = log.CommitToStorage(); CHECKP("commit-status", st.ok() == !fail, h, st.ToString()); CHECKP("one-write", writes == w0 + (fail ? 0 : 1), h, writes - w0, "writes"); bool ok = !fail; fail = false; if (!check(ok, "after commit")) return; break; }
      }
      name();
    }
    CHECKP("db", log.GetOpStatsDb() != nullptr, h);
    // the end of the logger commits what is pending
    int w0 = writes; h += " end"; l.~OpStatsLoggerImpl(); bool ok = check(true, "at the end"); CHECKP("final-write", writes == w0 + 1, h, writes - w0); new (&l) OpStatsLoggerImpl(std::make_unique<Db>(&seq, &fail, &writes), &logs, &flags, "", ""); (void)ok;
  }
}
static void Threads() {
  OpStatsSequence seq; bool fail = false; int writes = 0; Logs logs; MyFlags flags; flags.phases = vh::R(2);
  { OpStatsLoggerImpl l(std::make_unique<Db>(&seq, &fail, &writes), &logs, &flags, "s", "p"); if (flags.phases) l.StartLoggingForPhase(OperationalStats::PhaseStats::COMPUTATION); std::vector<std::thread> ts; for (int t = 0; t < 4; ++t) ts.emplace_back([&] { for (int i = 0; i < 200; ++i) { l.UpdateDatasetStats("u", 1, 3); if (i % 50 == 0) l.AddEvent(OperationalStats::Event::EVENT_KIND_CHECKIN_STARTED); } }); for (auto& t : ts) t.join(); }
  const auto& o = seq.opstats(0); int n = flags.phases ? o.phase_stats(0).dataset_stats().at("u").num_examples_read() : o.dataset_stats().at("u").num_examples_read(); int e = flags.phases ? o.phase_stats(0).events_size() : o.events_size(); CHECKP("concurrent", n == 800 && e == 16, "examples", n, "of 800, events", e, "of 16");
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try { for (int i = 0; i < 20; ++i) Threads(); while (vh::TimeLeft()) Sequence(); } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
