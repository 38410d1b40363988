// C20: eligibility decisions against a reference that asks every policy of every task.
#include "re2/re2.h"
#include "fcp/base/simulated_clock.h"
#include "fcp/client/eligibility_decider.h"
#include "fcp/client/example_query_result.pb.h"
#include "fcp/client/flags.h"
#include "fcp/client/selector_context.pb.h"
#include "google/protobuf/util/time_util.h"
#include "tensorflow/core/example/example.pb.h"
#include "harness.h"
using namespace fcp::client;
using google::internal::federated::plan::EligibilityPolicyEvalSpec; using google::internal::federated::plan::ExampleSelector; using google::internal::federated::plan::PopulationEligibilitySpec; using google::internal::federatedml::v2::TaskEligibilityInfo; using google::protobuf::util::TimeUtil; using Ev = opstats::OperationalStats::Event;
namespace fcp::client::engine { PlanResult::PlanResult(PlanOutcome o, absl::Status s) : outcome(o), original_status(std::move(s)) {} }
static int Rn(int a, int b) { return a + (int)vh::R(b - a + 1); }
static int logged; static void Noop() { logged++; }
struct Fake { void** vt; void* pad[64] = {}; void* tab[256]; Fake() { for (auto& t : tab) t = (void*)&Noop; vt = tab; } };  // the two loggers: every method only counts
struct Source { bool handled = true, bad_create = false; int n = 0, fail_at = -1; absl::StatusCode code = absl::StatusCode::kInternal; int64_t stated = 0; bool garbled = false; };
struct Iter : ExampleIterator { Source s; bool query; int k = 0; Iter(const Source& s, bool q) : s(s), query(q) {} void Close() override {}
  absl::StatusOr<std::string> Next() override { if (k == s.fail_at) return absl::Status(s.code, "next"); if (query) { if (s.garbled) return std::string("\xff\xff\xff"); ExampleQueryResult r; r.mutable_stats()->set_example_count_for_logs(s.stated); k++; return r.SerializeAsString(); } if (k >= s.n) return absl::OutOfRangeError("end"); k++; return std::string("example"); } };
struct Factory : engine::ExampleIteratorFactory { std::string uri; Source s; bool CanHandle(const ExampleSelector& e) override { return s.handled && e.collection_uri() == uri; } bool ShouldCollectStats() override { return false; }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector&) override { if (s.bad_create) return absl::InternalError("create"); return std::make_unique<Iter>(s, false); }
  absl::StatusOr<std::unique_ptr<ExampleIterator>> CreateExampleIterator(const ExampleSelector&, const SelectorContext& c) override { if (s.bad_create) return absl::InternalError("create"); return std::make_unique<Iter>(s, c.computation_properties().example_iterator_output_format() == QueryTimeComputationProperties::EXAMPLE_QUERY_RESULT); } };
struct Answer { bool run_fails = false, parse_fails = false; std::map<std::string, float> weight; };
struct Runner : EetPlanRunner { std::map<std::string, Answer> answers; std::string policy; std::vector<std::string> tasks; std::string bad;
  engine::PlanResult RunPlan(std::vector<engine::ExampleIteratorFactory*> fs) override { ExampleSelector sel; sel.set_collection_uri("internal:/eligibility_context"); policy.clear(); tasks.clear(); bool got = false;
    for (auto* f : fs) if (f->CanHandle(sel)) { auto it = f->CreateExampleIterator(sel); if (!it.ok()) break; auto x = (*it)->Next(); tensorflow::Example e; if (!x.ok() || !e.ParseFromString(*x)) break; auto& m = e.features().feature(); if (!m.count("policy_name") || !m.count("task_names") || m.at("policy_name").bytes_list().value_size() != 1) break; policy = m.at("policy_name").bytes_list().value(0); for (auto& t : m.at("task_names").bytes_list().value()) tasks.push_back(t); got = true; break; }
    if (!got) bad = "no context example"; auto& a = answers[policy]; return engine::PlanResult(a.run_fails ? engine::PlanOutcome::kTensorflowError : engine::PlanOutcome::kSuccess, a.run_fails ? absl::InternalError("run") : absl::OkStatus()); }
  absl::StatusOr<TaskEligibilityInfo> ParseOutput(const std::vector<tensorflow::Tensor>&) override { auto& a = answers[policy]; if (a.parse_fails) return absl::InternalError("parse"); TaskEligibilityInfo r; for (auto& t : tasks) { auto* w = r.add_task_weights(); w->set_task_name(t); w->set_weight(a.weight.count(t) ? a.weight[t] : 0); } auto* w = r.add_task_weights(); w->set_task_name("other"); w->set_weight(1); return r; } };
struct Fl : Flags { bool q, t, l; int64_t condition_polling_period_millis() const override { return 0; } int64_t tf_execution_teardown_grace_period_millis() const override { return 0; } int64_t tf_execution_teardown_extended_period_millis() const override { return 0; } bool log_tensorflow_error_messages() const override { return false; } bool use_example_query_result_for_data_avail() const override { return q; } bool check_trustworthiness_for_min_sep_policy() const override { return t; } bool enable_lightweight_computation_id() const override { return l; } };
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  static const char* kTasks[] = {"g/a", "g/b", "x", "y/a", "g/ab"}; static const char* kRe[] = {"g/.*", "g/a", "[xy].*", "(", "none", "a"};
  try {
    while (vh::TimeLeft()) {
      Fl fl; fl.q = Rn(0, 1); fl.t = Rn(0, 1); fl.l = Rn(0, 1); fcp::SimulatedClock clock; absl::Time now = absl::FromUnixMillis(1000000 + Rn(0, 100)); clock.SetTime(now);
      opstats::OpStatsSequence h; if (Rn(0, 5)) *h.mutable_earliest_trustworthy_time() = TimeUtil::MillisecondsToTimestamp(Rn(0, 3) ? Rn(0, 400000) : 1000000 - Rn(-50, 300000)); struct Last { int64_t ms; bool has; int64_t index; }; std::map<std::string, Last> last; std::vector<std::string> order; int64_t t = Rn(500000, 900000);
      for (int i = Rn(0, 5); i > 0; i--) { auto& r = *h.add_opstats(); std::string n = kTasks[Rn(0, 4)]; r.set_task_name(n); t += Rn(0, 40000); bool done = Rn(0, 3), abrt = done && !Rn(0, 5), has = Rn(0, 3); int64_t ix = Rn(-2, 20); auto add = [&](int k) { auto& e = *r.add_events(); e.set_event_type((Ev::EventKind)k); *e.mutable_timestamp() = TimeUtil::MillisecondsToTimestamp(t); }; add(Ev::EVENT_KIND_CHECKIN_STARTED); if (done) add(Ev::EVENT_KIND_RESULT_UPLOAD_STARTED); if (abrt) { t++; add(Ev::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED); } if (has) r.set_min_sep_policy_index(ix); if (done && !abrt) { last[n] = {t, has, ix}; order.push_back(n); } }
      Runner runner; std::vector<Factory> fs(3); std::vector<engine::ExampleIteratorFactory*> fp; for (int i = 0; i < 3; i++) { auto& f = fs[i]; f.uri = S("c", i); f.s.handled = Rn(0, 9); f.s.bad_create = !Rn(0, 9); f.s.n = Rn(0, 5); f.s.stated = Rn(0, 5); f.s.fail_at = Rn(0, 4) ? -1 : Rn(0, 3); f.s.code = Rn(0, 2) ? absl::StatusCode::kInternal : absl::StatusCode::kCancelled; f.s.garbled = !Rn(0, 9); fp.push_back(&f); }
      PopulationEligibilitySpec spec; int np = Rn(0, 5), nt = Rn(0, 5);
      for (int i = 0; i < np; i++) { auto& p = *spec.add_eligibility_policies(); p.set_name(S("p", Rn(0, 2) ? i : Rn(0, 3))); p.set_min_version(Rn(0, 9) ? Rn(0, 1) : Rn(1, 3));
        int64_t gap = order.empty() ? 0 : 1000 * 1000 + Rn(0, 100) - last[order[Rn(0, order.size() - 1)]].ms; auto near = [&](int64_t ms) { return TimeUtil::MicrosecondsToDuration(std::max<int64_t>(0, ms * 1000 + Rn(-1, 1))); }; int64_t exact = order.empty() ? 0 : absl::ToUnixMillis(now) - last[order[Rn(0, order.size() - 1)]].ms; int64_t trust = absl::ToUnixMillis(now) - TimeUtil::TimestampToMilliseconds(h.earliest_trustworthy_time());
        auto dur = [&]() { int k = Rn(0, 6); return k == 0 ? near(trust) : k <= 3 ? near(exact) : k == 4 ? near(gap) : near(Rn(0, 600000)); };
        switch (Rn(0, 8)) {
          case 0: case 1: { auto& s = *p.mutable_swor_policy(); *s.mutable_min_period() = dur(); if (Rn(0, 1)) s.set_group_regex(kRe[Rn(0, 5)]); break; }
          case 2: case 3: case 7: { auto& d = *p.mutable_data_availability_policy(); d.mutable_selector()->set_collection_uri(S("c", Rn(0, Rn(0, 5) ? 2 : 3))); d.set_min_example_count(Rn(-1, 5)); d.set_use_example_query_result_format(Rn(0, 1)); break; }
          case 4: { p.mutable_tf_custom_policy(); auto& a = runner.answers[p.name()]; a.run_fails = !Rn(0, 5); a.parse_fails = !Rn(0, 7); for (auto n : kTasks) if (Rn(0, 2)) a.weight[n] = Rn(0, 4) - 1.f; break; }
          case 5: case 6: { auto& m = *p.mutable_min_sep_policy(); m.set_current_index(Rn(-2, 25)); m.set_minimum_separation(Rn(0, 8)); if (!order.empty() && Rn(0, 1)) m.set_minimum_separation(std::max<int64_t>(0, m.current_index() - last[order[Rn(0, order.size() - 1)]].index + Rn(-1, 1))); if (Rn(0, 1)) *m.mutable_min_trustworthiness_period() = dur(); break; }
        } }
      for (int i = 0; i < nt; i++) { auto& x = *spec.add_task_info(); x.set_task_name(Rn(0, 9) ? kTasks[i] : kTasks[Rn(0, 4)]); for (int k = Rn(0, 3); k > 0; k--) x.add_eligibility_policy_indices(Rn(0, 12) ? Rn(0, std::max(0, np - 1)) : Rn(-1, 6)); }
      auto allow = [&](int k, const std::string& n) -> bool { auto& p = spec.eligibility_policies(k); bool trusted = true; auto trust = [&](const google::protobuf::Duration& d) { return (absl::ToUnixMillis(now) - TimeUtil::TimestampToMilliseconds(h.earliest_trustworthy_time())) * 1000 >= TimeUtil::DurationToMicroseconds(d); }; auto out = [&](const std::string& m, const google::protobuf::Duration& d) { return (absl::ToUnixMillis(now) - last[m].ms) * 1000 > TimeUtil::DurationToMicroseconds(d); };
        if (p.has_swor_policy()) { auto& s = p.swor_policy(); if (p.min_version() > 1 || !trust(s.min_period())) return false; if (s.group_regex().empty()) return !last.count(n) || out(n, s.min_period()); RE2 re(s.group_regex(), RE2::Quiet); if (!re.ok()) return false; for (size_t i = order.size(); i-- > 0;) if (RE2::FullMatch(order[i], re)) return out(order[i], s.min_period()); return true; }
        if (p.has_data_availability_policy()) { auto& d = p.data_availability_policy(); if (p.min_version() > (fl.q ? 2 : 1)) return false; for (auto& f : fs) if (f.CanHandle(d.selector())) { if (f.s.bad_create) return false; if (fl.q && d.use_example_query_result_format()) return f.s.fail_at != 0 && !f.s.garbled && f.s.stated >= d.min_example_count(); return d.min_example_count() <= 0 || (f.s.n >= d.min_example_count() && (f.s.fail_at < 0 || f.s.fail_at >= d.min_example_count())); } return false; }
        if (p.has_tf_custom_policy()) { auto& a = runner.answers[p.name()]; return p.min_version() <= 1 && !a.run_fails && !a.parse_fails && a.weight.count(n) && a.weight[n] > 0; }
        if (p.has_min_sep_policy()) { auto& m = p.min_sep_policy(); if (p.min_version() > (fl.t ? 2 : 1)) return false; if (fl.t && TimeUtil::DurationToMicroseconds(m.min_trustworthiness_period()) != 0 && !trust(m.min_trustworthiness_period())) return false; return !last.count(n) || !last[n].has || m.current_index() - last[n].index > m.minimum_separation(); }
        (void)trusted; return false; };
      std::string d = S("flags", fl.q, fl.t, "now", absl::ToUnixMillis(now), "spec", spec.ShortDebugString(), "history", h.ShortDebugString(), "sources"); for (auto& f : fs) d += S("", f.uri, f.s.handled, f.s.bad_create, f.s.n, f.s.stated, f.s.fail_at, f.s.garbled); d = d.substr(0, 2500);
      Fake lm, pl; runner.bad.clear(); auto r = ComputeEligibility(spec, *reinterpret_cast<LogManager*>(&lm), *reinterpret_cast<PhaseLogger*>(&pl), h, clock, fp, runner, &fl);
      CHECKP("decided", r.ok() && r->version() == 1 && r->task_weights_size() == nt, S(d, "->", r.status().ToString())); if (!r.ok() || r->task_weights_size() != nt) continue; CHECKP("context", runner.bad.empty(), S(d, runner.bad));
      for (int i = 0; i < nt; i++) { auto& n = spec.task_info(i).task_name(); bool want = true; for (auto& x : spec.task_info()) if (x.task_name() == n) for (int k : x.eligibility_policy_indices()) if (k >= 0 && k < np) want = want && allow(k, n); auto& w = r->task_weights(i); CHECKP("eligible", w.task_name() == n && w.weight() == (want ? 1.f : 0.f), S(d, "task", n, "expected", want, "->", w.ShortDebugString())); }
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
