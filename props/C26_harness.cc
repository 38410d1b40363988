#include "harness.h"
#include <functional>
#include <memory>
#include <thread>
#include <vector>
#include "fcp/base/future.h"
#include "fcp/base/move_to_lambda.h"
#include "fcp/base/scheduler.h"
#include "fcp/base/unique_value.h"
using fcp::UniqueValue;
// A value that counts its live instances per identity.
struct V {
  static std::vector<int>& Live() { static std::vector<int> l; return l; }
  int id = -1; V() = default; explicit V(int i) : id(i) { Add(1); } V(V&& o) : id(o.id) { o.id = -1; } V(const V&) = delete;
  V& operator=(V&& o) { if (this != &o) { Add(-1); id = o.id; o.id = -1; } return *this; } ~V() { Add(-1); }
  void Add(int d) { if (id >= 0) { if ((int)Live().size() <= id) Live().resize(id + 1); Live()[id] += d; } }
};
struct Ptr { static std::unique_ptr<int> Mk(int i) { return std::make_unique<int>(i); } static int Id(const std::unique_ptr<int>& p) { return p ? *p : -1; } };
template <class T, class Mk, class Id> static void Holders(const char* what, Mk mk, Id idof) {
  std::vector<UniqueValue<T>> h; std::vector<int> m; std::string hist = what; int next = 1; int n = 2 + vh::R(4);
  for (int i = 0; i < n; ++i) { if (vh::R(2)) { h.emplace_back(mk(next)); m.push_back(next++); } else { h.emplace_back(std::nullopt); m.push_back(-1); } }
  for (int step = 0; step < 20; ++step) {
    int i = vh::R(n), j = vh::R(n);
    switch (vh::R(9)) {
      case 0: hist += S("; a", i, "= move a", j); h[i] = std::move(h[j]); if (i != j) { m[i] = m[j]; m[j] = -1; } break;
      case 1: { hist += S("; x(move a", i, "); a", j, "= move x"); UniqueValue<T> x(std::move(h[i])); int v = m[i]; CHECKP("moved-from", !h[i].has_value(), hist); CHECKP("moved-to", x.has_value() == (v >= 0) && (v < 0 || idof(*x) == v), hist); m[i] = -1; h[j] = std::move(x); m[j] = v; CHECKP("assigned-from", !x.has_value(), hist); break; }
      case 2: hist += S("; reset a", i); h[i].Reset(); m[i] = -1; break;
      case 3: { hist += S("; emplace a", i, next); auto& r = h[i].Emplace(mk(next)); CHECKP("emplace-ref", &r == &*h[i], hist); m[i] = next++; break; }
      case 4: if (m[i] >= 0) { hist += S("; take a", i); T v = std::move(h[i]).Take(); CHECKP("take-value", idof(v) == m[i], hist, idof(v)); CHECKP("take-empty", !h[i].has_value(), hist); m[i] = -1; } break;
      case 5: if (m[i] >= 0 && i != j) { hist += S("; a", j, "= a", i, "taken"); h[j] = UniqueValue<T>(std::move(h[i]).Take()); m[j] = m[i]; m[i] = -1; } break;
      case 6: hist += S("; swap", i, j); std::swap(h[i], h[j]); std::swap(m[i], m[j]); break;
      case 7: { hist += S("; lambda a", i); auto w = fcp::MoveToLambda(std::move(h[i])); int v = m[i]; m[i] = -1; CHECKP("wrapped-from", !h[i].has_value(), hist); auto f = [w]() mutable { return std::move(*w); }; CHECKP("copied-from", !(*w).has_value(), hist); auto g = f; auto back = g(); CHECKP("unwrapped", back.has_value() == (v >= 0) && (v < 0 || idof(*back) == v), hist); UniqueValue<T> again = f(); CHECKP("no-duplicate", !again.has_value(), hist); h[j] = std::move(back); m[j] = v; break; }
      case 8: hist += S("; make a", i, next); h[i] = fcp::MakeUniqueValue<T>(mk(next)); m[i] = next++; break;
    }
    for (int k = 0; k < n; ++k) { CHECKP("has-value", h[k].has_value() == (m[k] >= 0), hist, "holder", k); const auto& ch = h[k]; if (m[k] >= 0 && ch.has_value()) CHECKP("value", idof(*ch) == m[k] && idof(*h[k].operator->()) == m[k], hist, "holder", k, idof(*ch), "expected", m[k]); }
  }
}
template <class F> static bool Refused(F f) { return vh::Dies(f); }
static void Futures() {
  using namespace fcp::thread; std::string v = vh::RandBytes(vh::R(20));
  { auto p = MakeFuture<std::string>(); CHECKP("not-ready", !p.future.Wait(absl::ZeroDuration()), "ready before set"); std::move(p.promise).Set(v); CHECKP("ready", p.future.Wait(absl::ZeroDuration()), "not ready after set"); auto r = std::move(p.future).Take(); CHECKP("future-value", r.has_value() && *r == v, vh::Hex(v)); CHECKP("take-twice", Refused([&] { (void)std::move(p.future).Take(); }), "second take"); }
  { auto p = MakeFuture<std::string>(); { auto q = std::move(p.promise); CHECKP("not-ready", !p.future.Wait(absl::ZeroDuration()), "ready before abandoned"); } CHECKP("ready", p.future.Wait(absl::ZeroDuration()), "not ready after the promise is gone"); auto r = std::move(p.future).Take(); CHECKP("abandoned", !r.has_value(), "value from an abandoned promise"); }
  { auto p = MakeFuture<std::string>(); auto f = std::move(p.future); auto q = std::move(p.promise); Promise<std::string> q2 = std::move(q); std::move(q2).Set(v); auto r = std::move(f).Take(); CHECKP("future-value", r.has_value() && *r == v, vh::Hex(v)); }
  { auto p = MakeFuture<std::string>(); std::move(p.promise).Set(v); CHECKP("set-twice", Refused([&] { std::move(p.promise).Set("x"); }), "second set"); auto r = std::move(p.future).Take(); CHECKP("future-value", r.has_value() && *r == v, "after second set"); }
  { auto a = MakeFuture<std::string>(); auto b = MakeFuture<std::string>(); b.promise = std::move(a.promise); std::move(b.promise).Set(v); auto r = std::move(a.future).Take(); CHECKP("future-value", r.has_value() && *r == v, "promise assigned"); }
  { auto p = MakeFuture<std::unique_ptr<int>>(); std::thread t([q = fcp::MoveToLambda(std::move(p.promise))]() mutable { std::move(*q).Set(std::make_unique<int>(7)); }); auto r = std::move(p.future).Take(); CHECKP("cross-thread", r.has_value() && *r && **r == 7, "value set by another thread"); t.join(); }
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    auto sch = fcp::CreateThreadPoolScheduler(3);
    for (int i = 0; i < 300; ++i) { auto f = fcp::thread::ScheduleFuture<int>(sch.get(), [i] { return i * 3; }); auto r = std::move(f).Take(); CHECKP("scheduled", r.has_value() && *r == i * 3, i); }
    sch->WaitUntilIdle();
    while (vh::TimeLeft()) {
      for (int i = 0; i < 200; ++i) { Holders<int>("int", [](int i) { return i; }, [](const int& i) { return i; }); Holders<std::unique_ptr<int>>("unique_ptr", Ptr::Mk, Ptr::Id); Holders<std::string>("string", [](int i) { return std::string(i % 40, 'x') + std::to_string(i); }, [](const std::string& s) { return s.empty() ? -1 : (int)std::strtol(s.c_str() + s.find_first_not_of('x'), nullptr, 10); }); }
      V::Live().clear(); Holders<V>("counted", [](int i) { return V(i); }, [](const V& v) { return v.id; }); for (size_t i = 0; i < V::Live().size(); ++i) CHECKP("alive", V::Live()[i] == 0, "value", i, "has", V::Live()[i], "instances left");
      for (int i = 0; i < 20; ++i) Futures();
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
