#include <memory>
#include <utility>
#include "fcp/base/future.h"
#include "fcp/base/move_to_lambda.h"
#include "fcp/base/unique_value.h"
namespace verif_inst {
using U = fcp::UniqueValue<long>;
struct Two { bool a_has; long a; bool b_has; long b; };
U Make(bool has, long v) { if (has) return U(v); return U(std::nullopt); }
Two See(U& a, U& b) { Two t; t.a_has = a.has_value(); t.a = 0; t.b_has = b.has_value(); t.b = 0; if (t.a_has) t.a = *a; if (t.b_has) t.b = *b; return t; }
Two Fresh(bool h1, long v1, bool h2, long v2) { U a = Make(h1, v1); U b = Make(h2, v2); return See(a, b); }
Two MoveConstruct(bool h1, long v1) { U a = Make(h1, v1); U b(std::move(a)); return See(a, b); }
Two MoveAssign(bool h1, long v1, bool h2, long v2) { U a = Make(h1, v1); U b = Make(h2, v2); a = std::move(b); return See(a, b); }
Two SelfAssign(bool h1, long v1) { U a = Make(h1, v1); U b = Make(false, 0); a = std::move(a); return See(a, b); }
Two TakeOut(long v1) { U a = Make(true, v1); U b = Make(false, 0); b.Emplace(std::move(a).Take()); return See(a, b); }
Two ResetOne(bool h1, long v1, bool h2, long v2) { U a = Make(h1, v1); U b = Make(h2, v2); a.Reset(); return See(a, b); }
Two EmplaceOne(bool h1, long v1, bool h2, long v2, long w) { U a = Make(h1, v1); U b = Make(h2, v2); a.Emplace(w); return See(a, b); }
Two Maker(long v) { U a = fcp::MakeUniqueValue<long>(v); U b = Make(false, 0); return See(a, b); }
Two Wrap(bool h1, long v1) { U a = Make(h1, v1); auto w = fcp::MoveToLambda(std::move(a)); auto w2 = w; auto w3 = w2; U b = std::move(*w3); U n = Make(false, 0); if ((*w).has_value() || (*w2).has_value()) return See(a, n); return See(a, b); }
struct Got { bool has; long v; bool ready_before; bool ready_after; };
using FP = fcp::thread::FuturePair<long>;
Got SetThenTake(long v) { FP p = fcp::thread::MakeFuture<long>(); Got g; g.ready_before = p.future.Wait(absl::ZeroDuration()); std::move(p.promise).Set(v); g.ready_after = p.future.Wait(absl::ZeroDuration()); std::optional<long> r = std::move(p.future).Take(); g.has = r.has_value(); g.v = 0; if (g.has) g.v = *r; return g; }
Got AbandonThenTake() { FP p = fcp::thread::MakeFuture<long>(); Got g; g.ready_before = p.future.Wait(absl::ZeroDuration()); p.promise.~Promise(); g.ready_after = p.future.Wait(absl::ZeroDuration()); std::optional<long> r = std::move(p.future).Take(); g.has = r.has_value(); g.v = 0; if (g.has) g.v = *r; return g; }
Got SetThenDestroy(long v) { FP p = fcp::thread::MakeFuture<long>(); Got g; g.ready_before = p.future.Wait(absl::ZeroDuration()); std::move(p.promise).Set(v); p.promise.~Promise(); g.ready_after = p.future.Wait(absl::ZeroDuration()); std::optional<long> r = std::move(p.future).Take(); g.has = r.has_value(); g.v = 0; if (g.has) g.v = *r; return g; }
Got MovedThenSet(long v) { FP p = fcp::thread::MakeFuture<long>(); Got g; fcp::thread::Promise<long> q = std::move(p.promise); p.promise.~Promise(); g.ready_before = p.future.Wait(absl::ZeroDuration()); std::move(q).Set(v); fcp::thread::Future<long> f = std::move(p.future); g.ready_after = f.Wait(absl::ZeroDuration()); std::optional<long> r = std::move(f).Take(); g.has = r.has_value(); g.v = 0; if (g.has) g.v = *r; return g; }
void SetTwice(long v, long w) { FP p = fcp::thread::MakeFuture<long>(); std::move(p.promise).Set(v); std::move(p.promise).Set(w); }
void TakeTwice(long v) { FP p = fcp::thread::MakeFuture<long>(); std::move(p.promise).Set(v); (void)std::move(p.future).Take(); (void)std::move(p.future).Take(); }
}  // namespace verif_inst
