// The real server with real clients under a random schedule of proper, missing, repeated, malformed and misplaced messages, drop-outs and attempts to go on, against a model of who counts.
// PROP selects what is judged (10: thresholds and counts, 11: the result); a case that goes wrong for the other property is abandoned.
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "fcp/base/scheduler.h"
#include "fcp/secagg/client/secagg_client.h"
#include "fcp/secagg/server/aes/aes_secagg_server_protocol_impl.h"
#include "fcp/secagg/server/experiments_interface.h"
#include "fcp/secagg/server/experiments_names.h"
#include "fcp/secagg/server/secagg_server.h"
#include "fcp/secagg/server/secret_sharing_graph_factory.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/crypto_rand_prng.h"
#include "fcp/secagg/shared/secagg_messages.pb.h"
#include "harness.h"
using namespace fcp::secagg;
typedef std::vector<uint64_t> Vec;
typedef ClientToServerWrapperMessage Out;
typedef ServerToClientWrapperMessage In;
static int judged = 0;
struct Abandon {};
#define CK(p, key, cond, ...) do { bool ok_ = (cond); if (p == PROP) { ++judged; CHECKP(key, ok_, what, "|", log, "|", __VA_ARGS__); } if (!ok_) throw Abandon(); } while (0)
struct Sender : SendToServerInterface {
  explicit Sender(std::deque<Out>* o) : out(o) {}
  void Send(Out* m) override { out->push_back(*m); }
  std::deque<Out>* out;
};
struct Listener : StateTransitionListenerInterface {
  void Transition(ClientState) override {}
  void Started(ClientState) override {}
  void Stopped(ClientState) override {}
  void set_execution_session_id(int64_t) override {}
};
struct Queue : fcp::Scheduler {
  void Schedule(std::function<void()> t) override { tasks.push_back(std::move(t)); }
  void WaitUntilIdle() override {}
  bool Step() { if (tasks.empty()) return false; auto t = std::move(tasks.front()); tasks.pop_front(); t(); return true; }
  void Pump() { while (Step()) {} }
  std::deque<std::function<void()>> tasks;
};
struct Net : SendToClientsInterface {
  void Send(uint32_t to, const In& m) override { sent.emplace_back(to, m); }
  std::vector<std::pair<uint32_t, In>> sent;
};
struct Flags : ExperimentsInterface {
  explicit Flags(bool a) : async(a) {}
  bool IsEnabled(absl::string_view n) override { return async && n == kSecAggAsyncRound2Experiment; }
  bool async;
};
struct Model {
  int n, min, round = 0, before = 0, after = 0, term = 0, msgs = 0; bool abort = false;
  std::vector<bool> got, dead, in, unm;   // got: proper message of this round accepted (or, last round, at any time)
  explicit Model(int n_, int min_) : n(n_), min(min_), got(n_), dead(n_), in(n_), unm(n_) {}
  int alive() const { return n - before - after - term; }
  int ready() const { int r = 0; for (int i = 0; i < n; ++i) r += got[i] && (round == 3 || !dead[i]); return r; }
  bool can() const { return abort || (round == 3 ? msgs : ready()) >= min; }
  void accept(int i) { got[i] = true; ++msgs; if (round == 2) in[i] = true; if (round == 3) unm[i] = true; }
  void drop(int i, bool early = false) {
    if (dead[i]) return;
    dead[i] = true;
    if (round < 3) { if (round == 2 && got[i]) ++after; else ++before; if (alive() < min) abort = true; return; }
    if (round > 3 || got[i]) return;
    if (early) ++term; else ++after;
    if (alive() - ready() + msgs < min) abort = true;
  }
  void next() { for (int i = 0; i < n; ++i) if (!dead[i] && !got[i]) drop(i, round == 3); ++round; msgs = 0; for (int i = 0; i < n; ++i) got[i] = false; }
};
static uint64_t Modulus() {
  switch (vh::R(4)) { case 0: return 1ull << (1 + vh::R(62)); case 1: return 2 + vh::R(50); case 2: return (1ull << 62) - vh::R(3); default: return 2 + (vh::R64() >> (2 + vh::R(61))); }
}
static void Spoil(std::string* s) { if (s->size() > 1) (*s)[1 + vh::R(s->size() - 1)] ^= 1 << vh::R(7); }
// A message of the given round that must be refused; false if there is none to be made of this one.
static bool Malform(int round, Out* m) {
  int k = vh::R(4);
  if (!(round == 0 ? m->has_advertise_keys() : round == 1 ? m->has_share_keys_response() : round == 2 ? m->has_masked_input_response() : m->has_unmasking_response())) return false;
  if (round == 0) {
    auto* p = m->mutable_advertise_keys()->mutable_pair_of_public_keys(); std::string* s = k & 1 ? p->mutable_noise_pk() : p->mutable_enc_pk();
    if (k & 2) s->clear(); else if (vh::R(2)) s->pop_back(); else s->push_back('x');
    return true;
  }
  if (round == 1) {
    auto* v = m->mutable_share_keys_response()->mutable_encrypted_key_shares();
    if (k == 0) { v->RemoveLast(); return true; }
    if (k == 1) { *v->Add() = vh::R(2) ? "" : "x"; return true; }
    std::vector<int> c; for (int i = 0; i < v->size(); ++i) if ((*v)[i].empty() == (k == 2)) c.push_back(i);
    if (c.empty()) return false;
    *v->Mutable(c[vh::R(c.size())]) = k == 2 ? "something" : "";
    return true;
  }
  if (round == 2) {
    auto* v = m->mutable_masked_input_response()->mutable_vectors(); std::vector<std::string> names; for (auto& e : *v) names.push_back(e.first);
    if (names.empty()) return false;
    std::sort(names.begin(), names.end()); std::string x = names[vh::R(names.size())], b = v->at(x).encoded_vector();
    if (k == 0) v->erase(x);
    else if (k == 1) { v->erase(x); (*v)["another"].set_encoded_vector(b); }
    else if (k == 2) { if (vh::R(2)) b.pop_back(); else b.push_back('x'); (*v)[x].set_encoded_vector(b); }
    else (*v)["another"].set_encoded_vector(b);
    return true;
  }
  auto* v = m->mutable_unmasking_response()->mutable_noise_or_prf_key_shares();
  int bad = vh::R(v->size());
  for (int i = 0; i < v->size(); ++i) {   // what is refused must leave no trace: spoil the rest
    auto* e = v->Mutable(i);
    if (e->has_prf_sk_share()) Spoil(e->mutable_prf_sk_share()); else if (e->has_noise_sk_share()) Spoil(e->mutable_noise_sk_share());
  }
  if (k == 0) { v->RemoveLast(); return true; }
  if (k == 1) { v->Add()->set_prf_sk_share("x"); return true; }
  auto* e = v->Mutable(bad); std::string s;
  if (e->has_prf_sk_share()) { s = e->prf_sk_share(); if (k == 2) e->set_noise_sk_share(s); else e->Clear(); }
  else if (e->has_noise_sk_share()) { s = e->noise_sk_share(); if (k == 2) e->set_prf_sk_share(s); else e->Clear(); }
  else { s.assign(36, 'q'); if (k == 2) e->set_noise_sk_share(s); else e->set_prf_sk_share(s); }
  return true;
}
static void Run(int turn) {
  bool big = turn % 40 == 7, subgraph = big || vh::R(2), async = vh::R(2);
  int n = big ? 34 + vh::R(6) : 3 + vh::R(6), degree = n, t, min;
  if (subgraph) { degree = big ? 5 : 3 + 2 * vh::R((n - 1) / 2); t = 2 + vh::R(degree > 3 ? 2 : 1); } else t = 2 + vh::R(n - 1);
  min = t + vh::R(n - t + 1);
  if (vh::R(2)) min = t;
  int wild = big ? 60 : vh::R(3) ? 8 + vh::R(30) : 4;   // one in `wild` steps is out of the ordinary
  std::string what = S(n, "clients, at least", min, subgraph ? S("degree", degree) : "complete", "threshold", t, async ? "async" : ""), log;
  vh::Case(what);
  std::vector<InputVectorSpecification> specs; std::vector<std::map<std::string, Vec>> in(n);
  for (int i = big ? 1 : 1 + vh::R(2); i > 0; --i) {
    std::string name = S("v", i); uint64_t m = Modulus(); int len = 1 + vh::R(6); specs.emplace_back(name, len, m);
    for (int c = 0; c < n; ++c) for (int j = 0; j < len; ++j) in[c][name].push_back(vh::R(4) ? vh::R64() % m : m - 1);
  }
  SecretSharingGraphFactory gf; std::unique_ptr<SecretSharingGraph> graph;
  if (subgraph) graph = gf.CreateHararyGraph(n, degree, t, vh::R(2)); else graph = gf.CreateCompleteGraph(n, t);
  Queue queue; Net net; std::vector<std::deque<Out>> out(n); std::vector<std::unique_ptr<SecAggClient>> client;
  auto impl = std::make_unique<AesSecAggServerProtocolImpl>(std::move(graph), min, specs, nullptr, std::make_unique<AesCtrPrngFactory>(), &net, std::make_unique<SecAggScheduler>(&queue, &queue), std::vector<ClientStatus>(n, ClientStatus::READY_TO_START), ServerVariant::NATIVE_V1, std::make_unique<Flags>(async));
  SecAggServer server(std::move(impl));
  struct Drain { Queue* q; ~Drain() { q->Pump(); } } drain{&queue};
  for (int i = 0; i < n; ++i) {
    client.push_back(std::make_unique<SecAggClient>(degree, t, specs, std::make_unique<CryptoRandPrng>(), std::make_unique<Sender>(&out[i]), std::make_unique<Listener>(), std::make_unique<AesCtrPrngFactory>()));
    auto v = std::make_unique<SecAggVectorMap>(); for (auto& s : specs) v->emplace(s.name(), SecAggVector(in[i][s.name()], s.modulus()));
    if (!client[i]->SetInput(std::move(v)).ok() || !client[i]->Start().ok()) throw Abandon();
  }
  Model m(n, min); std::map<std::string, int> owner; std::vector<std::set<int>> seen(n); size_t read = 0; std::vector<bool> entered(n);
  auto deliver = [&]() {
    for (; read < net.sent.size(); ++read) {
      int to = net.sent[read].first; const In& x = net.sent[read].second;
      CK(10, "recipient", to >= 0 && to < n, "a message for client", to);
      if (x.has_share_keys_request()) for (auto& p : x.share_keys_request().pairs_of_public_keys()) if (owner.count(p.noise_pk())) seen[to].insert(owner[p.noise_pk()]);
      if (client[to]->IsAborted() || client[to]->IsCompletedSuccessfully()) continue;
      (void)client[to]->ReceiveMessage(x);
    }
  };
  auto compare = [&]() {
    std::set<uint32_t> d; for (auto x : server.AbortedClientIds()) d.insert(x);
    for (int i = 0; i < n; ++i) CK(10, "dropped-set", d.count(i) == m.dead[i], "client", i, m.dead[i] ? "should be dropped" : "should not be dropped");
    CK(10, "alive", server.NumberOfAliveClients() == m.alive(), "alive", server.NumberOfAliveClients(), "expected", m.alive());
    CK(10, "failed-before", server.NumberOfClientsFailedBeforeSendingMaskedInput() == m.before, "failed before sending input", server.NumberOfClientsFailedBeforeSendingMaskedInput(), "expected", m.before);
    CK(10, "failed-after", server.NumberOfClientsFailedAfterSendingMaskedInput() == m.after, "failed after sending input", server.NumberOfClientsFailedAfterSendingMaskedInput(), "expected", m.after);
    CK(10, "terminated", server.NumberOfClientsTerminatedWithoutUnmasking() == m.term, "terminated without unmasking", server.NumberOfClientsTerminatedWithoutUnmasking(), "expected", m.term);
    if (server.IsAborted()) return;
    int inc = 0; for (int i = 0; i < n; ++i) inc += m.in[i];
    CK(10, "included", server.NumberOfIncludedInputs() == inc, "included inputs", server.NumberOfIncludedInputs(), "expected", inc);
    CK(10, "committed", server.IsNumberOfIncludedInputsCommitted() == (m.round > 2), "inputs committed in round", m.round);
    if (m.round > 3) return;
    CK(10, "pending", server.NumberOfPendingClients() == m.alive() - m.ready(), "pending", server.NumberOfPendingClients(), "expected", m.alive() - m.ready());
    CK(10, "ready-count", server.NumberOfClientsReadyForNextRound().value() == m.ready(), "ready", server.NumberOfClientsReadyForNextRound().value(), "expected", m.ready());
    CK(10, "messages", server.NumberOfMessagesReceivedInThisRound().value() == m.msgs, "messages", server.NumberOfMessagesReceivedInThisRound().value(), "expected", m.msgs);
    CK(10, "needed", server.MinimumMessagesNeededForNextRound().value() == std::max(0, min - (m.round == 3 ? m.msgs : m.ready())), "messages needed", server.MinimumMessagesNeededForNextRound().value());
    if (queue.tasks.empty()) CK(10, "ready", server.ReadyForNextRound().value() == m.can(), "ready to go on:", server.ReadyForNextRound().value(), "in round", m.round, "alive", m.alive(), "ready", m.ready(), "messages", m.msgs);
    else CK(11, "ready-with-work-left", m.round != 2 || !server.ReadyForNextRound().value(), "ready while inputs are still being added");
  };
  auto proceed = [&]() {
    bool pending = !queue.tasks.empty() && m.round == 2;
    bool can = m.can() && !pending, abort = m.abort; size_t mark = net.sent.size(); auto st = server.State();
    auto s = server.ProceedToNextRound(); log += " P";
    if (!can) { CK(10, "early", s.code() == absl::StatusCode::kUnavailable && server.State() == st && net.sent.size() == mark, "goes on in round", m.round, "with", m.ready(), "clients ready"); compare(); return; }
    CK(10, "refuses-to-proceed", s.ok(), "does not go on in round", m.round, "with", m.ready(), "clients ready");
    if (abort) {
      CK(10, "no-abort", server.IsAborted() && server.ErrorMessage().ok() && !server.ErrorMessage()->empty() && !server.Result().ok(), "goes on with", m.alive(), "clients alive");
      std::set<int> told; for (size_t i = mark; i < net.sent.size(); ++i) { CK(10, "abort-message", net.sent[i].second.has_abort(), "another message after the abort"); told.insert(net.sent[i].first); }
      for (int i = 0; i < n; ++i) if (!m.dead[i] && !(m.round == 3 && m.got[i])) CK(10, "not-told", told.count(i) == 1, "live client", i, "is not told of the abort");
      return;
    }
    std::vector<bool> was = m.dead; m.next();
    if (m.round == 2) for (int i = 0; i < n; ++i) entered[i] = !m.dead[i];
    CK(10, "next-state", !server.IsAborted() && server.State() == static_cast<SecAggServerStateKind>(st + 1), "state", server.State(), "after", st);
    if (m.round < 4) {
      std::vector<int> req(n); for (size_t i = mark; i < net.sent.size(); ++i) { auto& x = net.sent[i].second; if (m.round == 1 ? x.has_share_keys_request() : m.round == 2 ? x.has_masked_input_request() : x.has_unmasking_request()) ++req[net.sent[i].first]; else CK(10, "dropped-told", x.has_abort() && m.dead[net.sent[i].first] && !was[net.sent[i].first], "client", net.sent[i].first, "gets an unexpected message"); }
      for (int i = 0; i < n; ++i) CK(10, "requests", req[i] == !m.dead[i], "client", i, m.dead[i] ? "dropped" : "live", "gets", req[i], "requests for the next round");
    }
    deliver(); compare();
  };
  auto send = [&](int i, const Out& x) {
    size_t mark = net.sent.size(); bool was = m.dead[i];
    auto r = server.ReceiveMessage(i, std::make_unique<Out>(x));
    CK(10, "receive", r.ok(), "message refused with", r.status().message());
    if (was) CK(10, "dead-client-answered", net.sent.size() == mark, "a message goes out because of a dropped client");
    (void)r;
  };
  while (m.round < 4 && !server.IsAborted()) {
    std::vector<int> order(n); for (int i = 0; i < n; ++i) order[i] = i; std::shuffle(order.begin(), order.end(), vh::Rng());
    int r0 = m.round; std::vector<int> silent;
    for (int i : order) {
      if (vh::R(10) == 0) proceed();
      if (server.IsAborted() || m.round != r0) break;
      if (vh::R(2)) queue.Pump(); else if (vh::R(2)) queue.Step();
      Out x; bool have = !out[i].empty() && !client[i]->IsAborted(); if (have) x = out[i].front();
      if (have && r0 == 0) owner[x.advertise_keys().pair_of_public_keys().noise_pk()] = i;
      int act = vh::R(wild) == 0 ? 1 + vh::R(6) : 0;
      if (m.dead[i] && !have) { x.Clear(); x.mutable_advertise_keys(); have = true; act = 0; if (vh::R(4)) continue; }
      if (client[i]->IsAborted() && !m.dead[i] && !out[i].empty()) { x = out[i].back(); out[i].clear(); log += S(" A", i); send(i, x); m.drop(i); deliver(); compare(); continue; }
      if (act == 1 || !have) { silent.push_back(i); continue; }
      log += S("", r0) + ":" + S(i) + "/" + S(act);
      if (act == 0) { out[i].clear(); send(i, x); if (!m.dead[i]) m.accept(i); }
      if (act == 2) { Out a; a.mutable_abort()->set_diagnostic_info("x"); send(i, a); m.drop(i); }
      if (act == 3) {
        static const ClientAbortReason why[] = {ClientAbortReason::INVALID_MESSAGE, ClientAbortReason::NOT_CHECKED_IN, ClientAbortReason::CONNECTION_DROPPED};
        if (vh::R(2) && !m.dead[i]) { out[i].clear(); send(i, x); m.accept(i); compare(); }
        CK(10, "abort-client", server.AbortClient(i, why[vh::R(3)]).ok(), "cannot drop a client"); m.drop(i);
      }
      if (act == 4) { Out a; if (r0 != 0) a.mutable_advertise_keys()->mutable_pair_of_public_keys()->set_enc_pk(std::string(33, 'k')); else a.mutable_share_keys_response(); if (vh::R(4) == 0) a.Clear(); send(i, a); m.drop(i); }
      if (act == 5) { Out a = x; if (!Malform(r0, &a)) continue; send(i, a); m.drop(i); }
      if (act == 6) {
        out[i].clear(); send(i, x); if (!m.dead[i]) m.accept(i); compare();
        Out a = x; if (r0 == 3) for (auto& e : *a.mutable_unmasking_response()->mutable_noise_or_prf_key_shares()) { if (e.has_prf_sk_share()) Spoil(e.mutable_prf_sk_share()); else if (e.has_noise_sk_share()) Spoil(e.mutable_noise_sk_share()); }
        send(i, a); m.drop(i);
      }
      deliver(); compare();
      if (vh::R(25) == 0) { int bad = n + vh::R(3); auto s = server.ReceiveMessage(bad, std::make_unique<Out>(x)); CK(10, "unknown-client", !s.ok() && !server.AbortClient(bad, ClientAbortReason::INVALID_MESSAGE).ok(), "a client number out of range is accepted"); compare(); }
    }
    if (server.IsAborted()) break;
    if (m.round != r0) continue;
    std::shuffle(silent.begin(), silent.end(), vh::Rng());
    for (int i : silent) { queue.Pump(); if (m.can() && vh::R(2)) break; CK(10, "abort-client", server.AbortClient(i, ClientAbortReason::CONNECTION_DROPPED).ok(), "cannot drop a client"); m.drop(i); log += S(" D", i); compare(); }
    queue.Pump(); deliver(); compare();
    if (m.round == r0 && !m.can() && r0 < 4) { for (int i = 0; i < n && !m.can(); ++i) if (!m.dead[i] && !m.got[i]) { CK(10, "abort-client", server.AbortClient(i, ClientAbortReason::NOT_CHECKED_IN).ok(), "cannot drop a client"); m.drop(i); compare(); } }
    CK(10, "stuck", m.can(), "the round can neither end nor be aborted");
    proceed();
  }
  if (server.IsAborted()) {
    CK(10, "after-abort", !server.ProceedToNextRound().ok() && !server.ReceiveMessage(0, std::make_unique<Out>()).ok() && !server.Result().ok(), "a request is served after the abort");
    return;
  }
  bool called = false; server.SetAsyncCallback([&] { called = true; });
  bool ok = true, last = vh::R(2);
  for (int c = 0; c < n; ++c) if (entered[c]) {   // keys have to be put together from the shares that came in
    int k = 0; for (int d = 0; d < n; ++d) k += m.unm[d] && seen[d].count(c);
    ok = ok && k >= t;
  }
  if (last) for (int i = 0; i < n; ++i) if (vh::R(4) == 0) { Out a; if (vh::R(2)) a.mutable_abort(); auto r = server.ReceiveMessage(i, std::make_unique<Out>(a)); CK(10, "receive", r.ok(), "message refused"); m.drop(i); compare(); }
  queue.Pump();
  CK(11, "callback", called, "the end of the computation is not announced");
  CK(11, "finished", server.ReadyForNextRound().value(), "the computation does not end");
  CK(11, "proceed", server.ProceedToNextRound().ok(), "cannot finish");
  CK(11, "outcome", server.IsCompletedSuccessfully() == ok && server.IsAborted() == !ok, ok ? "aborted though enough shares came in:" : "completed though too few shares came in", server.IsAborted() ? *server.ErrorMessage() : "");
  auto res = server.Result();
  CK(11, "result", res.ok() == ok, "result", res.status().message());
  if (!ok) return;
  CK(11, "vectors", (*res)->size() == specs.size(), "number of vectors", (*res)->size());
  for (auto& s : specs) {
    CK(11, "vectors", (*res)->count(s.name()) == 1 && (*res)->at(s.name()).modulus() == s.modulus(), "no vector", s.name());
    Vec got = (*res)->at(s.name()).GetAsUint64Vector(); CK(11, "length", got.size() == static_cast<size_t>(s.length()), "length", got.size());
    for (int j = 0; j < s.length(); ++j) {
      unsigned __int128 w = 0; for (int c = 0; c < n; ++c) if (m.in[c]) w += in[c][s.name()][j];
      CK(11, "sum", got[j] == static_cast<uint64_t>(w % s.modulus()), "element", j, "is", got[j], "expected", static_cast<uint64_t>(w % s.modulus()), "modulus", s.modulus());
    }
  }
  compare();
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    int turn = 0;
    while (vh::TimeLeft()) try { Run(turn++); } catch (const Abandon&) {}
    if (!judged && !vh::Fails()) { std::fprintf(stderr, "no case reached what is judged\n"); return 3; }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
