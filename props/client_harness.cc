// One real client driven through the protocol by a simulated server with real peers' keys: honest runs, drop-outs, and a malformed or hostile message at a chosen round.
// PROP selects the round whose behaviour is judged (8: key exchange, 9: masked input, 7: unmasking); a case that goes wrong in another round is abandoned.
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "fcp/secagg/client/secagg_client.h"
#include "fcp/secagg/shared/aes_ctr_prng_factory.h"
#include "fcp/secagg/shared/aes_gcm_encryption.h"
#include "fcp/secagg/shared/crypto_rand_prng.h"
#include "fcp/secagg/shared/ecdh_key_agreement.h"
#include "fcp/secagg/shared/map_of_masks.h"
#include "fcp/secagg/shared/secagg_messages.pb.h"
#include "fcp/secagg/shared/secagg_vector.h"
#include "fcp/secagg/shared/shamir_secret_sharing.h"
#include "harness.h"
using namespace fcp::secagg;
typedef std::vector<uint64_t> Vec;
typedef ClientToServerWrapperMessage Out;
typedef ServerToClientWrapperMessage In;
static int judged = 0;
struct Abandon {};
#define CK(p, key, cond, ...) do { bool ok_ = (cond); if (p == PROP) { ++judged; CHECKP(key, ok_, what, __VA_ARGS__); } if (!ok_) throw Abandon(); } while (0)
struct Sender : SendToServerInterface {
  explicit Sender(std::vector<Out>* o) : out(o) {}
  void Send(Out* m) override { out->push_back(*m); }
  std::vector<Out>* out;
};
struct Listener : StateTransitionListenerInterface {
  void Transition(ClientState) override {}
  void Started(ClientState) override {}
  void Stopped(ClientState) override {}
  void set_execution_session_id(int64_t) override {}
};
struct Peer {
  std::unique_ptr<EcdhKeyAgreement> enc, noise;
  AesKey enc_key, noise_key;
  std::string pair, self;
};
static std::vector<Peer>& Pool() { static std::vector<Peer> p; return p; }
static EcdhPublicKey Pub(const std::string& s) { return EcdhPublicKey(reinterpret_cast<const uint8_t*>(s.data())); }
static bool AbortOnly(const std::vector<Out>& sent, size_t from) { return sent.size() == from + 1 && sent[from].has_abort() && !sent[from].abort().diagnostic_info().empty(); }
enum Life { kLive, kDead1, kDead2, kDead3 };
static uint64_t Modulus() {
  switch (vh::R(4)) { case 0: return 1ull << (1 + vh::R(62)); case 1: return 2 + vh::R(50); case 2: return (1ull << 62) - vh::R(3); default: return 2 + (vh::R64() >> (2 + vh::R(61))); }
}
static std::unique_ptr<SecAggVectorMap> MakeInput(const std::map<std::string, Vec>& in, const std::map<std::string, uint64_t>& mod) {
  auto r = std::make_unique<SecAggVectorMap>();
  for (auto& e : in) r->emplace(e.first, SecAggVector(e.second, mod.at(e.first)));
  return r;
}
static In OtherMessage(int round) {
  In m;
  for (;;) {
    int k = vh::R(4);
    if (k == round) continue;
    if (k == 1) { auto* r = m.mutable_share_keys_request(); r->set_session_id(std::string(32, 's')); for (int i = 0; i < 3; ++i) { auto* p = r->add_pairs_of_public_keys(); p->set_enc_pk(Pool()[i].enc->PublicKey().AsString()); p->set_noise_pk(Pool()[i].noise->PublicKey().AsString()); } }
    if (k == 2) m.mutable_masked_input_request()->add_encrypted_key_shares("");
    if (k == 3) { m.mutable_unmasking_request(); for (uint64_t i = vh::R(3); i > 0; --i) m.mutable_unmasking_request()->add_dead_3_client_ids(1 + vh::R(4)); }
    return m;
  }
}
static void Run() {
  int n = 2 + vh::R(7), t = 2 + vh::R(n - 1), me = vh::R(n), maxn = n + vh::R(3), when = vh::R(4);
  int fault1 = vh::R(PROP == 8 ? 2 : 12) == 0 ? 1 + vh::R(10) : 0, fault2 = vh::R(PROP == 9 ? 2 : 12) == 0 ? 1 + vh::R(7) : 0, fault3 = vh::R(PROP == 7 ? 2 : 12) == 0 ? 1 + vh::R(6) : 0;
  bool bad_input = vh::R(4) == 0, others = vh::R(3) == 0;
  int drop = vh::R(3) ? 5 : 2 + vh::R(4);   // one in `drop` peers is lost in each round
  std::string what = S("client", me, "of", n, "threshold", t, "max", maxn, "input set at step", when, "faults", fault1, fault2, fault3);
  vh::Case(what);
  std::vector<InputVectorSpecification> specs; std::map<std::string, Vec> in; std::map<std::string, uint64_t> mod;
  for (int i = 1 + vh::R(2); i > 0; --i) {
    std::string name = S("v", i); uint64_t m = Modulus(); int len = 1 + vh::R(9); specs.emplace_back(name, len, m); mod[name] = m;
    for (int j = 0; j < len; ++j) in[name].push_back(vh::R(4) ? vh::R64() % m : m - 1);
  }
  std::vector<Out> sent;
  if (fault1 == 1) maxn = n - 1;
  if (fault1 == 2) t = n + 1;
  SecAggClient client(maxn, t, specs, std::make_unique<CryptoRandPrng>(), std::make_unique<Sender>(&sent), std::make_unique<Listener>(), std::make_unique<AesCtrPrngFactory>());
  auto bad = [&]() {   // an input that does not match the specification
    std::map<std::string, Vec> b = in; std::map<std::string, uint64_t> bm = mod; std::string k = in.begin()->first;
    switch (vh::R(6)) {
      case 0: b.erase(k); break;
      case 1: b["extra"] = {0, 1}; bm["extra"] = 2; break;
      case 2: b[k].push_back(0); break;
      case 3: if (b[k].size() > 1) b[k].pop_back(); else b[k].push_back(1); break;
      case 4: for (auto& x : b[k]) x = 0; bm[k] = mod[k] == 2 || (vh::R(2) && mod[k] < (1ull << 62)) ? mod[k] + 1 : mod[k] - 1; break;
      default: b["other"] = b[k]; bm["other"] = bm[k]; b.erase(k);
    }
    return MakeInput(b, bm);
  };
  auto set = [&](int now) {
    size_t before = sent.size(); std::string state = client.State();
    if (bad_input && vh::R(2)) {
      auto s = client.SetInput(bad());
      CK(9, "bad-input-accepted", !s.ok() && sent.size() == before && client.State() == state, "an input that does not match the specification is accepted in state", state);
    }
    if (now != when) return;
    auto s = client.SetInput(MakeInput(in, mod));
    CK(9, "input-refused", s.ok(), "a matching input is refused in state", state);
    size_t after = sent.size(); std::string st2 = client.State();
    if (vh::R(3) == 0) { std::map<std::string, Vec> in2 = in; for (auto& e : in2) for (auto& x : e.second) x = 0; CK(9, "second-input", !client.SetInput(MakeInput(in2, mod)).ok() && sent.size() == after && client.State() == st2, "a second input is accepted"); }
  };
  auto wrong = [&](int p, int round) {   // messages of other rounds are refused and change nothing
    if (!others) return;
    size_t before = sent.size(); std::string state = client.State(); auto r = client.ReceiveMessage(OtherMessage(round));
    CK(p, "other-message", !r.ok() && sent.size() == before && client.State() == state, "a message of another round has an effect in state", state);
  };
  set(0);
  CK(8, "start", client.Start().ok() && sent.size() == 1 && sent[0].has_advertise_keys(), "no key advertisement");
  std::string my_enc = sent[0].advertise_keys().pair_of_public_keys().enc_pk(), my_noise = sent[0].advertise_keys().pair_of_public_keys().noise_pk();
  CK(8, "keys", my_enc.size() == 33 && my_noise.size() == 33 && my_enc != my_noise, "advertised keys");
  set(1);
  wrong(8, 1);
  // ---- key exchange
  std::vector<Peer>& peer = Pool(); std::vector<Life> life(n, kLive);
  In m1; auto* r1 = m1.mutable_share_keys_request(); std::string sid = vh::RandBytes(fault1 == 3 ? (vh::R(2) ? 0 : vh::R(2) ? 31 : 33) : 32); r1->set_session_id(sid); r1->set_sec_agg_execution_logging_id(7);
  int alive = 0, victim = me; bool expect = true;
  for (int i = 0; i < n; ++i) {
    auto* p = r1->add_pairs_of_public_keys();
    if (i == me) { p->set_enc_pk(my_enc); p->set_noise_pk(my_noise); ++alive; continue; }
    peer[i].enc_key = peer[i].enc->ComputeSharedSecret(Pub(my_enc)).value(); peer[i].noise_key = peer[i].noise->ComputeSharedSecret(Pub(my_noise)).value();
    if (vh::R(drop) == 0) { life[i] = kDead1; int h = vh::R(4); if (h == 1) p->set_enc_pk(peer[i].enc->PublicKey().AsString()); if (h == 2) p->set_noise_pk(peer[i].noise->PublicKey().AsString()); continue; }
    p->set_enc_pk(peer[i].enc->PublicKey().AsString()); p->set_noise_pk(peer[i].noise->PublicKey().AsString()); ++alive; if (victim == me || vh::R(2)) victim = i;
  }
  if (alive < t) expect = false;
  auto* vp = r1->mutable_pairs_of_public_keys(victim);
  if (fault1 == 1 || fault1 == 2 || fault1 == 3) expect = false;
  if (fault1 == 4) { auto* p = r1->mutable_pairs_of_public_keys(me); p->set_enc_pk(peer[me].enc->PublicKey().AsString()); if (vh::R(2)) p->set_noise_pk(peer[me].noise->PublicKey().AsString()); expect = false; }   // own keys missing
  if (fault1 == 5 && victim != me) { vp->set_enc_pk(my_enc); vp->set_noise_pk(my_noise); expect = false; }   // own keys twice
  if (fault1 == 6 && victim != me) { std::string k = vp->enc_pk(); if (vh::R(2)) k += 'x'; else k.pop_back(); vp->set_enc_pk(k); expect = false; }
  if (fault1 == 7 && victim != me) { std::string k = vp->noise_pk(); if (vh::R(2)) k += 'x'; else k.pop_back(); vp->set_noise_pk(k); expect = false; }
  if (fault1 == 8 && victim != me) { std::string k = vp->enc_pk(); k[0] = 7; vp->set_enc_pk(k); expect = false; }     // not a point of the curve
  if (fault1 == 9 && victim != me) { std::string k = vp->noise_pk(); k[0] = 7; vp->set_noise_pk(k); expect = false; }
  if (fault1 == 10) { auto* p = r1->mutable_pairs_of_public_keys(me); if (vh::R(2)) p->clear_enc_pk(); else p->clear_noise_pk(); expect = false; }
  size_t mark = sent.size();
  auto a1 = client.ReceiveMessage(m1);
  if (!expect) {
    CK(8, "bad-request-accepted", a1.ok() && !a1.value() && client.IsAborted() && AbortOnly(sent, mark) && !client.ErrorMessage().value().empty(), "the client goes on with", alive, "clients having keys; messages sent", sent.size() - mark, "state", client.State());
    return;
  }
  CK(8, "good-request-refused", a1.ok() && a1.value() && !client.IsAborted() && sent.size() == mark + 1 && sent[mark].has_share_keys_response(), "state", client.State());
  auto& rsp = sent[mark].share_keys_response();
  CK(8, "entries", rsp.encrypted_key_shares_size() == n, "entries", rsp.encrypted_key_shares_size());
  AesGcmEncryption gcm; std::vector<ShamirShare> s_noise(n), s_self(n); std::vector<int> got; std::set<std::string> distinct;
  for (int i = 0; i < n; ++i) {
    const std::string& c = rsp.encrypted_key_shares(i);
    if (i == me || life[i] != kLive) { CK(8, "entry-for-dead", c.empty(), "an entry for client", i, "without keys, or for itself"); continue; }
    CK(8, "no-entry", !c.empty(), "no entry for client", i);
    auto d = gcm.Decrypt(peer[i].enc_key, c); CK(8, "not-decryptable", d.ok(), "client", i, "cannot decrypt its entry");
    PairOfKeyShares ks; CK(8, "not-parsable", ks.ParseFromString(d.value()) && !ks.noise_sk_share().empty() && !ks.prf_sk_share().empty(), "client", i);
    CK(8, "same-share", distinct.insert(ks.noise_sk_share()).second && distinct.insert(ks.prf_sk_share()).second, "the same share twice");
    s_noise[i].data = ks.noise_sk_share(); s_self[i].data = ks.prf_sk_share(); got.push_back(i);
  }
  // any threshold of the shares gives the keys, and the pairwise key is the advertised one
  AesKey self_key; bool have_self = false;
  ShamirSecretSharing sharing;
  if (static_cast<int>(got.size()) >= t) for (int round = 0; round < 2; ++round) {
    std::vector<ShamirShare> x(n), y(n); std::vector<int> g = got; std::shuffle(g.begin(), g.end(), vh::Rng());
    for (int i = 0; i < t; ++i) { x[g[i]] = s_noise[g[i]]; y[g[i]] = s_self[g[i]]; }
    auto kx = sharing.Reconstruct(t, x, 32), ky = sharing.Reconstruct(t, y, 32);
    CK(8, "shares", kx.ok() && ky.ok(), "shares cannot be combined");
    auto ag = EcdhKeyAgreement::CreateFromKeypair(EcdhPrivateKey(reinterpret_cast<const uint8_t*>(kx->data())), Pub(my_noise));   // checks that they belong together
    CK(8, "pairwise-key", ag.ok(), "the shares do not give the private key of the advertised masking key");
    if (have_self) CK(8, "self-key", self_key.AsString() == *ky, "two sets of shares give different self keys");
    self_key = AesKey(reinterpret_cast<const uint8_t*>(ky->data())); have_self = true;
    CK(8, "self-key", *kx != *ky, "same secret shared twice");
  } else {   // the client's own share completes the set only for the client; take its key from the unit under test through the shares it would send (not available): skip the sums
    have_self = false;
  }
  set(2);
  wrong(9, 2);
  // ---- masked input
  In m2; auto* r2 = m2.mutable_masked_input_request(); bool expect2 = true; victim = -1;
  std::vector<int> livep;
  for (int i = 0; i < n; ++i) {
    if (i == me) { r2->add_encrypted_key_shares(vh::R(4) ? "" : "mine"); continue; }
    if (life[i] != kLive) { r2->add_encrypted_key_shares(""); continue; }
    if (vh::R(drop + 1) == 0) { life[i] = kDead2; --alive; r2->add_encrypted_key_shares(""); continue; }
    peer[i].pair = vh::RandBytes(36 + vh::R(3)); peer[i].self = vh::RandBytes(36);
    PairOfKeyShares ks; ks.set_noise_sk_share(peer[i].pair); ks.set_prf_sk_share(peer[i].self);
    r2->add_encrypted_key_shares(gcm.Encrypt(peer[i].enc_key, ks.SerializeAsString())); livep.push_back(i);
  }
  if (alive < t) expect2 = false;
  if (!livep.empty()) victim = livep[vh::R(livep.size())];
  if (fault2 == 1) { r2->add_encrypted_key_shares(""); expect2 = false; }
  if (fault2 == 2) { r2->mutable_encrypted_key_shares()->RemoveLast(); expect2 = false; }
  if (fault2 == 3) for (int i = 0; i < n; ++i) if (life[i] == kDead1) { PairOfKeyShares ks; ks.set_noise_sk_share("a"); ks.set_prf_sk_share("b"); r2->set_encrypted_key_shares(i, vh::R(2) ? "x" : gcm.Encrypt(peer[i].enc_key, ks.SerializeAsString())); expect2 = false; break; }
  if (fault2 == 4 && victim >= 0) { std::string c = r2->encrypted_key_shares(victim); c[vh::R(c.size())] ^= 1 << vh::R(8); r2->set_encrypted_key_shares(victim, c); expect2 = false; }
  if (fault2 == 5 && victim >= 0) { r2->set_encrypted_key_shares(victim, gcm.Encrypt(peer[victim].enc_key, "\x0a\xff\xff")); expect2 = false; }
  if (fault2 == 6 && livep.size() > 1) { r2->set_encrypted_key_shares(livep[0], r2->encrypted_key_shares(livep[1])); expect2 = false; }    // another client's entry
  if (fault2 == 7 && victim >= 0) { r2->set_encrypted_key_shares(victim, r2->encrypted_key_shares(victim).substr(0, vh::R(30) + 1)); expect2 = false; }
  mark = sent.size();
  auto a2 = client.ReceiveMessage(m2);
  if (!expect2) {
    CK(9, "bad-request-accepted", a2.ok() && !a2.value() && client.IsAborted() && AbortOnly(sent, mark), "the client goes on with", alive, "clients alive; messages sent", sent.size() - mark, "state", client.State());
    auto s = client.SetInput(MakeInput(in, mod)); CK(9, "after-abort", !s.ok() && sent.size() == mark + 1, "sends after an abort");
    return;
  }
  CK(9, "good-request-refused", a2.ok() && a2.value() && !client.IsAborted(), "state", client.State(), client.IsAborted() ? client.ErrorMessage().value() : "");
  if (when == 3) { CK(9, "sent-without-input", sent.size() == mark, "a message is sent before there is any input"); wrong(7, 0); set(3); }
  CK(9, "one-message", sent.size() == mark + 1 && sent[mark].has_masked_input_response(), "messages sent", sent.size() - mark);
  auto& vecs = sent[mark].masked_input_response().vectors();
  CK(9, "vectors", vecs.size() == specs.size(), "vectors", vecs.size());
  if (have_self) {
    std::vector<AesKey> add{self_key}, sub; SessionId session{sid}; AesCtrPrngFactory f;
    for (int i = 0; i < n; ++i) if (i != me && life[i] == kLive) (i < me ? add : sub).push_back(peer[i].noise_key);
    auto masks = MapOfMasks(add, sub, specs, session, f);
    for (auto& s : specs) {
      CK(9, "vectors", vecs.count(s.name()) == 1, "no vector", s.name());
      Vec got2 = SecAggVector(vecs.at(s.name()).encoded_vector(), s.modulus(), s.length()).GetAsUint64Vector(), mk = masks->at(s.name()).GetAsUint64Vector();
      for (int j = 0; j < s.length(); ++j) CK(9, "masked-value", got2[j] == (in[s.name()][j] + mk[j]) % s.modulus(), "element", j, "of", s.name(), "is", got2[j], "for input", in[s.name()][j], "mask", mk[j], "modulus", s.modulus());
    }
  }
  wrong(7, 3);
  // ---- unmasking
  In m3; auto* r3 = m3.mutable_unmasking_request(); bool expect3 = true; std::vector<uint32_t> ids;
  for (int i = 0; i < n; ++i) if (i != me && life[i] == kLive && vh::R(drop + 1) == 0) { life[i] = kDead3; --alive; ids.push_back(i + 1); }
  if (alive < t) expect3 = false;
  if (fault3 == 1) { ids.push_back(me + 1); expect3 = false; }
  if (fault3 == 2) { ids.push_back(vh::R(2) ? n + 1 : n + 1 + vh::R(1000000)); expect3 = false; }
  if (fault3 == 3) { ids.push_back(0); expect3 = false; }
  if (fault3 == 4 && !ids.empty()) { ids.push_back(ids[vh::R(ids.size())]); expect3 = false; }
  if (fault3 == 5 || fault3 == 6) for (int i = 0; i < n; ++i) if (life[i] == (fault3 == 5 ? kDead1 : kDead2)) { ids.push_back(i + 1); expect3 = false; break; }
  std::shuffle(ids.begin(), ids.end(), vh::Rng());
  for (auto x : ids) r3->add_dead_3_client_ids(x);
  mark = sent.size();
  auto a3 = client.ReceiveMessage(m3);
  if (!expect3) {
    CK(7, "bad-request-accepted", a3.ok() && !a3.value() && client.IsAborted() && AbortOnly(sent, mark), "messages sent", sent.size() - mark, "state", client.State(), "named dead:", ids.size(), "alive", alive);
    return;
  }
  CK(7, "good-request-refused", a3.ok() && !a3.value() && client.IsCompletedSuccessfully() && sent.size() == mark + 1 && sent[mark].has_unmasking_response(), "state", client.State());
  auto& un = sent[mark].unmasking_response();
  CK(7, "entries", un.noise_or_prf_key_shares_size() == n, "entries", un.noise_or_prf_key_shares_size());
  for (int i = 0; i < n; ++i) {
    auto& e = un.noise_or_prf_key_shares(i);
    if (i == me) { CK(7, "own-entry", e.oneof_shares_case() == NoiseOrPrfKeyShare::kPrfSkShare, "the client's own entry is not its own self-mask share"); if (have_self && static_cast<int>(got.size()) >= t) { std::vector<ShamirShare> y(n); for (int j = 0; j + 1 < t; ++j) y[got[j]] = s_self[got[j]]; y[me].data = e.prf_sk_share(); auto k = sharing.Reconstruct(t, y, 32); CK(7, "own-entry", k.ok() && *k == self_key.AsString(), "the client's own entry does not fit the shares given to the others"); } continue; }
    const char* kinds[] = {"nothing", "a pairwise share", "a self-mask share"};
    if (life[i] == kLive) CK(7, "alive-entry", e.oneof_shares_case() == NoiseOrPrfKeyShare::kPrfSkShare && e.prf_sk_share() == peer[i].self, "client", i, "is alive, its entry is", kinds[e.oneof_shares_case()], "or not the share it gave");
    else if (life[i] == kDead3) CK(7, "dead-entry", e.oneof_shares_case() == NoiseOrPrfKeyShare::kNoiseSkShare && e.noise_sk_share() == peer[i].pair, "client", i, "dropped out, its entry is", kinds[e.oneof_shares_case()], "or not the share it gave");
    else CK(7, "earlier-dead-entry", e.oneof_shares_case() == NoiseOrPrfKeyShare::ONEOF_SHARES_NOT_SET, "client", i, "was already dead, its entry is", kinds[e.oneof_shares_case()]);
  }
  size_t end = sent.size(); auto again = client.ReceiveMessage(m3);
  CK(7, "second-request", !again.ok() && sent.size() == end, "a second request is answered");
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  for (int i = 0; i < 9; ++i) { Peer p; p.enc = EcdhKeyAgreement::CreateFromRandomKeys().value(); p.noise = EcdhKeyAgreement::CreateFromRandomKeys().value(); Pool().push_back(std::move(p)); }
  try {
    while (vh::TimeLeft()) try { Run(); } catch (const Abandon&) {}
    if (!judged && !vh::Fails()) { std::fprintf(stderr, "no case reached the judged round\n"); return 3; }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
