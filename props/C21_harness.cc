// C21: random dictionary descriptions against a list of words.
#include <set>
#include "fcp/dictionary/dictionary.h"
#include "harness.h"
using namespace fcp::dictionary;
static int Rn(int a, int b) { return a + (int)vh::R(b - a + 1); }
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    while (vh::TimeLeft()) {
      DictionaryDescription d; std::vector<std::string> w; bool dup = false, empty = false, badsp = false; int n = Rn(0, 12), mx = -1, unk = -1, bos = -1, eos = -1; std::set<std::string> seen; std::string desc;
      bool voc = Rn(0, 9), idx = Rn(0, 9); if (voc) d.mutable_vocabulary(); if (voc && idx) { d.mutable_vocabulary()->mutable_index(); for (int i = 0; i < n; i++) { std::string t = Rn(0, 30) ? S("w", Rn(0, 99)) : Rn(0, 1) ? "" : vh::RandBytes(3); if (t.empty()) empty = true; if (!seen.insert(t).second) { if (Rn(0, 3)) continue; dup = true; } w.push_back(t); d.mutable_vocabulary()->mutable_index()->add_token(t); } }
      auto sp = [&](int* v) { if (Rn(0, 2)) { *v = Rn(0, 20) ? Rn(0, 6) : -Rn(1, 3); if (*v < 0) badsp = true; return true; } return false; };
      if (Rn(0, 2)) { auto* s = d.mutable_special_ids(); if (sp(&unk)) s->set_unk(unk); if (sp(&bos)) s->set_bos(bos); if (sp(&eos)) s->set_eos(eos); }
      mx = std::max({-1, unk, bos, eos}); std::vector<int> b; bool badb = false; if (Rn(0, 1)) { d.mutable_output_blocklist_ids(); int cur = Rn(0, 8) ? mx : mx - 1; for (int i = Rn(0, 4); i > 0; i--) { cur += Rn(0, 8) ? Rn(1, 3) : Rn(-1, 0); b.push_back(cur); d.mutable_output_blocklist_ids()->add_id(cur); } for (size_t i = 0; i < b.size(); i++) badb |= b[i] <= mx || (i && b[i] <= b[i - 1]); }
      desc = d.ShortDebugString(); if (badsp || empty) { std::unique_ptr<Dictionary> made; bool refused = vh::Dies([&] { auto r = Dictionary::Create(d); if (r.ok()) made = *std::move(r); }); CHECKP("ill-formed", refused || !made, desc); continue; }
      auto r = Dictionary::Create(d); CHECKP("create", r.ok() == (voc && idx && !badb), S(desc, r.status().ToString())); if (!r.ok()) continue; auto& x = **r;
      int distinct = std::set<std::string>(w.begin(), w.end()).size(); CHECKP("size", x.Size() == mx + 1 + distinct, S(desc, x.Size())); std::map<int, std::string> used;
      for (size_t i = 0; i < w.size(); i++) { int id = x.TokenToId(w[i]); CHECKP("token-to-id", id > mx && id <= mx + (int)w.size() && w[id - mx - 1] == w[i] && (dup || id == mx + 1 + (int)i), S(desc, "token", vh::Hex(w[i]), "->", id)); CHECKP("round-trip", x.IdToToken(id) == w[i], S(desc, "id", id)); CHECKP("distinct", used.emplace(id, w[i]).first->second == w[i], S(desc, "id", id)); CHECKP("id-to-token", x.IdToToken(mx + 1 + i) == w[i], S(desc, "id", mx + 1 + i)); }
      for (int id = 0; id <= mx; id++) CHECKP("special-id-token", x.IdToToken(id).empty() && x.IsSpecialId(id), S(desc, "id", id));
      for (int k = 0; k < 4; k++) { int id = mx + 1 + (int)w.size() + (k ? Rn(0, 1000000) : 0); CHECKP("past-end", x.IdToToken(id).empty() && !x.IsSpecialId(id), S(desc, "id", id)); } CHECKP("negative-id", x.IdToToken(-1).empty(), desc);
      for (int k = 0; k < 4; k++) { std::string t = k ? vh::RandBytes(Rn(0, 4)) : w.empty() ? "q" : w[0].substr(0, w[0].size() - 1); if (std::count(w.begin(), w.end(), t)) continue; CHECKP("unknown", x.TokenToId(t) == unk, S(desc, "token", vh::Hex(t), "->", x.TokenToId(t))); }
      std::vector<int> want; for (int id = 0; id <= mx; id++) want.push_back(id); want.insert(want.end(), b.begin(), b.end()); std::vector<int> got(x.GetSortedOutputBlocklistIds().begin(), x.GetSortedOutputBlocklistIds().end()); CHECKP("blocked", got == want, desc);
      auto& s = x.GetSpecialIds(); CHECKP("special-ids", s.unk() == unk && s.bos() == bos && s.eos() == eos, desc);
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
