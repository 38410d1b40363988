#include "harness.h"
#include "fcp/secagg/server/secret_sharing_graph_factory.h"
using namespace fcp::secagg;
static void Check(const SecretSharingGraph& g, int n, int d, int t, bool complete) {
  auto id = [&](int a, int b) { return S("nodes", n, "degree", d, "threshold", t, complete ? "complete" : "harary", "a", a, "b", b); };
  CHECKP("sizes", g.GetNumNodes() == n && g.GetDegree() == d && g.GetThreshold() == t, id(0, 0));
  for (int x = 0; x < n; ++x) {
    CHECKP("self", g.AreNeighbors(x, x), id(x, x));
    std::set<int> seen;
    for (int i = 0; i < d; ++i) {
      int y = g.GetNeighbor(x, i);
      CHECKP("range", y >= 0 && y < n, id(x, i));
      if (y < 0 || y >= n) return;
      CHECKP("distinct", seen.insert(y).second, id(x, i));
      auto p = g.GetNeighborIndex(x, y);
      CHECKP("position", p.has_value() && *p == i, id(x, i));
      CHECKP("neighbour", g.AreNeighbors(x, y), id(x, y));
    }
    for (int y = 0; y < n; ++y) {
      auto p = g.GetNeighborIndex(x, y);
      CHECKP("position-none", p.has_value() == (seen.count(y) > 0), id(x, y));
      CHECKP("symmetric", g.AreNeighbors(x, y) == g.AreNeighbors(y, x), id(x, y));
      CHECKP("are-neighbours", g.AreNeighbors(x, y) == (seen.count(y) > 0), id(x, y));
      bool a = g.IsOutgoingNeighbor(x, y), b = g.IsOutgoingNeighbor(y, x);
      if (x != y && seen.count(y)) CHECKP("one-outgoing", a != b, id(x, y));
      if (x != y && !seen.count(y)) CHECKP("no-outgoing", !a && !b, id(x, y));
    }
  }
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    for (int n = 1; n <= 26; ++n) {
      for (int d = 1; d <= n; d += 2)
        for (int r = 0; r < 3; ++r) { int t = 1 + vh::R(d); Check(*SecretSharingGraphFactory::CreateHararyGraph(n, d, t, r > 0), n, d, t, false); }
      int t = 1 + vh::R(n);
      Check(*SecretSharingGraphFactory::CreateCompleteGraph(n, t), n, n, t, true);
    }
    while (vh::TimeLeft()) {
      int n = 1 + vh::R(120), d = 1 + 2 * vh::R((n + 1) / 2), t = 1 + vh::R(d);
      Check(*SecretSharingGraphFactory::CreateHararyGraph(n, d, t, vh::R(4) > 0), n, d, t, false);
    }
    // refusals
    for (int n = -1; n < 7; ++n) for (int d = -1; d < 9; ++d) for (int t = -1; t < 9; ++t) {
      bool ok = n >= 1 && d >= 1 && d <= n && d % 2 == 1 && t >= 1 && t <= d;
      CHECKP("refuse-harary", vh::Dies([&] { SecretSharingGraphFactory::CreateHararyGraph(n, d, t); }) == !ok, "nodes", n, "degree", d, "threshold", t);
      bool ok2 = n >= 1 && t >= 1 && t <= n;
      CHECKP("refuse-complete", vh::Dies([&] { SecretSharingGraphFactory::CreateCompleteGraph(n, t); }) == !ok2, "nodes", n, "threshold", t);
    }
    auto g = SecretSharingGraphFactory::CreateHararyGraph(9, 5, 3);
    for (int b : {-1, 5, 9, 100}) CHECKP("refuse-position", vh::Dies([&] { g->GetNeighbor(0, b); }), "position", b);
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
