// Instantiates the graph factory so that its inline members are part of a translation unit.
#include "fcp/secagg/server/secret_sharing_graph_factory.h"
namespace verif_inst {
void Use() {
  auto a = fcp::secagg::SecretSharingGraphFactory::CreateCompleteGraph(3, 2);
  auto b = fcp::secagg::SecretSharingGraphFactory::CreateHararyGraph(3, 3, 2, true);
  (void)a->GetNumNodes(); (void)a->GetDegree(); (void)a->GetThreshold(); (void)a->GetNeighbor(0, 0); (void)a->GetNeighborIndex(0, 0);
  (void)a->AreNeighbors(0, 0); (void)a->IsOutgoingNeighbor(0, 0);
  (void)b->GetNumNodes(); (void)b->GetDegree(); (void)b->GetThreshold();
}
}  // namespace verif_inst
