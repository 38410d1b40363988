#include "fcp/secagg/shared/math.h"
namespace verif_inst {
void Use() {
  using namespace fcp::secagg;
  (void)DivideRoundUp(1, 1); (void)AddMod(1, 1, 2); (void)AddModOpt(1, 1, 2); (void)SubtractMod(1, 1, 2); (void)SubtractModOpt(1, 1, 2);
  (void)MultiplyMod(1, 1, 2); (void)MultiplyMod64(1, 1, 2); (void)InverseModPrime(1, 3); (void)IntToByteString(1);
}
}  // namespace verif_inst
