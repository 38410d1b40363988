#include <cstdint>
#include "fcp/base/bounds.h"
namespace verif_inst {
bool Try_int8_t_int8_t(int8_t from, int8_t* to) { return fcp::TryCastInteger<int8_t, int8_t>(from, to); }
int8_t Checked_int8_t_int8_t(int8_t from) { return fcp::CastIntegerChecked<int8_t, int8_t>(from); }
bool Try_int8_t_uint8_t(uint8_t from, int8_t* to) { return fcp::TryCastInteger<int8_t, uint8_t>(from, to); }
int8_t Checked_int8_t_uint8_t(uint8_t from) { return fcp::CastIntegerChecked<int8_t, uint8_t>(from); }
bool Try_int8_t_int16_t(int16_t from, int8_t* to) { return fcp::TryCastInteger<int8_t, int16_t>(from, to); }
int8_t Checked_int8_t_int16_t(int16_t from) { return fcp::CastIntegerChecked<int8_t, int16_t>(from); }
bool Try_int8_t_uint16_t(uint16_t from, int8_t* to) { return fcp::TryCastInteger<int8_t, uint16_t>(from, to); }
int8_t Checked_int8_t_uint16_t(uint16_t from) { return fcp::CastIntegerChecked<int8_t, uint16_t>(from); }
bool Try_int8_t_int32_t(int32_t from, int8_t* to) { return fcp::TryCastInteger<int8_t, int32_t>(from, to); }
int8_t Checked_int8_t_int32_t(int32_t from) { return fcp::CastIntegerChecked<int8_t, int32_t>(from); }
bool Try_int8_t_uint32_t(uint32_t from, int8_t* to) { return fcp::TryCastInteger<int8_t, uint32_t>(from, to); }
int8_t Checked_int8_t_uint32_t(uint32_t from) { return fcp::CastIntegerChecked<int8_t, uint32_t>(from); }
bool Try_int8_t_int64_t(int64_t from, int8_t* to) { return fcp::TryCastInteger<int8_t, int64_t>(from, to); }
int8_t Checked_int8_t_int64_t(int64_t from) { return fcp::CastIntegerChecked<int8_t, int64_t>(from); }
bool Try_int8_t_uint64_t(uint64_t from, int8_t* to) { return fcp::TryCastInteger<int8_t, uint64_t>(from, to); }
int8_t Checked_int8_t_uint64_t(uint64_t from) { return fcp::CastIntegerChecked<int8_t, uint64_t>(from); }
bool Try_uint8_t_int8_t(int8_t from, uint8_t* to) { return fcp::TryCastInteger<uint8_t, int8_t>(from, to); }
uint8_t Checked_uint8_t_int8_t(int8_t from) { return fcp::CastIntegerChecked<uint8_t, int8_t>(from); }
bool Try_uint8_t_uint8_t(uint8_t from, uint8_t* to) { return fcp::TryCastInteger<uint8_t, uint8_t>(from, to); }
uint8_t Checked_uint8_t_uint8_t(uint8_t from) { return fcp::CastIntegerChecked<uint8_t, uint8_t>(from); }
bool Try_uint8_t_int16_t(int16_t from, uint8_t* to) { return fcp::TryCastInteger<uint8_t, int16_t>(from, to); }
uint8_t Checked_uint8_t_int16_t(int16_t from) { return fcp::CastIntegerChecked<uint8_t, int16_t>(from); }
bool Try_uint8_t_uint16_t(uint16_t from, uint8_t* to) { return fcp::TryCastInteger<uint8_t, uint16_t>(from, to); }
uint8_t Checked_uint8_t_uint16_t(uint16_t from) { return fcp::CastIntegerChecked<uint8_t, uint16_t>(from); }
bool Try_uint8_t_int32_t(int32_t from, uint8_t* to) { return fcp::TryCastInteger<uint8_t, int32_t>(from, to); }
uint8_t Checked_uint8_t_int32_t(int32_t from) { return fcp::CastIntegerChecked<uint8_t, int32_t>(from); }
bool Try_uint8_t_uint32_t(uint32_t from, uint8_t* to) { return fcp::TryCastInteger<uint8_t, uint32_t>(from, to); }
uint8_t Checked_uint8_t_uint32_t(uint32_t from) { return fcp::CastIntegerChecked<uint8_t, uint32_t>(from); }
bool Try_uint8_t_int64_t(int64_t from, uint8_t* to) { return fcp::TryCastInteger<uint8_t, int64_t>(from, to); }
uint8_t Checked_uint8_t_int64_t(int64_t from) { return fcp::CastIntegerChecked<uint8_t, int64_t>(from); }
bool Try_uint8_t_uint64_t(uint64_t from, uint8_t* to) { return fcp::TryCastInteger<uint8_t, uint64_t>(from, to); }
uint8_t Checked_uint8_t_uint64_t(uint64_t from) { return fcp::CastIntegerChecked<uint8_t, uint64_t>(from); }
bool Try_int16_t_int8_t(int8_t from, int16_t* to) { return fcp::TryCastInteger<int16_t, int8_t>(from, to); }
int16_t Checked_int16_t_int8_t(int8_t from) { return fcp::CastIntegerChecked<int16_t, int8_t>(from); }
bool Try_int16_t_uint8_t(uint8_t from, int16_t* to) { return fcp::TryCastInteger<int16_t, uint8_t>(from, to); }
int16_t Checked_int16_t_uint8_t(uint8_t from) { return fcp::CastIntegerChecked<int16_t, uint8_t>(from); }
bool Try_int16_t_int16_t(int16_t from, int16_t* to) { return fcp::TryCastInteger<int16_t, int16_t>(from, to); }
int16_t Checked_int16_t_int16_t(int16_t from) { return fcp::CastIntegerChecked<int16_t, int16_t>(from); }
bool Try_int16_t_uint16_t(uint16_t from, int16_t* to) { return fcp::TryCastInteger<int16_t, uint16_t>(from, to); }
int16_t Checked_int16_t_uint16_t(uint16_t from) { return fcp::CastIntegerChecked<int16_t, uint16_t>(from); }
bool Try_int16_t_int32_t(int32_t from, int16_t* to) { return fcp::TryCastInteger<int16_t, int32_t>(from, to); }
int16_t Checked_int16_t_int32_t(int32_t from) { return fcp::CastIntegerChecked<int16_t, int32_t>(from); }
bool Try_int16_t_uint32_t(uint32_t from, int16_t* to) { return fcp::TryCastInteger<int16_t, uint32_t>(from, to); }
int16_t Checked_int16_t_uint32_t(uint32_t from) { return fcp::CastIntegerChecked<int16_t, uint32_t>(from); }
bool Try_int16_t_int64_t(int64_t from, int16_t* to) { return fcp::TryCastInteger<int16_t, int64_t>(from, to); }
int16_t Checked_int16_t_int64_t(int64_t from) { return fcp::CastIntegerChecked<int16_t, int64_t>(from); }
bool Try_int16_t_uint64_t(uint64_t from, int16_t* to) { return fcp::TryCastInteger<int16_t, uint64_t>(from, to); }
int16_t Checked_int16_t_uint64_t(uint64_t from) { return fcp::CastIntegerChecked<int16_t, uint64_t>(from); }
bool Try_uint16_t_int8_t(int8_t from, uint16_t* to) { return fcp::TryCastInteger<uint16_t, int8_t>(from, to); }
uint16_t Checked_uint16_t_int8_t(int8_t from) { return fcp::CastIntegerChecked<uint16_t, int8_t>(from); }
bool Try_uint16_t_uint8_t(uint8_t from, uint16_t* to) { return fcp::TryCastInteger<uint16_t, uint8_t>(from, to); }
uint16_t Checked_uint16_t_uint8_t(uint8_t from) { return fcp::CastIntegerChecked<uint16_t, uint8_t>(from); }
bool Try_uint16_t_int16_t(int16_t from, uint16_t* to) { return fcp::TryCastInteger<uint16_t, int16_t>(from, to); }
uint16_t Checked_uint16_t_int16_t(int16_t from) { return fcp::CastIntegerChecked<uint16_t, int16_t>(from); }
bool Try_uint16_t_uint16_t(uint16_t from, uint16_t* to) { return fcp::TryCastInteger<uint16_t, uint16_t>(from, to); }
uint16_t Checked_uint16_t_uint16_t(uint16_t from) { return fcp::CastIntegerChecked<uint16_t, uint16_t>(from); }
bool Try_uint16_t_int32_t(int32_t from, uint16_t* to) { return fcp::TryCastInteger<uint16_t, int32_t>(from, to); }
uint16_t Checked_uint16_t_int32_t(int32_t from) { return fcp::CastIntegerChecked<uint16_t, int32_t>(from); }
bool Try_uint16_t_uint32_t(uint32_t from, uint16_t* to) { return fcp::TryCastInteger<uint16_t, uint32_t>(from, to); }
uint16_t Checked_uint16_t_uint32_t(uint32_t from) { return fcp::CastIntegerChecked<uint16_t, uint32_t>(from); }
bool Try_uint16_t_int64_t(int64_t from, uint16_t* to) { return fcp::TryCastInteger<uint16_t, int64_t>(from, to); }
uint16_t Checked_uint16_t_int64_t(int64_t from) { return fcp::CastIntegerChecked<uint16_t, int64_t>(from); }
bool Try_uint16_t_uint64_t(uint64_t from, uint16_t* to) { return fcp::TryCastInteger<uint16_t, uint64_t>(from, to); }
uint16_t Checked_uint16_t_uint64_t(uint64_t from) { return fcp::CastIntegerChecked<uint16_t, uint64_t>(from); }
bool Try_int32_t_int8_t(int8_t from, int32_t* to) { return fcp::TryCastInteger<int32_t, int8_t>(from, to); }
int32_t Checked_int32_t_int8_t(int8_t from) { return fcp::CastIntegerChecked<int32_t, int8_t>(from); }
bool Try_int32_t_uint8_t(uint8_t from, int32_t* to) { return fcp::TryCastInteger<int32_t, uint8_t>(from, to); }
int32_t Checked_int32_t_uint8_t(uint8_t from) { return fcp::CastIntegerChecked<int32_t, uint8_t>(from); }
bool Try_int32_t_int16_t(int16_t from, int32_t* to) { return fcp::TryCastInteger<int32_t, int16_t>(from, to); }
int32_t Checked_int32_t_int16_t(int16_t from) { return fcp::CastIntegerChecked<int32_t, int16_t>(from); }
bool Try_int32_t_uint16_t(uint16_t from, int32_t* to) { return fcp::TryCastInteger<int32_t, uint16_t>(from, to); }
int32_t Checked_int32_t_uint16_t(uint16_t from) { return fcp::CastIntegerChecked<int32_t, uint16_t>(from); }
bool Try_int32_t_int32_t(int32_t from, int32_t* to) { return fcp::TryCastInteger<int32_t, int32_t>(from, to); }
int32_t Checked_int32_t_int32_t(int32_t from) { return fcp::CastIntegerChecked<int32_t, int32_t>(from); }
bool Try_int32_t_uint32_t(uint32_t from, int32_t* to) { return fcp::TryCastInteger<int32_t, uint32_t>(from, to); }
int32_t Checked_int32_t_uint32_t(uint32_t from) { return fcp::CastIntegerChecked<int32_t, uint32_t>(from); }
bool Try_int32_t_int64_t(int64_t from, int32_t* to) { return fcp::TryCastInteger<int32_t, int64_t>(from, to); }
int32_t Checked_int32_t_int64_t(int64_t from) { return fcp::CastIntegerChecked<int32_t, int64_t>(from); }
bool Try_int32_t_uint64_t(uint64_t from, int32_t* to) { return fcp::TryCastInteger<int32_t, uint64_t>(from, to); }
int32_t Checked_int32_t_uint64_t(uint64_t from) { return fcp::CastIntegerChecked<int32_t, uint64_t>(from); }
bool Try_uint32_t_int8_t(int8_t from, uint32_t* to) { return fcp::TryCastInteger<uint32_t, int8_t>(from, to); }
uint32_t Checked_uint32_t_int8_t(int8_t from) { return fcp::CastIntegerChecked<uint32_t, int8_t>(from); }
bool Try_uint32_t_uint8_t(uint8_t from, uint32_t* to) { return fcp::TryCastInteger<uint32_t, uint8_t>(from, to); }
uint32_t Checked_uint32_t_uint8_t(uint8_t from) { return fcp::CastIntegerChecked<uint32_t, uint8_t>(from); }
bool Try_uint32_t_int16_t(int16_t from, uint32_t* to) { return fcp::TryCastInteger<uint32_t, int16_t>(from, to); }
uint32_t Checked_uint32_t_int16_t(int16_t from) { return fcp::CastIntegerChecked<uint32_t, int16_t>(from); }
bool Try_uint32_t_uint16_t(uint16_t from, uint32_t* to) { return fcp::TryCastInteger<uint32_t, uint16_t>(from, to); }
uint32_t Checked_uint32_t_uint16_t(uint16_t from) { return fcp::CastIntegerChecked<uint32_t, uint16_t>(from); }
bool Try_uint32_t_int32_t(int32_t from, uint32_t* to) { return fcp::TryCastInteger<uint32_t, int32_t>(from, to); }
uint32_t Checked_uint32_t_int32_t(int32_t from) { return fcp::CastIntegerChecked<uint32_t, int32_t>(from); }
bool Try_uint32_t_uint32_t(uint32_t from, uint32_t* to) { return fcp::TryCastInteger<uint32_t, uint32_t>(from, to); }
uint32_t Checked_uint32_t_uint32_t(uint32_t from) { return fcp::CastIntegerChecked<uint32_t, uint32_t>(from); }
bool Try_uint32_t_int64_t(int64_t from, uint32_t* to) { return fcp::TryCastInteger<uint32_t, int64_t>(from, to); }
uint32_t Checked_uint32_t_int64_t(int64_t from) { return fcp::CastIntegerChecked<uint32_t, int64_t>(from); }
bool Try_uint32_t_uint64_t(uint64_t from, uint32_t* to) { return fcp::TryCastInteger<uint32_t, uint64_t>(from, to); }
uint32_t Checked_uint32_t_uint64_t(uint64_t from) { return fcp::CastIntegerChecked<uint32_t, uint64_t>(from); }
bool Try_int64_t_int8_t(int8_t from, int64_t* to) { return fcp::TryCastInteger<int64_t, int8_t>(from, to); }
int64_t Checked_int64_t_int8_t(int8_t from) { return fcp::CastIntegerChecked<int64_t, int8_t>(from); }
bool Try_int64_t_uint8_t(uint8_t from, int64_t* to) { return fcp::TryCastInteger<int64_t, uint8_t>(from, to); }
int64_t Checked_int64_t_uint8_t(uint8_t from) { return fcp::CastIntegerChecked<int64_t, uint8_t>(from); }
bool Try_int64_t_int16_t(int16_t from, int64_t* to) { return fcp::TryCastInteger<int64_t, int16_t>(from, to); }
int64_t Checked_int64_t_int16_t(int16_t from) { return fcp::CastIntegerChecked<int64_t, int16_t>(from); }
bool Try_int64_t_uint16_t(uint16_t from, int64_t* to) { return fcp::TryCastInteger<int64_t, uint16_t>(from, to); }
int64_t Checked_int64_t_uint16_t(uint16_t from) { return fcp::CastIntegerChecked<int64_t, uint16_t>(from); }
bool Try_int64_t_int32_t(int32_t from, int64_t* to) { return fcp::TryCastInteger<int64_t, int32_t>(from, to); }
int64_t Checked_int64_t_int32_t(int32_t from) { return fcp::CastIntegerChecked<int64_t, int32_t>(from); }
bool Try_int64_t_uint32_t(uint32_t from, int64_t* to) { return fcp::TryCastInteger<int64_t, uint32_t>(from, to); }
int64_t Checked_int64_t_uint32_t(uint32_t from) { return fcp::CastIntegerChecked<int64_t, uint32_t>(from); }
bool Try_int64_t_int64_t(int64_t from, int64_t* to) { return fcp::TryCastInteger<int64_t, int64_t>(from, to); }
int64_t Checked_int64_t_int64_t(int64_t from) { return fcp::CastIntegerChecked<int64_t, int64_t>(from); }
bool Try_int64_t_uint64_t(uint64_t from, int64_t* to) { return fcp::TryCastInteger<int64_t, uint64_t>(from, to); }
int64_t Checked_int64_t_uint64_t(uint64_t from) { return fcp::CastIntegerChecked<int64_t, uint64_t>(from); }
bool Try_uint64_t_int8_t(int8_t from, uint64_t* to) { return fcp::TryCastInteger<uint64_t, int8_t>(from, to); }
uint64_t Checked_uint64_t_int8_t(int8_t from) { return fcp::CastIntegerChecked<uint64_t, int8_t>(from); }
bool Try_uint64_t_uint8_t(uint8_t from, uint64_t* to) { return fcp::TryCastInteger<uint64_t, uint8_t>(from, to); }
uint64_t Checked_uint64_t_uint8_t(uint8_t from) { return fcp::CastIntegerChecked<uint64_t, uint8_t>(from); }
bool Try_uint64_t_int16_t(int16_t from, uint64_t* to) { return fcp::TryCastInteger<uint64_t, int16_t>(from, to); }
uint64_t Checked_uint64_t_int16_t(int16_t from) { return fcp::CastIntegerChecked<uint64_t, int16_t>(from); }
bool Try_uint64_t_uint16_t(uint16_t from, uint64_t* to) { return fcp::TryCastInteger<uint64_t, uint16_t>(from, to); }
uint64_t Checked_uint64_t_uint16_t(uint16_t from) { return fcp::CastIntegerChecked<uint64_t, uint16_t>(from); }
bool Try_uint64_t_int32_t(int32_t from, uint64_t* to) { return fcp::TryCastInteger<uint64_t, int32_t>(from, to); }
uint64_t Checked_uint64_t_int32_t(int32_t from) { return fcp::CastIntegerChecked<uint64_t, int32_t>(from); }
bool Try_uint64_t_uint32_t(uint32_t from, uint64_t* to) { return fcp::TryCastInteger<uint64_t, uint32_t>(from, to); }
uint64_t Checked_uint64_t_uint32_t(uint32_t from) { return fcp::CastIntegerChecked<uint64_t, uint32_t>(from); }
bool Try_uint64_t_int64_t(int64_t from, uint64_t* to) { return fcp::TryCastInteger<uint64_t, int64_t>(from, to); }
uint64_t Checked_uint64_t_int64_t(int64_t from) { return fcp::CastIntegerChecked<uint64_t, int64_t>(from); }
bool Try_uint64_t_uint64_t(uint64_t from, uint64_t* to) { return fcp::TryCastInteger<uint64_t, uint64_t>(from, to); }
uint64_t Checked_uint64_t_uint64_t(uint64_t from) { return fcp::CastIntegerChecked<uint64_t, uint64_t>(from); }
void* Map(void* start, uint64_t size, uint64_t ptr, uint32_t element, uint32_t count) {
  return fcp::MapOutOfAddressSpace(fcp::AddressSpace{start, size}, fcp::ForeignPointer{ptr}, element, count);
}
fcp::AddressSpace Embed(void* start, uint64_t size) { return fcp::AddressSpace::Embedded(start, size); }
fcp::AddressSpace Native() { return fcp::AddressSpace::Current(); }
uint64_t Mul(uint32_t a, uint32_t b) { return fcp::SafeMultiply(a, b); }
}  // namespace verif_inst
