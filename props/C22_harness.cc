#include "harness.h"
#include "fcp/base/bounds.h"
using namespace fcp;
typedef __int128 i128;
template <class To, class From> void Cast(From v) {
  To out = 42; bool ok = TryCastInteger<To, From>(v, &out);
  bool fits = (i128)v >= (i128)std::numeric_limits<To>::min() && (i128)v <= (i128)std::numeric_limits<To>::max();
  CHECKP("try-cast", ok == fits && (ok ? (i128)out == (i128)v : out == (To)42), "value", (long long)v, "from bytes", sizeof(From), "signed", std::is_signed<From>::value, "to bytes", sizeof(To), "signed", std::is_signed<To>::value);
  if (fits) CHECKP("checked-cast", (i128)(CastIntegerChecked<To, From>(v)) == (i128)v, "value", (long long)v);
}
template <class To, class From> void Dies(From v) {
  bool fits = (i128)v >= (i128)std::numeric_limits<To>::min() && (i128)v <= (i128)std::numeric_limits<To>::max();
  if (!fits) CHECKP("checked-cast-refuses", vh::Dies([&] { CastIntegerChecked<To, From>(v); }), "value", (long long)v, "to bytes", sizeof(To));
}
template <class From> void All(uint64_t x) {
  From v = (From)x;
  Cast<int8_t>(v); Cast<uint8_t>(v); Cast<int16_t>(v); Cast<uint16_t>(v); Cast<int32_t>(v); Cast<uint32_t>(v); Cast<int64_t>(v); Cast<uint64_t>(v);
  if (vh::R(64) == 0) { Dies<int8_t>(v); Dies<uint8_t>(v); Dies<int16_t>(v); Dies<uint16_t>(v); Dies<int32_t>(v); Dies<uint32_t>(v); Dies<int64_t>(v); Dies<uint64_t>(v); }
}
static void Map(uint64_t a, uint64_t n, uint64_t p, uint32_t el, uint32_t k) {
  bool valid = (unsigned __int128)a + n < ((unsigned __int128)1 << 64);
  AddressSpace sp{(void*)a, n};
  if (vh::R(16) == 0 || valid) {
    bool d = vh::Dies([&] { sp = AddressSpace::Embedded((void*)a, n); });
    CHECKP("embedded", d == !valid && (d || (sp.start == (void*)a && sp.size == n)), a, n);
  }
  if (!valid) return;
  unsigned __int128 end = (unsigned __int128)p + (unsigned __int128)el * k;
  void* want = end <= n ? (void*)(a + p) : nullptr;
  CHECKP("map", MapOutOfAddressSpace(sp, ForeignPointer{p}, el, k) == want, "start", a, "size", n, "ptr", p, "element", el, "count", k);
}
int main(int argc, char** argv) {
  vh::Init(argc, argv);
  try {
    for (int i = -70000; i <= 70000; ++i) { All<int32_t>(i); All<int64_t>(i); if (i >= 0) { All<uint32_t>(i); All<uint64_t>(i); } if (i > -33000 && i < 66000) { All<int16_t>(i); All<uint16_t>(i); All<int8_t>(i); All<uint8_t>(i); } }
    CHECKP("native", AddressSpace::Current().start == nullptr && AddressSpace::Current().size == ~0ull, 0);
    while (vh::TimeLeft()) for (int j = 0; j < 300; ++j) {
      uint64_t x = vh::Corner64(); All<int64_t>(x); All<uint64_t>(x); All<int32_t>(x); All<uint32_t>(x); All<int16_t>(x); All<uint16_t>(x); All<int8_t>(x); All<uint8_t>(x);
      uint64_t a = vh::Corner64(), n = vh::Corner64(), p = vh::Corner64(); uint32_t el = vh::Corner64(), k = vh::Corner64();
      switch (vh::R(6)) {
        case 0: n = p + (uint64_t)el * k; break;
        case 1: n = p + (uint64_t)el * k - 1; break;
        case 2: p = n - (uint64_t)el * k; break;
        case 3: p = n - (uint64_t)el * k + 1; break;
        case 4: n = vh::R(20); p = vh::R(20); el = vh::R(6); k = vh::R(6); break;
      }
      if (vh::R(3) == 0) a = vh::R(2) ? 0 - n : -1ull - n;
      Map(a, n, p, el, k);
      CHECKP("multiply", SafeMultiply(el, k) == (uint64_t)((unsigned __int128)el * k), el, k);
    }
  } catch (const verif_log::FatalError& e) { vh::Fail("abort", e.message); }
  return vh::Done();
}
