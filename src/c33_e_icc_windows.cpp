#include "../src/c33_probe.hpp"
#define Nz Nz_e_icc_windows
#include <NazaraUtils/MathUtils.hpp>
#if __has_include(<endian.h>)
#include <endian.h>
#endif
#include "../src/env/none.inc"
#include "../src/env/icc_windows.inc"
#undef __BYTE_ORDER
#undef __LITTLE_ENDIAN
#undef __BIG_ENDIAN
#undef BYTE_ORDER
#undef LITTLE_ENDIAN
#undef BIG_ENDIAN
#define C33_ENV "icc_windows"
#define C33_WANT "ARCH_x86_64 COMPILER_ICC PLATFORM_DESKTOP PLATFORM_WINDOWS"
#define C33_VER __INTEL_COMPILER
#define C33_IS_ICC
#define C33_BIG 0
#define endian endian_icc_windows
namespace std { enum class endian { little = 1234, big = 4321, native = 1234 }; }
#include <NazaraUtils/Endianness.hpp>
#include "../src/c33_order.inc"
