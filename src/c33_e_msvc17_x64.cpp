#include "../src/c33_probe.hpp"
#define Nz Nz_e_msvc17_x64
#include <NazaraUtils/MathUtils.hpp>
#if __has_include(<endian.h>)
#include <endian.h>
#endif
#include "../src/env/none.inc"
#include "../src/env/msvc17_x64.inc"
#undef __BYTE_ORDER
#undef __LITTLE_ENDIAN
#undef __BIG_ENDIAN
#undef BYTE_ORDER
#undef LITTLE_ENDIAN
#undef BIG_ENDIAN
#define C33_ENV "msvc17_x64"
#define C33_WANT "ARCH_x86_64 COMPILER_MSVC PLATFORM_DESKTOP PLATFORM_WINDOWS"
#define C33_VER _MSC_VER
#define C33_IS_MSVC
#define C33_BIG 0
#define endian endian_msvc17_x64
namespace std { enum class endian { little = 1234, big = 4321, native = 1234 }; }
#include <NazaraUtils/Endianness.hpp>
#include "../src/c33_order.inc"
