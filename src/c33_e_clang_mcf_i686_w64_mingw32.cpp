#include "../src/c33_probe.hpp"
#define Nz Nz_e_clang_mcf_i686_w64_mingw32
#include <NazaraUtils/MathUtils.hpp>
#if __has_include(<endian.h>)
#include <endian.h>
#endif
#include "../src/env/none.inc"
#include "../src/env/clang_mcf_i686_w64_mingw32.inc"
#undef __BYTE_ORDER
#undef __LITTLE_ENDIAN
#undef __BIG_ENDIAN
#undef BYTE_ORDER
#undef LITTLE_ENDIAN
#undef BIG_ENDIAN
#define C33_ENV "clang_mcf_i686-w64-mingw32"
#define C33_WANT "ARCH_x86 COMPILER_CLANG COMPILER_MINGW COMPILER_MINGW_THREADS_MCF COMPILER_MINGW_W64 PLATFORM_DESKTOP PLATFORM_WINDOWS"
#define C33_VER (__clang_major__ * 100 + __clang_minor__)
#define C33_IS_CLANG
#define C33_BIG 0
#define endian endian_clang_mcf_i686_w64_mingw32
namespace std { enum class endian { little = 1234, big = 4321, native = 1234 }; }
#include <NazaraUtils/Endianness.hpp>
#include "../src/c33_order.inc"
