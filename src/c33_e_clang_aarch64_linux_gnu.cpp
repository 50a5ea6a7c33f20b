#include "../src/c33_probe.hpp"
#define Nz Nz_e_clang_aarch64_linux_gnu
#include <NazaraUtils/MathUtils.hpp>
#if __has_include(<endian.h>)
#include <endian.h>
#endif
#include "../src/env/none.inc"
#include "../src/env/clang_aarch64_linux_gnu.inc"
#undef __BYTE_ORDER
#undef __LITTLE_ENDIAN
#undef __BIG_ENDIAN
#undef BYTE_ORDER
#undef LITTLE_ENDIAN
#undef BIG_ENDIAN
#define __LITTLE_ENDIAN 1234
#define __BIG_ENDIAN 4321
#define __BYTE_ORDER 1234
#define LITTLE_ENDIAN 1234
#define BIG_ENDIAN 4321
#define BYTE_ORDER 1234
#define C33_ENV "clang_aarch64-linux-gnu"
#define C33_WANT "ARCH_aarch64 COMPILER_CLANG PLATFORM_DESKTOP PLATFORM_LINUX PLATFORM_POSIX"
#define C33_VER (__clang_major__ * 100 + __clang_minor__)
#define C33_IS_CLANG
#define C33_BIG 0
#define endian endian_clang_aarch64_linux_gnu
namespace std { enum class endian { little = 1234, big = 4321, native = 1234 }; }
#include <NazaraUtils/Endianness.hpp>
#include "../src/c33_order.inc"
