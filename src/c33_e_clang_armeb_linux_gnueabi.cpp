#include "../src/c33_probe.hpp"
#define Nz Nz_e_clang_armeb_linux_gnueabi
#include <NazaraUtils/MathUtils.hpp>
#if __has_include(<endian.h>)
#include <endian.h>
#endif
#include "../src/env/none.inc"
#include "../src/env/clang_armeb_linux_gnueabi.inc"
#undef __BYTE_ORDER
#undef __LITTLE_ENDIAN
#undef __BIG_ENDIAN
#undef BYTE_ORDER
#undef LITTLE_ENDIAN
#undef BIG_ENDIAN
#define __LITTLE_ENDIAN 1234
#define __BIG_ENDIAN 4321
#define __BYTE_ORDER 4321
#define LITTLE_ENDIAN 1234
#define BIG_ENDIAN 4321
#define BYTE_ORDER 4321
#define C33_ENV "clang_armeb-linux-gnueabi"
#define C33_WANT "ARCH_arm COMPILER_CLANG PLATFORM_DESKTOP PLATFORM_LINUX PLATFORM_POSIX"
#define C33_VER (__clang_major__ * 100 + __clang_minor__)
#define C33_IS_CLANG
#define C33_BIG 1
#define endian endian_clang_armeb_linux_gnueabi
namespace std { enum class endian { little = 1234, big = 4321, native = 4321 }; }
#include <NazaraUtils/Endianness.hpp>
#include "../src/c33_order.inc"
