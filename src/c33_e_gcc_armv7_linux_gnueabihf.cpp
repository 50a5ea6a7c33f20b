#include "../src/c33_probe.hpp"
#define Nz Nz_e_gcc_armv7_linux_gnueabihf
#include <NazaraUtils/MathUtils.hpp>
#if __has_include(<endian.h>)
#include <endian.h>
#endif
#include "../src/env/none.inc"
#include "../src/env/gcc_armv7_linux_gnueabihf.inc"
#undef __BYTE_ORDER
#undef __LITTLE_ENDIAN
#undef __BIG_ENDIAN
#undef BYTE_ORDER
#undef LITTLE_ENDIAN
#undef BIG_ENDIAN
#define __LITTLE_ENDIAN 1234
#define __BIG_ENDIAN 4321
#define __BYTE_ORDER 1234
#define LITTLE_ENDIAN 1234
#define BIG_ENDIAN 4321
#define BYTE_ORDER 1234
#define C33_ENV "gcc_armv7-linux-gnueabihf"
#define C33_WANT "ARCH_arm COMPILER_GCC PLATFORM_DESKTOP PLATFORM_LINUX PLATFORM_POSIX"
#define C33_VER (__GNUC__ * 100 + __GNUC_MINOR__)
#define C33_IS_GCC
#define C33_BIG 0
#define endian endian_gcc_armv7_linux_gnueabihf
namespace std { enum class endian { little = 1234, big = 4321, native = 1234 }; }
#include <NazaraUtils/Endianness.hpp>
#include "../src/c33_order.inc"
