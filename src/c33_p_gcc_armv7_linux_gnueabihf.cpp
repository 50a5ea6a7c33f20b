#include "../src/c33_probe.hpp"
#include "../src/env/none.inc"
#include "../src/env/gcc_armv7_linux_gnueabihf.inc"
#define Nz Nz_p_gcc_armv7_linux_gnueabihf
#define C33_ENV "gcc_armv7-linux-gnueabihf"
#define C33_WANT "ARCH_arm COMPILER_GCC PLATFORM_DESKTOP PLATFORM_LINUX PLATFORM_POSIX"
#define C33_VER (__GNUC__ * 100 + __GNUC_MINOR__)
#define C33_IS_GCC
#define C33_BIG 0
#include <NazaraUtils/Prerequisites.hpp>
#include "../src/c33_unit.inc"
#define C33_NAME C33_ENV
#define C33_STRUCT S_gcc_armv7_linux_gnueabihf
#define C33_LOCAL local_gcc_armv7_linux_gnueabihf
#define forced2 forced2_gcc_armv7_linux_gnueabihf

#include "../src/c33_feature.inc"
