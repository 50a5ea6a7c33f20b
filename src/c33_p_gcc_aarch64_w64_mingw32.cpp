#include "../src/c33_probe.hpp"
#include "../src/env/none.inc"
#include "../src/env/gcc_aarch64_w64_mingw32.inc"
#define Nz Nz_p_gcc_aarch64_w64_mingw32
#define C33_ENV "gcc_aarch64-w64-mingw32"
#define C33_WANT "ARCH_aarch64 COMPILER_GCC COMPILER_MINGW COMPILER_MINGW_THREADS_WIN32 PLATFORM_DESKTOP PLATFORM_WINDOWS"
#define C33_VER (__GNUC__ * 100 + __GNUC_MINOR__)
#define C33_IS_GCC
#define C33_BIG 0
#include <NazaraUtils/Prerequisites.hpp>
#include "../src/c33_unit.inc"
#define C33_NAME C33_ENV
#define C33_STRUCT S_gcc_aarch64_w64_mingw32
#define C33_LOCAL local_gcc_aarch64_w64_mingw32
#define forced2 forced2_gcc_aarch64_w64_mingw32

#include "../src/c33_feature.inc"
