#include "../src/c33_probe.hpp"
#include "../src/env/none.inc"
#include "../src/env/clang_mcf_i686_w64_mingw32.inc"
#define Nz Nz_p_clang_mcf_i686_w64_mingw32
#define C33_ENV "clang_mcf_i686-w64-mingw32"
#define C33_WANT "ARCH_x86 COMPILER_CLANG COMPILER_MINGW COMPILER_MINGW_THREADS_MCF COMPILER_MINGW_W64 PLATFORM_DESKTOP PLATFORM_WINDOWS"
#define C33_VER (__clang_major__ * 100 + __clang_minor__)
#define C33_IS_CLANG
#define C33_BIG 0
#include <NazaraUtils/Prerequisites.hpp>
#include "../src/c33_unit.inc"
#define C33_NAME C33_ENV
#define C33_STRUCT S_clang_mcf_i686_w64_mingw32
#define C33_LOCAL local_clang_mcf_i686_w64_mingw32
#define forced2 forced2_clang_mcf_i686_w64_mingw32

#include "../src/c33_feature.inc"
