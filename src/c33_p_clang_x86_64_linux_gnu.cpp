#include "../src/c33_probe.hpp"
#include "../src/env/none.inc"
#include "../src/env/clang_x86_64_linux_gnu.inc"
#define Nz Nz_p_clang_x86_64_linux_gnu
#define C33_ENV "clang_x86_64-linux-gnu"
#define C33_WANT "ARCH_x86_64 COMPILER_CLANG PLATFORM_DESKTOP PLATFORM_LINUX PLATFORM_POSIX"
#define C33_VER (__clang_major__ * 100 + __clang_minor__)
#define C33_IS_CLANG
#define C33_BIG 0
#include <NazaraUtils/Prerequisites.hpp>
#include "../src/c33_unit.inc"
#define C33_NAME C33_ENV
#define C33_STRUCT S_clang_x86_64_linux_gnu
#define C33_LOCAL local_clang_x86_64_linux_gnu
#define forced2 forced2_clang_x86_64_linux_gnu

#include "../src/c33_feature.inc"
