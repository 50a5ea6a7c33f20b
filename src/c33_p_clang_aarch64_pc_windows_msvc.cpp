#include "../src/c33_probe.hpp"
#include "../src/env/none.inc"
#include "../src/env/clang_aarch64_pc_windows_msvc.inc"
#define Nz Nz_p_clang_aarch64_pc_windows_msvc
#define C33_ENV "clang_aarch64-pc-windows-msvc"
#define C33_WANT "ARCH_aarch64 COMPILER_CLANG PLATFORM_DESKTOP PLATFORM_WINDOWS"
#define C33_VER (__clang_major__ * 100 + __clang_minor__)
#define C33_IS_CLANG
#define C33_BIG 0
#include <NazaraUtils/Prerequisites.hpp>
#include "../src/c33_unit.inc"
#define C33_NAME C33_ENV
#define C33_STRUCT S_clang_aarch64_pc_windows_msvc
#define C33_LOCAL local_clang_aarch64_pc_windows_msvc
#define forced2 forced2_clang_aarch64_pc_windows_msvc

#include "../src/c33_feature.inc"
