#include "../src/c33_probe.hpp"
#include "../src/env/none.inc"
#include "../src/env/msvc17_arm64.inc"
#define Nz Nz_p_msvc17_arm64
#define C33_ENV "msvc17_arm64"
#define C33_WANT "ARCH_aarch64 COMPILER_MSVC PLATFORM_DESKTOP PLATFORM_WINDOWS"
#define C33_VER _MSC_VER
#define C33_IS_MSVC
#define C33_BIG 0
#include <NazaraUtils/Prerequisites.hpp>
#include "../src/c33_unit.inc"
#define C33_NAME C33_ENV
#define C33_STRUCT S_msvc17_arm64
#define C33_LOCAL local_msvc17_arm64
#define forced2 forced2_msvc17_arm64

#include "../src/c33_feature.inc"
