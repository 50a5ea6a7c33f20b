#include "../src/c33_probe.hpp"
#include "../src/env/none.inc"
#include "../src/env/msvc_x64.inc"
#define Nz Nz_p_msvc_x64
#define C33_ENV "msvc_x64"
#define C33_WANT "ARCH_x86_64 COMPILER_MSVC PLATFORM_DESKTOP PLATFORM_WINDOWS"
#define C33_VER _MSC_VER
#define C33_IS_MSVC
#define C33_BIG 0
#include <NazaraUtils/Prerequisites.hpp>
#include "../src/c33_unit.inc"
#define C33_NAME C33_ENV
#define C33_STRUCT S_msvc_x64
#define C33_LOCAL local_msvc_x64
#define forced2 forced2_msvc_x64

#include "../src/c33_feature.inc"
