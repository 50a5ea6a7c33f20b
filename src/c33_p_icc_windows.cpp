#include "../src/c33_probe.hpp"
#include "../src/env/none.inc"
#include "../src/env/icc_windows.inc"
#define Nz Nz_p_icc_windows
#define C33_ENV "icc_windows"
#define C33_WANT "ARCH_x86_64 COMPILER_ICC PLATFORM_DESKTOP PLATFORM_WINDOWS"
#define C33_VER __INTEL_COMPILER
#define C33_IS_ICC
#define C33_BIG 0
#include <NazaraUtils/Prerequisites.hpp>
#include "../src/c33_unit.inc"
#define C33_NAME C33_ENV
#define C33_STRUCT S_icc_windows
#define C33_LOCAL local_icc_windows
#define forced2 forced2_icc_windows

#include "../src/c33_feature.inc"
