#ifndef __clang__ // which refuses the message about unknown compilers
#include "../src/c33_probe.hpp"
#include "../src/env/none.inc"
#include "../src/env/unknown_linux.inc"
#define Nz Nz_p_unknown_linux
#define C33_ENV "unknown_linux"
#define C33_WANT "ARCH_x86_64 COMPILER_UNKNOWN PLATFORM_DESKTOP PLATFORM_LINUX PLATFORM_POSIX"
#define C33_VER 0
#define C33_IS_UNKNOWN
#define C33_BIG 0
#include <NazaraUtils/Prerequisites.hpp>
#include "../src/c33_unit.inc"
#define C33_NAME C33_ENV
#define C33_STRUCT S_unknown_linux
#define C33_LOCAL local_unknown_linux
#define forced2 forced2_unknown_linux
#define C33_THROWS
#include "../src/c33_feature.inc"
#endif
