#ifndef __clang__
#include "../src/c33_probe.hpp"
#define Nz Nz_f_5
#include "../src/env/none.inc"
#include "../src/env/unknown_linux.inc"
#define C33_THROWS
#include <NazaraUtils/Prerequisites.hpp>
#define C33_NAME "unknown compiler"
#define C33_STRUCT S5
#define C33_LOCAL local5
#define forced2 forced2_5
#include "../src/c33_feature.inc"
#endif
