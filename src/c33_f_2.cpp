#include "../src/c33_probe.hpp"
#define Nz Nz_f_2
#define NAZARA_NO_UNREACHABLE_MACRO
#define C33_THROWS
#include <NazaraUtils/Prerequisites.hpp>
#define C33_NAME "plain unreachable"
#define C33_STRUCT S2
#define C33_LOCAL local2
#define forced2 forced2_2
#include "../src/c33_feature.inc"
