#include "../src/c33_probe.hpp"
#define Nz Nz_f_0
#include <NazaraUtils/Prerequisites.hpp>
#define C33_NAME "as it is"
#define C33_STRUCT S0
#define C33_LOCAL local0
#define forced2 forced2_0
#include "../src/c33_feature.inc"
