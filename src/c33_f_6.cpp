#include "../src/c33_probe.hpp"
#define Nz Nz_f_6
#define NAZARA_NO_ARCH_DETECTION
#include <NazaraUtils/Prerequisites.hpp>
#define C33_NAME "no architecture"
#define C33_STRUCT S6
#define C33_LOCAL local6
#define forced2 forced2_6
#include "../src/c33_feature.inc"
