#include "../src/c33_probe.hpp"
#define Nz Nz_f_4
#define NAZARA_UNITY_ID Unity2
#include <NazaraUtils/Prerequisites.hpp>
#define C33_NAME "unity 2"
#define C33_STRUCT S4
#define C33_LOCAL local4
#define forced2 forced2_4
#include "../src/c33_feature.inc"
