#include "../src/c33_probe.hpp"
#define Nz Nz_f_3
#define NAZARA_UNITY_ID Unity1
#include <NazaraUtils/Prerequisites.hpp>
#define C33_NAME "unity 1"
#define C33_STRUCT S3
#define C33_LOCAL local3
#define forced2 forced2_3
#include "../src/c33_feature.inc"
