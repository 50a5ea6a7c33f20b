#include "../src/c33_probe.hpp"
#define Nz Nz_f_1
#define NAZARA_NO_LIKELY_ATTRIBUTE
#define NAZARA_NO_ASSUME_ATTRIBUTE
#define NAZARA_NO_FORCEINLINE_ATTRIBUTE
#include <NazaraUtils/Prerequisites.hpp>
#define C33_NAME "plain attributes"
#define C33_STRUCT S1
#define C33_LOCAL local1
#define forced2 forced2_1
#include "../src/c33_feature.inc"
