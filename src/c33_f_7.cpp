#include "../src/c33_probe.hpp"
#define Nz Nz_f_7
#define likely c33_likely
#define unlikely c33_unlikely
#include <NazaraUtils/Prerequisites.hpp>
#define C33_NAME "attributes of an older compiler"
#define C33_STRUCT S7
#define C33_LOCAL local7
#define forced2 forced2_7
#include "../src/c33_feature.inc"
