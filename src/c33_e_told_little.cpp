#include "../src/c33_probe.hpp"
#define Nz Nz_e_told_0
#define C33_ENV "told little"
#define C33_BIG 0
#define NAZARA_LITTLE_ENDIAN
#include <NazaraUtils/Endianness.hpp>
#include "../src/c33_order.inc"
