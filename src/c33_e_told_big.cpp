#include "../src/c33_probe.hpp"
#define Nz Nz_e_told_1
#define C33_ENV "told big"
#define C33_BIG 1
#define NAZARA_BIG_ENDIAN
#include <NazaraUtils/Endianness.hpp>
#include "../src/c33_order.inc"
