#define Nz Nz_alone_Endianness // a copy of the library of its own
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/Endianness.hpp>
#define C32_Endianness
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
