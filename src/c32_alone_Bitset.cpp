#define Nz Nz_alone_Bitset // a copy of the library of its own
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/Bitset.hpp>
#define C32_Bitset
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
