#define Nz Nz_alone_OffsetOf // a copy of the library of its own
#include <NazaraUtils/OffsetOf.hpp>
#include <NazaraUtils/OffsetOf.hpp>
#define C32_OffsetOf
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
