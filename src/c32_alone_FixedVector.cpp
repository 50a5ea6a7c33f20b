#define Nz Nz_alone_FixedVector // a copy of the library of its own
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/FixedVector.hpp>
#define C32_FixedVector
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
