#define Nz Nz_alone_TypeTraits // a copy of the library of its own
#include <NazaraUtils/TypeTraits.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#define C32_TypeTraits
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
