#define Nz Nz_alone_TypeTag // a copy of the library of its own
#include <NazaraUtils/TypeTag.hpp>
#include <NazaraUtils/TypeTag.hpp>
#define C32_TypeTag
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
