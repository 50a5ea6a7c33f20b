#define Nz Nz_alone_TypeName // a copy of the library of its own
#include <NazaraUtils/TypeName.hpp>
#include <NazaraUtils/TypeName.hpp>
#define C32_TypeName
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
