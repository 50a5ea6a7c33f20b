#define Nz Nz_alone_FunctionTraits // a copy of the library of its own
#include <NazaraUtils/FunctionTraits.hpp>
#include <NazaraUtils/FunctionTraits.hpp>
#define C32_FunctionTraits
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
