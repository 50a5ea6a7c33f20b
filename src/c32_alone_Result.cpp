#define Nz Nz_alone_Result // a copy of the library of its own
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Result.hpp>
#define C32_Result
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
