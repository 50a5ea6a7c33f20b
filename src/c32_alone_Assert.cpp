#define Nz Nz_alone_Assert // a copy of the library of its own
#include <NazaraUtils/Assert.hpp>
#include <NazaraUtils/Assert.hpp>
#define C32_Assert
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
