#define Nz Nz_alone_Prerequisites // a copy of the library of its own
#include <NazaraUtils/Prerequisites.hpp>
#include <NazaraUtils/Prerequisites.hpp>
#define C32_Prerequisites
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
