#define Nz Nz_alone_Algorithm // a copy of the library of its own
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Algorithm.hpp>
#define C32_Algorithm
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
