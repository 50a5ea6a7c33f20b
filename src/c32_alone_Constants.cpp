#define Nz Nz_alone_Constants // a copy of the library of its own
#include <NazaraUtils/Constants.hpp>
#include <NazaraUtils/Constants.hpp>
#define C32_Constants
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
