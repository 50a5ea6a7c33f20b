#define Nz Nz_alone_MathUtils // a copy of the library of its own
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MathUtils.hpp>
#define C32_MathUtils
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
