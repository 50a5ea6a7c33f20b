#define Nz Nz_alone_TypeList // a copy of the library of its own
#include <NazaraUtils/TypeList.hpp>
#include <NazaraUtils/TypeList.hpp>
#define C32_TypeList
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
