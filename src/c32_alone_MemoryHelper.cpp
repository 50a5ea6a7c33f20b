#define Nz Nz_alone_MemoryHelper // a copy of the library of its own
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#define C32_MemoryHelper
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
