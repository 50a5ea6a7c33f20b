#define Nz Nz_alone_EnumArray // a copy of the library of its own
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/EnumArray.hpp>
#define C32_EnumArray
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
