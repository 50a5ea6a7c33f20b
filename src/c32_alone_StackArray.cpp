#define Nz Nz_alone_StackArray // a copy of the library of its own
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackArray.hpp>
#define C32_StackArray
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
