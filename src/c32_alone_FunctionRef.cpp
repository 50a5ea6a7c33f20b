#define Nz Nz_alone_FunctionRef // a copy of the library of its own
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#define C32_FunctionRef
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
