#define Nz Nz_alone_StackVector // a copy of the library of its own
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StackVector.hpp>
#define C32_StackVector
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
