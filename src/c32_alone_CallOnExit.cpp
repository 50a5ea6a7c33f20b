#define Nz Nz_alone_CallOnExit // a copy of the library of its own
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#define C32_CallOnExit
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
