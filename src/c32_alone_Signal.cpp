#define Nz Nz_alone_Signal // a copy of the library of its own
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/Signal.hpp>
#define C32_Signal
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
