#define Nz Nz_alone_Flags // a copy of the library of its own
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/Flags.hpp>
#define C32_Flags
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
