#define Nz Nz_alone_PrivateImpl // a copy of the library of its own
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#define C32_PrivateImpl
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
