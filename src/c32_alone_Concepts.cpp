#define Nz Nz_alone_Concepts // a copy of the library of its own
#include <NazaraUtils/Concepts.hpp>
#include <NazaraUtils/Concepts.hpp>
#define C32_Concepts
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
