#define Nz Nz_alone_Hash // a copy of the library of its own
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/Hash.hpp>
#define C32_Hash
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
