#define Nz Nz_alone_StringHash // a copy of the library of its own
#include <NazaraUtils/StringHash.hpp>
#include <NazaraUtils/StringHash.hpp>
#define C32_StringHash
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
