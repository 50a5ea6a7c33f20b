#define Nz Nz_alone_StringUtils // a copy of the library of its own
#include <NazaraUtils/StringUtils.hpp>
#include <NazaraUtils/StringUtils.hpp>
#define C32_StringUtils
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
