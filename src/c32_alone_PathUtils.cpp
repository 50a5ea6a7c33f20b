#define Nz Nz_alone_PathUtils // a copy of the library of its own
#include <NazaraUtils/PathUtils.hpp>
#include <NazaraUtils/PathUtils.hpp>
#define C32_PathUtils
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
