#define Nz Nz_alone_DebugBreak // a copy of the library of its own
#include <NazaraUtils/DebugBreak.hpp>
#include <NazaraUtils/DebugBreak.hpp>
#define C32_DebugBreak
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
