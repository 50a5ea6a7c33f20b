#define Nz Nz_alone_MemoryPool // a copy of the library of its own
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#define C32_MemoryPool
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
