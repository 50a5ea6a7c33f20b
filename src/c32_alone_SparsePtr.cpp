#define Nz Nz_alone_SparsePtr // a copy of the library of its own
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#define C32_SparsePtr
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
