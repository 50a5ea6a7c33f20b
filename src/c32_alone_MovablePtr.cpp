#define Nz Nz_alone_MovablePtr // a copy of the library of its own
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#define C32_MovablePtr
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
