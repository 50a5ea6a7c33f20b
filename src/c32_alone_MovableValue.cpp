#define Nz Nz_alone_MovableValue // a copy of the library of its own
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/MovableValue.hpp>
#define C32_MovableValue
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
