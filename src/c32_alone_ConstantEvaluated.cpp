#define Nz Nz_alone_ConstantEvaluated // a copy of the library of its own
#include <NazaraUtils/ConstantEvaluated.hpp>
#include <NazaraUtils/ConstantEvaluated.hpp>
#define C32_ConstantEvaluated
#define C32_ORDER "alone"
#include "../src/c32_probe.hpp"
