// release build with assertions asked for
#ifndef NDEBUG
#define NDEBUG
#endif
#define NAZARA_ENABLE_ASSERTS
#include "vx.hpp"
#include <NazaraUtils/Assert.hpp>
#include <csignal>
#include <functional>
using namespace vx;
#define VXNAME "release with assertions enabled"
#define VXACTIVE true
#include "../src/c26_macros.inc"
