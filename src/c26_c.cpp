// assertions refused whatever else asks for them
#undef NDEBUG
#define NAZARA_NO_ASSERT
#define NAZARA_ENABLE_ASSERTS
#include "vx.hpp"
#include <NazaraUtils/Assert.hpp>
#include <csignal>
#include <functional>
using namespace vx;
#define VXNAME "assertions refused"
#define VXACTIVE false
#include "../src/c26_macros.inc"
