// C32: the probes of every header give the same answers in every translation unit (see c32_probe.hpp)
#include <NazaraUtils/Prerequisites.hpp>
#define C32_ORDER "driver"
#include "../src/c32_probe.hpp"
using namespace vx;

VX_SUITE("every header in every translation unit", 1500, 20000)
{
	auto& all = c32::entries(); const char* h = all[cx.rng.below(all.size())].header; u64 seed = cx.rng.next(); cx.log("%s, seed %llu", h, (unsigned long long) seed); cx.count(h);
	u64 want = 0, n = 0; for (auto& e : all) if (!std::strcmp(e.header, h)) { Rng r; r.s = seed; cx.log("in %s", e.order); u64 got = e.fn(r); cx.count("units run"); if (n++) VX_EQ("same answers in every translation unit", got, want); else want = got; }
	cx.mix(want); VX_TRUE("several units", n >= 12);
}
