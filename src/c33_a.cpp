// C33: recognition of platforms, compilers, language versions and byte orders (units written by tools/gen_c33.py)
#include "vx.hpp"
#include "../src/c33_probe.hpp"
#include <algorithm>
#include <string>
#include <vector>
using namespace vx;
namespace
{
	template<class T> std::vector<T*> all(T* p) { std::vector<T*> v; for (; p; p = p->next) v.push_back(p); std::sort(v.begin(), v.end(), [](T* a, T* b) { return std::strcmp(a->name, b->name) < 0; }); return v; }
}
VX_SUITE("platforms and compilers", 2000, 40000)
{
	Rng& r = cx.rng; auto v = all(c33::envs); VX_TRUE("environments", v.size() >= 60); c33::Env& e = *v[cx.index % v.size()]; cx.log("%s", e.name); cx.count(e.name); cx.mix(cx.index % v.size());
	std::vector<std::string> got; for (auto p = e.got; *p; ++p) got.push_back(*p);
	std::sort(got.begin(), got.end()); std::string s; for (auto& g : got) s += (s.empty() ? "" : " ") + g; VX_EQ(e.name, s, std::string(e.want));
	long real =
#if __cplusplus
		__cplusplus;
#endif
	VX_EQ("language version", e.cpp, e.is == 'm' ? e.wantCpp : e.is == 'i' ? e.cpp : real);
	bool android = std::string(e.want).find("ANDROID") != std::string::npos; const char kind[] = "gcmi";
	for (int k = 0; k < 20; ++k)
	{
		long x = r.chance(1, 3) ? (long) r.below(3000) : r.coin() ? e.version + (long) r.range(-2, 2) : (long) r.range(-5, 205); cx.mix((u64) x);
		for (int c = 0; c < 4; ++c) VX_EQ("compiler version check", e.check[c](x), e.is == kind[c] && e.version >= x);
		VX_EQ("NDK version check", e.check[4](x), android && 26 >= x); long l = r.coin() ? e.cpp + (long) r.range(-1, 1) : 199711L + (long) r.below(3000); VX_EQ("language version check", e.check[5](l), e.cpp >= l);
	}
	bool win = std::string(e.want).find("WINDOWS") != std::string::npos; std::string x = e.exported, i = e.imported; VX_TRUE("export attribute", (x.find("dllexport") != std::string::npos) == win); VX_TRUE("import attribute", (i.find("dllimport") != std::string::npos) == win);
}
VX_SUITE("byte orders", 1000, 20000)
{
	auto v = all(c33::orders); VX_TRUE("environments", v.size() >= 30); c33::Order& o = *v[cx.index % v.size()]; cx.log("%s", o.name); cx.count(o.name); cx.mix(cx.index % v.size());
	VX_EQ(o.name, o.platform, (int) o.big); VX_EQ(o.name, o.bigDefined, o.big); VX_EQ(o.name, o.littleDefined, !o.big);
	for (int k = 0; k < 20; ++k) { u32 x = (u32) cx.rng.next(), y = __builtin_bswap32(x); cx.mix(x); for (int c = 0; c < 4; ++c) VX_EQ("conversion", o.convert[c](x), (c % 2 == 0) == o.big ? x : y); }
}
VX_SUITE("attributes and helpers", 1000, 10000)
{
	auto v = all(c33::features); VX_TRUE("features", v.size() >= 70); c33::Feature& f = *v[cx.index % v.size()]; cx.log("%s", f.name); cx.count(f.name);
	for (int k = 0; k < 20; ++k) { int x = cx.rng.chance(1, 4) ? (int) cx.rng.range(-2, 2) : (int) cx.rng.range(-1000000, 1000000); cx.mix((u64) x);  const char* bad = f.run(x); ++cur->checks; if (bad) fail(bad, "%s (%s, %d)", bad, f.name, x); }
}
