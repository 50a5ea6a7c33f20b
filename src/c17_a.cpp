#include "vx.hpp"
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <limits>
#include <vector>
using namespace vx;
// byte order: object bytes are the reference
namespace
{
	template<class T> void bytesOf(const T& v, u8* o) { std::memcpy(o, &v, sizeof(T)); }
	template<class T> void one(u64 raw)
	{
		constexpr std::size_t n = sizeof(T);
		T v; std::memcpy(&v, &raw, n);
		u8 in[n], out[n], rev[n];
		bytesOf(v, in); for (std::size_t i = 0; i < n; ++i) rev[i] = in[n - 1 - i];
		auto is = [&](const char* key, const T& got, const u8* want) { bytesOf(got, out); ++cur->checks; if (std::memcmp(out, want, n)) fail(key, "%s of a %zu-byte value %llx is wrong", key, n, (unsigned long long) raw); };
		// NaN patterns included: on this platform nothing quiets a NaN that is only passed around
		{
			is("ByteSwap", Nz::ByteSwap(v), rev); is("ByteSwap twice", Nz::ByteSwap(Nz::ByteSwap(v)), in);
			is("HostToLittleEndian", Nz::HostToLittleEndian(v), in); is("LittleEndianToHost", Nz::LittleEndianToHost(v), in);
			is("HostToBigEndian", Nz::HostToBigEndian(v), rev); is("BigEndianToHost", Nz::BigEndianToHost(v), rev);
			is("round trip", Nz::BigEndianToHost(Nz::HostToBigEndian(v)), in); is("round trip", Nz::LittleEndianToHost(Nz::HostToLittleEndian(v)), in);
			// the most significant byte comes first in big endian memory
			if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) { T be = Nz::HostToBigEndian(v); bytesOf(be, out); for (std::size_t i = 0; i < n; ++i) VX_EQ("HostToBigEndian", out[i], (u8) ((std::make_unsigned_t<T>) v >> 8 * (n - 1 - i))); }
		}
		T w = v; Nz::SwapBytes(&w, n); is("SwapBytes", w, rev);
		cur->count("values");
	}
	template<class T> void run(Ctx& cx)
	{
		if constexpr (sizeof(T) == 1) { for (unsigned i = 0; i < (std::is_same_v<T, bool> ? 2 : 256); ++i) one<T>(i); cx.log("all values"); cx.mix(cx.index); }
		else if constexpr (sizeof(T) == 2) { unsigned s = (unsigned) (cx.index % 64) * 1024; for (unsigned i = 0; i < 1024; ++i) one<T>(s + i); cx.log("values from %u", s); cx.mix(s); }
		else { u64 first = 0; for (int k = 0; k < 200; ++k) { u64 v = cx.rng.bits(sizeof(T) * 8); if constexpr (std::is_floating_point_v<T>) if (cx.rng.chance(1, 4)) { T special[] = {std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::signaling_NaN(), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::denorm_min(), -T(0)}; u64 x = 0; std::memcpy(&x, &special[cx.rng.below(5)], sizeof(T)); v = (x ^ (u64(cx.rng.below(4)) << cx.rng.below(sizeof(T) * 8 - 2))) & (~u64(0) >> (64 - 8 * sizeof(T))); if (cx.rng.coin()) { u64 y = 0; for (std::size_t b = 0; b < sizeof(T); ++b) y |= (v >> 8 * b & 0xFF) << 8 * (sizeof(T) - 1 - b); v = y; } } if (!k) first = v; one<T>(v); if (k < 5) cx.mix(v); } cx.log("200 values from %llx", (unsigned long long) first); }
	}
}
using uchar = unsigned char; using schar = signed char; using ushort_ = unsigned short; using uint_ = unsigned; using ulong_ = unsigned long; using llong = long long; using ullong = unsigned long long;
#define S(T, Q, TH) VX_FN(#T, Q, TH, run<T>)
S(bool, 1, 1) S(char, 1, 1) S(schar, 1, 1) S(uchar, 1, 1) S(short, 6, 43) S(ushort_, 6, 43) S(char16_t, 6, 43)
S(int, 300, 5000) S(uint_, 300, 5000) S(long, 300, 5000) S(ulong_, 300, 5000) S(llong, 300, 5000) S(ullong, 300, 5000) S(char32_t, 300, 5000) S(wchar_t, 300, 5000)
S(float, 300, 5000) S(double, 300, 5000)
VX_SUITE("SwapBytes", 600, 20000)
{
	std::size_t n = (std::size_t) cx.rng.below(cx.rng.chance(1, 60) ? 140000 : cx.rng.chance(1, 8) ? 5000 : 40), off = (std::size_t) cx.rng.below(9);
	cx.log("buffer of %zu bytes at offset %zu", n, off);
	std::vector<u8> v(off + n + 8), o; for (auto& b : v) b = (u8) cx.rng.next(); o = v; cx.mix(n); cx.mix(off);
	// exact allocation: reads or writes past the range are seen by ASan
	u8* p = n ? new u8[n] : nullptr; if (n) std::memcpy(p, v.data() + off, n);
	Nz::SwapBytes(p, n); for (std::size_t i = 0; i < n; ++i) VX_EQ("SwapBytes", p[i], v[off + n - 1 - i]); delete[] p;
	Nz::SwapBytes(v.data() + off, n);
	for (std::size_t i = 0; i < v.size(); ++i) VX_EQ("SwapBytes", v[i], i >= off && i < off + n ? o[off + n - 1 - (i - off)] : o[i]);
	Nz::SwapBytes(v.data() + off, n); VX_TRUE("SwapBytes", v == o);
	static_assert(Nz::PlatformEndianness == Nz::Endianness::LittleEndian);
	cx.count("bytes", n);
}
