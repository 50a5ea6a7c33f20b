// a platform declared big endian: conversions to and from big endian change nothing, those to and from little endian swap
#define Nz NzBigEndian
#define NAZARA_BIG_ENDIAN
#include <NazaraUtils/Endianness.hpp>
#include "vx.hpp"
#include <limits>
using namespace vx;
namespace
{
	template<class T> void one(u64 raw)
	{
		constexpr std::size_t n = sizeof(T); T v; std::memcpy(&v, &raw, n); u8 in[n], rev[n], out[n]; std::memcpy(in, &v, n); for (std::size_t i = 0; i < n; ++i) rev[i] = in[n - 1 - i];
		auto is = [&](const char* key, const T& got, const u8* want) { std::memcpy(out, &got, n); ++cur->checks; if (std::memcmp(out, want, n)) fail(key, "%s of a %zu-byte value %llx is wrong on a big endian platform", key, n, (unsigned long long) raw); };
		is("HostToBigEndian", Nz::HostToBigEndian(v), in); is("BigEndianToHost", Nz::BigEndianToHost(v), in); is("HostToLittleEndian", Nz::HostToLittleEndian(v), rev); is("LittleEndianToHost", Nz::LittleEndianToHost(v), rev);
		is("round trip", Nz::LittleEndianToHost(Nz::HostToLittleEndian(v)), in); is("round trip", Nz::BigEndianToHost(Nz::HostToBigEndian(v)), in); is("ByteSwap", Nz::ByteSwap(v), rev); cur->count("values on a big endian platform");
	}
}
VX_SUITE("declared big endian", 300, 6000)
{
	static_assert(Nz::PlatformEndianness == Nz::Endianness::BigEndian && (int) Nz::Endianness::BigEndian == 0 && Nz::HostToBigEndian(0x1234) == 0x1234 && Nz::HostToLittleEndian(u16(0x1234)) == 0x3412);
	u64 v = cx.rng.value<u64>(); cx.log("%llx", (unsigned long long) v); cx.mix(v);
	one<char>(v); one<u8>(v); one<i8>(v); one<i16>(v); one<u16>(v); one<char16_t>(v); one<i32>(v); one<u32>(v); one<char32_t>(v); one<wchar_t>(v); one<i64>(v); one<u64>(v); one<long long>(v); one<unsigned long long>(v); one<float>(v); one<double>(v); one<bool>(v & 1);
}
