#include "vx.hpp"
#include <NazaraUtils/MathUtils.hpp>
#include <type_traits>
using namespace vx;
#ifndef PART
#define PART 0
#endif
// every bit primitive against a bit-by-bit definition
namespace
{
	template<class T> constexpr unsigned W = sizeof(T) * 8;
	template<class T> std::make_unsigned_t<T> U(T v) { return (std::make_unsigned_t<T>) v; }
	template<class T> void one(T v)
	{
		using UT = std::make_unsigned_t<T>; u64 raw = (u64) U(v); const unsigned w = W<T>;
		unsigned cnt = 0, first = 0, last = 0; u64 rev = 0;
		for (unsigned i = 0; i < w; ++i) if (raw >> i & 1) { ++cnt; if (!first) first = i + 1; last = i + 1; rev |= u64(1) << (w - 1 - i); }
		++cur->checks;
		if (Nz::CountBits(v) != cnt) fail("CountBits", "CountBits(%llx/%u bits) is %zu, expected %u", (unsigned long long) raw, w, Nz::CountBits(v), cnt);
		if (Nz::FindFirstBit(v) != first) fail("FindFirstBit", "FindFirstBit(%llx/%u bits) is %u, expected %u", (unsigned long long) raw, w, Nz::FindFirstBit(v), first);
		if (Nz::FindLastBit(v) != last) fail("FindLastBit", "FindLastBit(%llx/%u bits) is %u, expected %u", (unsigned long long) raw, w, Nz::FindLastBit(v), last);
		if ((u64) U(Nz::ReverseBits(v)) != rev || Nz::ReverseBits(Nz::ReverseBits(v)) != v) fail("ReverseBits", "ReverseBits(%llx/%u bits) is %llx, expected %llx", (unsigned long long) raw, w, (unsigned long long) U(Nz::ReverseBits(v)), (unsigned long long) rev);
		unsigned from = w <= 16 ? 0 : (unsigned) (raw % w), n = w <= 16 ? w : 3; // all bits of narrow types, three of wide ones
		for (unsigned k = 0; k < n; ++k)
		{
			unsigned b = (from + k) % w; T B = (T) b; u64 m = u64(1) << b;
			if (Nz::TestBit(v, B) != ((raw & m) != 0)) fail("TestBit", "TestBit(%llx, %u)", (unsigned long long) raw, b);
			if ((u64) U(Nz::SetBit(v, B)) != (raw | m)) fail("SetBit", "SetBit(%llx, %u) is %llx", (unsigned long long) raw, b, (unsigned long long) U(Nz::SetBit(v, B)));
			if ((u64) U(Nz::ClearBit(v, B)) != (raw & ~m)) fail("ClearBit", "ClearBit(%llx, %u) is %llx", (unsigned long long) raw, b, (unsigned long long) U(Nz::ClearBit(v, B)));
			if ((u64) U(Nz::ToggleBit(v, B)) != (raw ^ m)) fail("ToggleBit", "ToggleBit(%llx, %u) is %llx", (unsigned long long) raw, b, (unsigned long long) U(Nz::ToggleBit(v, B)));
			// shift: the value divided by 2^b, rounded down (fill with the sign for signed types)
			u64 sh = raw >> b; if (std::is_signed_v<T> && (raw >> (w - 1) & 1) && b) sh |= (~u64(0) << (w - b)); if (w < 64) sh &= (u64(1) << w) - 1;
			auto chk = [&](T got) { if ((u64) U(got) != sh) fail("ArithmeticRightShift", "%llx/%u >> %u is %llx, expected %llx", (unsigned long long) raw, w, b, (unsigned long long) U(got), (unsigned long long) sh); };
			chk(Nz::ArithmeticRightShift(v, (int) b)); chk(Nz::ArithmeticRightShift(v, (unsigned) b)); chk(Nz::ArithmeticRightShift(v, (u8) b)); chk(Nz::ArithmeticRightShift(v, (i8) b)); chk(Nz::ArithmeticRightShift(v, (i64) b)); chk(Nz::ArithmeticRightShift(v, (u64) b));
		}
	}
	template<class T> void run(Ctx& cx)
	{
		if constexpr (sizeof(T) == 1) { for (unsigned i = 0; i < 256; ++i) one<T>((T) i); cx.log("all 8-bit values"); cx.count("values", 256); cx.mix(cx.index); }
		else if constexpr (sizeof(T) == 2) { unsigned s = (unsigned) (cx.index % 64) * 1024; for (unsigned i = 0; i < 1024; ++i) one<T>((T) (s + i)); cx.log("16-bit values from %u", s); cx.count("values", 1024); }
		else { u64 first = 0; for (int k = 0; k < 200; ++k) { T v = cx.rng.value<T>(); if (!k) first = (u64) U(v); one<T>(v); if (k < 6) cx.mix((u64) U(v)); } cx.log("200 values from %llx", (unsigned long long) first); cx.count("values", 200); }
	}
}
#define S8(T) VX_FN(#T, 4, 4, run<T>)
#define S16(T) VX_FN(#T, 64, 64, run<T>)
#define S32(T) VX_FN(#T, 400, 12000, run<T>)
using uchar = unsigned char; using schar = signed char; using ushort_ = unsigned short; using uint_ = unsigned; using ulong_ = unsigned long; using llong = long long; using ullong = unsigned long long;
#if PART == 0
S8(char) S8(uchar)
S8(schar) S16(short)
S16(ushort_) S16(char16_t)
S32(char32_t) S32(wchar_t)
#else
S32(int) S32(uint_)
S32(long) S32(ulong_)
S32(llong) S32(ullong)
#endif
