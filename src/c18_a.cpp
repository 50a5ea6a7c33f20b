#include "vx.hpp"
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <memory_resource>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace vx;
// hashes against bit-by-bit / byte-by-byte definitions written here
namespace
{
	u32 crcRef(const u8* p, std::size_t n) { u32 c = ~u32(0); for (std::size_t i = 0; i < n; ++i) { c ^= p[i]; for (int k = 0; k < 8; ++k) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return ~c; }
	u32 f32Ref(const u8* p, std::size_t n) { u32 h = 2166136261u; for (std::size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 16777619u; return h; }
	u64 f64Ref(const u8* p, std::size_t n) { u64 h = 14695981039346656037ull; for (std::size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ull; return h; }
	u64 mixRef(u64 seed, u64 h) { const u64 k = 0x9ddfea08eb382d69ull; u64 a = (h ^ seed) * k; a ^= a >> 47; u64 b = (seed ^ a) * k; b ^= b >> 47; return b * k; }
	std::string bytes(Rng& r, bool zero, std::size_t maxLen)
	{
		std::size_t n = (std::size_t) r.below(r.chance(1, 4) ? maxLen : 20) ; std::string s; unsigned mode = (unsigned) r.below(4);
		for (std::size_t i = 0; i < n; ++i) { char c = (char) (mode == 0 ? r.below(256) : mode == 1 ? 128 + r.below(128) : mode == 2 ? 32 + r.below(96) : r.coin() ? 0xFF : r.below(3)); if (!zero && !c) c = 1; s += c; }
		return s;
	}
	// texts made of runs and repeated patterns, or bringing a running hash to zero
	std::string patterned(Rng& r)
	{
		static const char* const zeroing[] = { "\xff\xff\xff\xff", "\xcc\x24\x31\xc4", "\xd5\x6b\xb9\x53\x42\x87\x08\x36" };
		std::string s; unsigned pieces = 1 + (unsigned) r.below(4);
		for (unsigned k = 0; k < pieces; ++k)
		{
			std::size_t n = (std::size_t) r.below(r.chance(1, 3) ? 300 : r.coin() ? 40 : 9);
			switch (r.below(6))
			{
				case 0: s.append(n, '\0'); break;
				case 1: s.append(n, r.coin() ? (char) 0xFF : (char) r.below(256)); break;
				case 2: { std::string u = bytes(r, true, 9); if (!u.empty()) while (n > u.size()) { s += u; n -= u.size(); } break; }
				case 3: s += zeroing[r.below(3)]; break;
				case 4: for (; n; --n) s += (char) (s.size() * 7); break;
				case 5: s += bytes(r, true, 80); break;
			}
		}
		return s;
	}
}
static void byteStrings(Ctx& cx, std::string s)
{
	std::size_t n = s.size(); for (char c : s) cx.mix((u8) c);
	cx.log("%zu bytes, first %02x, last %02x", n, n ? (u8) s[0] : 0, n ? (u8) s[n - 1] : 0);
	// exact allocation so that a read past the end is caught
	u8* p = (u8*) ::operator new(n + (n == 0)); std::memcpy(p, s.data(), n);
	std::string_view v((const char*) p, n);
	u32 c = crcRef(p, n), a = f32Ref(p, n); u64 b = f64Ref(p, n);
	VX_EQ("CRC32(data, size)", Nz::CRC32(p, n), c); VX_EQ("FNV1a32(data, size)", Nz::FNV1a32(p, n), a); VX_EQ("FNV1a64(data, size)", Nz::FNV1a64(p, n), b);
	VX_EQ("CRC32(string_view)", Nz::CRC32(v), c); VX_EQ("FNV1a32(string_view)", Nz::FNV1a32(v), a); VX_EQ("FNV1a64(string_view)", Nz::FNV1a64(v), b);
	VX_EQ("CRC32Hash", Nz::CRC32Hash{}(v), c); VX_EQ("FNV1a32Hash", Nz::FNV1a32Hash{}(v), a); VX_EQ("FNV1a64Hash", Nz::FNV1a64Hash{}(v), b);
	VX_EQ("CRC32Hash", Nz::CRC32Hash{}(p, n), c); VX_EQ("FNV1a32Hash", Nz::FNV1a32Hash{}(p, n), a); VX_EQ("FNV1a64Hash", Nz::FNV1a64Hash{}(p, n), b);
	VX_EQ("HashFunctor", Nz::HashFunctor<Nz::CRC32Hash>{}(v), (std::size_t) c); VX_EQ("HashFunctor", Nz::HashFunctor<Nz::FNV1a32Hash>{}(v), (std::size_t) a); VX_EQ("HashFunctor", Nz::HashFunctor<Nz::FNV1a64Hash>{}(v), (std::size_t) b);
	::operator delete(p);
	// null-terminated, exact allocation as well
	std::size_t z = s.find('\0'); if (z == std::string::npos) z = n;
	char* q = (char*) ::operator new(z + 1); std::memcpy(q, s.data(), z); q[z] = 0; const char* cq = q; const u8* uq = (const u8*) q;
	VX_EQ("CRC32(const char*)", Nz::CRC32(cq), crcRef(uq, z)); VX_EQ("FNV1a32(const char*)", Nz::FNV1a32(cq), f32Ref(uq, z)); VX_EQ("FNV1a64(const char*)", Nz::FNV1a64(cq), f64Ref(uq, z));
	VX_EQ("CRC32Hash", Nz::CRC32Hash{}(cq), crcRef(uq, z)); VX_EQ("FNV1a32Hash", Nz::FNV1a32Hash{}(cq), f32Ref(uq, z)); VX_EQ("FNV1a64Hash", Nz::FNV1a64Hash{}(cq), f64Ref(uq, z));
	::operator delete(q);
	cx.count("byte strings"); if (z < n) cx.count("with embedded zeroes");
}
VX_SUITE("byte strings", 3000, 200000) { byteStrings(cx, bytes(cx.rng, cx.rng.coin(), 600)); }
VX_SUITE("patterned byte strings", 2000, 100000) { byteStrings(cx, patterned(cx.rng)); }
VX_SUITE("long byte strings", 12, 200)
{
	std::string s((std::size_t) (65536 * (1 + (i64) cx.rng.below(4)) + cx.rng.range(-40, 40)), 'a'); bool zero = cx.rng.coin(); for (char& c : s) { c = (char) cx.rng.next(); if (!zero && !c) c = 1; }
	byteStrings(cx, std::move(s));
}
// usable as hash functors of standard containers
VX_SUITE("hash functors in containers", 300, 5000)
{
	std::unordered_map<std::string, int, Nz::HashFunctor<Nz::FNV1a64Hash>> m; std::unordered_map<std::string, int, Nz::HashFunctor<Nz::CRC32Hash>> m2; std::unordered_map<std::string_view, int, Nz::HashFunctor<Nz::FNV1a32Hash>> m3;
	std::vector<std::string> keys; for (int i = 0; i < 40; ++i) keys.push_back(bytes(cx.rng, true, 60) + std::to_string(100 + i));
	int i = 0; for (auto& k : keys) { m[k] = i; m2[k] = i; m3[k] = i; ++i; for (char c : k) cx.mix((u8) c); }
	cx.log("40 keys");
	i = 0; for (auto& k : keys) { std::string copy(k); VX_EQ("map lookup", m.at(copy), i); VX_EQ("map lookup", m2.at(copy), i); VX_EQ("map lookup", m3.at(copy), i); ++i; }
	cx.count("lookups", 120);
}
namespace
{
	struct Key { u64 h; };
}
template<> struct std::hash<Key> { std::size_t operator()(const Key& k) const { return (std::size_t) k.h; } };
VX_SUITE("combination", 3000, 200000)
{
	Rng& r = cx.rng; u64 seed = r.bits(), h = r.bits(), h2 = r.chance(1, 3) ? h ^ (u64(1) << r.below(64)) : r.bits();
	cx.log("seed %llx, hashes %llx %llx", (unsigned long long) seed, (unsigned long long) h, (unsigned long long) h2); cx.mix(seed); cx.mix(h); cx.mix(h2);
	auto comb = [](std::size_t s, const auto& v) { Nz::HashCombine<std::decay_t<decltype(v)>>(s, v); return s; };
	VX_EQ("HashCombine(seed, v)", comb(seed, Key{h}), mixRef(seed, h));
	// for a given seed distinct hashes never collide
	if (h != h2) VX_TRUE("HashCombine(seed, v) collides", comb(seed, Key{h}) != comb(seed, Key{h2}));
	std::string s = bytes(r, true, 50); i64 n = (i64) r.bits(); double d = (double) r.range(-1000, 1000) / 3; void* p = &s;
	VX_EQ("HashCombine(seed, string)", comb(seed, s), mixRef(seed, std::hash<std::string>{}(s)));
	VX_EQ("HashCombine(seed, integer)", comb(seed, n), mixRef(seed, std::hash<i64>{}(n)));
	// several values: hash of the first combined with the combination of the others
	auto H = [](const auto& v) { return (u64) std::hash<std::decay_t<decltype(v)>>{}(v); };
	VX_EQ("HashCombine(a)", Nz::HashCombine(Key{h}), (std::size_t) h); VX_EQ("HashCombine(string)", Nz::HashCombine(s), (std::size_t) H(s));
	VX_EQ("HashCombine(a, b, c)", Nz::HashCombine(s, n, d), (std::size_t) mixRef(H(s), std::hash<std::size_t>{}(mixRef(H(n), H(d)))));
	VX_EQ("HashCombine(a, b, c, d)", Nz::HashCombine(p, Key{h2}, s, d), (std::size_t) mixRef(H(p), mixRef(h2, mixRef(H(s), H(d)))));
	std::string s2 = s; VX_EQ("HashCombine of equal values", Nz::HashCombine(s2, n, d), Nz::HashCombine(s, n, d));
	cx.count("combinations");
}
VX_SUITE("combination order", 100, 3000)
{
	// over many random pairs of values, swapping them (nearly) always changes the hash
	unsigned diff = 0; for (int i = 0; i < 64; ++i) { std::string a = bytes(cx.rng, true, 20) + "a", b = bytes(cx.rng, true, 20) + "b"; diff += Nz::HashCombine(a, b) != Nz::HashCombine(b, a); cx.mix(a.size() * 97 + b.size()); }
	cx.log("64 pairs, %u sensitive to order", diff); VX_TRUE("order sensitivity", diff >= 62);
	std::set<std::size_t> seen; for (u64 i = 0; i < 32; ++i) for (u64 j = 0; j < 32; ++j) seen.insert(Nz::HashCombine(std::as_const(i), j));
	VX_TRUE("collisions on small pairs", seen.size() >= 1020);
}
namespace
{
	template<class C> void stringHash(Ctx& cx)
	{
		using S = std::basic_string<C>; using V = std::basic_string_view<C>;
		Nz::StringHash<C> hash; S s; std::size_t n = (std::size_t) cx.rng.below(60); for (std::size_t i = 0; i < n; ++i) s += (C) (1 + cx.rng.below(cx.rng.coin() ? 120 : 254));
		bool zero = cx.rng.chance(1, 4); if (zero && n) s[(std::size_t) cx.rng.below(n)] = C(0);
		for (C c : s) cx.mix((u64) c); cx.log("%zu characters%s", n, zero ? " with a zero" : "");
		std::size_t want = std::hash<V>{}(V(s));
		VX_EQ("StringHash(string)", hash(s), want); VX_EQ("StringHash(view)", hash(V(s)), want);
		std::pmr::basic_string<C> ps(s.data(), s.size()); VX_EQ("StringHash(string with another allocator)", hash(ps), want);
		// a view in the middle of a larger buffer
		S big = S(3, C('x')) + s + S(3, C('y')); VX_EQ("StringHash(view)", hash(V(big).substr(3, n)), want);
		S cut(s.c_str()); VX_EQ("StringHash(pointer)", hash(s.c_str()), std::hash<V>{}(V(cut))); VX_EQ("StringHash(pointer)", hash(cut.c_str()), hash(cut));
		static_assert(std::is_same_v<typename Nz::StringHash<C>::hash_type, std::hash<V>>);
		std::unordered_map<S, int, Nz::StringHash<C>, std::equal_to<>> m; for (int i = 0; i < 20; ++i) m[S(i, C('k'))] = i; m[cut] = 100;
		#if __cplusplus >= 202002L
		VX_TRUE("heterogeneous lookup", m.find(V(cut)) != m.end() && m.find(cut.c_str()) != m.end() && m.find(V(cut))->second == 100 && m.find(cut.c_str())->second == 100);
		#endif
		VX_EQ("lookup", m.at(cut), 100);
		cx.count("strings");
	}
}
VX_FN("StringHash<char>", 300, 10000, stringHash<char>)
VX_FN("StringHash<wchar_t>", 300, 10000, stringHash<wchar_t>)
VX_FN("StringHash<char16_t>", 300, 10000, stringHash<char16_t>)
VX_FN("StringHash<char32_t>", 300, 10000, stringHash<char32_t>)
