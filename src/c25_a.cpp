#include "vx.hpp"
#include <NazaraUtils/PathUtils.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include <filesystem>
#include <string>
#include <vector>
using namespace vx;
#if __cplusplus >= 202002L
using U = std::u8string; using UV = std::u8string_view; using UC = char8_t;
#else
using U = std::string; using UV = std::string_view; using UC = char;
#endif
namespace
{
	void put(std::string& s, u32 c) { if (c < 0x80) s += (char) c; else if (c < 0x800) { s += (char) (0xC0 | c >> 6); s += (char) (0x80 | (c & 63)); } else if (c < 0x10000) { s += (char) (0xE0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); } else { s += (char) (0xF0 | c >> 18); s += (char) (0x80 | (c >> 12 & 63)); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); } }
	u32 code(Rng& r) { switch (r.below(6)) { case 0: return (u32) r.range(0x80, 0x7FF); case 1: return (u32) r.range(0x800, 0xD7FF); case 2: return (u32) r.range(0xE000, 0xFFFD); case 3: return (u32) r.range(0x10000, 0x10FFFF); default: return (u32) r.range(1, 0x7F); } }
	template<class A, class B> bool bytesEq(const A& a, const B& b) { return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size()) == 0); }
}
VX_SUITE("strings", 2500, 100000)
{
	Rng& r = cx.rng; std::string s; std::size_t n = (std::size_t) r.below(r.chance(1, 5) ? 200 : r.chance(1, 200) ? 70000 : 20); bool zero = r.chance(1, 4); for (std::size_t i = 0; i < n; ++i) put(s, zero && r.chance(1, 6) ? 0 : code(r)); for (char c : s) cx.mix((u8) c); cx.log("%zu bytes%s", s.size(), zero ? " with zeroes" : "");
	U u((const UC*) s.data(), s.size()); std::string cut(s.c_str()); 
	// owning overloads
	{ std::string in(s); auto out = Nz::ToUtf8String(in); VX_TRUE("ToUtf8String(string)", bytesEq(out, s) && in == s); auto back = Nz::FromUtf8String(out); VX_TRUE("FromUtf8String(string)", bytesEq(back, s)); static_assert(std::is_same_v<decltype(out), U> && std::is_same_v<decltype(back), std::string>); }
	{ U in(u); auto out = Nz::FromUtf8String(in); VX_TRUE("FromUtf8String(string)", bytesEq(out, s) && bytesEq(in, s)); }
	{ auto out = Nz::ToUtf8String(std::string(s)); VX_TRUE("ToUtf8String(temporary)", bytesEq(out, s)); auto b = Nz::FromUtf8String(U(u)); VX_TRUE("FromUtf8String(temporary)", bytesEq(b, s)); }
	// views designate the same bytes
	{ std::string big = "xx" + s + "yy"; auto v = Nz::ToUtf8String(std::string_view(big).substr(2, s.size())); VX_TRUE("ToUtf8String(view)", bytesEq(v, s) && (const void*) v.data() == big.data() + 2); auto b = Nz::FromUtf8String(v); VX_TRUE("FromUtf8String(view)", bytesEq(b, s) && (const void*) b.data() == big.data() + 2); }
	// null-terminated strings stop at the first zero
	{ const char* p = s.c_str(); auto v = Nz::ToUtf8String(p); VX_TRUE("ToUtf8String(pointer)", bytesEq(v, cut)); const UC* q = u.c_str(); auto b = Nz::FromUtf8String(q); VX_TRUE("FromUtf8String(pointer)", bytesEq(b, cut)); }
	cx.count("strings");
}
VX_SUITE("paths", 2500, 100000)
{
	Rng& r = cx.rng; std::string s; if (r.chance(1, 3)) s = "/"; std::size_t n = (std::size_t) r.below(r.chance(1, 20) ? 60 : 6); std::vector<std::string> parts; bool absolute = !s.empty();
	for (std::size_t i = 0; i < n; ++i)
	{
		std::string part; std::size_t len = 1 + (std::size_t) r.below(r.chance(1, 20) ? 400 : 12); for (std::size_t k = 0; k < len; ++k) { u32 c; do c = code(r); while (c == '/'); put(part, c); }
		if (r.chance(1, 12)) part = r.coin() ? ".." : "."; if (r.chance(1, 12)) part = "." + part;
		parts.push_back(part); s += (i ? "/" : "") + part;
	}
	// a path may end by a separator, repeated separators count as one
	std::string given = s; bool trailing = n && r.chance(1, 6); if (trailing) { s += "/"; given += "/"; }
	if (r.chance(1, 8)) { given.clear(); for (char c : s) { given += c; if (c == '/') while (r.chance(1, 4)) given += c; } if (absolute && given.size() > 1 && given[1] == '/') given = "/" + given.substr(given.find_first_not_of('/') == std::string::npos ? given.size() : given.find_first_not_of('/')); }
	for (char c : given) cx.mix((u8) c); cx.log("path of %zu components, %zu bytes", n, s.size());
	std::filesystem::path p = Nz::Utf8Path(given);
	VX_TRUE("Utf8Path keeps the bytes", p.native() == given);
	std::string back = Nz::PathToString(p); VX_TRUE("PathToString", back == s); VX_TRUE("round trip", Nz::Utf8Path(back) == p);
	// components and extensions are those of the text
	std::size_t i = 0; for (auto& e : p) { if (i == 0 && !s.empty() && s[0] == '/') { if (e == "/") continue; } if (trailing && i == parts.size()) { VX_TRUE("components", e.empty()); continue; } VX_TRUE("components", i < parts.size() && Nz::PathToString(e) == parts[i]); ++i; } VX_EQ("components", i, parts.size());
	// composed paths
	std::string leaf; put(leaf, code(r)); if (leaf == "/") leaf = "x"; std::filesystem::path q = p / Nz::Utf8Path(leaf); VX_TRUE("composed", Nz::PathToString(q) == (s.empty() ? leaf : s == "/" || trailing ? s + leaf : s + "/" + leaf));
	VX_TRUE("view", Nz::PathToString(Nz::Utf8Path(std::string_view(s + "junk").substr(0, 0))).empty()); { std::string big = s + "junk"; VX_TRUE("view", Nz::Utf8Path(std::string_view(big).substr(0, s.size())) == p); }
	// the local encoding plays no part
	cx.count("paths");
}
