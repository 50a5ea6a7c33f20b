#include "bitset_model.hpp"
using namespace bm;

template<class T, class B> static bool append(Ctx& cx, B& b, Model& m)
{
	Rng& r = cx.rng;
	std::size_t room = limitOf<B>() - m.size();
	std::size_t n = r.chance(1, 4) ? sizeof(T) * 8 : r.below(sizeof(T) * 8 + 20);
	if (r.chance(1, 10)) n = 0;
	if (n > room) return false;
	T v = r.value<T>();
	cx.log("AppendBits(u%zu %llx,%zu) at %zu", sizeof(T) * 8, (unsigned long long) v, n, m.size());
	b.AppendBits(v, n);
	for (std::size_t i = 0; i < n; ++i) m.push_back(i < sizeof(T) * 8 ? (v >> i) & 1 : 0);
	cx.count("AppendBits");
	return true;
}

// integer and byte sequences appended at every alignment, interleaved with other growth
template<class B> static void bulkCase(Ctx& cx)
{
	Rng& r = cx.rng;
	Model m = pickModel(r, large ? pickSize<B>(r) : r.below(40) % (limitOf<B>() + 1));
	B b = make<B>(m, r);
	std::size_t n = 3 + r.below(large ? 6 : 14);
	for (std::size_t k = 0; k < n; ++k)
	{
		switch (r.below(9))
		{
			case 0: append<u8>(cx, b, m); break;
			case 1: append<u16>(cx, b, m); break;
			case 2: case 3: append<u32>(cx, b, m); break;
			case 4: append<u64>(cx, b, m); break;
			case 5: case 6:
			{
				// one or several chained reads from the same byte sequence; the buffer holds exactly the bytes the bits occupy
				std::size_t start = r.chance(1, 2) ? 0 : r.below(8);
				std::size_t parts = 1 + r.below(4);
				std::vector<std::size_t> lens; std::size_t total = start;
				for (std::size_t i = 0; i < parts; ++i) { std::size_t l = r.chance(1, 12) ? 0 : large && r.coin() ? r.below(70000) : r.chance(1, 3) ? 8 * r.below(5) : r.below(40); lens.push_back(l); total += l; }
				if (m.size() + total > limitOf<B>()) break;
				std::size_t bytes = (total + 7) / 8;
				unsigned char* buf = new unsigned char[bytes + 1]; unsigned char* end = buf + bytes;
				for (std::size_t i = 0; i < bytes; ++i) buf[i] = (unsigned char) r.next();
				// hand out a block that ends exactly where the sequence ends
				unsigned char* exact = new unsigned char[bytes]; std::memcpy(exact, buf, bytes); (void) end;
				typename B::PointerSequence seq(exact, start);
				std::size_t pos = start;
				for (std::size_t i = 0; i < parts; ++i)
				{
					cx.log("Write(+%zu bit %zu, %zu bits) at %zu", pos / 8, pos % 8, lens[i], m.size());
					bool plain = pos % 8 == 0 && r.coin();
					if (lens[i] == 0 && pos / 8 >= bytes) continue; // nothing is left to point at
					auto nextSeq = plain ? b.Write((const void*) (exact + pos / 8), lens[i]) : b.Write(seq, lens[i]);
					for (std::size_t j = 0; j < lens[i]; ++j) m.push_back((buf[(pos + j) / 8] >> ((pos + j) % 8)) & 1);
					pos += lens[i];
					check(b, m, "after Write");
					if (nextSeq.first != exact + pos / 8 || nextSeq.second != pos % 8)
						fail("write-next", "Write returned position +%td bit %zu, expected +%zu bit %zu", (const unsigned char*) nextSeq.first - exact, nextSeq.second, pos / 8, pos % 8);
					seq = nextSeq;
					cx.count("Write");
				}
				delete[] buf; delete[] exact;
				break;
			}
			case 7: { std::size_t s = pickSize<B>(r); bool v = r.coin(); cx.log("Resize(%zu,%d)", s, v); b.Resize(s, v); m.resize(s, v); break; }
			default: if (r.coin()) { cx.log("Flip"); b.Flip(); for (auto& c : m) c = !c; } else { cx.log("Clear"); b.Clear(); m.clear(); } break;
		}
		check(b, m, "after operation");
	}
	checkSearch(b, m);
	// text round trip
	std::string s = b.ToString(), want = mstr(m);
	if (s != want) fail("to-string", "ToString() is %s, expected %s", s.c_str(), want.c_str());
	std::ostringstream os; os << b; if (os.str() != want) fail("stream", "operator<< printed %s, expected %s", os.str().c_str(), want.c_str());
	B p1(want), p2(want.c_str()), p3(std::string_view{want}), p4((want + "10").c_str(), want.size()); B p5; p5 = std::string_view{want};
	check(p1, m, "from string"); check(p2, m, "from C string"); check(p3, m, "from string_view"); check(p4, m, "from counted string"); check(p5, m, "assigned from string_view");
	cx.count("string round trip");
}

template<class B, class T> static void intOnce(Ctx& cx)
{
	T v = cx.rng.value<T>();
	cx.log("from u%zu %llx", sizeof(T) * 8, (unsigned long long) v);
	auto verify = [&](const B& b, const char* how)
	{
		// a numeric source gives that number; its width is at most that of the source type
		if (b.GetSize() > sizeof(T) * 8) fail("from-int-size", "%s: %zu bits built from a %zu-bit integer", how, b.GetSize(), sizeof(T) * 8);
		Model m(b.GetSize());
		for (std::size_t i = 0; i < m.size(); ++i) m[i] = (u64(v) >> i) & 1;
		if (m.size() < 64 && (u64(v) >> m.size()) != 0) fail("from-int-lost", "%s: %zu bits cannot hold %llx", how, m.size(), (unsigned long long) v);
		check(b, m, how);
	};
	B b(v); verify(b, "built from integer");
	B c; c = v; verify(c, "assigned from integer");
	VX_EQ("to-int", b.template To<T>(), v);
	VX_EQ("to-u64", b.template To<u64>(), u64(v));
	cx.count("integer round trip");
}
template<class B> static void intCase(Ctx& cx)
{
	for (int k = 0; k < 6; ++k)
	{
		switch (cx.rng.below(4)) { case 0: intOnce<B, u8>(cx); break; case 1: intOnce<B, u16>(cx); break; case 2: intOnce<B, u32>(cx); break; default: intOnce<B, u64>(cx); break; }
		// To<T> of every bitset that fits
		std::size_t n = cx.rng.below(65); if (n > limitOf<B>()) n = limitOf<B>();
		Model m = pickModel(cx.rng, n); B b = make<B>(m, cx.rng); u64 want = 0; for (std::size_t i = 0; i < n; ++i) want |= u64(m[i]) << i;
		cx.log("To of %zu bits %llx", n, (unsigned long long) want);
		VX_EQ("to-u64", b.template To<u64>(), want);
		if (n <= 32) VX_EQ("to-u32", b.template To<u32>(), want);
		if (n <= 16) VX_EQ("to-u16", b.template To<u16>(), want);
		if (n <= 8) VX_EQ("to-u8", b.template To<u8>(), want);
		// FromPointer with and without continuation
		std::size_t bytes = (n + 7) / 8; if (!n) continue;
		unsigned char* p = new unsigned char[bytes]; for (std::size_t i = 0; i < bytes; ++i) p[i] = (unsigned char) cx.rng.next();
		Model pm(n); for (std::size_t i = 0; i < n; ++i) pm[i] = (p[i / 8] >> (i % 8)) & 1;
		typename B::PointerSequence seq(nullptr, 99);
		cx.log("FromPointer %zu bits", n);
		check(B::FromPointer(p, n), pm, "FromPointer"); check(B::FromPointer(p, n, &seq), pm, "FromPointer+seq");
		if (seq.first != p + n / 8 || seq.second != n % 8) fail("frompointer-next", "FromPointer continuation is +%td bit %zu after %zu bits", (const unsigned char*) seq.first - p, seq.second, n);
		delete[] p;
	}
}
template<class B> static void largeBulkCase(Ctx& cx) { LargeScope scope; bulkCase<B>(cx); cx.count("histories of large bitsets"); }
#ifndef PART
#define PART 0
VX_SUITE_FN("bulk-large-u32", largeBulkCase<Nz::Bitset<Nz::UInt32>>, 40, 300);
VX_SUITE_FN("bulk-large-u8-hybrid", largeBulkCase<Nz::HybridBitset<Nz::UInt8 VX_COMMA 16>>, 40, 300);
VX_SUITE_FN("memory-u8", memoryCase<Nz::Bitset<Nz::UInt8>>, 1500, 30000);
VX_SUITE_FN("memory-u16-hybrid", memoryCase<Nz::HybridBitset<Nz::UInt16 VX_COMMA 32>>, 1500, 30000);
VX_SUITE_FN("memory-u64", memoryCase<Nz::Bitset<Nz::UInt64>>, 1500, 30000);
VX_SUITE_FN("bulk-u8", bulkCase<Nz::Bitset<Nz::UInt8>>, 3000, 60000);
VX_SUITE_FN("bulk-u32", bulkCase<Nz::Bitset<Nz::UInt32>>, 4000, 60000);
VX_SUITE_FN("bulk-u16-hybrid", bulkCase<Nz::HybridBitset<Nz::UInt16 VX_COMMA 32>>, 2000, 40000);
VX_SUITE_FN("int-u8", intCase<Nz::Bitset<Nz::UInt8>>, 2000, 30000);
VX_SUITE_FN("int-u32", intCase<Nz::Bitset<Nz::UInt32>>, 2000, 30000);
#else
static void hugeBulk(Ctx& cx)
{
	// bulk operations beyond 2^32 bits
	if constexpr (!hugeRuns) return;
	using B = Nz::Bitset<Nz::UInt64>; Rng& r = cx.rng; Sparse m; B b = makeHuge<B>(r, m, hugeSize(r)); cx.log("bitset of %zu bits", m.n); cx.mix(m.n);
	auto shifted = [&](i64 d) { Sparse o; o.n = m.n; for (std::size_t x : m.on) { i64 y = (i64) x + d; if (y >= 0 && y < (i64) m.n) o.on.insert((std::size_t) y); } m = o; };
	std::size_t d = 1 + r.below(200); b <<= d; shifted((i64) d); checkHuge(b, m, "shifted left"); d = m.n - 100 - r.below(200); if (d <= 0xFFFFFFFFu) d = (std::size_t(1) << 32) - 60; b >>= d; shifted(-(i64) d); checkHuge(b, m, "shifted right by more than 2^32");
	u64 v = r.bits() | 1; b.AppendBits(v, 70); for (unsigned i = 0; i < 64; ++i) if (v >> i & 1) m.on.insert(m.n + i); m.n += 70; checkHuge(b, m, "appended"); u8 bytes[3] = {0x81, 0xFF, 0x5A}; b.Write(bytes, 23); for (unsigned i = 0; i < 23; ++i) if (bytes[i / 8] >> (i % 8) & 1) m.on.insert(m.n + i); m.n += 23; checkHuge(b, m, "written");
	d = (std::size_t(1) << 32) + r.below(m.n - (std::size_t(1) << 32)); b.ShiftLeft(d); shifted((i64) d); checkHuge(b, m, "shifted left by more than 2^32");
	b.Set(true); VX_EQ("count", b.Count(), m.n); VX_TRUE("all", b.TestAll()); b.Flip(); VX_TRUE("none", b.TestNone()); cx.count("bitsets of more than 2^32 bits");
}
static vx::Suite s4("huge", hugeBulk, 1, 2, vx::Enumerates);
VX_SUITE_FN("bulk-large-u64", largeBulkCase<Nz::Bitset<Nz::UInt64>>, 40, 300);
VX_SUITE_FN("bulk-u16", bulkCase<Nz::Bitset<Nz::UInt16>>, 3000, 60000);
VX_SUITE_FN("bulk-u64", bulkCase<Nz::Bitset<Nz::UInt64>>, 4000, 60000);
VX_SUITE_FN("bulk-u32-fixed", bulkCase<Nz::FixedBitset<Nz::UInt32 VX_COMMA 80>>, 2000, 40000);
VX_SUITE_FN("int-u16-hybrid", intCase<Nz::HybridBitset<Nz::UInt16 VX_COMMA 16>>, 2000, 30000);
VX_SUITE_FN("int-u64", intCase<Nz::Bitset<Nz::UInt64>>, 2000, 30000);
#endif
