// C32: what the public headers give, observed from translation units that include them alone or in various orders.
// Included after the headers under test; C32_ORDER names the unit, C32_<Header> the headers it included itself.
#include "vx.hpp"
#include <vector>
namespace c32
{
	using namespace vx;
	struct Entry { const char* header; const char* order; u64 (*fn)(Rng&); };
	inline std::vector<Entry>& entries() { static std::vector<Entry> e; return e; }
	struct Reg { Reg(const char* h, const char* o, u64 (*f)(Rng&)) { entries().push_back({h, o, f}); } };
	struct Sum
	{
		u64 h = 1469598103934665603ull;
		template<class T> Sum& operator()(T v) { if constexpr (std::is_floating_point_v<T>) { double d = (double) v; u64 u; std::memcpy(&u, &d, 8); h ^= u; } else if constexpr (std::is_enum_v<T>) h ^= (u64) (i64) v; else h ^= (u64) v; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; return *this; }
		Sum& text(const char* s, std::size_t n) { for (std::size_t i = 0; i < n; ++i) (*this)((u8) s[i]); return (*this)(n); }
	};
}
namespace
{
	using namespace vx; using c32::Sum;
	struct Val { int v; Val(int x = 0) : v(x) {} Val(const Val& o) : v(o.v) {} Val(Val&& o) noexcept : v(o.v) { o.v = -1; } Val& operator=(const Val& o) { v = o.v; return *this; } Val& operator=(Val&& o) noexcept { v = o.v; if (&o != this) o.v = -1; return *this; } ~Val() { v = -2; } bool operator==(const Val& o) const { return v == o.v; } bool operator<(const Val& o) const { return v < o.v; } };
	enum class Color { Red, Green, Blue, Max = Blue };
	int twice(int x) { return 2 * x; }
	#define PROBE(H) u64 probe_##H(Rng& r); c32::Reg reg_##H(#H, C32_ORDER, probe_##H); u64 probe_##H(Rng& r)
}
#ifdef C32_Flags
namespace Nz { template<> struct EnumAsFlags<Color> { static constexpr Color max = Color::Max; }; }
#endif
namespace
{
#ifdef C32_Algorithm
PROBE(Algorithm)
{
	Sum s; int a[7]; for (int& x : a) x = (int) r.below(100);
	s(Nz::AccessByOffset<int&>((void*) a, 4)); s(*Nz::AccessByOffset<const int*>((const void*) a, 8)); s(Nz::BitCast<u32>(1.5f * (float) a[0])); s(Nz::CountOf(a)); std::vector<int> v(r.below(9)); s(Nz::CountOf(v));
	s(Nz::IntegerToPointer<int*>(Nz::PointerToInteger<u64>(&a[2])) == &a[2]);
	struct Map { using key_type = int; using mapped_type = int; using value_type = std::pair<const int, int>; struct It { using value_type = std::pair<const int, int>; using reference = value_type&; value_type* p; auto operator->() const { return p; } reference operator*() const { return *p; } bool operator!=(const It& o) const { return p != o.p; } bool operator==(const It& o) const { return p == o.p; } }; using iterator = It; using const_iterator = It; std::pair<const int, int> d[1]; It begin() { return {d}; } It begin() const { return {const_cast<value_type*>(d)}; } std::size_t size() const { return 1; } It find(int) { return {d}; } It find(int) const { return {const_cast<std::pair<const int, int>*>(d)}; } It end() { return {d + 1}; } It end() const { return {const_cast<std::pair<const int, int>*>(d) + 1}; } };
	Map m{{{1, a[1]}}}; s(Nz::Retrieve(m, 1)); const Map& cm = m; s(Nz::Retrieve(cm, 1));
	s(Nz::SafeCast<u8>(a[3])); s(Nz::SafeCast<int>(double(a[4]))); s(Nz::SafeCast<float>(double(a[5]))); s(Nz::UnderlyingCast(Color::Blue)); i16 c = Nz::SafeCaster(a[6]); s(c);
	struct B { virtual ~B() {} int k = 0; }; struct D : B {}; std::unique_ptr<B> p(new D); p->k = a[0]; std::unique_ptr<D> q = Nz::StaticUniquePointerCast<D>(std::move(p)); s(q->k)(p == nullptr); B& b = *q; s(&Nz::SafeCast<D&>(b) == q.get()); s(Nz::SafeCast<D*>(&b) == q.get());
	return s.h;
}
#endif
#ifdef C32_Assert
PROBE(Assert) { Sum s; int k = (int) r.below(5); NazaraAssert(k >= 0); NazaraAssertMsg(k < 5, "k is %d", k); Nz::Assert(k >= 0); Nz::Assert(k < 5, "k"); NazaraUnused(k); return s(k).h; }
#endif
#ifdef C32_Bitset
template<class B> void bits(Sum& s, Rng& r)
{
	B b, c(r.below(90), r.coin()); for (int i = 0; i < 20; ++i) { b.UnboundedSet(r.below(150), r.coin()); c.AppendBits((u32) r.next(), r.below(33)); }
	u64 bytes[4] = { r.next(), r.next(), r.next(), r.next() }; b.Write(bytes, r.below(256)); b <<= r.below(70); c >>= r.below(70); c.Reverse(); b.Flip();
	B d = (b & c) | (b ^ c); d.Resize(d.GetSize() + r.below(99), r.coin()); std::string t = d.ToString(); s.text(t.data(), t.size()); for (std::size_t k : b.IterBits()) s(k); s(b.Count())(b.FindFirst())(b < c)(b == c)(b.Intersects(c))(d.TestAny())(d.TestAll())(c.TestNone());
	B e{std::string_view(t)}; s(e == d); B f(u32(r.next() | 1)); s(f.template To<u32>()); f = "101"; s(f.template To<u64>()); std::swap(e, f); s(e.GetBlockCount()); if (b.GetSize()) s(bool(b[0])); e = B::FromPointer(bytes, 100); s(e.GetSize()); s((~e).Count());
}
PROBE(Bitset) { Sum s; bits<Nz::Bitset<>>(s, r); bits<Nz::Bitset<Nz::UInt8>>(s, r); bits<Nz::Bitset<u64>>(s, r); bits<Nz::HybridBitset<u32, 64>>(s, r); return s.h; }
#endif
#ifdef C32_CallOnExit
PROBE(CallOnExit) { Sum s; int n = 0; { auto f = [&n] { ++n; }; Nz::CallOnExit<decltype(f)> a(std::move(f)); Nz::CallOnExit<decltype(f)> b; if (r.coin()) b = std::move(a); if (r.coin()) a.Reset(); if (r.coin()) b.CallAndReset(); NAZARA_DEFER({ n += 10; }) ; } return s(n).h; }
#endif
#ifdef C32_Concepts
template<NAZARA_STD_CONCEPT_T(std::integral) T> T conc(T v) { return v; }
PROBE(Concepts) { Sum s; s(conc((int) r.below(9))); return s.h; }
#endif
#ifdef C32_ConstantEvaluated
NAZARA_CONSTEXPR20 int when() { if NAZARA_IS_CONSTEVAL() return 1; else return 2; }
PROBE(ConstantEvaluated) { Sum s; volatile int k = when(); s(k); constexpr int c = when(); s(c); (void) r; return s.h; }
#endif
#ifdef C32_Constants
PROBE(Constants)
{
	Sum s; (void) r; s(Nz::Pi<float>())(Nz::HalfPi<double>())(Nz::Tau<float>())(Nz::Sqrt2<double>())(Nz::Sqrt3<float>())(Nz::Sqrt5<double>())(Nz::Infinity<float>())(Nz::MaxValue<int>())(Nz::MinValue<double>())(Nz::BitCount<u16>);
	float f = Nz::Pi(); double d = Nz::Infinity(), n = Nz::NaN(); s(f)(d)(n == n); s((double) (Nz::Pi<long double>() * 1e17L - 314159265358979323.L)); return s.h;
}
#endif
#ifdef C32_DebugBreak
PROBE(DebugBreak) { Sum s; if (r.below(2) > 2) NazaraDebugBreak(); return s(1).h; }
#endif
#ifdef C32_Endianness
PROBE(Endianness) { Sum s; u32 v = (u32) r.next(); u64 w = r.next(); s(Nz::PlatformEndianness)(Nz::BigEndianToHost(v))(Nz::HostToBigEndian(w))(Nz::LittleEndianToHost(v))(Nz::HostToLittleEndian(w))(Nz::BigEndianToHost(u16(v)))(Nz::HostToBigEndian(Nz::HostToBigEndian(1.5f))); return s.h; }
#endif
#ifdef C32_EnumArray
PROBE(EnumArray) { Sum s; Nz::EnumArray<Color, Val> a; a.fill(Val(3)); a[Color::Green] = Val((int) r.below(50)); for (auto&& [k, v] : a.iter_kv()) s(k)(v.v); const auto& c = a; for (auto&& [k, v] : c.iter_kv()) s(k)(v.v); auto it = a.iter_kv().begin(); it += 2; s((*it).first); s(it - a.iter_kv().begin()); s((it[-1]).second.v)(a.size())(1 + a.iter_kv().begin() == a.iter_kv().end() - 2); return s.h; }
#endif
#ifdef C32_FixedVector
template<class V> void vecs(Sum& s, Rng& r)
{
	V v; for (int i = 0; i < 30; ++i) { u64 n = v.size(); if (n < 7 && r.chance(2, 3)) { int x = (int) r.below(99); if (r.coin()) v.emplace_back(x); else if (r.coin()) v.push_back(Val(x)); else v.insert(v.begin() + (std::ptrdiff_t) r.below(n + 1), Val(x)); } else if (n) { if (r.coin()) v.pop_back(); else v.erase(v.begin() + (std::ptrdiff_t) r.below(n)); } }
	V w(v), x(std::move(w)), y; y = x; y = std::move(x); y.resize(5); y.resize(7, Val(4)); y.erase(y.begin() + 1, y.begin() + 3); for (auto& e : y) s(e.v); for (auto it = y.rbegin(); it != y.rend(); ++it) s(it->v); s(y.size())(y.empty())(y.max_size() > 4); int in[] = {1, 2, 3}; V z(in, in + 3); s(z.front().v)(z.back().v)(z.at_or(0)); 
}
PROBE(FixedVector)
{
	Sum s; struct FV : Nz::FixedVector<Val, 8> { using Nz::FixedVector<Val, 8>::FixedVector; int at_or(int i) { return (*this)[i].v; } }; struct HV : Nz::HybridVector<Val, 3> { using Nz::HybridVector<Val, 3>::HybridVector; int at_or(int i) { return (*this)[i].v; } };
	vecs<FV>(s, r); vecs<HV>(s, r); return s.h;
}
#endif
#ifdef C32_Flags
PROBE(Flags)
{
	using F = Nz::Flags<Color>; using namespace Nz::FlagsOperators; Sum s; F a; if (r.coin()) a |= Color::Red; if (r.coin()) a.Set(Color::Blue); F b = Color::Green | Color::Blue; s((a | b).Count())((a & b).Test(Color::Blue))(bool(a ^ b))((~a).Count())(u32(a))(a == b); for (Color c : a | b) s(c); b.Clear(Color::Green); s(b.size()); s(std::hash<F>{}(b) == std::hash<F>{}(b)); s(u32(Color::Red & F(Color::Red))); return s.h;
}
#endif
#ifdef C32_FunctionRef
PROBE(FunctionRef) { Sum s; int k = (int) r.below(50); auto l = [&k](int x) { return k += x; }; Nz::FunctionRef<int(int)> a(l), b(twice), c = nullptr; s(a(3))(b(k))(bool(c))(bool(a)); c = b; s(c(k)); struct M { int v; int get() const { return v; } }; M m{k}; auto pm = &M::get; Nz::FunctionRef<int(const M&)> f(pm); s(f(m)); Nz::FunctionRef<void(int)> d(l); d(5); s(k); return s.h; }
#endif
#ifdef C32_FunctionTraits
PROBE(FunctionTraits) { Sum s; auto l = [](int, char) -> double { return 0; }; using T = Nz::FunctionTraits<decltype(l)>; s(T::ArgCount)(std::is_same_v<T::ReturnType, double>)(std::is_same_v<T::ArgType<1>, char>)(Nz::IsFunctor_v<decltype(l)>)(Nz::IsFunctor_v<int>); s(Nz::Overload<int>(twice)((int) r.below(9))); return s.h; }
#endif
#ifdef C32_Hash
PROBE(Hash)
{
	Sum s; char b[40]; std::size_t n = r.below(40); for (std::size_t i = 0; i < n; ++i) b[i] = (char) (1 + r.below(255)); std::string_view v(b, n); std::string z(v);
	s(Nz::CRC32(v))(Nz::CRC32((const u8*) b, n))(Nz::CRC32(z.c_str()))(Nz::FNV1a32(v))(Nz::FNV1a64(v))(Nz::FNV1a32((const u8*) b, n))(Nz::FNV1a64(z.c_str())); std::size_t h = 0; Nz::HashCombine(h, 5); s(h); s(Nz::HashCombine(1, 2u, 'c')); s(Nz::CRC32Hash{}(v))(Nz::FNV1a32Hash{}(v))(Nz::FNV1a64Hash{}(v)); s(Nz::HashFunctor<Nz::FNV1a32Hash>{}(v)); return s.h;
}
#endif
#ifdef C32_MathUtils
template<class T> void ints(Sum& s, Rng& r)
{
	T a = (T) r.next(), b = (T) (r.next() | 1), p = (T) (1 + r.below(60)); s(Nz::CountBits(a))(Nz::FindFirstBit(a))(Nz::FindLastBit(a))(Nz::ReverseBits(a))(Nz::ByteSwap(a))(Nz::SetBit(a, T(3)))(Nz::ClearBit(a, T(2)))(Nz::ToggleBit(a, T(1)))(Nz::TestBit(a, T(5)))(Nz::Align(p, T(4)))(Nz::AlignPow2(p, T(8)))(Nz::Approach(a, b, T(3)))(Nz::Clamp(a, T(3), T(9)))(Nz::GetNearestPowerOfTwo(p))(Nz::IntegralLog2(p))(Nz::IntegralLog2Pot(T(32)))(Nz::IntegralPow(T(3), 3))(Nz::IsPow2(p))(Nz::Lerp(T(2), T(50), 0.5f))(Nz::Mod(a, p))(Nz::MultiplyAdd(T(2), T(3), T(4)))(Nz::NumberEquals(a, b))(Nz::NumberEquals(T(3), T(5), T(2)))(Nz::RoundToPow2(p))(Nz::ArithmeticRightShift(a, 2));
	Nz::SwapBytes(&a, sizeof a); s(a);
}
template<class T> void reals(Sum& s, Rng& r)
{
	// fractions with few bits: anything that goes through integers shows
	T a = T(r.range(-4000, 4000)) / 64, b = a + T(r.range(-8, 8)) / 16, c = T(r.range(1, 400)) / 32; s(Nz::Approach(a, b, T(0.125)))(Nz::Clamp(a, T(-3), T(9.5)))(Nz::DegreeToRadian(a))(Nz::RadianToDegree(a))(Nz::IsFinite(a))(Nz::IsNaN(a))(Nz::IsInfinity(a))(Nz::Lerp(a, b, T(0.25)))(Nz::Mod(a, c))(Nz::MultiplyAdd(a, b, c))(Nz::NumberEquals(a, b))(Nz::NumberEquals(a, b, T(0.25)))(Nz::NumberEquals(a, T(a + T(0.75)), T(0.5)));
}
PROBE(MathUtils) { Sum s; ints<i8>(s, r); ints<u8>(s, r); ints<i16>(s, r); ints<u16>(s, r); ints<i32>(s, r); ints<u32>(s, r); ints<i64>(s, r); ints<u64>(s, r); reals<float>(s, r); reals<double>(s, r); reals<long double>(s, r); s(Nz::ByteSwap(Nz::ByteSwap(1.25f)))(Nz::ByteSwap(Nz::ByteSwap(-3.5))); return s.h; }
#endif
#ifdef C32_MemoryHelper
PROBE(MemoryHelper) { Sum s; alignas(Val) unsigned char m[sizeof(Val)]; Val* p = Nz::PlacementNew((Val*) m, (int) r.below(99)); s(p->v); Nz::PlacementDestroy(p); Nz::PlacementDestroy((Val*) nullptr);
#ifdef NAZARA_ALLOCA_SUPPORT
	int* q = (int*) NAZARA_ALLOCA(16); q[3] = 5; s(q[3]);
#endif
	return s.h; }
#endif
#ifdef C32_MemoryPool
PROBE(MemoryPool)
{
	Sum s; Nz::MemoryPool<Val> p(1 + r.below(5)); std::vector<std::size_t> live; for (int i = 0; i < 30; ++i) { if (live.empty() || r.chance(2, 3)) { std::size_t k; Val* v = p.Allocate(k, i); s(k)(v->v)(p.RetrieveEntryIndex(v)); live.push_back(k); } else { std::size_t at = r.below(live.size()); p.Free(live[at]); live.erase(live.begin() + (std::ptrdiff_t) at); } }
	for (auto it = p.begin(); it != p.end(); ++it) s(it.GetIndex())((*it).v); s(p.size())(p.GetBlockCount())(p.GetFreeEntryCount()); Nz::MemoryPool<Val> q(std::move(p)); s(q.GetAllocatedEntryCount()); q.Reset(); s(q.GetFreeEntryCount()); q.Clear(); s(q.GetBlockCount()); return s.h;
}
#endif
#ifdef C32_MovablePtr
PROBE(MovablePtr) { Sum s; int k = (int) r.below(9); Nz::MovablePtr<int> a(&k), b(std::move(a)), c; s(a.Get() == nullptr)(*b.Get()); c = std::move(b); s(b == nullptr)(*c); return s.h; }
#endif
#ifdef C32_MovableValue
PROBE(MovableValue) { Sum s; Nz::MovableLiteral<int, 7> a((int) r.below(99)), b(std::move(a)); s(a.Get())(b.Get()); Nz::MovableValue<Val> v(Val(3)), w(std::move(v)); s(w.Get().v)(v.Get().v); b = 12; s(int(b)); w = Val(5); s(w.Get().v); return s.h; }
#endif
#ifdef C32_OffsetOf
PROBE(OffsetOf) { Sum s; (void) r; struct P { int a; char b; double c; }; s(NazaraOffsetOf(P, a))(NazaraOffsetOf(P, b))(NazaraOffsetOf(P, c)); return s.h; }
#endif
#ifdef C32_PathUtils
PROBE(PathUtils) { Sum s; std::string t = "a/"; for (int i = 0; i < 5; ++i) t += r.coin() ? "\xC3\xA9" : "x"; std::string u = Nz::PathToString(Nz::Utf8Path(t)); s.text(u.data(), u.size()); return s(u == t).h; }
#endif
#ifdef C32_Prerequisites
PROBE(Prerequisites) { Sum s; (void) r; s(sizeof(Nz::Int8))(sizeof(Nz::UInt16))(sizeof(Nz::Int32))(sizeof(Nz::UInt64))((Nz::UInt8) -1)(NAZARA_CPP_VER >= NAZARA_CPP17); if NAZARA_LIKELY(r.below(4) < 2) s(1); if NAZARA_UNLIKELY(r.below(4) < 2) s(2); const char* t = NazaraStringify(hello); s.text(t, 5); int NazaraSuffixMacro(x, 1) = 4; s(x1); return s.h; }
#endif
#ifdef C32_PrivateImpl
PROBE(PrivateImpl) { Sum s; int k = (int) r.below(99); Nz::PrivateImpl<Val, 64> a(k), b(a), c(std::move(b)); s(a->v)(c->v)(b->v); b = a; s((*b).v); Nz::PrivateImpl<Val> h(k), i(h), j(nullptr); s(i->v)(j.HasValue()); j = std::move(i); s(j->v)(i.HasValue()); i.Emplace(3); s(i->v); i.Reset(); s(bool(i)); return s.h; }
#endif
#ifdef C32_Result
Nz::Result<int, Val> half(int x) { if (x % 2) return Nz::Err(Val(x)); return Nz::Ok(x / 2); }
Nz::Result<int, Val> quarter(int x) { NAZARA_TRY_VALUE(int h, half(x)); return half(h); }
Nz::Result<void, Val> check(int x) { NAZARA_TRY(half(x)); return Nz::Ok(); }
PROBE(Result) { Sum s; int x = (int) r.below(64); auto q = quarter(x); s(q.IsOk()); if (q) s(q.GetValue()); else s(q.GetError().v); s(q.GetValueOr(5)); auto m = q.Map([](int v) { return v + 1; }); s(m.IsErr())(m.GetValueOr(7)); auto e = check(x); s(e.IsOk()); try { q.Expect("no"); s(1); } catch (const std::exception&) { s(2); } try { s(q.GetValue()); } catch (const std::exception&) { s(3); } return s.h; }
#endif
#ifdef C32_Signal
PROBE(Signal) { Sum s; Nz::Signal<int> g; int t = 0; auto a = g.Connect([&t](int x) { t += x; }); { Nz::Signal<int>::ConnectionGuard b(g.Connect([&t](int x) { t += 100 * x; })); g((int) r.below(9)); s(t)(b.IsConnected()); } struct O { int k = 0; void in(int x) { k = x; } void look(int) const {} } o; g.Connect(o, &O::in); const O co; g.Connect(co, &O::look); g(4); s(t)(o.k); a.Disconnect(); Nz::Signal<int> h(std::move(g)); h(2); s(t)(o.k)(a.IsConnected()); g.Clear(); return s.h; }
#endif
#ifdef C32_SparsePtr
PROBE(SparsePtr) { Sum s; int a[24]; for (int& x : a) x = (int) r.below(99); Nz::SparsePtr<int> p(a, 12), q = p; q += 4; s(*q)(q - p)(p[2])(p < q); ++p; p--; s(*(p + 1))(*(q - 2))(bool(p)); Nz::SparsePtr<const int> c(q); s(*c)(c.GetStride()); std::size_t n = 0; for (auto it = p; it != q; ++it) n += (std::size_t) *it; return s(n).h; }
#endif
#ifdef C32_StackArray
PROBE(StackArray) { Sum s; std::size_t n = 1 + r.below(9); Nz::StackArray<Val> a = NazaraStackArray(Val, n); a.fill(Val(3)); a[0] = Val((int) r.below(99)); for (auto& e : a) s(e.v); s(a.size())(a.front().v)(a.back().v); for (auto it = a.rbegin(); it != a.rend(); ++it) s(it->v); auto b = std::move(a); s(b.size())(a.size()); return s.h; }
#endif
#ifdef C32_StackVector
PROBE(StackVector) { Sum s; Nz::StackVector<Val> a = NazaraStackVector(Val, 8); for (int i = 0; i < 6; ++i) a.emplace_back((int) r.below(99)); a.insert(a.begin() + 2, Val(5)); a.erase(a.begin()); a.push_back(Val(8)); a.erase(a.begin() + 1, a.begin() + 3); for (auto& e : a) s(e.v); s(a.size())(a.capacity()); a.resize(2); a.resize(4, Val(1)); for (auto it = a.rbegin(); it != a.rend(); ++it) s(it->v); auto b = std::move(a); s(b.size())(a.size()); return s.h; }
#endif
#ifdef C32_StringHash
PROBE(StringHash) { Sum s; std::string t(r.below(30), 'q'); Nz::StringHash<> h; s(h(t) == h(t.c_str()))(h(std::string_view(t)) == h(t))(h(t) == std::hash<std::string_view>{}(t)); return s.h; }
#endif
#ifdef C32_StringUtils
PROBE(StringUtils) { Sum s; std::string t(r.below(30), 'q'); auto u = Nz::ToUtf8String(t); s(u.size()); auto v = Nz::FromUtf8String(u); s(v == t); auto w = Nz::ToUtf8String(std::string_view(t)); s(w.size()); auto x = Nz::FromUtf8String(w); s(x == t); auto y = Nz::ToUtf8String(t.c_str()); s(y.size()); return s.h; }
#endif
#ifdef C32_TypeList
template<class T> struct Count1 { static void Add(int& n) { n += (int) sizeof(T); } void operator()(int& n) { n += (int) sizeof(T); } };
template<class... T> struct Pack { static constexpr std::size_t n = sizeof...(T); };
template<class T> struct Ptr { using type = T*; };
PROBE(TypeList) { Sum s; (void) r; using L = Nz::TypeList<int, char, int, double>; s(Nz::TypeListSize<L>)(Nz::TypeListFind<L, int>)(Nz::TypeListHas<L, float>)(Nz::TypeListEmpty<L>)(sizeof(Nz::TypeListAt<L, 1>))(Nz::TypeListSize<Nz::TypeListUnique<L>>)(Nz::TypeListSize<Nz::TypeListRemove<L, int>>)(Nz::TypeListInstantiate<L, Pack>::n)(Nz::TypeListSize<Nz::TypeListConcat<L, L>>)(sizeof(Nz::TypeListAt<Nz::TypeListPrepend<L, short>, 0>))(sizeof(Nz::TypeListAt<Nz::TypeListAppend<L, short>, 4>))(Nz::TypeListSize<Nz::TypeListTransform<L, Ptr>>); int n = 0; Nz::TypeListApply<L, Count1>(n); return s(n).h; }
#endif
#ifdef C32_TypeName
PROBE(TypeName) { Sum s; (void) r; auto a = Nz::TypeName<int>(), b = Nz::TypeName<const char*>(), c = Nz::TypeName<std::pair<int, double>>(); s.text(a.data(), a.size()).text(b.data(), b.size()).text(c.data(), c.size()); return s.h; }
#endif
#ifdef C32_TypeTag
PROBE(TypeTag) { Sum s; (void) r; return s(sizeof(Nz::TypeTag<Val>::Type)).h; }
#endif
#ifdef C32_TypeTraits
PROBE(TypeTraits) { Sum s; (void) r; struct Inc; s(Nz::EnumValueCount_v<Color>)(Nz::IsComplete_v<Val>)(Nz::IsComplete_v<Inc>)(Nz::IsFirstType_v<int, int, char>)(std::is_same_v<Nz::RemoveCvRef_t<const int&>, int>)(std::is_same_v<Nz::PointedType<int*>::type, int>)(std::is_same_v<Nz::FunctionPtr<int(int)>, int (*)(int)>)(std::is_same_v<Nz::Pointer<int>, int*>); auto o = Nz::Overloaded{[](int) { return 1; }, [](double) { return 2; }}; s(o(1))(o(1.)); return s.h; }
#endif
}
