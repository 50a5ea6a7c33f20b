// included once per simulated platform, after the headers
namespace
{
	const char* const got[] = {
#include "../src/c33_macros.inc"
		nullptr };
	bool gcc(long v) { return NAZARA_CHECK_GCC_VER(v); }
	bool clang(long v) { return NAZARA_CHECK_CLANG_VER(v); }
	bool msvc(long v) { return NAZARA_CHECK_MSVC_VER(v); }
	bool icc(long v) { return NAZARA_CHECK_ICC_VER(v); }
	bool ndk(long v) { return NAZARA_CHECK_NDK_VER(v); }
	bool cpp(long v) { return NAZARA_CHECK_CPP_VER(v); }
#if defined(C33_IS_MSVC)
	constexpr long wantCpp = _MSVC_LANG;
#else
	constexpr long wantCpp = NAZARA_CPP_VER; // as the compiler says, see the driver
#endif
#if defined(NAZARA_COMPILER_CLANG)
	constexpr long version = NAZARA_COMPILER_CLANG_VER;
#elif defined(NAZARA_COMPILER_GCC)
	constexpr long version = NAZARA_COMPILER_GCC_VER;
#elif defined(NAZARA_COMPILER_MSVC)
	constexpr long version = NAZARA_COMPILER_MSVC_VER;
#elif defined(NAZARA_COMPILER_ICC)
	constexpr long version = NAZARA_COMPILER_ICC_VER;
#else
	constexpr long version = 0;
#endif
	static_assert(version == C33_VER, "the version of the compiler");
	static_assert(sizeof(Nz::Int8) == 1 && sizeof(Nz::UInt8) == 1 && sizeof(Nz::Int16) == 2 && sizeof(Nz::UInt16) == 2 && sizeof(Nz::Int32) == 4 && sizeof(Nz::UInt32) == 4 && sizeof(Nz::Int64) == 8 && sizeof(Nz::UInt64) == 8, "sizes");
	c33::Env env { C33_ENV, C33_WANT, got, C33_VER, NAZARA_CPP_VER, wantCpp,
#if defined(C33_IS_CLANG)
		'c',
#elif defined(C33_IS_GCC)
		'g',
#elif defined(C33_IS_MSVC)
		'm',
#elif defined(C33_IS_ICC)
		'i',
#else
		'u',
#endif
		{ gcc, clang, msvc, icc, ndk, cpp }, NazaraStringifyMacro(NAZARA_EXPORT), NazaraStringifyMacro(NAZARA_IMPORT), nullptr };
	c33::Reg reg(env);
}
