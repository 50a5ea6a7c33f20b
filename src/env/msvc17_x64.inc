// predefined macros of msvc17_x64
#define _CPPUNWIND 1
#define _MSC_FULL_VER 193833130
#define _MSC_VER 1914
#define _MSVC_LANG 201703L
#define _MSVC_TRADITIONAL 1
#define _MT 1
#define _M_AMD64 100
#define _M_X64 100
#define _WIN32 1
#define _WIN64 1
#define __pragma(x) 
#define __FUNCSIG__ __PRETTY_FUNCTION__
#define __forceinline inline
#define __assume(x) ((x) ? (void) 0 : __builtin_unreachable())
#define __declspec(x) __attribute__((x))
