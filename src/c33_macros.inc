#ifdef NAZARA_COMPILER_CLANG
"COMPILER_CLANG",
#endif
#ifdef NAZARA_COMPILER_GCC
"COMPILER_GCC",
#endif
#ifdef NAZARA_COMPILER_ICC
"COMPILER_ICC",
#endif
#ifdef NAZARA_COMPILER_MSVC
"COMPILER_MSVC",
#endif
#ifdef NAZARA_COMPILER_UNKNOWN
"COMPILER_UNKNOWN",
#endif
#ifdef NAZARA_COMPILER_MINGW
"COMPILER_MINGW",
#endif
#ifdef NAZARA_COMPILER_MINGW_W64
"COMPILER_MINGW_W64",
#endif
#ifdef NAZARA_COMPILER_MINGW_THREADS_MCF
"COMPILER_MINGW_THREADS_MCF",
#endif
#ifdef NAZARA_COMPILER_MINGW_THREADS_POSIX
"COMPILER_MINGW_THREADS_POSIX",
#endif
#ifdef NAZARA_COMPILER_MINGW_THREADS_WIN32
"COMPILER_MINGW_THREADS_WIN32",
#endif
#ifdef NAZARA_PLATFORM_DESKTOP
"PLATFORM_DESKTOP",
#endif
#ifdef NAZARA_PLATFORM_MOBILE
"PLATFORM_MOBILE",
#endif
#ifdef NAZARA_PLATFORM_WINDOWS
"PLATFORM_WINDOWS",
#endif
#ifdef NAZARA_PLATFORM_ANDROID
"PLATFORM_ANDROID",
#endif
#ifdef NAZARA_PLATFORM_LINUX
"PLATFORM_LINUX",
#endif
#ifdef NAZARA_PLATFORM_FREEBSD
"PLATFORM_FREEBSD",
#endif
#ifdef NAZARA_PLATFORM_IOS
"PLATFORM_IOS",
#endif
#ifdef NAZARA_PLATFORM_MACOS
"PLATFORM_MACOS",
#endif
#ifdef NAZARA_PLATFORM_BSD
"PLATFORM_BSD",
#endif
#ifdef NAZARA_PLATFORM_POSIX
"PLATFORM_POSIX",
#endif
#ifdef NAZARA_PLATFORM_WEB
"PLATFORM_WEB",
#endif
#ifdef NAZARA_PLATFORM_UNKNOWN
"PLATFORM_UNKNOWN",
#endif
#ifdef NAZARA_ARCH_arm
"ARCH_arm",
#endif
#ifdef NAZARA_ARCH_aarch64
"ARCH_aarch64",
#endif
#ifdef NAZARA_ARCH_x86_64
"ARCH_x86_64",
#endif
#ifdef NAZARA_ARCH_x86
"ARCH_x86",
#endif
#ifdef NAZARA_ARCH_wasm32
"ARCH_wasm32",
#endif
#ifdef NAZARA_ARCH_wasm64
"ARCH_wasm64",
#endif
