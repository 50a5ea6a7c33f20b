#!/usr/bin/env python3
"""Writes the translation units of C33: the headers as seen by the compilers of other platforms.
The predefined macros of each platform are those clang has for it (or, for other compilers, those their documentation lists);
what has to be recognised is written here, platform by platform."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def predef(cxx, *a):
    d = {}
    for l in subprocess.run([cxx, *a, "-dM", "-E", "-x", "c++", "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.splitlines():
        m = re.match(r"#define (\w+)(\([^)]*\))?(?: (.*))?$", l)
        if m and not m[2]: d[m[1]] = m[3] or ""
    return d
SKIP = re.compile(r"__CHAR_BIT__|__cpp_|__cplusplus|__STDC|__SANITIZE|__OPTIMIZE|__NO_INLINE__|__EXCEPTIONS|__GXX_|__DEPRECATED|__VERSION__|__STRICT_ANSI__|_GNU_SOURCE|__GNUC_STDC|__GNUC_EXECUTION|__GNUC_WIDE|__clang_(version|literal|wide)|__(FLT|DBL|LDBL|DECIMAL|BFLT)|__\w+_(C_SUFFIX|FMT\w*__|TYPE__|WIDTH__|MAX__|MIN__)$|__GCC_|__CLANG_ATOMIC|__CHAR16|__CHAR32|__OBJC|__BFLT|__FAST_RELAXED|__FPCLASS|__MEMORY_SCOPE|__OPENCL|__ATOMIC|__LIBGCC|__HAVE_SPECULATION|__PTRAUTH")
LINUX, ANDROID, FREEBSD, MAC, IOS, WEB, WIN, NONE = "DESKTOP LINUX POSIX", "MOBILE ANDROID POSIX", "BSD FREEBSD POSIX", "DESKTOP MACOS BSD POSIX", "MOBILE IOS BSD POSIX", "WEB POSIX", "DESKTOP WINDOWS", "UNKNOWN"
# target: (platform, architecture or "" when it has no name, big endian)
T = {
 "x86_64-linux-gnu": (LINUX, "x86_64", 0), "i686-linux-gnu": (LINUX, "x86", 0), "x86_64-linux-gnux32": (LINUX, "x86_64", 0), "aarch64-linux-gnu": (LINUX, "aarch64", 0), "aarch64_be-linux-gnu": (LINUX, "aarch64", 1),
 "armv6-linux-gnueabi": (LINUX, "arm", 0), "armv7-linux-gnueabihf": (LINUX, "arm", 0), "armeb-linux-gnueabi": (LINUX, "arm", 1), "thumbv7-linux-gnueabi": (LINUX, "arm", 0),
 "powerpc-linux-gnu": (LINUX, "", 1), "powerpc64-linux-gnu": (LINUX, "", 1), "powerpc64le-linux-gnu": (LINUX, "", 0), "mips-linux-gnu": (LINUX, "", 1), "mipsel-linux-gnu": (LINUX, "", 0), "mips64-linux-gnu": (LINUX, "", 1),
 "riscv64-linux-gnu": (LINUX, "", 0), "loongarch64-linux-gnu": (LINUX, "", 0), "sparc64-linux-gnu": (LINUX, "", 1), "sparcel-linux-gnu": (LINUX, "", 0), "s390x-linux-gnu": (LINUX, "", 1), "m68k-linux-gnu": (LINUX, "", 1),
 "x86_64-unknown-freebsd": (FREEBSD, "x86_64", 0), "aarch64-unknown-freebsd": (FREEBSD, "aarch64", 0),
 "wasm32-unknown-emscripten": (WEB, "wasm32", 0), "wasm64-unknown-emscripten": (WEB, "wasm64", 0), "wasm32-unknown-wasi": (NONE, "wasm32", 0),
 "x86_64-pc-windows-msvc": (WIN, "x86_64", 0), "i686-pc-windows-msvc": (WIN, "x86", 0), "aarch64-pc-windows-msvc": (WIN, "aarch64", 0), "arm64ec-pc-windows-msvc": (WIN, "aarch64", 0), "thumbv7-pc-windows-msvc": (WIN, "arm", 0),
 "x86_64-w64-mingw32": (WIN, "x86_64", 0), "i686-w64-mingw32": (WIN, "x86", 0), "aarch64-w64-mingw32": (WIN, "aarch64", 0),
 "x86_64-apple-macosx": (MAC, "x86_64", 0), "arm64-apple-macosx": (MAC, "aarch64", 0), "arm64-apple-ios": (IOS, "aarch64", 0), "x86_64-apple-ios-simulator": (IOS, "x86_64", 0), "arm64-apple-tvos": (IOS, "aarch64", 0),
 "aarch64-linux-android30": (ANDROID, "aarch64", 0), "armv7-linux-androideabi21": (ANDROID, "arm", 0), "i686-linux-android21": (ANDROID, "x86", 0), "x86_64-linux-android24": (ANDROID, "x86_64", 0),
 "x86_64-unknown-haiku": (NONE, "x86_64", 0), "aarch64-unknown-fuchsia": (NONE, "aarch64", 0),
}
envs = {}   # name: (macros, platform, arch, big, compiler, extra compiler macros)
for t, (p, a, b) in T.items():
    d = predef("clang++", "--target=" + t, "-std=c++17"); assert d, t
    assert (d["__BYTE_ORDER__"] == "__ORDER_BIG_ENDIAN__") == b, t
    mingw = " COMPILER_MINGW COMPILER_MINGW_THREADS_WIN32" if "mingw" in t else ""
    envs["clang_" + t] = (d, p, a, b, "CLANG", mingw)
    if "mingw" in t: envs["clang_pthread_" + t] = (dict(d, _REENTRANT="1"), p, a, b, "CLANG", " COMPILER_MINGW COMPILER_MINGW_THREADS_POSIX"); envs["clang_mcf_" + t] = (dict(d, __USING_MCFGTHREAD__="1", _REENTRANT="1", __MINGW64_VERSION_MAJOR="11"), p, a, b, "CLANG", " COMPILER_MINGW COMPILER_MINGW_W64 COMPILER_MINGW_THREADS_MCF")
    if "mingw" in t or t in ("x86_64-linux-gnu", "i686-linux-gnu", "powerpc64le-linux-gnu", "armv7-linux-gnueabihf", "s390x-linux-gnu", "x86_64-unknown-freebsd"):
        g = {k: v for k, v in d.items() if "clang" not in k.lower() and k != "__llvm__" and k not in ("__ppc__", "__POWERPC__")}
        g.update(__GNUC__="13", __GNUC_MINOR__="2", __GNUC_PATCHLEVEL__="0"); envs["gcc_" + t] = (g, p, a, b, "GCC", mingw)
msvc = dict(_MSC_VER="1938", _MSC_FULL_VER="193833130", _MSVC_LANG="202002L", _WIN32="1", _MSVC_TRADITIONAL="1", _CPPUNWIND="1", _MT="1")
for n, m, a in [("x64", dict(_WIN64="1", _M_X64="100", _M_AMD64="100"), "x86_64"), ("x86", dict(_M_IX86="600"), "x86"), ("arm", dict(_M_ARM="7", _M_THUMB="7"), "arm"), ("arm64", dict(_WIN64="1", _M_ARM64="1"), "aarch64"), ("arm64ec", dict(_WIN64="1", _M_ARM64EC="1", _M_X64="100", _M_AMD64="100"), "aarch64")]:
    envs["msvc_" + n] = (dict(msvc, **m), WIN, a, 0, "MSVC", "")
    envs["msvc17_" + n] = (dict(msvc, _MSC_VER="1914", _MSVC_LANG="201703L", **m), WIN, a, 0, "MSVC", "")
envs["icc_windows"] = (dict(msvc, _WIN64="1", _M_X64="100", _M_AMD64="100", __INTEL_COMPILER="2021", __ICL="2021"), WIN, "x86_64", 0, "ICC", "")
envs["unknown_linux"] = ({"__linux__": "1", "__x86_64__": "1", "__BYTE_ORDER__": "__ORDER_LITTLE_ENDIAN__", "__ORDER_LITTLE_ENDIAN__": "1234", "__ORDER_BIG_ENDIAN__": "4321"}, LINUX, "x86_64", 0, "UNKNOWN", "")

hosts = [predef("g++", "-std=c++17"), predef("g++", "-std=c++20"), predef("clang++", "-std=c++17"), predef("clang++", "-std=c++20"), predef("g++", "-D_REENTRANT")]
alls = [e[0] for e in envs.values()] + hosts
names = sorted({k for d in alls for k in d if not SKIP.match(k)})
names = [k for k in names if any(d.get(k) != alls[0].get(k) for d in alls)] + ["__clang__", "__GNUC__", "__GNUC_MINOR__"]
names = list(dict.fromkeys(names))
os.makedirs(V + "/src/env", exist_ok=True)
open(V + "/src/env/none.inc", "w").write("// forgets which platform compiles this\n" + "".join(f"#undef {k}\n" for k in names + ["_REENTRANT", "__USING_MCFGTHREAD__"]))
macros = [f"COMPILER_{c}" for c in "CLANG GCC ICC MSVC UNKNOWN MINGW MINGW_W64 MINGW_THREADS_MCF MINGW_THREADS_POSIX MINGW_THREADS_WIN32".split()] + [f"PLATFORM_{p}" for p in "DESKTOP MOBILE WINDOWS ANDROID LINUX FREEBSD IOS MACOS BSD POSIX WEB UNKNOWN".split()] + [f"ARCH_{a}" for a in "arm aarch64 x86_64 x86 wasm32 wasm64".split()]
open(V + "/src/c33_macros.inc", "w").write("".join(f'#ifdef NAZARA_{m}\n"{m}",\n#endif\n' for m in macros))
n = 0
for e, (d, p, a, b, c, x) in envs.items():
    f = re.sub(r"\W", "_", e); n += 2
    # what the compiler of the platform understands and this one does not
    if c in ("MSVC", "ICC"): d = dict(d); d["__pragma(x)"] = ""; d["__FUNCSIG__"] = "__PRETTY_FUNCTION__"; d["__forceinline"] = "inline"; d["__assume(x)"] = "((x) ? (void) 0 : __builtin_unreachable())"
    if "WINDOWS" in p: d = dict(d); d["__declspec(x)"] = "__attribute__((x))"
    begin, end = ("#ifndef __clang__ // which refuses the message about unknown compilers\n", "#endif\n") if c == "UNKNOWN" else ("", "")
    # the order of bytes as the C library of the platform tells it
    glibc = "#define __LITTLE_ENDIAN 1234\n#define __BIG_ENDIAN 4321\n#define __BYTE_ORDER %d\n#define LITTLE_ENDIAN 1234\n#define BIG_ENDIAN 4321\n#define BYTE_ORDER %d\n" % ((4321, 4321) if b else (1234, 1234)) if p in (LINUX, ANDROID) else ""
    open(f"{V}/src/env/{f}.inc", "w").write(f"// predefined macros of {e}\n" + ("" if a else "#define NAZARA_NO_ARCH_DETECTION\n") + ("#define NAZARA_NO_ASSUME_ATTRIBUTE // the one of GCC 13, unless this compiler is one\n" if c == "GCC" else "") + "".join(f"#define {k} {d[k]}\n" for k in names + [q for q in d if q not in names and (q.endswith(")") or q in ("__FUNCSIG__", "__forceinline"))] if k in d))
    ver = {"CLANG": f"(__clang_major__ * 100 + __clang_minor__)", "GCC": "(__GNUC__ * 100 + __GNUC_MINOR__)", "MSVC": "_MSC_VER", "ICC": "__INTEL_COMPILER"}.get(c, "0")
    want = sorted([f"COMPILER_{c}"] + x.split() + [f"PLATFORM_{q}" for q in p.split()] + ([f"ARCH_{a}"] if a else []))
    rest = f'#define C33_ENV "{e}"\n#define C33_WANT "{" ".join(want)}"\n#define C33_VER {ver}\n#define C33_IS_{c}\n#define C33_BIG {b}\n'
    open(f"{V}/src/c33_p_{f}.cpp", "w").write(begin + '#include "../src/c33_probe.hpp"\n' + f'#include "../src/env/none.inc"\n#include "../src/env/{f}.inc"\n#define Nz Nz_p_{f}\n{rest}#include <NazaraUtils/Prerequisites.hpp>\n#include "../src/c33_unit.inc"\n#define C33_NAME C33_ENV\n#define C33_STRUCT S_{f}\n#define C33_LOCAL local_{f}\n#define forced2 forced2_{f}\n{"#define C33_THROWS" if c == "UNKNOWN" else ""}\n#include "../src/c33_feature.inc"\n' + end)
    open(f"{V}/src/c33_e_{f}.cpp", "w").write('#include "../src/c33_probe.hpp"\n' + f"#define Nz Nz_e_{f}\n#include <NazaraUtils/MathUtils.hpp>\n#if __has_include(<endian.h>)\n#include <endian.h>\n#endif\n" + f'#include "../src/env/none.inc"\n#include "../src/env/{f}.inc"\n#undef __BYTE_ORDER\n#undef __LITTLE_ENDIAN\n#undef __BIG_ENDIAN\n#undef BYTE_ORDER\n#undef LITTLE_ENDIAN\n#undef BIG_ENDIAN\n{glibc}{rest}#define endian endian_{f}\nnamespace std {{ enum class endian {{ little = 1234, big = 4321, native = {4321 if b else 1234} }}; }}\n#include <NazaraUtils/Endianness.hpp>\n#include "../src/c33_order.inc"\n')
for w, b in [("LITTLE", 0), ("BIG", 1)]: # told by the user
    n += 1; open(f"{V}/src/c33_e_told_{w.lower()}.cpp", "w").write(f'#include "../src/c33_probe.hpp"\n#define Nz Nz_e_told_{b}\n#define C33_ENV "told {w.lower()}"\n#define C33_BIG {b}\n#define NAZARA_{w}_ENDIAN\n#include <NazaraUtils/Endianness.hpp>\n#include "../src/c33_order.inc"\n')
print(len(envs), "environments,", len(names), "macros,", n, "units")
for k, (name, pre) in enumerate([("as it is", ""), ("plain attributes", "#define NAZARA_NO_LIKELY_ATTRIBUTE\n#define NAZARA_NO_ASSUME_ATTRIBUTE\n#define NAZARA_NO_FORCEINLINE_ATTRIBUTE\n"), ("plain unreachable", "#define NAZARA_NO_UNREACHABLE_MACRO\n#define C33_THROWS\n"), ("unity 1", "#define NAZARA_UNITY_ID Unity1\n"), ("unity 2", "#define NAZARA_UNITY_ID Unity2\n"),
    ("unknown compiler", '#include "../src/env/none.inc"\n#include "../src/env/unknown_linux.inc"\n#define C33_THROWS\n'), ("no architecture", "#define NAZARA_NO_ARCH_DETECTION\n"), ("attributes of an older compiler", "#define likely c33_likely\n#define unlikely c33_unlikely\n")]):
    open(f"{V}/src/c33_f_{k}.cpp", "w").write(("#ifndef __clang__\n" if k == 5 else "") + f'#include "../src/c33_probe.hpp"\n#define Nz Nz_f_{k}\n{pre}#include <NazaraUtils/Prerequisites.hpp>\n#define C33_NAME "{name}"\n#define C33_STRUCT S{k}\n#define C33_LOCAL local{k}\n#define forced2 forced2_{k}\n#include "../src/c33_feature.inc"\n' + ("#endif\n" if k == 5 else ""))
