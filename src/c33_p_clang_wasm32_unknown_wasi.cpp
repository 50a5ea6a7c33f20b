#include "../src/c33_probe.hpp"
#include "../src/env/none.inc"
#include "../src/env/clang_wasm32_unknown_wasi.inc"
#define Nz Nz_p_clang_wasm32_unknown_wasi
#define C33_ENV "clang_wasm32-unknown-wasi"
#define C33_WANT "ARCH_wasm32 COMPILER_CLANG PLATFORM_UNKNOWN"
#define C33_VER (__clang_major__ * 100 + __clang_minor__)
#define C33_IS_CLANG
#define C33_BIG 0
#include <NazaraUtils/Prerequisites.hpp>
#include "../src/c33_unit.inc"
#define C33_NAME C33_ENV
#define C33_STRUCT S_clang_wasm32_unknown_wasi
#define C33_LOCAL local_clang_wasm32_unknown_wasi
#define forced2 forced2_clang_wasm32_unknown_wasi

#include "../src/c33_feature.inc"
