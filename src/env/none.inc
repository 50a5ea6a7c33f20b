// forgets which platform compiles this
#undef TARGET_IPHONE_SIMULATOR
#undef TARGET_OS_DRIVERKIT
#undef TARGET_OS_EMBEDDED
#undef TARGET_OS_IOS
#undef TARGET_OS_IPHONE
#undef TARGET_OS_LINUX
#undef TARGET_OS_MAC
#undef TARGET_OS_MACCATALYST
#undef TARGET_OS_NANO
#undef TARGET_OS_OSX
#undef TARGET_OS_SIMULATOR
#undef TARGET_OS_TV
#undef TARGET_OS_UIKITFORMAC
#undef TARGET_OS_UNIX
#undef TARGET_OS_WATCH
#undef TARGET_OS_WIN32
#undef TARGET_OS_WINDOWS
#undef _ABI64
#undef _ABIO32
#undef _ARCH_PPC
#undef _ARCH_PPC64
#undef _ARCH_PPCGR
#undef _ARCH_PPCSQ
#undef _ARCH_PWR4
#undef _ARCH_PWR5
#undef _ARCH_PWR5X
#undef _ARCH_PWR6
#undef _ARCH_PWR7
#undef _ARCH_PWR8
#undef _BIG_ENDIAN
#undef _CALL_ELF
#undef _CALL_LINUX
#undef _CPPRTTI
#undef _CPPUNWIND
#undef _HAS_CHAR16_T_LANGUAGE_SUPPORT
#undef _ILP32
#undef _INTEGRAL_MAX_BITS
#undef _ISO_VOLATILE
#undef _LITTLE_ENDIAN
#undef _LP64
#undef _MIPSEB
#undef _MIPSEL
#undef _MIPS_ARCH
#undef _MIPS_ARCH_MIPS32R2
#undef _MIPS_ARCH_MIPS64R2
#undef _MIPS_FPSET
#undef _MIPS_ISA
#undef _MIPS_SIM
#undef _MIPS_SPFPSET
#undef _MIPS_SZINT
#undef _MIPS_SZLONG
#undef _MIPS_SZPTR
#undef _MSC_BUILD
#undef _MSC_EXTENSIONS
#undef _MSC_FULL_VER
#undef _MSC_VER
#undef _MSVC_CONSTEXPR_ATTRIBUTE
#undef _MSVC_EXECUTION_CHARACTER_SET
#undef _MSVC_LANG
#undef _MSVC_TRADITIONAL
#undef _MT
#undef _M_AMD64
#undef _M_ARM
#undef _M_ARM64
#undef _M_ARM64EC
#undef _M_ARMT
#undef _M_ARM_FP
#undef _M_ARM_NT
#undef _M_FP_CONTRACT
#undef _M_FP_PRECISE
#undef _M_IX86
#undef _M_IX86_FP
#undef _M_THUMB
#undef _M_X64
#undef _NATIVE_NULLPTR_SUPPORTED
#undef _NATIVE_WCHAR_T_DEFINED
#undef _REENTRANT
#undef _RVALUE_REFERENCES_SUPPORTED
#undef _RVALUE_REFERENCES_V2_SUPPORTED
#undef _STDC_PREDEF_H
#undef _WCHAR_T_DEFINED
#undef _WIN32
#undef _WIN64
#undef _X86_
#undef __AARCH64EB__
#undef __AARCH64EL__
#undef __AARCH64_CMODEL_SMALL__
#undef __AARCH64_SIMD__
#undef __AARCH_BIG_ENDIAN
#undef __ALTIVEC__
#undef __ANDROID_API__
#undef __ANDROID_MIN_SDK_VERSION__
#undef __ANDROID__
#undef __APCS_32__
#undef __APPLE_CC__
#undef __APPLE_EMBEDDED_SIMULATOR__
#undef __APPLE__
#undef __ARCH__
#undef __ARM64_ARCH_8__
#undef __ARMEB__
#undef __ARMEL__
#undef __ARM_32BIT_STATE
#undef __ARM_64BIT_STATE
#undef __ARM_ACLE
#undef __ARM_ALIGN_MAX_STACK_PWR
#undef __ARM_ARCH
#undef __ARM_ARCH_5TE__
#undef __ARM_ARCH_6__
#undef __ARM_ARCH_7A__
#undef __ARM_ARCH_ISA_A64
#undef __ARM_ARCH_ISA_ARM
#undef __ARM_ARCH_ISA_THUMB
#undef __ARM_ARCH_PROFILE
#undef __ARM_BIG_ENDIAN
#undef __ARM_EABI__
#undef __ARM_FEATURE_AES
#undef __ARM_FEATURE_ATOMICS
#undef __ARM_FEATURE_BTI
#undef __ARM_FEATURE_CLZ
#undef __ARM_FEATURE_COMPLEX
#undef __ARM_FEATURE_COPROC
#undef __ARM_FEATURE_CRC32
#undef __ARM_FEATURE_CRYPTO
#undef __ARM_FEATURE_DIRECTED_ROUNDING
#undef __ARM_FEATURE_DIV
#undef __ARM_FEATURE_DOTPROD
#undef __ARM_FEATURE_DSP
#undef __ARM_FEATURE_FMA
#undef __ARM_FEATURE_FP16_FML
#undef __ARM_FEATURE_FP16_SCALAR_ARITHMETIC
#undef __ARM_FEATURE_FP16_VECTOR_ARITHMETIC
#undef __ARM_FEATURE_FRINT
#undef __ARM_FEATURE_IDIV
#undef __ARM_FEATURE_JCVT
#undef __ARM_FEATURE_LDREX
#undef __ARM_FEATURE_NUMERIC_MAXMIN
#undef __ARM_FEATURE_PAUTH
#undef __ARM_FEATURE_QBIT
#undef __ARM_FEATURE_QRDMX
#undef __ARM_FEATURE_RCPC
#undef __ARM_FEATURE_SAT
#undef __ARM_FEATURE_SHA2
#undef __ARM_FEATURE_SHA3
#undef __ARM_FEATURE_SHA512
#undef __ARM_FEATURE_SIMD32
#undef __ARM_FEATURE_UNALIGNED
#undef __ARM_FP
#undef __ARM_FP16_ARGS
#undef __ARM_FP16_FORMAT_IEEE
#undef __ARM_NEON
#undef __ARM_NEON_FP
#undef __ARM_NEON__
#undef __ARM_PCS
#undef __ARM_PCS_AAPCS64
#undef __ARM_PCS_VFP
#undef __ARM_SIZEOF_MINIMAL_ENUM
#undef __ARM_SIZEOF_WCHAR_T
#undef __ARM_STATE_ZA
#undef __ARM_STATE_ZT0
#undef __ARM_VFPV2__
#undef __ARM_VFPV3__
#undef __BIGGEST_ALIGNMENT__
#undef __BIG_ENDIAN__
#undef __BITINT_MAXWIDTH__
#undef __BLOCKS__
#undef __BOOL_DEFINED
#undef __BYTE_ORDER__
#undef __CET__
#undef __CHAR_UNSIGNED__
#undef __CONSTANT_CFSTRINGS__
#undef __CRC32__
#undef __CRYPTO__
#undef __DEC128_EPSILON__
#undef __DEC128_MANT_DIG__
#undef __DEC128_MAX_EXP__
#undef __DEC128_MIN_EXP__
#undef __DEC32_EPSILON__
#undef __DEC32_MANT_DIG__
#undef __DEC32_MAX_EXP__
#undef __DEC32_MIN_EXP__
#undef __DEC64_EPSILON__
#undef __DEC64_MANT_DIG__
#undef __DEC64_MAX_EXP__
#undef __DEC64_MIN_EXP__
#undef __DEC_EVAL_METHOD__
#undef __DYNAMIC__
#undef __ELF__
#undef __EMSCRIPTEN__
#undef __ENVIRONMENT_IPHONE_OS_VERSION_MIN_REQUIRED__
#undef __ENVIRONMENT_MAC_OS_X_VERSION_MIN_REQUIRED__
#undef __ENVIRONMENT_OS_VERSION_MIN_REQUIRED__
#undef __ENVIRONMENT_TV_OS_VERSION_MIN_REQUIRED__
#undef __FINITE_MATH_ONLY__
#undef __FLOAT128__
#undef __FLOAT_WORD_ORDER__
#undef __FP_FAST_FMA
#undef __FP_FAST_FMAF
#undef __FXSR__
#undef __FreeBSD__
#undef __FreeBSD_cc_version
#undef __Fuchsia_API_level__
#undef __Fuchsia__
#undef __GLIBCXX_BITSIZE_INT_N_0
#undef __GLIBCXX_TYPE_INT_N_0
#undef __GNUC_GNU_INLINE__
#undef __GNUC_MINOR__
#undef __GNUC_PATCHLEVEL__
#undef __GNUC__
#undef __GNUG__
#undef __HAIKU__
#undef __HAVE_BSWAP__
#undef __HAVE_FUNCTION_MULTI_VERSIONING
#undef __HTM__
#undef __ICL
#undef __ILP32__
#undef __INT16_C_SUFFIX__
#undef __INT32_C_SUFFIX__
#undef __INT64_C_SUFFIX__
#undef __INT8_C_SUFFIX__
#undef __INTEL_COMPILER
#undef __INTMAX_C_SUFFIX__
#undef __KPRINTF_ATTRIBUTE__
#undef __LAHF_SAHF__
#undef __LITTLE_ENDIAN__
#undef __LONGDOUBLE128
#undef __LONG_DOUBLE_128__
#undef __LONG_DOUBLE_IBM128__
#undef __LP64__
#undef __MACH__
#undef __MINGW32__
#undef __MINGW64_VERSION_MAJOR
#undef __MINGW64__
#undef __MIPSEB
#undef __MIPSEB__
#undef __MIPSEL
#undef __MIPSEL__
#undef __MMX_WITH_SSE__
#undef __MMX__
#undef __MSVCRT__
#undef __NATURAL_ALIGNMENT__
#undef __NO_MATH_ERRNO__
#undef __NO_MATH_INLINES
#undef __ORDER_BIG_ENDIAN__
#undef __ORDER_LITTLE_ENDIAN__
#undef __ORDER_PDP_ENDIAN__
#undef __PIC__
#undef __PIE__
#undef __POPCNT__
#undef __POWER8_VECTOR__
#undef __POWERPC__
#undef __PPC64__
#undef __PPC__
#undef __PRAGMA_REDEFINE_EXTNAME
#undef __REGISTER_PREFIX__
#undef __SEG_FS
#undef __SEG_GS
#undef __SEH__
#undef __SIZEOF_DOUBLE__
#undef __SIZEOF_FLOAT128__
#undef __SIZEOF_FLOAT80__
#undef __SIZEOF_FLOAT__
#undef __SIZEOF_INT128__
#undef __SIZEOF_INT__
#undef __SIZEOF_LONG_DOUBLE__
#undef __SIZEOF_LONG_LONG__
#undef __SIZEOF_LONG__
#undef __SIZEOF_POINTER__
#undef __SIZEOF_PTRDIFF_T__
#undef __SIZEOF_SHORT__
#undef __SIZEOF_SIZE_T__
#undef __SIZEOF_WCHAR_T__
#undef __SIZEOF_WINT_T__
#undef __SOFTFP__
#undef __SSE2_MATH__
#undef __SSE2__
#undef __SSE3__
#undef __SSE4_1__
#undef __SSE4_2__
#undef __SSE_MATH__
#undef __SSE__
#undef __SSP_STRONG__
#undef __SSP__
#undef __SSSE3__
#undef __STRUCT_PARM_ALIGN__
#undef __THUMBEL__
#undef __THUMB_INTERWORK__
#undef __UINT16_C_SUFFIX__
#undef __UINT32_C_SUFFIX__
#undef __UINT64_C_SUFFIX__
#undef __UINT8_C_SUFFIX__
#undef __UINTMAX_C_SUFFIX__
#undef __USER_LABEL_PREFIX__
#undef __USING_MCFGTHREAD__
#undef __VEC__
#undef __VFP_FP__
#undef __VSX__
#undef __VX__
#undef __WCHAR_UNSIGNED__
#undef __WIN32
#undef __WIN32__
#undef __WIN64
#undef __WIN64__
#undef __WINNT
#undef __WINNT__
#undef __WINT_UNSIGNED__
#undef __aarch64__
#undef __abs
#undef __addex
#undef __alignx
#undef __alloca
#undef __amd64
#undef __amd64__
#undef __arch64__
#undef __arm
#undef __arm64
#undef __arm64__
#undef __arm64ec__
#undef __arm__
#undef __bcopy
#undef __block
#undef __bpermd
#undef __builtin_maxfe
#undef __builtin_maxfl
#undef __builtin_maxfs
#undef __builtin_mffs
#undef __builtin_mffsl
#undef __builtin_minfe
#undef __builtin_minfl
#undef __builtin_minfs
#undef __builtin_mtfsf
#undef __builtin_set_fpscr_rn
#undef __cdecl
#undef __clang__
#undef __clang_major__
#undef __clang_minor__
#undef __clang_patchlevel__
#undef __cmpb
#undef __cmpeqb
#undef __cmplx
#undef __cmplxf
#undef __cmplxl
#undef __cmprb
#undef __cntlz4
#undef __cntlz8
#undef __cnttz4
#undef __cnttz8
#undef __code_model_small__
#undef __compare_and_swap
#undef __compare_and_swaplp
#undef __compare_exp_eq
#undef __compare_exp_gt
#undef __compare_exp_lt
#undef __compare_exp_uo
#undef __core2
#undef __core2__
#undef __darn
#undef __darn_32
#undef __darn_raw
#undef __dcbf
#undef __dcbfl
#undef __dcbflp
#undef __dcbst
#undef __dcbt
#undef __dcbtst
#undef __dcbtstt
#undef __dcbtt
#undef __dcbz
#undef __divde
#undef __divdeu
#undef __divwe
#undef __divweu
#undef __eieio
#undef __extract_exp
#undef __extract_sig
#undef __fastcall
#undef __fcfid
#undef __fcfud
#undef __fctid
#undef __fctidz
#undef __fctiw
#undef __fctiwz
#undef __fctudz
#undef __fctuwz
#undef __fence
#undef __fetch_and_add
#undef __fetch_and_addlp
#undef __fetch_and_and
#undef __fetch_and_andlp
#undef __fetch_and_or
#undef __fetch_and_orlp
#undef __fetch_and_swap
#undef __fetch_and_swaplp
#undef __fmadd
#undef __fmadds
#undef __fmsub
#undef __fmsubs
#undef __fnabs
#undef __fnabss
#undef __fnmadd
#undef __fnmadds
#undef __fnmsub
#undef __fnmsubs
#undef __fre
#undef __fres
#undef __fric
#undef __frim
#undef __frims
#undef __frin
#undef __frins
#undef __frip
#undef __frips
#undef __friz
#undef __frizs
#undef __frsqrte
#undef __frsqrtes
#undef __fsel
#undef __fsels
#undef __fsqrt
#undef __fsqrts
#undef __gnu_linux__
#undef __i386
#undef __i386__
#undef __i686
#undef __i686__
#undef __icbt
#undef __insert_exp
#undef __iospace_eieio
#undef __iospace_lwsync
#undef __iospace_sync
#undef __isync
#undef __k8
#undef __k8__
#undef __labs
#undef __lbarx
#undef __ldarx
#undef __lharx
#undef __linux
#undef __linux__
#undef __llabs
#undef __llvm__
#undef __load2r
#undef __load4r
#undef __load8r
#undef __loongarch64
#undef __loongarch__
#undef __loongarch_arch
#undef __loongarch_double_float
#undef __loongarch_frlen
#undef __loongarch_grlen
#undef __loongarch_hard_float
#undef __loongarch_lp64
#undef __loongarch_tune
#undef __lwarx
#undef __lwsync
#undef __m68k__
#undef __maddhd
#undef __maddhdu
#undef __maddld
#undef __mc68000
#undef __mc68000__
#undef __mfmsr
#undef __mfspr
#undef __mftbu
#undef __mips
#undef __mips64
#undef __mips64__
#undef __mips__
#undef __mips_abicalls
#undef __mips_fpr
#undef __mips_hard_float
#undef __mips_isa_rev
#undef __mips_n64
#undef __mips_o32
#undef __mtfsb0
#undef __mtfsb1
#undef __mtfsf
#undef __mtfsfi
#undef __mtmsr
#undef __mtspr
#undef __mulhd
#undef __mulhdu
#undef __mulhw
#undef __mulhwu
#undef __nonnull
#undef __null_unspecified
#undef __nullable
#undef __pascal
#undef __pentiumpro
#undef __pentiumpro__
#undef __pic__
#undef __pie__
#undef __popcnt4
#undef __popcnt8
#undef __popcntb
#undef __poppar4
#undef __poppar8
#undef __powerpc64__
#undef __powerpc__
#undef __ppc__
#undef __private_extern__
#undef __rdlam
#undef __readflm
#undef __riscv
#undef __riscv_a
#undef __riscv_arch_test
#undef __riscv_atomic
#undef __riscv_c
#undef __riscv_cmodel_medlow
#undef __riscv_compressed
#undef __riscv_d
#undef __riscv_div
#undef __riscv_f
#undef __riscv_fdiv
#undef __riscv_flen
#undef __riscv_float_abi_double
#undef __riscv_fsqrt
#undef __riscv_i
#undef __riscv_m
#undef __riscv_misaligned_avoid
#undef __riscv_mul
#undef __riscv_muldiv
#undef __riscv_xlen
#undef __riscv_zicsr
#undef __rldimi
#undef __rlwimi
#undef __rlwnm
#undef __rotatel4
#undef __rotatel8
#undef __s390__
#undef __s390x__
#undef __seg_fs
#undef __seg_gs
#undef __setb
#undef __setflm
#undef __setrnd
#undef __sparc
#undef __sparc64__
#undef __sparc__
#undef __sparc_v9__
#undef __sparcv8
#undef __sparcv8__
#undef __sparcv9
#undef __sparcv9__
#undef __stbcx
#undef __stdcall
#undef __stdcx
#undef __stfiw
#undef __sthcx
#undef __store2r
#undef __store4r
#undef __store8r
#undef __strong
#undef __stwcx
#undef __swdiv
#undef __swdiv_nochk
#undef __swdivs
#undef __swdivs_nochk
#undef __sync
#undef __tdw
#undef __test_data_class
#undef __thiscall
#undef __thumb2__
#undef __thumb__
#undef __trap
#undef __trapd
#undef __tune_core2__
#undef __tune_i686__
#undef __tune_k8__
#undef __tune_pentiumpro__
#undef __tw
#undef __unix
#undef __unix__
#undef __unsafe_unretained
#undef __vcipher
#undef __vcipherlast
#undef __vncipher
#undef __vncipherlast
#undef __vpermxor
#undef __vpmsumb
#undef __vpmsumd
#undef __vpmsumh
#undef __vpmsumw
#undef __wasi__
#undef __wasm
#undef __wasm32
#undef __wasm32__
#undef __wasm64
#undef __wasm64__
#undef __wasm__
#undef __wasm_mutable_globals__
#undef __wasm_sign_ext__
#undef __weak
#undef __x86_64
#undef __x86_64__
#undef __zarch__
#undef _cdecl
#undef _fastcall
#undef _mips
#undef _pascal
#undef _stdcall
#undef _thiscall
#undef linux
#undef unix
#undef _REENTRANT
#undef __USING_MCFGTHREAD__
