// predefined macros of clang_aarch64-pc-windows-msvc
#define _CPPRTTI 1
#define _CPPUNWIND 1
#define _HAS_CHAR16_T_LANGUAGE_SUPPORT 1
#define _INTEGRAL_MAX_BITS 64
#define _ISO_VOLATILE 1
#define _MSC_BUILD 1
#define _MSC_EXTENSIONS 1
#define _MSC_FULL_VER 193300000
#define _MSC_VER 1933
#define _MSVC_CONSTEXPR_ATTRIBUTE 1
#define _MSVC_EXECUTION_CHARACTER_SET 65001
#define _MSVC_LANG 201703L
#define _M_ARM64 1
#define _M_FP_CONTRACT 1
#define _M_FP_PRECISE 1
#define _NATIVE_NULLPTR_SUPPORTED 1
#define _NATIVE_WCHAR_T_DEFINED 1
#define _RVALUE_REFERENCES_SUPPORTED 1
#define _RVALUE_REFERENCES_V2_SUPPORTED 1
#define _WCHAR_T_DEFINED 1
#define _WIN32 1
#define _WIN64 1
#define __AARCH64EL__ 1
#define __AARCH64_CMODEL_SMALL__ 1
#define __ARM_64BIT_STATE 1
#define __ARM_ACLE 200
#define __ARM_ALIGN_MAX_STACK_PWR 4
#define __ARM_ARCH 8
#define __ARM_ARCH_ISA_A64 1
#define __ARM_ARCH_PROFILE 'A'
#define __ARM_FEATURE_CLZ 1
#define __ARM_FEATURE_DIRECTED_ROUNDING 1
#define __ARM_FEATURE_DIV 1
#define __ARM_FEATURE_FMA 1
#define __ARM_FEATURE_IDIV 1
#define __ARM_FEATURE_LDREX 0xF
#define __ARM_FEATURE_NUMERIC_MAXMIN 1
#define __ARM_FEATURE_UNALIGNED 1
#define __ARM_FP 0xE
#define __ARM_FP16_ARGS 1
#define __ARM_FP16_FORMAT_IEEE 1
#define __ARM_NEON 1
#define __ARM_NEON_FP 0xE
#define __ARM_PCS_AAPCS64 1
#define __ARM_SIZEOF_MINIMAL_ENUM 4
#define __ARM_SIZEOF_WCHAR_T 4
#define __ARM_STATE_ZA 1
#define __ARM_STATE_ZT0 1
#define __BIGGEST_ALIGNMENT__ 16
#define __BITINT_MAXWIDTH__ 128
#define __BOOL_DEFINED 1
#define __BYTE_ORDER__ __ORDER_LITTLE_ENDIAN__
#define __CONSTANT_CFSTRINGS__ 1
#define __FINITE_MATH_ONLY__ 0
#define __FP_FAST_FMA 1
#define __FP_FAST_FMAF 1
#define __INT16_C_SUFFIX__ 
#define __INT32_C_SUFFIX__ 
#define __INT64_C_SUFFIX__ LL
#define __INT8_C_SUFFIX__ 
#define __INTMAX_C_SUFFIX__ LL
#define __LITTLE_ENDIAN__ 1
#define __ORDER_BIG_ENDIAN__ 4321
#define __ORDER_LITTLE_ENDIAN__ 1234
#define __ORDER_PDP_ENDIAN__ 3412
#define __PIC__ 2
#define __PRAGMA_REDEFINE_EXTNAME 1
#define __SIZEOF_DOUBLE__ 8
#define __SIZEOF_FLOAT__ 4
#define __SIZEOF_INT128__ 16
#define __SIZEOF_INT__ 4
#define __SIZEOF_LONG_DOUBLE__ 8
#define __SIZEOF_LONG_LONG__ 8
#define __SIZEOF_LONG__ 4
#define __SIZEOF_POINTER__ 8
#define __SIZEOF_PTRDIFF_T__ 8
#define __SIZEOF_SHORT__ 2
#define __SIZEOF_SIZE_T__ 8
#define __SIZEOF_WCHAR_T__ 2
#define __SIZEOF_WINT_T__ 2
#define __UINT16_C_SUFFIX__ 
#define __UINT32_C_SUFFIX__ U
#define __UINT64_C_SUFFIX__ ULL
#define __UINT8_C_SUFFIX__ 
#define __UINTMAX_C_SUFFIX__ ULL
#define __USER_LABEL_PREFIX__ 
#define __WCHAR_UNSIGNED__ 1
#define __WINT_UNSIGNED__ 1
#define __aarch64__ 1
#define __clang__ 1
#define __clang_major__ 18
#define __clang_minor__ 1
#define __clang_patchlevel__ 3
#define __llvm__ 1
#define __pic__ 2
#define __declspec(x) __attribute__((x))
