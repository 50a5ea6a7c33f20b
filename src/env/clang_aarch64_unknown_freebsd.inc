// predefined macros of clang_aarch64-unknown-freebsd
#define _LP64 1
#define __AARCH64EL__ 1
#define __AARCH64_CMODEL_SMALL__ 1
#define __ARM_64BIT_STATE 1
#define __ARM_ACLE 200
#define __ARM_ALIGN_MAX_STACK_PWR 4
#define __ARM_ARCH 8
#define __ARM_ARCH_ISA_A64 1
#define __ARM_ARCH_PROFILE 'A'
#define __ARM_FEATURE_CLZ 1
#define __ARM_FEATURE_DIRECTED_ROUNDING 1
#define __ARM_FEATURE_DIV 1
#define __ARM_FEATURE_FMA 1
#define __ARM_FEATURE_IDIV 1
#define __ARM_FEATURE_LDREX 0xF
#define __ARM_FEATURE_NUMERIC_MAXMIN 1
#define __ARM_FEATURE_UNALIGNED 1
#define __ARM_FP 0xE
#define __ARM_FP16_ARGS 1
#define __ARM_FP16_FORMAT_IEEE 1
#define __ARM_NEON 1
#define __ARM_NEON_FP 0xE
#define __ARM_PCS_AAPCS64 1
#define __ARM_SIZEOF_MINIMAL_ENUM 4
#define __ARM_SIZEOF_WCHAR_T 4
#define __ARM_STATE_ZA 1
#define __ARM_STATE_ZT0 1
#define __BIGGEST_ALIGNMENT__ 16
#define __BITINT_MAXWIDTH__ 128
#define __BYTE_ORDER__ __ORDER_LITTLE_ENDIAN__
#define __CHAR_UNSIGNED__ 1
#define __CONSTANT_CFSTRINGS__ 1
#define __ELF__ 1
#define __FINITE_MATH_ONLY__ 0
#define __FP_FAST_FMA 1
#define __FP_FAST_FMAF 1
#define __FreeBSD__ 8
#define __FreeBSD_cc_version 800001
#define __GNUC_GNU_INLINE__ 1
#define __GNUC_MINOR__ 2
#define __GNUC_PATCHLEVEL__ 1
#define __GNUC__ 4
#define __GNUG__ 4
#define __INT16_C_SUFFIX__ 
#define __INT32_C_SUFFIX__ 
#define __INT64_C_SUFFIX__ L
#define __INT8_C_SUFFIX__ 
#define __INTMAX_C_SUFFIX__ L
#define __KPRINTF_ATTRIBUTE__ 1
#define __LITTLE_ENDIAN__ 1
#define __LP64__ 1
#define __NO_MATH_ERRNO__ 1
#define __ORDER_BIG_ENDIAN__ 4321
#define __ORDER_LITTLE_ENDIAN__ 1234
#define __ORDER_PDP_ENDIAN__ 3412
#define __PRAGMA_REDEFINE_EXTNAME 1
#define __SIZEOF_DOUBLE__ 8
#define __SIZEOF_FLOAT__ 4
#define __SIZEOF_INT128__ 16
#define __SIZEOF_INT__ 4
#define __SIZEOF_LONG_DOUBLE__ 16
#define __SIZEOF_LONG_LONG__ 8
#define __SIZEOF_LONG__ 8
#define __SIZEOF_POINTER__ 8
#define __SIZEOF_PTRDIFF_T__ 8
#define __SIZEOF_SHORT__ 2
#define __SIZEOF_SIZE_T__ 8
#define __SIZEOF_WCHAR_T__ 4
#define __SIZEOF_WINT_T__ 4
#define __UINT16_C_SUFFIX__ 
#define __UINT32_C_SUFFIX__ U
#define __UINT64_C_SUFFIX__ UL
#define __UINT8_C_SUFFIX__ 
#define __UINTMAX_C_SUFFIX__ UL
#define __USER_LABEL_PREFIX__ 
#define __WCHAR_UNSIGNED__ 1
#define __aarch64__ 1
#define __clang__ 1
#define __clang_major__ 18
#define __clang_minor__ 1
#define __clang_patchlevel__ 3
#define __llvm__ 1
#define __private_extern__ extern
#define __unix 1
#define __unix__ 1
