// predefined macros of clang_powerpc-linux-gnu
#define NAZARA_NO_ARCH_DETECTION
#define _ARCH_PPC 1
#define _BIG_ENDIAN 1
#define _ILP32 1
#define __BIGGEST_ALIGNMENT__ 16
#define __BIG_ENDIAN__ 1
#define __BITINT_MAXWIDTH__ 128
#define __BYTE_ORDER__ __ORDER_BIG_ENDIAN__
#define __CHAR_UNSIGNED__ 1
#define __CONSTANT_CFSTRINGS__ 1
#define __ELF__ 1
#define __FINITE_MATH_ONLY__ 0
#define __GNUC_GNU_INLINE__ 1
#define __GNUC_MINOR__ 2
#define __GNUC_PATCHLEVEL__ 1
#define __GNUC__ 4
#define __GNUG__ 4
#define __HAVE_BSWAP__ 1
#define __ILP32__ 1
#define __INT16_C_SUFFIX__ 
#define __INT32_C_SUFFIX__ 
#define __INT64_C_SUFFIX__ LL
#define __INT8_C_SUFFIX__ 
#define __INTMAX_C_SUFFIX__ LL
#define __LONGDOUBLE128 1
#define __LONG_DOUBLE_128__ 1
#define __LONG_DOUBLE_IBM128__ 1
#define __NATURAL_ALIGNMENT__ 1
#define __ORDER_BIG_ENDIAN__ 4321
#define __ORDER_LITTLE_ENDIAN__ 1234
#define __ORDER_PDP_ENDIAN__ 3412
#define __PIC__ 2
#define __PIE__ 2
#define __POWERPC__ 1
#define __PPC__ 1
#define __PRAGMA_REDEFINE_EXTNAME 1
#define __REGISTER_PREFIX__ 
#define __SIZEOF_DOUBLE__ 8
#define __SIZEOF_FLOAT__ 4
#define __SIZEOF_INT__ 4
#define __SIZEOF_LONG_DOUBLE__ 16
#define __SIZEOF_LONG_LONG__ 8
#define __SIZEOF_LONG__ 4
#define __SIZEOF_POINTER__ 4
#define __SIZEOF_PTRDIFF_T__ 4
#define __SIZEOF_SHORT__ 2
#define __SIZEOF_SIZE_T__ 4
#define __SIZEOF_WCHAR_T__ 4
#define __SIZEOF_WINT_T__ 4
#define __UINT16_C_SUFFIX__ 
#define __UINT32_C_SUFFIX__ U
#define __UINT64_C_SUFFIX__ ULL
#define __UINT8_C_SUFFIX__ 
#define __UINTMAX_C_SUFFIX__ ULL
#define __USER_LABEL_PREFIX__ 
#define __WINT_UNSIGNED__ 1
#define __abs __builtin_abs
#define __addex __builtin_ppc_addex
#define __alignx __builtin_ppc_alignx
#define __alloca __builtin_alloca
#define __bcopy bcopy
#define __bpermd __builtin_bpermd
#define __builtin_maxfe __builtin_ppc_maxfe
#define __builtin_maxfl __builtin_ppc_maxfl
#define __builtin_maxfs __builtin_ppc_maxfs
#define __builtin_mffs __builtin_ppc_mffs
#define __builtin_mffsl __builtin_ppc_mffsl
#define __builtin_minfe __builtin_ppc_minfe
#define __builtin_minfl __builtin_ppc_minfl
#define __builtin_minfs __builtin_ppc_minfs
#define __builtin_mtfsf __builtin_ppc_mtfsf
#define __builtin_set_fpscr_rn __builtin_ppc_set_fpscr_rn
#define __clang__ 1
#define __clang_major__ 18
#define __clang_minor__ 1
#define __clang_patchlevel__ 3
#define __cmpb __builtin_ppc_cmpb
#define __cmpeqb __builtin_ppc_cmpeqb
#define __cmplx __builtin_complex
#define __cmplxf __builtin_complex
#define __cmplxl __builtin_complex
#define __cmprb __builtin_ppc_cmprb
#define __cntlz4 __builtin_clz
#define __cntlz8 __builtin_clzll
#define __cnttz4 __builtin_ctz
#define __cnttz8 __builtin_ctzll
#define __compare_and_swap __builtin_ppc_compare_and_swap
#define __compare_and_swaplp __builtin_ppc_compare_and_swaplp
#define __compare_exp_eq __builtin_ppc_compare_exp_eq
#define __compare_exp_gt __builtin_ppc_compare_exp_gt
#define __compare_exp_lt __builtin_ppc_compare_exp_lt
#define __compare_exp_uo __builtin_ppc_compare_exp_uo
#define __darn __builtin_darn
#define __darn_32 __builtin_darn_32
#define __darn_raw __builtin_darn_raw
#define __dcbf __builtin_dcbf
#define __dcbfl __builtin_ppc_dcbfl
#define __dcbflp __builtin_ppc_dcbflp
#define __dcbst __builtin_ppc_dcbst
#define __dcbt __builtin_ppc_dcbt
#define __dcbtst __builtin_ppc_dcbtst
#define __dcbtstt __builtin_ppc_dcbtstt
#define __dcbtt __builtin_ppc_dcbtt
#define __dcbz __builtin_ppc_dcbz
#define __divde __builtin_divde
#define __divdeu __builtin_divdeu
#define __divwe __builtin_divwe
#define __divweu __builtin_divweu
#define __eieio __builtin_ppc_eieio
#define __extract_exp __builtin_ppc_extract_exp
#define __extract_sig __builtin_ppc_extract_sig
#define __fcfid __builtin_ppc_fcfid
#define __fcfud __builtin_ppc_fcfud
#define __fctid __builtin_ppc_fctid
#define __fctidz __builtin_ppc_fctidz
#define __fctiw __builtin_ppc_fctiw
#define __fctiwz __builtin_ppc_fctiwz
#define __fctudz __builtin_ppc_fctudz
#define __fctuwz __builtin_ppc_fctuwz
#define __fence __builtin_ppc_fence
#define __fetch_and_add __builtin_ppc_fetch_and_add
#define __fetch_and_addlp __builtin_ppc_fetch_and_addlp
#define __fetch_and_and __builtin_ppc_fetch_and_and
#define __fetch_and_andlp __builtin_ppc_fetch_and_andlp
#define __fetch_and_or __builtin_ppc_fetch_and_or
#define __fetch_and_orlp __builtin_ppc_fetch_and_orlp
#define __fetch_and_swap __builtin_ppc_fetch_and_swap
#define __fetch_and_swaplp __builtin_ppc_fetch_and_swaplp
#define __fmadd __builtin_fma
#define __fmadds __builtin_fmaf
#define __fmsub __builtin_ppc_fmsub
#define __fmsubs __builtin_ppc_fmsubs
#define __fnabs __builtin_ppc_fnabs
#define __fnabss __builtin_ppc_fnabss
#define __fnmadd __builtin_ppc_fnmadd
#define __fnmadds __builtin_ppc_fnmadds
#define __fnmsub __builtin_ppc_fnmsub
#define __fnmsubs __builtin_ppc_fnmsubs
#define __fre __builtin_ppc_fre
#define __fres __builtin_ppc_fres
#define __fric __builtin_ppc_fric
#define __frim __builtin_ppc_frim
#define __frims __builtin_ppc_frims
#define __frin __builtin_ppc_frin
#define __frins __builtin_ppc_frins
#define __frip __builtin_ppc_frip
#define __frips __builtin_ppc_frips
#define __friz __builtin_ppc_friz
#define __frizs __builtin_ppc_frizs
#define __frsqrte __builtin_ppc_frsqrte
#define __frsqrtes __builtin_ppc_frsqrtes
#define __fsel __builtin_ppc_fsel
#define __fsels __builtin_ppc_fsels
#define __fsqrt __builtin_ppc_fsqrt
#define __fsqrts __builtin_ppc_fsqrts
#define __gnu_linux__ 1
#define __icbt __builtin_ppc_icbt
#define __insert_exp __builtin_ppc_insert_exp
#define __iospace_eieio __builtin_ppc_iospace_eieio
#define __iospace_lwsync __builtin_ppc_iospace_lwsync
#define __iospace_sync __builtin_ppc_iospace_sync
#define __isync __builtin_ppc_isync
#define __labs __builtin_labs
#define __lbarx __builtin_ppc_lbarx
#define __ldarx __builtin_ppc_ldarx
#define __lharx __builtin_ppc_lharx
#define __linux 1
#define __linux__ 1
#define __llabs __builtin_llabs
#define __llvm__ 1
#define __load2r __builtin_ppc_load2r
#define __load4r __builtin_ppc_load4r
#define __load8r __builtin_ppc_load8r
#define __lwarx __builtin_ppc_lwarx
#define __lwsync __builtin_ppc_lwsync
#define __maddhd __builtin_ppc_maddhd
#define __maddhdu __builtin_ppc_maddhdu
#define __maddld __builtin_ppc_maddld
#define __mfmsr __builtin_ppc_mfmsr
#define __mfspr __builtin_ppc_mfspr
#define __mftbu __builtin_ppc_mftbu
#define __mtfsb0 __builtin_ppc_mtfsb0
#define __mtfsb1 __builtin_ppc_mtfsb1
#define __mtfsf __builtin_ppc_mtfsf
#define __mtfsfi __builtin_ppc_mtfsfi
#define __mtmsr __builtin_ppc_mtmsr
#define __mtspr __builtin_ppc_mtspr
#define __mulhd __builtin_ppc_mulhd
#define __mulhdu __builtin_ppc_mulhdu
#define __mulhw __builtin_ppc_mulhw
#define __mulhwu __builtin_ppc_mulhwu
#define __pic__ 2
#define __pie__ 2
#define __popcnt4 __builtin_popcount
#define __popcnt8 __builtin_popcountll
#define __popcntb __builtin_ppc_popcntb
#define __poppar4 __builtin_ppc_poppar4
#define __poppar8 __builtin_ppc_poppar8
#define __powerpc__ 1
#define __ppc__ 1
#define __private_extern__ extern
#define __rdlam __builtin_ppc_rdlam
#define __readflm __builtin_readflm
#define __rldimi __builtin_ppc_rldimi
#define __rlwimi __builtin_ppc_rlwimi
#define __rlwnm __builtin_ppc_rlwnm
#define __rotatel4 __builtin_rotateleft32
#define __rotatel8 __builtin_rotateleft64
#define __setb __builtin_ppc_setb
#define __setflm __builtin_setflm
#define __setrnd __builtin_setrnd
#define __stbcx __builtin_ppc_stbcx
#define __stdcx __builtin_ppc_stdcx
#define __stfiw __builtin_ppc_stfiw
#define __sthcx __builtin_ppc_sthcx
#define __store2r __builtin_ppc_store2r
#define __store4r __builtin_ppc_store4r
#define __store8r __builtin_ppc_store8r
#define __stwcx __builtin_ppc_stwcx
#define __swdiv __builtin_ppc_swdiv
#define __swdiv_nochk __builtin_ppc_swdiv_nochk
#define __swdivs __builtin_ppc_swdivs
#define __swdivs_nochk __builtin_ppc_swdivs_nochk
#define __sync __builtin_ppc_sync
#define __tdw __builtin_ppc_tdw
#define __test_data_class __builtin_ppc_test_data_class
#define __trap __builtin_ppc_trap
#define __trapd __builtin_ppc_trapd
#define __tw __builtin_ppc_tw
#define __unix 1
#define __unix__ 1
#define __vcipher __builtin_altivec_crypto_vcipher
#define __vcipherlast __builtin_altivec_crypto_vcipherlast
#define __vncipher __builtin_altivec_crypto_vncipher
#define __vncipherlast __builtin_altivec_crypto_vncipherlast
#define __vpermxor __builtin_altivec_crypto_vpermxor
#define __vpmsumb __builtin_altivec_crypto_vpmsumb
#define __vpmsumd __builtin_altivec_crypto_vpmsumd
#define __vpmsumh __builtin_altivec_crypto_vpmsumh
#define __vpmsumw __builtin_altivec_crypto_vpmsumw
