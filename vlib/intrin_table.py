"""the intrinsics hlc provides, as implicit/include/intrinsic.c declared them when this check was written"""
TABLE = [
    ('unsigned __int8', '_bittest', '__int32 *to_test, __int32 bit_index'),
    ('unsigned __int8', '_bittest64', '__int64 *to_test, __int64 bit_index'),
    ('unsigned __int8', '_bittestandcomplement', '__int32 *to_test, __int32 bit_index'),
    ('unsigned __int8', '_bittestandcomplement64', '__int64 *to_test, __int64 bit_index'),
    ('unsigned __int8', '_bittestandreset', '__int32 *to_test, __int32 bit_index'),
    ('unsigned __int8', '_bittestandreset64', '__int64 *to_test, __int64 bit_index'),
    ('unsigned __int8', '_bittestandset', '__int32 *to_test, __int32 bit_index'),
    ('unsigned __int8', '_bittestandset64', '__int64 *to_test, __int64 bit_index'),
    ('unsigned __int8', '_BitScanForward', 'unsigned __int32 *out_bit_index, unsigned __int32 to_scan'),
    ('unsigned __int8', '_BitScanForward64', 'unsigned __int32 *out_bit_index, unsigned __int64 to_scan'),
    ('unsigned __int8', '_BitScanReverse', 'unsigned __int32 *out_bit_index, unsigned __int32 to_scan'),
    ('unsigned __int8', '_BitScanReverse64', 'unsigned __int32 *out_bit_index, unsigned __int64 to_scan'),
    ('__int8', '_InterlockedIncrement8', '__int8 *to_increment'),
    ('__int16', '_InterlockedIncrement16', '__int16 *to_increment'),
    ('__int32', '_InterlockedIncrement', '__int32 *to_increment'),
    ('__int64', '_InterlockedIncrement64', '__int64 *to_increment'),
    ('__int8', '_InterlockedDecrement8', '__int8 *to_increment'),
    ('__int16', '_InterlockedDecrement16', '__int16 *to_increment'),
    ('__int32', '_InterlockedDecrement', '__int32 *to_increment'),
    ('__int64', '_InterlockedDecrement64', '__int64 *to_increment'),
    ('__int8', '_InterlockedCompareExchange8', '__int8 *destination, __int8 exchange, __int8 comparand'),
    ('__int16', '_InterlockedCompareExchange16', '__int16 *destination, __int16 exchange, __int16 comparand'),
    ('__int32', '_InterlockedCompareExchange', '__int32 *destination, __int32 exchange, __int32 comparand'),
    ('__int64', '_InterlockedCompareExchange64', '__int64 *destination, __int64 exchange, __int64 comparand'),
    ('unsigned __int8', '_InterlockedCompareExchange128', '__int64 *destination, __int64 exchange_high, __int64 exchange_low, __int64 *inout_comparand_result'),
    ('void *', '_InterlockedCompareExchangePointer', 'void **destination, void *exchange, void *comparand'),
    ('char', '_InterlockedExchange8', 'char *target, char value'),
    ('short', '_InterlockedExchange16', 'short *target, short value'),
    ('long', '_InterlockedExchange', 'long *target, long value'),
    ('__int64', '_InterlockedExchange64', '__int64 *target, __int64 value'),
    ('void *', '_InterlockedExchangePointer', 'void **target, void *value'),
    ('__int8', '_InterlockedExchangeAdd8', '__int8 *destination, __int8 to_add'),
    ('__int16', '_InterlockedExchangeAdd16', '__int16 *destination, __int16 to_add'),
    ('__int32', '_InterlockedExchangeAdd', '__int32 *destination, __int32 to_add'),
    ('__int64', '_InterlockedExchangeAdd64', '__int64 *destination, __int64 to_add'),
    ('void', '__stosb', 'unsigned __int8 *destination, unsigned __int8 _byte, unsigned __int64 number_of_bytes_to_set'),
    ('void', '__stosw', 'unsigned __int16 *destination, unsigned __int16 word, unsigned __int64 number_of_words_to_set'),
    ('void', '__stosd', 'unsigned __int32 *destination, unsigned __int32 dword, unsigned __int64 number_of_dwords_to_set'),
    ('void', '__stosq', 'unsigned __int64 *destination, unsigned __int64 qword, unsigned __int64 number_of_qwords_to_set'),
    ('void', '__movsb', 'unsigned __int8 *destination, unsigned __int8 *source, unsigned __int64 number_of_bytes_to_copy'),
    ('void', '__movsw', 'unsigned __int16 *destination, unsigned __int16 *source, unsigned __int64 number_of_words_to_copy'),
    ('void', '__movsd', 'unsigned __int32 *destination, unsigned __int32 *source, unsigned __int64 number_of_dwords_to_copy'),
    ('void', '__movsq', 'unsigned __int64 *destination, unsigned __int64 *source, unsigned __int64 number_of_qwords_to_copy'),
    ('unsigned __int16', '__popcnt16', 'unsigned __int16 value'),
    ('unsigned __int32', '__popcnt', 'unsigned __int32 value'),
    ('unsigned __int64', '__popcnt64', 'unsigned __int64 value'),
    ('unsigned short', '__lzcnt16', 'unsigned short value'),
    ('unsigned int', '__lzcnt', 'unsigned int value'),
    ('unsigned __int64', '__lzcnt64', 'unsigned __int64 value'),
    ('unsigned __int64', '_umul128', 'unsigned __int64 Multiplier, unsigned __int64 Multiplicand, unsigned __int64 *HighProduct'),
    ('__int64', '_mul128', '__int64 Multiplier, __int64 Multiplicand, __int64 *HighProduct'),
    ('unsigned __int64', '_udiv128', 'unsigned __int64 highDividend, unsigned __int64 lowDividend, unsigned __int64 divisor, unsigned __int64 *remainder'),
    ('void', '__incgsbyte', 'unsigned __int32 offset'),
    ('void', '__incgsword', 'unsigned __int32 offset'),
    ('void', '__incgsdword', 'unsigned __int32 offset'),
    ('void', '__incgsqword', 'unsigned __int32 offset'),
    ('void', '__addgsbyte', 'unsigned __int32 offset, unsigned __int8 byte_to_add'),
    ('void', '__addgsword', 'unsigned __int32 offset, unsigned __int16 word_to_add'),
    ('void', '__addgsdword', 'unsigned __int32 offset, unsigned __int32 dword_to_add'),
    ('void', '__addgsqword', 'unsigned __int32 offset, unsigned __int64 qword_to_add'),
    ('unsigned char', '__readgsbyte', 'unsigned __int32 offset'),
    ('unsigned short', '__readgsword', 'unsigned __int32 offset'),
    ('unsigned __int32', '__readgsdword', 'unsigned __int32 offset'),
    ('unsigned __int64', '__readgsqword', 'unsigned __int32 offset'),
    ('void', '__writegsbyte', 'unsigned __int32 offset, unsigned char data'),
    ('void', '__writegsword', 'unsigned __int32 offset, unsigned short data'),
    ('void', '__writegsdword', 'unsigned __int32 offset, unsigned __int32 data'),
    ('void', '__writegsqword', 'unsigned __int32 offset, unsigned __int64 data'),
    ('void', '_ReadWriteBarrier', ''),
    ('unsigned __int8', '_addcarry_u8', 'unsigned __int8 carry_in, unsigned __int8 operand_a, unsigned __int8 operand_b, unsigned __int8 *out'),
    ('unsigned __int8', '_addcarry_u16', 'unsigned __int8 carry_in, unsigned __int16 operand_a, unsigned __int16 operand_b, unsigned __int16 *out'),
    ('unsigned __int8', '_addcarry_u32', 'unsigned __int8 carry_in, unsigned __int32 operand_a, unsigned __int32 operand_b, unsigned __int32 *out'),
    ('unsigned __int8', '_addcarry_u64', 'unsigned __int8 carry_in, unsigned __int64 operand_a, unsigned __int64 operand_b, unsigned __int64 *out'),
    ('char', '_InterlockedOr8', 'char volatile *value, char mask'),
    ('short', '_InterlockedOr16', 'short volatile *value, short mask'),
    ('long', '_InterlockedOr', 'long volatile *value, long mask'),
    ('__int64', '_InterlockedOr64', '__int64 volatile *value, __int64 mask'),
    ('char', '_InterlockedXor8', 'char volatile *value, char mask'),
    ('short', '_InterlockedXor16', 'short volatile *value, short mask'),
    ('long', '_InterlockedXor', 'long volatile *value, long mask'),
    ('__int64', '_InterlockedXor64', '__int64 volatile *value, __int64 mask'),
    ('char', '_InterlockedAnd8', 'char volatile *value, char mask'),
    ('short', '_InterlockedAnd16', 'short volatile *value, short mask'),
    ('long', '_InterlockedAnd', 'long volatile *value, long mask'),
    ('__int64', '_InterlockedAnd64', '__int64 volatile *value, __int64 mask'),
    ('unsigned short', '_byteswap_ushort', 'unsigned short val'),
    ('unsigned long', '_byteswap_ulong', 'unsigned long val'),
    ('unsigned __int64', '_byteswap_uint64', 'unsigned __int64 val'),
    ('void', '__faststorefence', 'void'),
    ('__int8', '__iso_volatile_load8', 'const volatile __int8 * Location'),
    ('__int16', '__iso_volatile_load16', 'const volatile __int16 * Location'),
    ('__int32', '__iso_volatile_load32', 'const volatile __int32 * Location'),
    ('__int64', '__iso_volatile_load64', 'const volatile __int64 * Location'),
    ('void', '__iso_volatile_store8', 'volatile __int8 * Location, __int8 Value'),
    ('void', '__iso_volatile_store16', 'volatile __int16 * Location, __int16 Value'),
    ('void', '__iso_volatile_store32', 'volatile __int32 * Location, __int32 Value'),
    ('void', '__iso_volatile_store64', 'volatile __int64 * Location, __int64 Value'),
    ('int', '__builtin_ctz', 'unsigned int x'),
    ('int', '__builtin_clz', 'unsigned int x'),
    ('int', '__builtin_ffs', 'int x'),
    ('int', '__builtin_ffsll', 'long long x'),
    ('int', '__builtin_expect', 'int __expression, int expected'),
    ('void', '__builtin_trap', 'void'),
    ('unsigned int', '_lzcnt_u32', 'unsigned int value'),
    ('unsigned __int64', '_lzcnt_u64', 'unsigned __int64 value'),
    ('void', '_mm_setcsr', 'unsigned int a'),
    ('unsigned int', '_mm_getcsr', ''),
    ('void', '_MM_SET_EXCEPTION_STATE', 'unsigned int mask'),
    ('void', '_MM_SET_EXCEPTION_MASK', 'unsigned int mask'),
    ('void', '_MM_SET_ROUNDING_MODE', 'unsigned int mask'),
    ('void', '_MM_SET_FLUSH_ZERO_MODE', 'unsigned int mask'),
    ('unsigned int', '_MM_GET_EXCEPTION_STATE', 'void'),
    ('unsigned int', '_MM_GET_EXCEPTION_MASK', 'void'),
    ('unsigned int', '_MM_GET_ROUNDING_MODE', 'void'),
    ('unsigned int', '_MM_GET_FLUSH_ZERO_MODE', 'void'),
    ('__m128', '_mm_add_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_add_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_and_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_andnot_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpeq_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpeq_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpge_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpge_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpgt_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpgt_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmple_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmple_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmplt_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmplt_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpneq_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpneq_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpnge_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpnge_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpngt_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpngt_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpnle_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpnle_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpnlt_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpnlt_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpord_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpord_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpunord_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_cmpunord_ss', '__m128 a, __m128 b'),
    ('int', '_mm_comieq_ss', '__m128 a, __m128 b'),
    ('int', '_mm_comige_ss', '__m128 a, __m128 b'),
    ('int', '_mm_comigt_ss', '__m128 a, __m128 b'),
    ('int', '_mm_comile_ss', '__m128 a, __m128 b'),
    ('int', '_mm_comilt_ss', '__m128 a, __m128 b'),
    ('int', '_mm_comineq_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_cvtsi32_ss', '__m128 a, int b'),
    ('__m128', '_mm_cvt_si2ss', '__m128 a, int b'),
    ('__m128', '_mm_cvtsi64_ss', '__m128 a, __int64 b'),
    ('float', '_mm_cvtss_f32', '__m128 a'),
    ('int', '_mm_cvtss_si32', '__m128 a'),
    ('int', '_mm_cvt_ss2si', '__m128 a'),
    ('__int64', '_mm_cvtss_si64', '__m128 a'),
    ('int', '_mm_cvtt_ss2si', '__m128 a'),
    ('int', '_mm_cvttss_si32', '__m128 a'),
    ('__int64', '_mm_cvttss_si64', '__m128 a'),
    ('__m128', '_mm_div_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_div_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_load_ps', 'float *mem_addr'),
    ('__m128', '_mm_load_ps1', 'float *mem_addr'),
    ('__m128', '_mm_load_ss', 'float const* mem_addr'),
    ('__m128', '_mm_load1_ps', 'float const* mem_addr'),
    ('__m128', '_mm_loadr_ps', 'float const* mem_addr'),
    ('__m128', '_mm_loadu_ps', 'float *mem_addr'),
    ('__m128', '_mm_max_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_max_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_min_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_min_ss', '__m128 a, __m128 b'),
    ('__m128i', '_mm_move_epi64', '__m128i a'),
    ('__m128', '_mm_move_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_movehl_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_movelh_ps', '__m128 a, __m128 b'),
    ('int', '_mm_movemask_ps', '__m128 a'),
    ('__m128', '_mm_mul_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_mul_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_or_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_rcp_ps', '__m128 a'),
    ('__m128', '_mm_rcp_ss', '__m128 a'),
    ('__m128', '_mm_rsqrt_ps', '__m128 a'),
    ('__m128', '_mm_rsqrt_ss', '__m128 a'),
    ('__m128', '_mm_set_ps', 'float e3, float e2, float e1, float e0'),
    ('__m128', '_mm_set_ps1', 'float a'),
    ('__m128', '_mm_set_ss', 'float a'),
    ('__m128', '_mm_set1_ps', 'float a'),
    ('__m128', '_mm_setr_ps', 'float e3, float e2, float e1, float e0'),
    ('__m128', '_mm_setzero_ps', 'void'),
    ('void', '_mm_sfence', 'void'),
    ('__m128', '_mm_shuffle_ps', '__m128 a, __m128 b, unsigned int imm8'),
    ('__m128', '_mm_sqrt_ps', '__m128 a'),
    ('__m128', '_mm_sqrt_ss', '__m128 a'),
    ('void', '_mm_store_ps', 'float *mem_addr, __m128 a'),
    ('void', '_mm_store_ps1', 'float* mem_addr, __m128 a'),
    ('void', '_mm_store_ss', 'float* mem_addr, __m128 a'),
    ('void', '_mm_store1_ps', 'float* mem_addr, __m128 a'),
    ('void', '_mm_storer_ps', 'float* mem_addr, __m128 a'),
    ('void', '_mm_storeu_ps', 'float *mem_addr, __m128 a'),
    ('__m128', '_mm_sub_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_sub_ss', '__m128 a, __m128 b'),
    ('int', '_mm_ucomieq_ss', '__m128 a, __m128 b'),
    ('int', '_mm_ucomige_ss', '__m128 a, __m128 b'),
    ('int', '_mm_ucomigt_ss', '__m128 a, __m128 b'),
    ('int', '_mm_ucomile_ss', '__m128 b, __m128 a'),
    ('int', '_mm_ucomilt_ss', '__m128 a, __m128 b'),
    ('int', '_mm_ucomineq_ss', '__m128 a, __m128 b'),
    ('__m128', '_mm_unpackhi_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_unpacklo_ps', '__m128 a, __m128 b'),
    ('__m128', '_mm_xor_ps', '__m128 a, __m128 b'),
    ('__m128i', '_mm_add_epi8', '__m128i a, __m128i b'),
    ('__m128i', '_mm_add_epi16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_add_epi32', '__m128i a, __m128i b'),
    ('__m128i', '_mm_add_epi64', '__m128i a, __m128i b'),
    ('__m128d', '_mm_add_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_add_sd', '__m128d a, __m128d b'),
    ('__m128i', '_mm_adds_epi8', '__m128i a, __m128i b'),
    ('__m128i', '_mm_adds_epi16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_adds_epu8', '__m128i a, __m128i b'),
    ('__m128i', '_mm_adds_epu16', '__m128i a, __m128i b'),
    ('__m128d', '_mm_and_pd', '__m128d a, __m128d b'),
    ('__m128i', '_mm_and_si128', '__m128i a, __m128i b'),
    ('__m128d', '_mm_andnot_pd', '__m128d a, __m128d b'),
    ('__m128i', '_mm_andnot_si128', '__m128i a, __m128i b'),
    ('__m128i', '_mm_avg_epu8', '__m128i a, __m128i b'),
    ('__m128i', '_mm_avg_epu16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_bslli_si128', '__m128i a, int imm8'),
    ('__m128i', '_mm_bsrli_si128', '__m128i a, int imm8'),
    ('__m128', '_mm_hadd_ps', '__m128 a, __m128 b'),
    ('__m128d', '_mm_hadd_pd', '__m128d a, __m128d b'),
    ('__m128', '_mm_castpd_ps', '__m128d a'),
    ('__m128i', '_mm_castpd_si128', '__m128d a'),
    ('__m128d', '_mm_castps_pd', '__m128 a'),
    ('__m128i', '_mm_castps_si128', '__m128 a'),
    ('__m128d', '_mm_castsi128_pd', '__m128i a'),
    ('__m128', '_mm_castsi128_ps', '__m128i a'),
    ('void', '_mm_clflush', 'void const* p'),
    ('__m128i', '_mm_cmpeq_epi8', '__m128i a, __m128i b'),
    ('__m128i', '_mm_cmpeq_epi16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_cmpeq_epi32', '__m128i a, __m128i b'),
    ('__m128d', '_mm_cmpeq_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpeq_sd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpge_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpge_sd', '__m128d a, __m128d b'),
    ('__m128i', '_mm_cmpgt_epi8', '__m128i a, __m128i b'),
    ('__m128i', '_mm_cmpgt_epi16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_cmpgt_epi32', '__m128i a, __m128i b'),
    ('__m128d', '_mm_cmpgt_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpgt_sd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmple_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmple_sd', '__m128d a, __m128d b'),
    ('__m128i', '_mm_cmplt_epi8', '__m128i a, __m128i b'),
    ('__m128i', '_mm_cmplt_epi16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_cmplt_epi32', '__m128i a, __m128i b'),
    ('__m128d', '_mm_cmplt_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmplt_sd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpneq_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpneq_sd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpnge_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpnge_sd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpngt_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpngt_sd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpnle_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpnle_sd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpnlt_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpnlt_sd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpord_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpord_sd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpunord_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cmpunord_sd', '__m128d a, __m128d b'),
    ('int', '_mm_comieq_sd', '__m128d a, __m128d b'),
    ('int', '_mm_comige_sd', '__m128d a, __m128d b'),
    ('int', '_mm_comigt_sd', '__m128d a, __m128d b'),
    ('int', '_mm_comile_sd', '__m128d a, __m128d b'),
    ('int', '_mm_comilt_sd', '__m128d a, __m128d b'),
    ('int', '_mm_comineq_sd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_cvtepi32_pd', '__m128i a'),
    ('__m128', '_mm_cvtepi32_ps', '__m128i a'),
    ('__m128i', '_mm_cvtpd_epi32', '__m128d a'),
    ('__m128', '_mm_cvtpd_ps', '__m128d a'),
    ('__m128i', '_mm_cvtps_epi32', '__m128 a'),
    ('__m128d', '_mm_cvtps_pd', '__m128 a'),
    ('double', '_mm_cvtsd_f64', '__m128d a'),
    ('__m128i', '_mm_cvtsi32_si128', 'int a'),
    ('int', '_mm_cvtsd_si32', '__m128d a'),
    ('__int64', '_mm_cvtsd_si64', '__m128d a'),
    ('__int64', '_mm_cvtsd_si64x', '__m128d a'),
    ('__m128', '_mm_cvtsd_ss', '__m128 a, __m128d b'),
    ('int', '_mm_cvtsi128_si32', '__m128i a'),
    ('__int64', '_mm_cvtsi128_si64', '__m128i a'),
    ('__int64', '_mm_cvtsi128_si64x', '__m128i a'),
    ('__m128d', '_mm_cvtsi32_sd', '__m128d a, int b'),
    ('__m128d', '_mm_cvtsi64_sd', '__m128d a, __int64 b'),
    ('__m128i', '_mm_cvtsi64_si128', '__int64 a'),
    ('__m128d', '_mm_cvtsi64x_sd', '__m128d a, __int64 b'),
    ('__m128i', '_mm_cvtsi64x_si128', '__int64 a'),
    ('__m128d', '_mm_cvtss_sd', '__m128d a, __m128 b'),
    ('__m128i', '_mm_cvttpd_epi32', '__m128d a'),
    ('__m128i', '_mm_cvttps_epi32', '__m128 a'),
    ('int', '_mm_cvttsd_si32', '__m128d a'),
    ('__int64', '_mm_cvttsd_si64', '__m128d a'),
    ('__int64', '_mm_cvttsd_si64x', '__m128d a'),
    ('__m128d', '_mm_div_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_div_sd', '__m128d a, __m128d b'),
    ('int', '_mm_extract_epi16', '__m128i a, int imm8'),
    ('__m128i', '_mm_insert_epi16', '__m128i a, int i, int imm8'),
    ('void', '_mm_lfence', 'void'),
    ('__m128d', '_mm_load_pd', 'double const* mem_addr'),
    ('__m128d', '_mm_load_pd1', 'double const* mem_addr'),
    ('__m128d', '_mm_load_sd', 'double const* mem_addr'),
    ('__m128i', '_mm_load_si128', '__m128i const* mem_addr'),
    ('__m128d', '_mm_load1_pd', 'double const* mem_addr'),
    ('__m128i', '_mm_loadl_epi64', '__m128i const* mem_addr'),
    ('__m128d', '_mm_loadh_pd', '__m128d a, double const* mem_addr'),
    ('__m128d', '_mm_loadl_pd', '__m128d a, double const* mem_addr'),
    ('__m128', '_mm_loadh_pi', '__m128 a, __m64 const* mem_addr'),
    ('__m128', '_mm_loadl_pi', '__m128 a, __m64 const* mem_addr'),
    ('__m128d', '_mm_loadr_pd', 'double const* mem_addr'),
    ('__m128d', '_mm_loadu_pd', 'double const* mem_addr'),
    ('__m128i', '_mm_loadu_si128', '__m128i const* mem_addr'),
    ('__m128i', '_mm_loadu_si16', 'void const* mem_addr'),
    ('__m128i', '_mm_loadu_si32', 'void const* mem_addr'),
    ('__m128i', '_mm_loadu_si64', 'void const* mem_addr'),
    ('__m128i', '_mm_madd_epi16', '__m128i a, __m128i b'),
    ('void', '_mm_maskmoveu_si128', '__m128i a, __m128i mask, char* mem_addr'),
    ('__m128i', '_mm_max_epi16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_max_epu8', '__m128i a, __m128i b'),
    ('__m128d', '_mm_max_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_max_sd', '__m128d a, __m128d b'),
    ('void', '_mm_mfence', 'void'),
    ('__m128i', '_mm_min_epu8', '__m128i a, __m128i b'),
    ('__m128i', '_mm_min_epi16', '__m128i a, __m128i b'),
    ('__m128d', '_mm_min_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_min_sd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_move_sd', '__m128d a, __m128d b'),
    ('int', '_mm_movemask_epi8', '__m128i a'),
    ('int', '_mm_movemask_pd', '__m128d a'),
    ('__m128i', '_mm_mul_epu32', '__m128i a, __m128i b'),
    ('__m128d', '_mm_mul_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_mul_sd', '__m128d a, __m128d b'),
    ('__m128i', '_mm_mulhi_epi16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_mulhi_epu16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_mullo_epi16', '__m128i a, __m128i b'),
    ('__m128d', '_mm_or_pd', '__m128d a, __m128d b'),
    ('__m128i', '_mm_or_si128', '__m128i a, __m128i b'),
    ('__m128i', '_mm_packs_epi16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_packs_epi32', '__m128i a, __m128i b'),
    ('__m128i', '_mm_packus_epi16', '__m128i a, __m128i b'),
    ('void', '_mm_pause', 'void'),
    ('__m128i', '_mm_sad_epu8', '__m128i a, __m128i b'),
    ('__m128i', '_mm_set_epi16', 'short e7, short e6, short e5, short e4, short e3, short e2, short e1, short e0'),
    ('__m128i', '_mm_set_epi32', 'int e3, int e2, int e1, int e0'),
    ('__m128i', '_mm_set_epi64x', '__int64 e1, __int64 e0'),
    ('__m128i', '_mm_set_epi8', 'char e15, char e14, char e13, char e12, char e11, char e10, char e9, char e8, char e7, char e6, char e5, char e4, char e3, char e2, char e1, char e0'),
    ('__m128d', '_mm_set_pd', 'double e1, double e0'),
    ('__m128d', '_mm_set_pd1', 'double a'),
    ('__m128d', '_mm_set_sd', 'double a'),
    ('__m128i', '_mm_set1_epi16', 'short a'),
    ('__m128i', '_mm_set1_epi32', 'int a'),
    ('__m128i', '_mm_set1_epi64x', '__int64 a'),
    ('__m128i', '_mm_set1_epi8', 'char a'),
    ('__m128d', '_mm_set1_pd', 'double a'),
    ('__m128i', '_mm_setr_epi16', 'short e7, short e6, short e5, short e4, short e3, short e2, short e1, short e0'),
    ('__m128i', '_mm_setr_epi32', 'int e3, int e2, int e1, int e0'),
    ('__m128i', '_mm_setr_epi8', 'char e15, char e14, char e13, char e12, char e11, char e10, char e9, char e8, char e7, char e6, char e5, char e4, char e3, char e2, char e1, char e0'),
    ('__m128d', '_mm_setr_pd', 'double e1, double e0'),
    ('__m128d', '_mm_setzero_pd', 'void'),
    ('__m128i', '_mm_setzero_si128', 'void'),
    ('__m128i', '_mm_shuffle_epi32', '__m128i a, int imm8'),
    ('__m128d', '_mm_shuffle_pd', '__m128d a, __m128d b, int imm8'),
    ('__m128i', '_mm_shufflehi_epi16', '__m128i a, int imm8'),
    ('__m128i', '_mm_shufflelo_epi16', '__m128i a, int imm8'),
    ('__m128i', '_mm_sll_epi16', '__m128i a, __m128i count'),
    ('__m128i', '_mm_sll_epi32', '__m128i a, __m128i count'),
    ('__m128i', '_mm_sll_epi64', '__m128i a, __m128i count'),
    ('__m128i', '_mm_slli_epi16', '__m128i a, int imm8'),
    ('__m128i', '_mm_slli_epi32', '__m128i a, int imm8'),
    ('__m128i', '_mm_slli_epi64', '__m128i a, int imm8'),
    ('__m128i', '_mm_slli_si128', '__m128i a, int imm8'),
    ('__m128d', '_mm_sqrt_pd', '__m128d a'),
    ('__m128d', '_mm_sqrt_sd', '__m128d a, __m128d b'),
    ('__m128i', '_mm_sra_epi16', '__m128i a, __m128i count'),
    ('__m128i', '_mm_sra_epi32', '__m128i a, __m128i count'),
    ('__m128i', '_mm_srai_epi16', '__m128i a, int imm8'),
    ('__m128i', '_mm_srai_epi32', '__m128i a, int imm8'),
    ('__m128i', '_mm_srl_epi16', '__m128i a, __m128i count'),
    ('__m128i', '_mm_srl_epi32', '__m128i a, __m128i count'),
    ('__m128i', '_mm_srl_epi64', '__m128i a, __m128i count'),
    ('__m128i', '_mm_srli_epi16', '__m128i a, int imm8'),
    ('__m128i', '_mm_srli_epi32', '__m128i a, int imm8'),
    ('__m128i', '_mm_srli_epi64', '__m128i a, int imm8'),
    ('__m128i', '_mm_srli_si128', '__m128i a, int imm8'),
    ('void', '_mm_store_pd', 'double *mem_addr, __m128d a'),
    ('void', '_mm_store_pd1', 'double* mem_addr, __m128d a'),
    ('void', '_mm_store_sd', 'double* mem_addr, __m128d a'),
    ('void', '_mm_store_si128', '__m128i *mem_addr, __m128i a'),
    ('void', '_mm_store1_pd', 'double* mem_addr, __m128d a'),
    ('void', '_mm_storeh_pd', 'double* mem_addr, __m128d a'),
    ('void', '_mm_storel_pd', 'double* mem_addr, __m128d a'),
    ('void', '_mm_storeh_pi', '__m64* mem_addr, __m128 a'),
    ('void', '_mm_storel_pi', '__m64* mem_addr, __m128 a'),
    ('void', '_mm_storel_epi64', '__m128i* mem_addr, __m128i a'),
    ('void', '_mm_storer_pd', 'double* mem_addr, __m128d a'),
    ('void', '_mm_storeu_pd', 'double* mem_addr, __m128d a'),
    ('void', '_mm_storeu_si128', '__m128i *mem_addr, __m128i a'),
    ('void', '_mm_storeu_si16', 'void* mem_addr, __m128i a'),
    ('void', '_mm_storeu_si32', 'void* mem_addr, __m128i a'),
    ('void', '_mm_storeu_si64', 'void* mem_addr, __m128i a'),
    ('void', '_mm_stream_pd', 'double* mem_addr, __m128d a'),
    ('void', '_mm_stream_si128', '__m128i* mem_addr, __m128i a'),
    ('void', '_mm_stream_si32', 'int* mem_addr, int a'),
    ('void', '_mm_stream_si64', '__int64* mem_addr, __int64 a'),
    ('__m128i', '_mm_sub_epi16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_sub_epi32', '__m128i a, __m128i b'),
    ('__m128i', '_mm_sub_epi64', '__m128i a, __m128i b'),
    ('__m128i', '_mm_sub_epi8', '__m128i a, __m128i b'),
    ('__m128d', '_mm_sub_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_sub_sd', '__m128d a, __m128d b'),
    ('__m128i', '_mm_subs_epi16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_subs_epi8', '__m128i a, __m128i b'),
    ('__m128i', '_mm_subs_epu16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_subs_epu8', '__m128i a, __m128i b'),
    ('int', '_mm_ucomieq_sd', '__m128d a, __m128d b'),
    ('int', '_mm_ucomige_sd', '__m128d a, __m128d b'),
    ('int', '_mm_ucomigt_sd', '__m128d a, __m128d b'),
    ('int', '_mm_ucomile_sd', '__m128d a, __m128d b'),
    ('int', '_mm_ucomilt_sd', '__m128d a, __m128d b'),
    ('int', '_mm_ucomineq_sd', '__m128d a, __m128d b'),
    ('__m128i', '_mm_unpackhi_epi16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_unpackhi_epi32', '__m128i a, __m128i b'),
    ('__m128i', '_mm_unpackhi_epi64', '__m128i a, __m128i b'),
    ('__m128i', '_mm_unpackhi_epi8', '__m128i a, __m128i b'),
    ('__m128d', '_mm_unpackhi_pd', '__m128d a, __m128d b'),
    ('__m128i', '_mm_unpacklo_epi16', '__m128i a, __m128i b'),
    ('__m128i', '_mm_unpacklo_epi32', '__m128i a, __m128i b'),
    ('__m128i', '_mm_unpacklo_epi64', '__m128i a, __m128i b'),
    ('__m128i', '_mm_unpacklo_epi8', '__m128i a, __m128i b'),
    ('__m128d', '_mm_unpacklo_pd', '__m128d a, __m128d b'),
    ('__m128d', '_mm_xor_pd', '__m128d a, __m128d b'),
    ('__m128i', '_mm_xor_si128', '__m128i a, __m128i b'),
    ('void', '_mm_prefetch', 'char *a, int hint'),
    ('__m128i', '_mm_andn_si128', '__m128i a, __m128i b'),
    ('void', '_mm_stream_ps', 'float *mem_addr, __m128 a'),
    ('__m128i', '_mm_shuffle_epi8', '__m128i a, __m128i b'),
    ('__int64', '_mm_extract_epi64', '__m128i a, const int imm8'),
    ('int', '_mm_extract_epi32', '__m128i a, const int imm8'),
    ('__m128i', '_mm_aesdec_si128', '__m128i a, __m128i RoundKey'),
    ('__m128i', '_mm_alignr_epi8', '__m128i a, __m128i b, int imm8'),
    ('int', '_mm_cmpistri', '__m128i a, __m128i b, int imm8'),
    ('int', '_mm_cmpestrc', '__m128i a, int la, __m128i b, int lb, const int imm8'),
    ('__m256', '_mm256_add_ps', '__m256 a, __m256 b'),
    ('__m256', '_mm256_sub_ps', '__m256 a, __m256 b'),
    ('__m256', '_mm256_mul_ps', '__m256 a, __m256 b'),
    ('__m256', '_mm256_blend_ps', '__m256 a, __m256 b, int imm8'),
    ('__m256', '_mm256_permute2f128_ps', '__m256 a, __m256 b, int imm8'),
    ('__m256', '_mm256_shuffle_ps', '__m256 a, __m256 b, int imm8'),
    ('__m256', '_mm256_set1_ps', 'float a'),
    ('__m256', '_mm256_loadu_ps', 'float const * mem_addr'),
    ('void', '_mm256_storeu_ps', 'float *mem_addr, __m256 a'),
    ('void', '_mm256_storeu_si256', '__m256i * mem_addr, __m256i a'),
    ('__m256i', '_mm256_loadu_si256', '__m256i const * mem_addr'),
    ('__m256i', '_mm256_set_epi8', 'char e31, char e30, char e29, char e28, char e27, char e26, char e25, char e24, char e23, char e22, char e21, char e20, char e19, char e18, char e17, char e16, char e15, char e14, char e13, char e12, char e11, char e10, char e9, char e8, char e7, char e6, char e5, char e4, char e3, char e2, char e1, char e0'),
    ('int', '_mm256_testz_si256', '__m256i a, __m256i b'),
    ('__m256i', '_mm256_min_epu8', '__m256i a, __m256i b'),
    ('int', '_mm256_movemask_epi8', '__m256i a'),
    ('__m256i', '_mm256_set1_epi8', 'char a'),
]
