// generated by tools/gen_c04.py
//@file lang=c3 probe=arith.c3 uf=mul,sdiv,udiv,srem,urem
#define VP_UF
#include "vp.h"
int8_t c_add_s8(int8_t, int8_t);
uint8_t c_add_u8(uint8_t, uint8_t);
int16_t c_add_s16(int16_t, int16_t);
uint16_t c_add_u16(uint16_t, uint16_t);
int32_t c_add_s32(int32_t, int32_t);
uint32_t c_add_u32(uint32_t, uint32_t);
int64_t c_add_s64(int64_t, int64_t);
uint64_t c_add_u64(uint64_t, uint64_t);
void s_add_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_add_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_add_s128(&r, &a, &b); return r; }
void s_add_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_add_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_add_u128(&r, &a, &b); return r; }
int8_t c_adda_s8(int8_t, int8_t);
uint8_t c_adda_u8(uint8_t, uint8_t);
int16_t c_adda_s16(int16_t, int16_t);
uint16_t c_adda_u16(uint16_t, uint16_t);
int32_t c_adda_s32(int32_t, int32_t);
uint32_t c_adda_u32(uint32_t, uint32_t);
int64_t c_adda_s64(int64_t, int64_t);
uint64_t c_adda_u64(uint64_t, uint64_t);
void s_adda_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_adda_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_adda_s128(&r, &a, &b); return r; }
void s_adda_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_adda_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_adda_u128(&r, &a, &b); return r; }
int8_t c_sub_s8(int8_t, int8_t);
uint8_t c_sub_u8(uint8_t, uint8_t);
int16_t c_sub_s16(int16_t, int16_t);
uint16_t c_sub_u16(uint16_t, uint16_t);
int32_t c_sub_s32(int32_t, int32_t);
uint32_t c_sub_u32(uint32_t, uint32_t);
int64_t c_sub_s64(int64_t, int64_t);
uint64_t c_sub_u64(uint64_t, uint64_t);
void s_sub_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_sub_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_sub_s128(&r, &a, &b); return r; }
void s_sub_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_sub_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_sub_u128(&r, &a, &b); return r; }
int8_t c_suba_s8(int8_t, int8_t);
uint8_t c_suba_u8(uint8_t, uint8_t);
int16_t c_suba_s16(int16_t, int16_t);
uint16_t c_suba_u16(uint16_t, uint16_t);
int32_t c_suba_s32(int32_t, int32_t);
uint32_t c_suba_u32(uint32_t, uint32_t);
int64_t c_suba_s64(int64_t, int64_t);
uint64_t c_suba_u64(uint64_t, uint64_t);
void s_suba_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_suba_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_suba_s128(&r, &a, &b); return r; }
void s_suba_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_suba_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_suba_u128(&r, &a, &b); return r; }
int8_t c_mul_s8(int8_t, int8_t);
uint8_t c_mul_u8(uint8_t, uint8_t);
int16_t c_mul_s16(int16_t, int16_t);
uint16_t c_mul_u16(uint16_t, uint16_t);
int32_t c_mul_s32(int32_t, int32_t);
uint32_t c_mul_u32(uint32_t, uint32_t);
int64_t c_mul_s64(int64_t, int64_t);
uint64_t c_mul_u64(uint64_t, uint64_t);
void s_mul_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_mul_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_mul_s128(&r, &a, &b); return r; }
void s_mul_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_mul_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_mul_u128(&r, &a, &b); return r; }
int8_t c_mula_s8(int8_t, int8_t);
uint8_t c_mula_u8(uint8_t, uint8_t);
int16_t c_mula_s16(int16_t, int16_t);
uint16_t c_mula_u16(uint16_t, uint16_t);
int32_t c_mula_s32(int32_t, int32_t);
uint32_t c_mula_u32(uint32_t, uint32_t);
int64_t c_mula_s64(int64_t, int64_t);
uint64_t c_mula_u64(uint64_t, uint64_t);
void s_mula_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_mula_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_mula_s128(&r, &a, &b); return r; }
void s_mula_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_mula_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_mula_u128(&r, &a, &b); return r; }
int8_t c_and_s8(int8_t, int8_t);
uint8_t c_and_u8(uint8_t, uint8_t);
int16_t c_and_s16(int16_t, int16_t);
uint16_t c_and_u16(uint16_t, uint16_t);
int32_t c_and_s32(int32_t, int32_t);
uint32_t c_and_u32(uint32_t, uint32_t);
int64_t c_and_s64(int64_t, int64_t);
uint64_t c_and_u64(uint64_t, uint64_t);
void s_and_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_and_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_and_s128(&r, &a, &b); return r; }
void s_and_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_and_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_and_u128(&r, &a, &b); return r; }
int8_t c_anda_s8(int8_t, int8_t);
uint8_t c_anda_u8(uint8_t, uint8_t);
int16_t c_anda_s16(int16_t, int16_t);
uint16_t c_anda_u16(uint16_t, uint16_t);
int32_t c_anda_s32(int32_t, int32_t);
uint32_t c_anda_u32(uint32_t, uint32_t);
int64_t c_anda_s64(int64_t, int64_t);
uint64_t c_anda_u64(uint64_t, uint64_t);
void s_anda_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_anda_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_anda_s128(&r, &a, &b); return r; }
void s_anda_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_anda_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_anda_u128(&r, &a, &b); return r; }
int8_t c_or_s8(int8_t, int8_t);
uint8_t c_or_u8(uint8_t, uint8_t);
int16_t c_or_s16(int16_t, int16_t);
uint16_t c_or_u16(uint16_t, uint16_t);
int32_t c_or_s32(int32_t, int32_t);
uint32_t c_or_u32(uint32_t, uint32_t);
int64_t c_or_s64(int64_t, int64_t);
uint64_t c_or_u64(uint64_t, uint64_t);
void s_or_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_or_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_or_s128(&r, &a, &b); return r; }
void s_or_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_or_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_or_u128(&r, &a, &b); return r; }
int8_t c_ora_s8(int8_t, int8_t);
uint8_t c_ora_u8(uint8_t, uint8_t);
int16_t c_ora_s16(int16_t, int16_t);
uint16_t c_ora_u16(uint16_t, uint16_t);
int32_t c_ora_s32(int32_t, int32_t);
uint32_t c_ora_u32(uint32_t, uint32_t);
int64_t c_ora_s64(int64_t, int64_t);
uint64_t c_ora_u64(uint64_t, uint64_t);
void s_ora_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_ora_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_ora_s128(&r, &a, &b); return r; }
void s_ora_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_ora_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_ora_u128(&r, &a, &b); return r; }
int8_t c_xor_s8(int8_t, int8_t);
uint8_t c_xor_u8(uint8_t, uint8_t);
int16_t c_xor_s16(int16_t, int16_t);
uint16_t c_xor_u16(uint16_t, uint16_t);
int32_t c_xor_s32(int32_t, int32_t);
uint32_t c_xor_u32(uint32_t, uint32_t);
int64_t c_xor_s64(int64_t, int64_t);
uint64_t c_xor_u64(uint64_t, uint64_t);
void s_xor_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_xor_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_xor_s128(&r, &a, &b); return r; }
void s_xor_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_xor_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_xor_u128(&r, &a, &b); return r; }
int8_t c_xora_s8(int8_t, int8_t);
uint8_t c_xora_u8(uint8_t, uint8_t);
int16_t c_xora_s16(int16_t, int16_t);
uint16_t c_xora_u16(uint16_t, uint16_t);
int32_t c_xora_s32(int32_t, int32_t);
uint32_t c_xora_u32(uint32_t, uint32_t);
int64_t c_xora_s64(int64_t, int64_t);
uint64_t c_xora_u64(uint64_t, uint64_t);
void s_xora_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_xora_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_xora_s128(&r, &a, &b); return r; }
void s_xora_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_xora_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_xora_u128(&r, &a, &b); return r; }
int8_t c_div_s8(int8_t, int8_t);
uint8_t c_div_u8(uint8_t, uint8_t);
int16_t c_div_s16(int16_t, int16_t);
uint16_t c_div_u16(uint16_t, uint16_t);
int32_t c_div_s32(int32_t, int32_t);
uint32_t c_div_u32(uint32_t, uint32_t);
int64_t c_div_s64(int64_t, int64_t);
uint64_t c_div_u64(uint64_t, uint64_t);
void s_div_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_div_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_div_s128(&r, &a, &b); return r; }
void s_div_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_div_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_div_u128(&r, &a, &b); return r; }
int8_t c_rem_s8(int8_t, int8_t);
uint8_t c_rem_u8(uint8_t, uint8_t);
int16_t c_rem_s16(int16_t, int16_t);
uint16_t c_rem_u16(uint16_t, uint16_t);
int32_t c_rem_s32(int32_t, int32_t);
uint32_t c_rem_u32(uint32_t, uint32_t);
int64_t c_rem_s64(int64_t, int64_t);
uint64_t c_rem_u64(uint64_t, uint64_t);
void s_rem_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_rem_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_rem_s128(&r, &a, &b); return r; }
void s_rem_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_rem_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_rem_u128(&r, &a, &b); return r; }
int8_t c_shl_s8(int8_t, int32_t);
int8_t c_shla_s8(int8_t, int32_t);
uint8_t c_shl_u8(uint8_t, int32_t);
uint8_t c_shla_u8(uint8_t, int32_t);
int16_t c_shl_s16(int16_t, int32_t);
int16_t c_shla_s16(int16_t, int32_t);
uint16_t c_shl_u16(uint16_t, int32_t);
uint16_t c_shla_u16(uint16_t, int32_t);
int32_t c_shl_s32(int32_t, int32_t);
int32_t c_shla_s32(int32_t, int32_t);
uint32_t c_shl_u32(uint32_t, int32_t);
uint32_t c_shla_u32(uint32_t, int32_t);
int64_t c_shl_s64(int64_t, int32_t);
int64_t c_shla_s64(int64_t, int32_t);
uint64_t c_shl_u64(uint64_t, int32_t);
uint64_t c_shla_u64(uint64_t, int32_t);
void s_shl_s128(vp_i128 *, vp_i128 *, int32_t);
static vp_i128 c_shl_s128(vp_i128 a, int32_t b) { vp_i128 r; s_shl_s128(&r, &a, b); return r; }
void s_shla_s128(vp_i128 *, vp_i128 *, int32_t);
static vp_i128 c_shla_s128(vp_i128 a, int32_t b) { vp_i128 r; s_shla_s128(&r, &a, b); return r; }
void s_shl_u128(vp_u128 *, vp_u128 *, int32_t);
static vp_u128 c_shl_u128(vp_u128 a, int32_t b) { vp_u128 r; s_shl_u128(&r, &a, b); return r; }
void s_shla_u128(vp_u128 *, vp_u128 *, int32_t);
static vp_u128 c_shla_u128(vp_u128 a, int32_t b) { vp_u128 r; s_shla_u128(&r, &a, b); return r; }
int8_t c_shr_s8(int8_t, int32_t);
int8_t c_shra_s8(int8_t, int32_t);
uint8_t c_shr_u8(uint8_t, int32_t);
uint8_t c_shra_u8(uint8_t, int32_t);
int16_t c_shr_s16(int16_t, int32_t);
int16_t c_shra_s16(int16_t, int32_t);
uint16_t c_shr_u16(uint16_t, int32_t);
uint16_t c_shra_u16(uint16_t, int32_t);
int32_t c_shr_s32(int32_t, int32_t);
int32_t c_shra_s32(int32_t, int32_t);
uint32_t c_shr_u32(uint32_t, int32_t);
uint32_t c_shra_u32(uint32_t, int32_t);
int64_t c_shr_s64(int64_t, int32_t);
int64_t c_shra_s64(int64_t, int32_t);
uint64_t c_shr_u64(uint64_t, int32_t);
uint64_t c_shra_u64(uint64_t, int32_t);
void s_shr_s128(vp_i128 *, vp_i128 *, int32_t);
static vp_i128 c_shr_s128(vp_i128 a, int32_t b) { vp_i128 r; s_shr_s128(&r, &a, b); return r; }
void s_shra_s128(vp_i128 *, vp_i128 *, int32_t);
static vp_i128 c_shra_s128(vp_i128 a, int32_t b) { vp_i128 r; s_shra_s128(&r, &a, b); return r; }
void s_shr_u128(vp_u128 *, vp_u128 *, int32_t);
static vp_u128 c_shr_u128(vp_u128 a, int32_t b) { vp_u128 r; s_shr_u128(&r, &a, b); return r; }
void s_shra_u128(vp_u128 *, vp_u128 *, int32_t);
static vp_u128 c_shra_u128(vp_u128 a, int32_t b) { vp_u128 r; s_shra_u128(&r, &a, b); return r; }
int8_t c_neg_s8(int8_t);
int8_t c_not_s8(int8_t);
int32_t c_lnot_s8(int8_t);
int32_t c_bool_s8(int8_t);
int8_t c_tern_s8(int8_t, int8_t);
int8_t c_preinc_s8(int8_t *);
int8_t c_predec_s8(int8_t *);
int8_t c_postinc_s8(int8_t *);
int8_t c_postdec_s8(int8_t *);
uint8_t c_neg_u8(uint8_t);
uint8_t c_not_u8(uint8_t);
int32_t c_lnot_u8(uint8_t);
int32_t c_bool_u8(uint8_t);
uint8_t c_tern_u8(uint8_t, uint8_t);
uint8_t c_preinc_u8(uint8_t *);
uint8_t c_predec_u8(uint8_t *);
uint8_t c_postinc_u8(uint8_t *);
uint8_t c_postdec_u8(uint8_t *);
int16_t c_neg_s16(int16_t);
int16_t c_not_s16(int16_t);
int32_t c_lnot_s16(int16_t);
int32_t c_bool_s16(int16_t);
int16_t c_tern_s16(int16_t, int16_t);
int16_t c_preinc_s16(int16_t *);
int16_t c_predec_s16(int16_t *);
int16_t c_postinc_s16(int16_t *);
int16_t c_postdec_s16(int16_t *);
uint16_t c_neg_u16(uint16_t);
uint16_t c_not_u16(uint16_t);
int32_t c_lnot_u16(uint16_t);
int32_t c_bool_u16(uint16_t);
uint16_t c_tern_u16(uint16_t, uint16_t);
uint16_t c_preinc_u16(uint16_t *);
uint16_t c_predec_u16(uint16_t *);
uint16_t c_postinc_u16(uint16_t *);
uint16_t c_postdec_u16(uint16_t *);
int32_t c_neg_s32(int32_t);
int32_t c_not_s32(int32_t);
int32_t c_lnot_s32(int32_t);
int32_t c_bool_s32(int32_t);
int32_t c_tern_s32(int32_t, int32_t);
int32_t c_preinc_s32(int32_t *);
int32_t c_predec_s32(int32_t *);
int32_t c_postinc_s32(int32_t *);
int32_t c_postdec_s32(int32_t *);
uint32_t c_neg_u32(uint32_t);
uint32_t c_not_u32(uint32_t);
int32_t c_lnot_u32(uint32_t);
int32_t c_bool_u32(uint32_t);
uint32_t c_tern_u32(uint32_t, uint32_t);
uint32_t c_preinc_u32(uint32_t *);
uint32_t c_predec_u32(uint32_t *);
uint32_t c_postinc_u32(uint32_t *);
uint32_t c_postdec_u32(uint32_t *);
int64_t c_neg_s64(int64_t);
int64_t c_not_s64(int64_t);
int32_t c_lnot_s64(int64_t);
int32_t c_bool_s64(int64_t);
int64_t c_tern_s64(int64_t, int64_t);
int64_t c_preinc_s64(int64_t *);
int64_t c_predec_s64(int64_t *);
int64_t c_postinc_s64(int64_t *);
int64_t c_postdec_s64(int64_t *);
uint64_t c_neg_u64(uint64_t);
uint64_t c_not_u64(uint64_t);
int32_t c_lnot_u64(uint64_t);
int32_t c_bool_u64(uint64_t);
uint64_t c_tern_u64(uint64_t, uint64_t);
uint64_t c_preinc_u64(uint64_t *);
uint64_t c_predec_u64(uint64_t *);
uint64_t c_postinc_u64(uint64_t *);
uint64_t c_postdec_u64(uint64_t *);
void s_neg_s128(vp_i128 *, vp_i128 *);
static vp_i128 c_neg_s128(vp_i128 a) { vp_i128 r; s_neg_s128(&r, &a); return r; }
void s_not_s128(vp_i128 *, vp_i128 *);
static vp_i128 c_not_s128(vp_i128 a) { vp_i128 r; s_not_s128(&r, &a); return r; }
void s_lnot_s128(int32_t *, vp_i128 *);
static int32_t c_lnot_s128(vp_i128 a) { int32_t r; s_lnot_s128(&r, &a); return r; }
void s_bool_s128(int32_t *, vp_i128 *);
static int32_t c_bool_s128(vp_i128 a) { int32_t r; s_bool_s128(&r, &a); return r; }
void s_tern_s128(vp_i128 *, vp_i128 *, vp_i128 *);
static vp_i128 c_tern_s128(vp_i128 a, vp_i128 b) { vp_i128 r; s_tern_s128(&r, &a, &b); return r; }
void s_preinc_s128(vp_i128 *, vp_i128 *);
static vp_i128 c_preinc_s128(vp_i128 * p) { vp_i128 r; s_preinc_s128(&r, p); return r; }
void s_predec_s128(vp_i128 *, vp_i128 *);
static vp_i128 c_predec_s128(vp_i128 * p) { vp_i128 r; s_predec_s128(&r, p); return r; }
void s_postinc_s128(vp_i128 *, vp_i128 *);
static vp_i128 c_postinc_s128(vp_i128 * p) { vp_i128 r; s_postinc_s128(&r, p); return r; }
void s_postdec_s128(vp_i128 *, vp_i128 *);
static vp_i128 c_postdec_s128(vp_i128 * p) { vp_i128 r; s_postdec_s128(&r, p); return r; }
void s_neg_u128(vp_u128 *, vp_u128 *);
static vp_u128 c_neg_u128(vp_u128 a) { vp_u128 r; s_neg_u128(&r, &a); return r; }
void s_not_u128(vp_u128 *, vp_u128 *);
static vp_u128 c_not_u128(vp_u128 a) { vp_u128 r; s_not_u128(&r, &a); return r; }
void s_lnot_u128(int32_t *, vp_u128 *);
static int32_t c_lnot_u128(vp_u128 a) { int32_t r; s_lnot_u128(&r, &a); return r; }
void s_bool_u128(int32_t *, vp_u128 *);
static int32_t c_bool_u128(vp_u128 a) { int32_t r; s_bool_u128(&r, &a); return r; }
void s_tern_u128(vp_u128 *, vp_u128 *, vp_u128 *);
static vp_u128 c_tern_u128(vp_u128 a, vp_u128 b) { vp_u128 r; s_tern_u128(&r, &a, &b); return r; }
void s_preinc_u128(vp_u128 *, vp_u128 *);
static vp_u128 c_preinc_u128(vp_u128 * p) { vp_u128 r; s_preinc_u128(&r, p); return r; }
void s_predec_u128(vp_u128 *, vp_u128 *);
static vp_u128 c_predec_u128(vp_u128 * p) { vp_u128 r; s_predec_u128(&r, p); return r; }
void s_postinc_u128(vp_u128 *, vp_u128 *);
static vp_u128 c_postinc_u128(vp_u128 * p) { vp_u128 r; s_postinc_u128(&r, p); return r; }
void s_postdec_u128(vp_u128 *, vp_u128 *);
static vp_u128 c_postdec_u128(vp_u128 * p) { vp_u128 r; s_postdec_u128(&r, p); return r; }
int32_t c_lt_s8_s8(int8_t, int8_t);
int32_t c_lt_s8_u8(int8_t, uint8_t);
int32_t c_lt_s8_s16(int8_t, int16_t);
int32_t c_lt_s8_u16(int8_t, uint16_t);
int32_t c_lt_s8_s32(int8_t, int32_t);
int32_t c_lt_s8_u32(int8_t, uint32_t);
int32_t c_lt_s8_s64(int8_t, int64_t);
int32_t c_lt_s8_u64(int8_t, uint64_t);
void s_lt_s8_s128(int32_t *, int8_t, vp_i128 *);
static int32_t c_lt_s8_s128(int8_t a, vp_i128 b) { int32_t r; s_lt_s8_s128(&r, a, &b); return r; }
void s_lt_s8_u128(int32_t *, int8_t, vp_u128 *);
static int32_t c_lt_s8_u128(int8_t a, vp_u128 b) { int32_t r; s_lt_s8_u128(&r, a, &b); return r; }
int32_t c_lt_u8_s8(uint8_t, int8_t);
int32_t c_lt_u8_u8(uint8_t, uint8_t);
int32_t c_lt_u8_s16(uint8_t, int16_t);
int32_t c_lt_u8_u16(uint8_t, uint16_t);
int32_t c_lt_u8_s32(uint8_t, int32_t);
int32_t c_lt_u8_u32(uint8_t, uint32_t);
int32_t c_lt_u8_s64(uint8_t, int64_t);
int32_t c_lt_u8_u64(uint8_t, uint64_t);
void s_lt_u8_s128(int32_t *, uint8_t, vp_i128 *);
static int32_t c_lt_u8_s128(uint8_t a, vp_i128 b) { int32_t r; s_lt_u8_s128(&r, a, &b); return r; }
void s_lt_u8_u128(int32_t *, uint8_t, vp_u128 *);
static int32_t c_lt_u8_u128(uint8_t a, vp_u128 b) { int32_t r; s_lt_u8_u128(&r, a, &b); return r; }
int32_t c_lt_s16_s8(int16_t, int8_t);
int32_t c_lt_s16_u8(int16_t, uint8_t);
int32_t c_lt_s16_s16(int16_t, int16_t);
int32_t c_lt_s16_u16(int16_t, uint16_t);
int32_t c_lt_s16_s32(int16_t, int32_t);
int32_t c_lt_s16_u32(int16_t, uint32_t);
int32_t c_lt_s16_s64(int16_t, int64_t);
int32_t c_lt_s16_u64(int16_t, uint64_t);
void s_lt_s16_s128(int32_t *, int16_t, vp_i128 *);
static int32_t c_lt_s16_s128(int16_t a, vp_i128 b) { int32_t r; s_lt_s16_s128(&r, a, &b); return r; }
void s_lt_s16_u128(int32_t *, int16_t, vp_u128 *);
static int32_t c_lt_s16_u128(int16_t a, vp_u128 b) { int32_t r; s_lt_s16_u128(&r, a, &b); return r; }
int32_t c_lt_u16_s8(uint16_t, int8_t);
int32_t c_lt_u16_u8(uint16_t, uint8_t);
int32_t c_lt_u16_s16(uint16_t, int16_t);
int32_t c_lt_u16_u16(uint16_t, uint16_t);
int32_t c_lt_u16_s32(uint16_t, int32_t);
int32_t c_lt_u16_u32(uint16_t, uint32_t);
int32_t c_lt_u16_s64(uint16_t, int64_t);
int32_t c_lt_u16_u64(uint16_t, uint64_t);
void s_lt_u16_s128(int32_t *, uint16_t, vp_i128 *);
static int32_t c_lt_u16_s128(uint16_t a, vp_i128 b) { int32_t r; s_lt_u16_s128(&r, a, &b); return r; }
void s_lt_u16_u128(int32_t *, uint16_t, vp_u128 *);
static int32_t c_lt_u16_u128(uint16_t a, vp_u128 b) { int32_t r; s_lt_u16_u128(&r, a, &b); return r; }
int32_t c_lt_s32_s8(int32_t, int8_t);
int32_t c_lt_s32_u8(int32_t, uint8_t);
int32_t c_lt_s32_s16(int32_t, int16_t);
int32_t c_lt_s32_u16(int32_t, uint16_t);
int32_t c_lt_s32_s32(int32_t, int32_t);
int32_t c_lt_s32_u32(int32_t, uint32_t);
int32_t c_lt_s32_s64(int32_t, int64_t);
int32_t c_lt_s32_u64(int32_t, uint64_t);
void s_lt_s32_s128(int32_t *, int32_t, vp_i128 *);
static int32_t c_lt_s32_s128(int32_t a, vp_i128 b) { int32_t r; s_lt_s32_s128(&r, a, &b); return r; }
void s_lt_s32_u128(int32_t *, int32_t, vp_u128 *);
static int32_t c_lt_s32_u128(int32_t a, vp_u128 b) { int32_t r; s_lt_s32_u128(&r, a, &b); return r; }
int32_t c_lt_u32_s8(uint32_t, int8_t);
int32_t c_lt_u32_u8(uint32_t, uint8_t);
int32_t c_lt_u32_s16(uint32_t, int16_t);
int32_t c_lt_u32_u16(uint32_t, uint16_t);
int32_t c_lt_u32_s32(uint32_t, int32_t);
int32_t c_lt_u32_u32(uint32_t, uint32_t);
int32_t c_lt_u32_s64(uint32_t, int64_t);
int32_t c_lt_u32_u64(uint32_t, uint64_t);
void s_lt_u32_s128(int32_t *, uint32_t, vp_i128 *);
static int32_t c_lt_u32_s128(uint32_t a, vp_i128 b) { int32_t r; s_lt_u32_s128(&r, a, &b); return r; }
void s_lt_u32_u128(int32_t *, uint32_t, vp_u128 *);
static int32_t c_lt_u32_u128(uint32_t a, vp_u128 b) { int32_t r; s_lt_u32_u128(&r, a, &b); return r; }
int32_t c_lt_s64_s8(int64_t, int8_t);
int32_t c_lt_s64_u8(int64_t, uint8_t);
int32_t c_lt_s64_s16(int64_t, int16_t);
int32_t c_lt_s64_u16(int64_t, uint16_t);
int32_t c_lt_s64_s32(int64_t, int32_t);
int32_t c_lt_s64_u32(int64_t, uint32_t);
int32_t c_lt_s64_s64(int64_t, int64_t);
int32_t c_lt_s64_u64(int64_t, uint64_t);
void s_lt_s64_s128(int32_t *, int64_t, vp_i128 *);
static int32_t c_lt_s64_s128(int64_t a, vp_i128 b) { int32_t r; s_lt_s64_s128(&r, a, &b); return r; }
void s_lt_s64_u128(int32_t *, int64_t, vp_u128 *);
static int32_t c_lt_s64_u128(int64_t a, vp_u128 b) { int32_t r; s_lt_s64_u128(&r, a, &b); return r; }
int32_t c_lt_u64_s8(uint64_t, int8_t);
int32_t c_lt_u64_u8(uint64_t, uint8_t);
int32_t c_lt_u64_s16(uint64_t, int16_t);
int32_t c_lt_u64_u16(uint64_t, uint16_t);
int32_t c_lt_u64_s32(uint64_t, int32_t);
int32_t c_lt_u64_u32(uint64_t, uint32_t);
int32_t c_lt_u64_s64(uint64_t, int64_t);
int32_t c_lt_u64_u64(uint64_t, uint64_t);
void s_lt_u64_s128(int32_t *, uint64_t, vp_i128 *);
static int32_t c_lt_u64_s128(uint64_t a, vp_i128 b) { int32_t r; s_lt_u64_s128(&r, a, &b); return r; }
void s_lt_u64_u128(int32_t *, uint64_t, vp_u128 *);
static int32_t c_lt_u64_u128(uint64_t a, vp_u128 b) { int32_t r; s_lt_u64_u128(&r, a, &b); return r; }
void s_lt_s128_s8(int32_t *, vp_i128 *, int8_t);
static int32_t c_lt_s128_s8(vp_i128 a, int8_t b) { int32_t r; s_lt_s128_s8(&r, &a, b); return r; }
void s_lt_s128_u8(int32_t *, vp_i128 *, uint8_t);
static int32_t c_lt_s128_u8(vp_i128 a, uint8_t b) { int32_t r; s_lt_s128_u8(&r, &a, b); return r; }
void s_lt_s128_s16(int32_t *, vp_i128 *, int16_t);
static int32_t c_lt_s128_s16(vp_i128 a, int16_t b) { int32_t r; s_lt_s128_s16(&r, &a, b); return r; }
void s_lt_s128_u16(int32_t *, vp_i128 *, uint16_t);
static int32_t c_lt_s128_u16(vp_i128 a, uint16_t b) { int32_t r; s_lt_s128_u16(&r, &a, b); return r; }
void s_lt_s128_s32(int32_t *, vp_i128 *, int32_t);
static int32_t c_lt_s128_s32(vp_i128 a, int32_t b) { int32_t r; s_lt_s128_s32(&r, &a, b); return r; }
void s_lt_s128_u32(int32_t *, vp_i128 *, uint32_t);
static int32_t c_lt_s128_u32(vp_i128 a, uint32_t b) { int32_t r; s_lt_s128_u32(&r, &a, b); return r; }
void s_lt_s128_s64(int32_t *, vp_i128 *, int64_t);
static int32_t c_lt_s128_s64(vp_i128 a, int64_t b) { int32_t r; s_lt_s128_s64(&r, &a, b); return r; }
void s_lt_s128_u64(int32_t *, vp_i128 *, uint64_t);
static int32_t c_lt_s128_u64(vp_i128 a, uint64_t b) { int32_t r; s_lt_s128_u64(&r, &a, b); return r; }
void s_lt_s128_s128(int32_t *, vp_i128 *, vp_i128 *);
static int32_t c_lt_s128_s128(vp_i128 a, vp_i128 b) { int32_t r; s_lt_s128_s128(&r, &a, &b); return r; }
void s_lt_s128_u128(int32_t *, vp_i128 *, vp_u128 *);
static int32_t c_lt_s128_u128(vp_i128 a, vp_u128 b) { int32_t r; s_lt_s128_u128(&r, &a, &b); return r; }
void s_lt_u128_s8(int32_t *, vp_u128 *, int8_t);
static int32_t c_lt_u128_s8(vp_u128 a, int8_t b) { int32_t r; s_lt_u128_s8(&r, &a, b); return r; }
void s_lt_u128_u8(int32_t *, vp_u128 *, uint8_t);
static int32_t c_lt_u128_u8(vp_u128 a, uint8_t b) { int32_t r; s_lt_u128_u8(&r, &a, b); return r; }
void s_lt_u128_s16(int32_t *, vp_u128 *, int16_t);
static int32_t c_lt_u128_s16(vp_u128 a, int16_t b) { int32_t r; s_lt_u128_s16(&r, &a, b); return r; }
void s_lt_u128_u16(int32_t *, vp_u128 *, uint16_t);
static int32_t c_lt_u128_u16(vp_u128 a, uint16_t b) { int32_t r; s_lt_u128_u16(&r, &a, b); return r; }
void s_lt_u128_s32(int32_t *, vp_u128 *, int32_t);
static int32_t c_lt_u128_s32(vp_u128 a, int32_t b) { int32_t r; s_lt_u128_s32(&r, &a, b); return r; }
void s_lt_u128_u32(int32_t *, vp_u128 *, uint32_t);
static int32_t c_lt_u128_u32(vp_u128 a, uint32_t b) { int32_t r; s_lt_u128_u32(&r, &a, b); return r; }
void s_lt_u128_s64(int32_t *, vp_u128 *, int64_t);
static int32_t c_lt_u128_s64(vp_u128 a, int64_t b) { int32_t r; s_lt_u128_s64(&r, &a, b); return r; }
void s_lt_u128_u64(int32_t *, vp_u128 *, uint64_t);
static int32_t c_lt_u128_u64(vp_u128 a, uint64_t b) { int32_t r; s_lt_u128_u64(&r, &a, b); return r; }
void s_lt_u128_s128(int32_t *, vp_u128 *, vp_i128 *);
static int32_t c_lt_u128_s128(vp_u128 a, vp_i128 b) { int32_t r; s_lt_u128_s128(&r, &a, &b); return r; }
void s_lt_u128_u128(int32_t *, vp_u128 *, vp_u128 *);
static int32_t c_lt_u128_u128(vp_u128 a, vp_u128 b) { int32_t r; s_lt_u128_u128(&r, &a, &b); return r; }
int32_t c_le_s8_s8(int8_t, int8_t);
int32_t c_le_s8_u8(int8_t, uint8_t);
int32_t c_le_s8_s16(int8_t, int16_t);
int32_t c_le_s8_u16(int8_t, uint16_t);
int32_t c_le_s8_s32(int8_t, int32_t);
int32_t c_le_s8_u32(int8_t, uint32_t);
int32_t c_le_s8_s64(int8_t, int64_t);
int32_t c_le_s8_u64(int8_t, uint64_t);
void s_le_s8_s128(int32_t *, int8_t, vp_i128 *);
static int32_t c_le_s8_s128(int8_t a, vp_i128 b) { int32_t r; s_le_s8_s128(&r, a, &b); return r; }
void s_le_s8_u128(int32_t *, int8_t, vp_u128 *);
static int32_t c_le_s8_u128(int8_t a, vp_u128 b) { int32_t r; s_le_s8_u128(&r, a, &b); return r; }
int32_t c_le_u8_s8(uint8_t, int8_t);
int32_t c_le_u8_u8(uint8_t, uint8_t);
int32_t c_le_u8_s16(uint8_t, int16_t);
int32_t c_le_u8_u16(uint8_t, uint16_t);
int32_t c_le_u8_s32(uint8_t, int32_t);
int32_t c_le_u8_u32(uint8_t, uint32_t);
int32_t c_le_u8_s64(uint8_t, int64_t);
int32_t c_le_u8_u64(uint8_t, uint64_t);
void s_le_u8_s128(int32_t *, uint8_t, vp_i128 *);
static int32_t c_le_u8_s128(uint8_t a, vp_i128 b) { int32_t r; s_le_u8_s128(&r, a, &b); return r; }
void s_le_u8_u128(int32_t *, uint8_t, vp_u128 *);
static int32_t c_le_u8_u128(uint8_t a, vp_u128 b) { int32_t r; s_le_u8_u128(&r, a, &b); return r; }
int32_t c_le_s16_s8(int16_t, int8_t);
int32_t c_le_s16_u8(int16_t, uint8_t);
int32_t c_le_s16_s16(int16_t, int16_t);
int32_t c_le_s16_u16(int16_t, uint16_t);
int32_t c_le_s16_s32(int16_t, int32_t);
int32_t c_le_s16_u32(int16_t, uint32_t);
int32_t c_le_s16_s64(int16_t, int64_t);
int32_t c_le_s16_u64(int16_t, uint64_t);
void s_le_s16_s128(int32_t *, int16_t, vp_i128 *);
static int32_t c_le_s16_s128(int16_t a, vp_i128 b) { int32_t r; s_le_s16_s128(&r, a, &b); return r; }
void s_le_s16_u128(int32_t *, int16_t, vp_u128 *);
static int32_t c_le_s16_u128(int16_t a, vp_u128 b) { int32_t r; s_le_s16_u128(&r, a, &b); return r; }
int32_t c_le_u16_s8(uint16_t, int8_t);
int32_t c_le_u16_u8(uint16_t, uint8_t);
int32_t c_le_u16_s16(uint16_t, int16_t);
int32_t c_le_u16_u16(uint16_t, uint16_t);
int32_t c_le_u16_s32(uint16_t, int32_t);
int32_t c_le_u16_u32(uint16_t, uint32_t);
int32_t c_le_u16_s64(uint16_t, int64_t);
int32_t c_le_u16_u64(uint16_t, uint64_t);
void s_le_u16_s128(int32_t *, uint16_t, vp_i128 *);
static int32_t c_le_u16_s128(uint16_t a, vp_i128 b) { int32_t r; s_le_u16_s128(&r, a, &b); return r; }
void s_le_u16_u128(int32_t *, uint16_t, vp_u128 *);
static int32_t c_le_u16_u128(uint16_t a, vp_u128 b) { int32_t r; s_le_u16_u128(&r, a, &b); return r; }
int32_t c_le_s32_s8(int32_t, int8_t);
int32_t c_le_s32_u8(int32_t, uint8_t);
int32_t c_le_s32_s16(int32_t, int16_t);
int32_t c_le_s32_u16(int32_t, uint16_t);
int32_t c_le_s32_s32(int32_t, int32_t);
int32_t c_le_s32_u32(int32_t, uint32_t);
int32_t c_le_s32_s64(int32_t, int64_t);
int32_t c_le_s32_u64(int32_t, uint64_t);
void s_le_s32_s128(int32_t *, int32_t, vp_i128 *);
static int32_t c_le_s32_s128(int32_t a, vp_i128 b) { int32_t r; s_le_s32_s128(&r, a, &b); return r; }
void s_le_s32_u128(int32_t *, int32_t, vp_u128 *);
static int32_t c_le_s32_u128(int32_t a, vp_u128 b) { int32_t r; s_le_s32_u128(&r, a, &b); return r; }
int32_t c_le_u32_s8(uint32_t, int8_t);
int32_t c_le_u32_u8(uint32_t, uint8_t);
int32_t c_le_u32_s16(uint32_t, int16_t);
int32_t c_le_u32_u16(uint32_t, uint16_t);
int32_t c_le_u32_s32(uint32_t, int32_t);
int32_t c_le_u32_u32(uint32_t, uint32_t);
int32_t c_le_u32_s64(uint32_t, int64_t);
int32_t c_le_u32_u64(uint32_t, uint64_t);
void s_le_u32_s128(int32_t *, uint32_t, vp_i128 *);
static int32_t c_le_u32_s128(uint32_t a, vp_i128 b) { int32_t r; s_le_u32_s128(&r, a, &b); return r; }
void s_le_u32_u128(int32_t *, uint32_t, vp_u128 *);
static int32_t c_le_u32_u128(uint32_t a, vp_u128 b) { int32_t r; s_le_u32_u128(&r, a, &b); return r; }
int32_t c_le_s64_s8(int64_t, int8_t);
int32_t c_le_s64_u8(int64_t, uint8_t);
int32_t c_le_s64_s16(int64_t, int16_t);
int32_t c_le_s64_u16(int64_t, uint16_t);
int32_t c_le_s64_s32(int64_t, int32_t);
int32_t c_le_s64_u32(int64_t, uint32_t);
int32_t c_le_s64_s64(int64_t, int64_t);
int32_t c_le_s64_u64(int64_t, uint64_t);
void s_le_s64_s128(int32_t *, int64_t, vp_i128 *);
static int32_t c_le_s64_s128(int64_t a, vp_i128 b) { int32_t r; s_le_s64_s128(&r, a, &b); return r; }
void s_le_s64_u128(int32_t *, int64_t, vp_u128 *);
static int32_t c_le_s64_u128(int64_t a, vp_u128 b) { int32_t r; s_le_s64_u128(&r, a, &b); return r; }
int32_t c_le_u64_s8(uint64_t, int8_t);
int32_t c_le_u64_u8(uint64_t, uint8_t);
int32_t c_le_u64_s16(uint64_t, int16_t);
int32_t c_le_u64_u16(uint64_t, uint16_t);
int32_t c_le_u64_s32(uint64_t, int32_t);
int32_t c_le_u64_u32(uint64_t, uint32_t);
int32_t c_le_u64_s64(uint64_t, int64_t);
int32_t c_le_u64_u64(uint64_t, uint64_t);
void s_le_u64_s128(int32_t *, uint64_t, vp_i128 *);
static int32_t c_le_u64_s128(uint64_t a, vp_i128 b) { int32_t r; s_le_u64_s128(&r, a, &b); return r; }
void s_le_u64_u128(int32_t *, uint64_t, vp_u128 *);
static int32_t c_le_u64_u128(uint64_t a, vp_u128 b) { int32_t r; s_le_u64_u128(&r, a, &b); return r; }
void s_le_s128_s8(int32_t *, vp_i128 *, int8_t);
static int32_t c_le_s128_s8(vp_i128 a, int8_t b) { int32_t r; s_le_s128_s8(&r, &a, b); return r; }
void s_le_s128_u8(int32_t *, vp_i128 *, uint8_t);
static int32_t c_le_s128_u8(vp_i128 a, uint8_t b) { int32_t r; s_le_s128_u8(&r, &a, b); return r; }
void s_le_s128_s16(int32_t *, vp_i128 *, int16_t);
static int32_t c_le_s128_s16(vp_i128 a, int16_t b) { int32_t r; s_le_s128_s16(&r, &a, b); return r; }
void s_le_s128_u16(int32_t *, vp_i128 *, uint16_t);
static int32_t c_le_s128_u16(vp_i128 a, uint16_t b) { int32_t r; s_le_s128_u16(&r, &a, b); return r; }
void s_le_s128_s32(int32_t *, vp_i128 *, int32_t);
static int32_t c_le_s128_s32(vp_i128 a, int32_t b) { int32_t r; s_le_s128_s32(&r, &a, b); return r; }
void s_le_s128_u32(int32_t *, vp_i128 *, uint32_t);
static int32_t c_le_s128_u32(vp_i128 a, uint32_t b) { int32_t r; s_le_s128_u32(&r, &a, b); return r; }
void s_le_s128_s64(int32_t *, vp_i128 *, int64_t);
static int32_t c_le_s128_s64(vp_i128 a, int64_t b) { int32_t r; s_le_s128_s64(&r, &a, b); return r; }
void s_le_s128_u64(int32_t *, vp_i128 *, uint64_t);
static int32_t c_le_s128_u64(vp_i128 a, uint64_t b) { int32_t r; s_le_s128_u64(&r, &a, b); return r; }
void s_le_s128_s128(int32_t *, vp_i128 *, vp_i128 *);
static int32_t c_le_s128_s128(vp_i128 a, vp_i128 b) { int32_t r; s_le_s128_s128(&r, &a, &b); return r; }
void s_le_s128_u128(int32_t *, vp_i128 *, vp_u128 *);
static int32_t c_le_s128_u128(vp_i128 a, vp_u128 b) { int32_t r; s_le_s128_u128(&r, &a, &b); return r; }
void s_le_u128_s8(int32_t *, vp_u128 *, int8_t);
static int32_t c_le_u128_s8(vp_u128 a, int8_t b) { int32_t r; s_le_u128_s8(&r, &a, b); return r; }
void s_le_u128_u8(int32_t *, vp_u128 *, uint8_t);
static int32_t c_le_u128_u8(vp_u128 a, uint8_t b) { int32_t r; s_le_u128_u8(&r, &a, b); return r; }
void s_le_u128_s16(int32_t *, vp_u128 *, int16_t);
static int32_t c_le_u128_s16(vp_u128 a, int16_t b) { int32_t r; s_le_u128_s16(&r, &a, b); return r; }
void s_le_u128_u16(int32_t *, vp_u128 *, uint16_t);
static int32_t c_le_u128_u16(vp_u128 a, uint16_t b) { int32_t r; s_le_u128_u16(&r, &a, b); return r; }
void s_le_u128_s32(int32_t *, vp_u128 *, int32_t);
static int32_t c_le_u128_s32(vp_u128 a, int32_t b) { int32_t r; s_le_u128_s32(&r, &a, b); return r; }
void s_le_u128_u32(int32_t *, vp_u128 *, uint32_t);
static int32_t c_le_u128_u32(vp_u128 a, uint32_t b) { int32_t r; s_le_u128_u32(&r, &a, b); return r; }
void s_le_u128_s64(int32_t *, vp_u128 *, int64_t);
static int32_t c_le_u128_s64(vp_u128 a, int64_t b) { int32_t r; s_le_u128_s64(&r, &a, b); return r; }
void s_le_u128_u64(int32_t *, vp_u128 *, uint64_t);
static int32_t c_le_u128_u64(vp_u128 a, uint64_t b) { int32_t r; s_le_u128_u64(&r, &a, b); return r; }
void s_le_u128_s128(int32_t *, vp_u128 *, vp_i128 *);
static int32_t c_le_u128_s128(vp_u128 a, vp_i128 b) { int32_t r; s_le_u128_s128(&r, &a, &b); return r; }
void s_le_u128_u128(int32_t *, vp_u128 *, vp_u128 *);
static int32_t c_le_u128_u128(vp_u128 a, vp_u128 b) { int32_t r; s_le_u128_u128(&r, &a, &b); return r; }
int32_t c_gt_s8_s8(int8_t, int8_t);
int32_t c_gt_s8_u8(int8_t, uint8_t);
int32_t c_gt_s8_s16(int8_t, int16_t);
int32_t c_gt_s8_u16(int8_t, uint16_t);
int32_t c_gt_s8_s32(int8_t, int32_t);
int32_t c_gt_s8_u32(int8_t, uint32_t);
int32_t c_gt_s8_s64(int8_t, int64_t);
int32_t c_gt_s8_u64(int8_t, uint64_t);
void s_gt_s8_s128(int32_t *, int8_t, vp_i128 *);
static int32_t c_gt_s8_s128(int8_t a, vp_i128 b) { int32_t r; s_gt_s8_s128(&r, a, &b); return r; }
void s_gt_s8_u128(int32_t *, int8_t, vp_u128 *);
static int32_t c_gt_s8_u128(int8_t a, vp_u128 b) { int32_t r; s_gt_s8_u128(&r, a, &b); return r; }
int32_t c_gt_u8_s8(uint8_t, int8_t);
int32_t c_gt_u8_u8(uint8_t, uint8_t);
int32_t c_gt_u8_s16(uint8_t, int16_t);
int32_t c_gt_u8_u16(uint8_t, uint16_t);
int32_t c_gt_u8_s32(uint8_t, int32_t);
int32_t c_gt_u8_u32(uint8_t, uint32_t);
int32_t c_gt_u8_s64(uint8_t, int64_t);
int32_t c_gt_u8_u64(uint8_t, uint64_t);
void s_gt_u8_s128(int32_t *, uint8_t, vp_i128 *);
static int32_t c_gt_u8_s128(uint8_t a, vp_i128 b) { int32_t r; s_gt_u8_s128(&r, a, &b); return r; }
void s_gt_u8_u128(int32_t *, uint8_t, vp_u128 *);
static int32_t c_gt_u8_u128(uint8_t a, vp_u128 b) { int32_t r; s_gt_u8_u128(&r, a, &b); return r; }
int32_t c_gt_s16_s8(int16_t, int8_t);
int32_t c_gt_s16_u8(int16_t, uint8_t);
int32_t c_gt_s16_s16(int16_t, int16_t);
int32_t c_gt_s16_u16(int16_t, uint16_t);
int32_t c_gt_s16_s32(int16_t, int32_t);
int32_t c_gt_s16_u32(int16_t, uint32_t);
int32_t c_gt_s16_s64(int16_t, int64_t);
int32_t c_gt_s16_u64(int16_t, uint64_t);
void s_gt_s16_s128(int32_t *, int16_t, vp_i128 *);
static int32_t c_gt_s16_s128(int16_t a, vp_i128 b) { int32_t r; s_gt_s16_s128(&r, a, &b); return r; }
void s_gt_s16_u128(int32_t *, int16_t, vp_u128 *);
static int32_t c_gt_s16_u128(int16_t a, vp_u128 b) { int32_t r; s_gt_s16_u128(&r, a, &b); return r; }
int32_t c_gt_u16_s8(uint16_t, int8_t);
int32_t c_gt_u16_u8(uint16_t, uint8_t);
int32_t c_gt_u16_s16(uint16_t, int16_t);
int32_t c_gt_u16_u16(uint16_t, uint16_t);
int32_t c_gt_u16_s32(uint16_t, int32_t);
int32_t c_gt_u16_u32(uint16_t, uint32_t);
int32_t c_gt_u16_s64(uint16_t, int64_t);
int32_t c_gt_u16_u64(uint16_t, uint64_t);
void s_gt_u16_s128(int32_t *, uint16_t, vp_i128 *);
static int32_t c_gt_u16_s128(uint16_t a, vp_i128 b) { int32_t r; s_gt_u16_s128(&r, a, &b); return r; }
void s_gt_u16_u128(int32_t *, uint16_t, vp_u128 *);
static int32_t c_gt_u16_u128(uint16_t a, vp_u128 b) { int32_t r; s_gt_u16_u128(&r, a, &b); return r; }
int32_t c_gt_s32_s8(int32_t, int8_t);
int32_t c_gt_s32_u8(int32_t, uint8_t);
int32_t c_gt_s32_s16(int32_t, int16_t);
int32_t c_gt_s32_u16(int32_t, uint16_t);
int32_t c_gt_s32_s32(int32_t, int32_t);
int32_t c_gt_s32_u32(int32_t, uint32_t);
int32_t c_gt_s32_s64(int32_t, int64_t);
int32_t c_gt_s32_u64(int32_t, uint64_t);
void s_gt_s32_s128(int32_t *, int32_t, vp_i128 *);
static int32_t c_gt_s32_s128(int32_t a, vp_i128 b) { int32_t r; s_gt_s32_s128(&r, a, &b); return r; }
void s_gt_s32_u128(int32_t *, int32_t, vp_u128 *);
static int32_t c_gt_s32_u128(int32_t a, vp_u128 b) { int32_t r; s_gt_s32_u128(&r, a, &b); return r; }
int32_t c_gt_u32_s8(uint32_t, int8_t);
int32_t c_gt_u32_u8(uint32_t, uint8_t);
int32_t c_gt_u32_s16(uint32_t, int16_t);
int32_t c_gt_u32_u16(uint32_t, uint16_t);
int32_t c_gt_u32_s32(uint32_t, int32_t);
int32_t c_gt_u32_u32(uint32_t, uint32_t);
int32_t c_gt_u32_s64(uint32_t, int64_t);
int32_t c_gt_u32_u64(uint32_t, uint64_t);
void s_gt_u32_s128(int32_t *, uint32_t, vp_i128 *);
static int32_t c_gt_u32_s128(uint32_t a, vp_i128 b) { int32_t r; s_gt_u32_s128(&r, a, &b); return r; }
void s_gt_u32_u128(int32_t *, uint32_t, vp_u128 *);
static int32_t c_gt_u32_u128(uint32_t a, vp_u128 b) { int32_t r; s_gt_u32_u128(&r, a, &b); return r; }
int32_t c_gt_s64_s8(int64_t, int8_t);
int32_t c_gt_s64_u8(int64_t, uint8_t);
int32_t c_gt_s64_s16(int64_t, int16_t);
int32_t c_gt_s64_u16(int64_t, uint16_t);
int32_t c_gt_s64_s32(int64_t, int32_t);
int32_t c_gt_s64_u32(int64_t, uint32_t);
int32_t c_gt_s64_s64(int64_t, int64_t);
int32_t c_gt_s64_u64(int64_t, uint64_t);
void s_gt_s64_s128(int32_t *, int64_t, vp_i128 *);
static int32_t c_gt_s64_s128(int64_t a, vp_i128 b) { int32_t r; s_gt_s64_s128(&r, a, &b); return r; }
void s_gt_s64_u128(int32_t *, int64_t, vp_u128 *);
static int32_t c_gt_s64_u128(int64_t a, vp_u128 b) { int32_t r; s_gt_s64_u128(&r, a, &b); return r; }
int32_t c_gt_u64_s8(uint64_t, int8_t);
int32_t c_gt_u64_u8(uint64_t, uint8_t);
int32_t c_gt_u64_s16(uint64_t, int16_t);
int32_t c_gt_u64_u16(uint64_t, uint16_t);
int32_t c_gt_u64_s32(uint64_t, int32_t);
int32_t c_gt_u64_u32(uint64_t, uint32_t);
int32_t c_gt_u64_s64(uint64_t, int64_t);
int32_t c_gt_u64_u64(uint64_t, uint64_t);
void s_gt_u64_s128(int32_t *, uint64_t, vp_i128 *);
static int32_t c_gt_u64_s128(uint64_t a, vp_i128 b) { int32_t r; s_gt_u64_s128(&r, a, &b); return r; }
void s_gt_u64_u128(int32_t *, uint64_t, vp_u128 *);
static int32_t c_gt_u64_u128(uint64_t a, vp_u128 b) { int32_t r; s_gt_u64_u128(&r, a, &b); return r; }
void s_gt_s128_s8(int32_t *, vp_i128 *, int8_t);
static int32_t c_gt_s128_s8(vp_i128 a, int8_t b) { int32_t r; s_gt_s128_s8(&r, &a, b); return r; }
void s_gt_s128_u8(int32_t *, vp_i128 *, uint8_t);
static int32_t c_gt_s128_u8(vp_i128 a, uint8_t b) { int32_t r; s_gt_s128_u8(&r, &a, b); return r; }
void s_gt_s128_s16(int32_t *, vp_i128 *, int16_t);
static int32_t c_gt_s128_s16(vp_i128 a, int16_t b) { int32_t r; s_gt_s128_s16(&r, &a, b); return r; }
void s_gt_s128_u16(int32_t *, vp_i128 *, uint16_t);
static int32_t c_gt_s128_u16(vp_i128 a, uint16_t b) { int32_t r; s_gt_s128_u16(&r, &a, b); return r; }
void s_gt_s128_s32(int32_t *, vp_i128 *, int32_t);
static int32_t c_gt_s128_s32(vp_i128 a, int32_t b) { int32_t r; s_gt_s128_s32(&r, &a, b); return r; }
void s_gt_s128_u32(int32_t *, vp_i128 *, uint32_t);
static int32_t c_gt_s128_u32(vp_i128 a, uint32_t b) { int32_t r; s_gt_s128_u32(&r, &a, b); return r; }
void s_gt_s128_s64(int32_t *, vp_i128 *, int64_t);
static int32_t c_gt_s128_s64(vp_i128 a, int64_t b) { int32_t r; s_gt_s128_s64(&r, &a, b); return r; }
void s_gt_s128_u64(int32_t *, vp_i128 *, uint64_t);
static int32_t c_gt_s128_u64(vp_i128 a, uint64_t b) { int32_t r; s_gt_s128_u64(&r, &a, b); return r; }
void s_gt_s128_s128(int32_t *, vp_i128 *, vp_i128 *);
static int32_t c_gt_s128_s128(vp_i128 a, vp_i128 b) { int32_t r; s_gt_s128_s128(&r, &a, &b); return r; }
void s_gt_s128_u128(int32_t *, vp_i128 *, vp_u128 *);
static int32_t c_gt_s128_u128(vp_i128 a, vp_u128 b) { int32_t r; s_gt_s128_u128(&r, &a, &b); return r; }
void s_gt_u128_s8(int32_t *, vp_u128 *, int8_t);
static int32_t c_gt_u128_s8(vp_u128 a, int8_t b) { int32_t r; s_gt_u128_s8(&r, &a, b); return r; }
void s_gt_u128_u8(int32_t *, vp_u128 *, uint8_t);
static int32_t c_gt_u128_u8(vp_u128 a, uint8_t b) { int32_t r; s_gt_u128_u8(&r, &a, b); return r; }
void s_gt_u128_s16(int32_t *, vp_u128 *, int16_t);
static int32_t c_gt_u128_s16(vp_u128 a, int16_t b) { int32_t r; s_gt_u128_s16(&r, &a, b); return r; }
void s_gt_u128_u16(int32_t *, vp_u128 *, uint16_t);
static int32_t c_gt_u128_u16(vp_u128 a, uint16_t b) { int32_t r; s_gt_u128_u16(&r, &a, b); return r; }
void s_gt_u128_s32(int32_t *, vp_u128 *, int32_t);
static int32_t c_gt_u128_s32(vp_u128 a, int32_t b) { int32_t r; s_gt_u128_s32(&r, &a, b); return r; }
void s_gt_u128_u32(int32_t *, vp_u128 *, uint32_t);
static int32_t c_gt_u128_u32(vp_u128 a, uint32_t b) { int32_t r; s_gt_u128_u32(&r, &a, b); return r; }
void s_gt_u128_s64(int32_t *, vp_u128 *, int64_t);
static int32_t c_gt_u128_s64(vp_u128 a, int64_t b) { int32_t r; s_gt_u128_s64(&r, &a, b); return r; }
void s_gt_u128_u64(int32_t *, vp_u128 *, uint64_t);
static int32_t c_gt_u128_u64(vp_u128 a, uint64_t b) { int32_t r; s_gt_u128_u64(&r, &a, b); return r; }
void s_gt_u128_s128(int32_t *, vp_u128 *, vp_i128 *);
static int32_t c_gt_u128_s128(vp_u128 a, vp_i128 b) { int32_t r; s_gt_u128_s128(&r, &a, &b); return r; }
void s_gt_u128_u128(int32_t *, vp_u128 *, vp_u128 *);
static int32_t c_gt_u128_u128(vp_u128 a, vp_u128 b) { int32_t r; s_gt_u128_u128(&r, &a, &b); return r; }
int32_t c_ge_s8_s8(int8_t, int8_t);
int32_t c_ge_s8_u8(int8_t, uint8_t);
int32_t c_ge_s8_s16(int8_t, int16_t);
int32_t c_ge_s8_u16(int8_t, uint16_t);
int32_t c_ge_s8_s32(int8_t, int32_t);
int32_t c_ge_s8_u32(int8_t, uint32_t);
int32_t c_ge_s8_s64(int8_t, int64_t);
int32_t c_ge_s8_u64(int8_t, uint64_t);
void s_ge_s8_s128(int32_t *, int8_t, vp_i128 *);
static int32_t c_ge_s8_s128(int8_t a, vp_i128 b) { int32_t r; s_ge_s8_s128(&r, a, &b); return r; }
void s_ge_s8_u128(int32_t *, int8_t, vp_u128 *);
static int32_t c_ge_s8_u128(int8_t a, vp_u128 b) { int32_t r; s_ge_s8_u128(&r, a, &b); return r; }
int32_t c_ge_u8_s8(uint8_t, int8_t);
int32_t c_ge_u8_u8(uint8_t, uint8_t);
int32_t c_ge_u8_s16(uint8_t, int16_t);
int32_t c_ge_u8_u16(uint8_t, uint16_t);
int32_t c_ge_u8_s32(uint8_t, int32_t);
int32_t c_ge_u8_u32(uint8_t, uint32_t);
int32_t c_ge_u8_s64(uint8_t, int64_t);
int32_t c_ge_u8_u64(uint8_t, uint64_t);
void s_ge_u8_s128(int32_t *, uint8_t, vp_i128 *);
static int32_t c_ge_u8_s128(uint8_t a, vp_i128 b) { int32_t r; s_ge_u8_s128(&r, a, &b); return r; }
void s_ge_u8_u128(int32_t *, uint8_t, vp_u128 *);
static int32_t c_ge_u8_u128(uint8_t a, vp_u128 b) { int32_t r; s_ge_u8_u128(&r, a, &b); return r; }
int32_t c_ge_s16_s8(int16_t, int8_t);
int32_t c_ge_s16_u8(int16_t, uint8_t);
int32_t c_ge_s16_s16(int16_t, int16_t);
int32_t c_ge_s16_u16(int16_t, uint16_t);
int32_t c_ge_s16_s32(int16_t, int32_t);
int32_t c_ge_s16_u32(int16_t, uint32_t);
int32_t c_ge_s16_s64(int16_t, int64_t);
int32_t c_ge_s16_u64(int16_t, uint64_t);
void s_ge_s16_s128(int32_t *, int16_t, vp_i128 *);
static int32_t c_ge_s16_s128(int16_t a, vp_i128 b) { int32_t r; s_ge_s16_s128(&r, a, &b); return r; }
void s_ge_s16_u128(int32_t *, int16_t, vp_u128 *);
static int32_t c_ge_s16_u128(int16_t a, vp_u128 b) { int32_t r; s_ge_s16_u128(&r, a, &b); return r; }
int32_t c_ge_u16_s8(uint16_t, int8_t);
int32_t c_ge_u16_u8(uint16_t, uint8_t);
int32_t c_ge_u16_s16(uint16_t, int16_t);
int32_t c_ge_u16_u16(uint16_t, uint16_t);
int32_t c_ge_u16_s32(uint16_t, int32_t);
int32_t c_ge_u16_u32(uint16_t, uint32_t);
int32_t c_ge_u16_s64(uint16_t, int64_t);
int32_t c_ge_u16_u64(uint16_t, uint64_t);
void s_ge_u16_s128(int32_t *, uint16_t, vp_i128 *);
static int32_t c_ge_u16_s128(uint16_t a, vp_i128 b) { int32_t r; s_ge_u16_s128(&r, a, &b); return r; }
void s_ge_u16_u128(int32_t *, uint16_t, vp_u128 *);
static int32_t c_ge_u16_u128(uint16_t a, vp_u128 b) { int32_t r; s_ge_u16_u128(&r, a, &b); return r; }
int32_t c_ge_s32_s8(int32_t, int8_t);
int32_t c_ge_s32_u8(int32_t, uint8_t);
int32_t c_ge_s32_s16(int32_t, int16_t);
int32_t c_ge_s32_u16(int32_t, uint16_t);
int32_t c_ge_s32_s32(int32_t, int32_t);
int32_t c_ge_s32_u32(int32_t, uint32_t);
int32_t c_ge_s32_s64(int32_t, int64_t);
int32_t c_ge_s32_u64(int32_t, uint64_t);
void s_ge_s32_s128(int32_t *, int32_t, vp_i128 *);
static int32_t c_ge_s32_s128(int32_t a, vp_i128 b) { int32_t r; s_ge_s32_s128(&r, a, &b); return r; }
void s_ge_s32_u128(int32_t *, int32_t, vp_u128 *);
static int32_t c_ge_s32_u128(int32_t a, vp_u128 b) { int32_t r; s_ge_s32_u128(&r, a, &b); return r; }
int32_t c_ge_u32_s8(uint32_t, int8_t);
int32_t c_ge_u32_u8(uint32_t, uint8_t);
int32_t c_ge_u32_s16(uint32_t, int16_t);
int32_t c_ge_u32_u16(uint32_t, uint16_t);
int32_t c_ge_u32_s32(uint32_t, int32_t);
int32_t c_ge_u32_u32(uint32_t, uint32_t);
int32_t c_ge_u32_s64(uint32_t, int64_t);
int32_t c_ge_u32_u64(uint32_t, uint64_t);
void s_ge_u32_s128(int32_t *, uint32_t, vp_i128 *);
static int32_t c_ge_u32_s128(uint32_t a, vp_i128 b) { int32_t r; s_ge_u32_s128(&r, a, &b); return r; }
void s_ge_u32_u128(int32_t *, uint32_t, vp_u128 *);
static int32_t c_ge_u32_u128(uint32_t a, vp_u128 b) { int32_t r; s_ge_u32_u128(&r, a, &b); return r; }
int32_t c_ge_s64_s8(int64_t, int8_t);
int32_t c_ge_s64_u8(int64_t, uint8_t);
int32_t c_ge_s64_s16(int64_t, int16_t);
int32_t c_ge_s64_u16(int64_t, uint16_t);
int32_t c_ge_s64_s32(int64_t, int32_t);
int32_t c_ge_s64_u32(int64_t, uint32_t);
int32_t c_ge_s64_s64(int64_t, int64_t);
int32_t c_ge_s64_u64(int64_t, uint64_t);
void s_ge_s64_s128(int32_t *, int64_t, vp_i128 *);
static int32_t c_ge_s64_s128(int64_t a, vp_i128 b) { int32_t r; s_ge_s64_s128(&r, a, &b); return r; }
void s_ge_s64_u128(int32_t *, int64_t, vp_u128 *);
static int32_t c_ge_s64_u128(int64_t a, vp_u128 b) { int32_t r; s_ge_s64_u128(&r, a, &b); return r; }
int32_t c_ge_u64_s8(uint64_t, int8_t);
int32_t c_ge_u64_u8(uint64_t, uint8_t);
int32_t c_ge_u64_s16(uint64_t, int16_t);
int32_t c_ge_u64_u16(uint64_t, uint16_t);
int32_t c_ge_u64_s32(uint64_t, int32_t);
int32_t c_ge_u64_u32(uint64_t, uint32_t);
int32_t c_ge_u64_s64(uint64_t, int64_t);
int32_t c_ge_u64_u64(uint64_t, uint64_t);
void s_ge_u64_s128(int32_t *, uint64_t, vp_i128 *);
static int32_t c_ge_u64_s128(uint64_t a, vp_i128 b) { int32_t r; s_ge_u64_s128(&r, a, &b); return r; }
void s_ge_u64_u128(int32_t *, uint64_t, vp_u128 *);
static int32_t c_ge_u64_u128(uint64_t a, vp_u128 b) { int32_t r; s_ge_u64_u128(&r, a, &b); return r; }
void s_ge_s128_s8(int32_t *, vp_i128 *, int8_t);
static int32_t c_ge_s128_s8(vp_i128 a, int8_t b) { int32_t r; s_ge_s128_s8(&r, &a, b); return r; }
void s_ge_s128_u8(int32_t *, vp_i128 *, uint8_t);
static int32_t c_ge_s128_u8(vp_i128 a, uint8_t b) { int32_t r; s_ge_s128_u8(&r, &a, b); return r; }
void s_ge_s128_s16(int32_t *, vp_i128 *, int16_t);
static int32_t c_ge_s128_s16(vp_i128 a, int16_t b) { int32_t r; s_ge_s128_s16(&r, &a, b); return r; }
void s_ge_s128_u16(int32_t *, vp_i128 *, uint16_t);
static int32_t c_ge_s128_u16(vp_i128 a, uint16_t b) { int32_t r; s_ge_s128_u16(&r, &a, b); return r; }
void s_ge_s128_s32(int32_t *, vp_i128 *, int32_t);
static int32_t c_ge_s128_s32(vp_i128 a, int32_t b) { int32_t r; s_ge_s128_s32(&r, &a, b); return r; }
void s_ge_s128_u32(int32_t *, vp_i128 *, uint32_t);
static int32_t c_ge_s128_u32(vp_i128 a, uint32_t b) { int32_t r; s_ge_s128_u32(&r, &a, b); return r; }
void s_ge_s128_s64(int32_t *, vp_i128 *, int64_t);
static int32_t c_ge_s128_s64(vp_i128 a, int64_t b) { int32_t r; s_ge_s128_s64(&r, &a, b); return r; }
void s_ge_s128_u64(int32_t *, vp_i128 *, uint64_t);
static int32_t c_ge_s128_u64(vp_i128 a, uint64_t b) { int32_t r; s_ge_s128_u64(&r, &a, b); return r; }
void s_ge_s128_s128(int32_t *, vp_i128 *, vp_i128 *);
static int32_t c_ge_s128_s128(vp_i128 a, vp_i128 b) { int32_t r; s_ge_s128_s128(&r, &a, &b); return r; }
void s_ge_s128_u128(int32_t *, vp_i128 *, vp_u128 *);
static int32_t c_ge_s128_u128(vp_i128 a, vp_u128 b) { int32_t r; s_ge_s128_u128(&r, &a, &b); return r; }
void s_ge_u128_s8(int32_t *, vp_u128 *, int8_t);
static int32_t c_ge_u128_s8(vp_u128 a, int8_t b) { int32_t r; s_ge_u128_s8(&r, &a, b); return r; }
void s_ge_u128_u8(int32_t *, vp_u128 *, uint8_t);
static int32_t c_ge_u128_u8(vp_u128 a, uint8_t b) { int32_t r; s_ge_u128_u8(&r, &a, b); return r; }
void s_ge_u128_s16(int32_t *, vp_u128 *, int16_t);
static int32_t c_ge_u128_s16(vp_u128 a, int16_t b) { int32_t r; s_ge_u128_s16(&r, &a, b); return r; }
void s_ge_u128_u16(int32_t *, vp_u128 *, uint16_t);
static int32_t c_ge_u128_u16(vp_u128 a, uint16_t b) { int32_t r; s_ge_u128_u16(&r, &a, b); return r; }
void s_ge_u128_s32(int32_t *, vp_u128 *, int32_t);
static int32_t c_ge_u128_s32(vp_u128 a, int32_t b) { int32_t r; s_ge_u128_s32(&r, &a, b); return r; }
void s_ge_u128_u32(int32_t *, vp_u128 *, uint32_t);
static int32_t c_ge_u128_u32(vp_u128 a, uint32_t b) { int32_t r; s_ge_u128_u32(&r, &a, b); return r; }
void s_ge_u128_s64(int32_t *, vp_u128 *, int64_t);
static int32_t c_ge_u128_s64(vp_u128 a, int64_t b) { int32_t r; s_ge_u128_s64(&r, &a, b); return r; }
void s_ge_u128_u64(int32_t *, vp_u128 *, uint64_t);
static int32_t c_ge_u128_u64(vp_u128 a, uint64_t b) { int32_t r; s_ge_u128_u64(&r, &a, b); return r; }
void s_ge_u128_s128(int32_t *, vp_u128 *, vp_i128 *);
static int32_t c_ge_u128_s128(vp_u128 a, vp_i128 b) { int32_t r; s_ge_u128_s128(&r, &a, &b); return r; }
void s_ge_u128_u128(int32_t *, vp_u128 *, vp_u128 *);
static int32_t c_ge_u128_u128(vp_u128 a, vp_u128 b) { int32_t r; s_ge_u128_u128(&r, &a, &b); return r; }
int32_t c_eq_s8_s8(int8_t, int8_t);
int32_t c_eq_s8_u8(int8_t, uint8_t);
int32_t c_eq_s8_s16(int8_t, int16_t);
int32_t c_eq_s8_u16(int8_t, uint16_t);
int32_t c_eq_s8_s32(int8_t, int32_t);
int32_t c_eq_s8_u32(int8_t, uint32_t);
int32_t c_eq_s8_s64(int8_t, int64_t);
int32_t c_eq_s8_u64(int8_t, uint64_t);
void s_eq_s8_s128(int32_t *, int8_t, vp_i128 *);
static int32_t c_eq_s8_s128(int8_t a, vp_i128 b) { int32_t r; s_eq_s8_s128(&r, a, &b); return r; }
void s_eq_s8_u128(int32_t *, int8_t, vp_u128 *);
static int32_t c_eq_s8_u128(int8_t a, vp_u128 b) { int32_t r; s_eq_s8_u128(&r, a, &b); return r; }
int32_t c_eq_u8_s8(uint8_t, int8_t);
int32_t c_eq_u8_u8(uint8_t, uint8_t);
int32_t c_eq_u8_s16(uint8_t, int16_t);
int32_t c_eq_u8_u16(uint8_t, uint16_t);
int32_t c_eq_u8_s32(uint8_t, int32_t);
int32_t c_eq_u8_u32(uint8_t, uint32_t);
int32_t c_eq_u8_s64(uint8_t, int64_t);
int32_t c_eq_u8_u64(uint8_t, uint64_t);
void s_eq_u8_s128(int32_t *, uint8_t, vp_i128 *);
static int32_t c_eq_u8_s128(uint8_t a, vp_i128 b) { int32_t r; s_eq_u8_s128(&r, a, &b); return r; }
void s_eq_u8_u128(int32_t *, uint8_t, vp_u128 *);
static int32_t c_eq_u8_u128(uint8_t a, vp_u128 b) { int32_t r; s_eq_u8_u128(&r, a, &b); return r; }
int32_t c_eq_s16_s8(int16_t, int8_t);
int32_t c_eq_s16_u8(int16_t, uint8_t);
int32_t c_eq_s16_s16(int16_t, int16_t);
int32_t c_eq_s16_u16(int16_t, uint16_t);
int32_t c_eq_s16_s32(int16_t, int32_t);
int32_t c_eq_s16_u32(int16_t, uint32_t);
int32_t c_eq_s16_s64(int16_t, int64_t);
int32_t c_eq_s16_u64(int16_t, uint64_t);
void s_eq_s16_s128(int32_t *, int16_t, vp_i128 *);
static int32_t c_eq_s16_s128(int16_t a, vp_i128 b) { int32_t r; s_eq_s16_s128(&r, a, &b); return r; }
void s_eq_s16_u128(int32_t *, int16_t, vp_u128 *);
static int32_t c_eq_s16_u128(int16_t a, vp_u128 b) { int32_t r; s_eq_s16_u128(&r, a, &b); return r; }
int32_t c_eq_u16_s8(uint16_t, int8_t);
int32_t c_eq_u16_u8(uint16_t, uint8_t);
int32_t c_eq_u16_s16(uint16_t, int16_t);
int32_t c_eq_u16_u16(uint16_t, uint16_t);
int32_t c_eq_u16_s32(uint16_t, int32_t);
int32_t c_eq_u16_u32(uint16_t, uint32_t);
int32_t c_eq_u16_s64(uint16_t, int64_t);
int32_t c_eq_u16_u64(uint16_t, uint64_t);
void s_eq_u16_s128(int32_t *, uint16_t, vp_i128 *);
static int32_t c_eq_u16_s128(uint16_t a, vp_i128 b) { int32_t r; s_eq_u16_s128(&r, a, &b); return r; }
void s_eq_u16_u128(int32_t *, uint16_t, vp_u128 *);
static int32_t c_eq_u16_u128(uint16_t a, vp_u128 b) { int32_t r; s_eq_u16_u128(&r, a, &b); return r; }
int32_t c_eq_s32_s8(int32_t, int8_t);
int32_t c_eq_s32_u8(int32_t, uint8_t);
int32_t c_eq_s32_s16(int32_t, int16_t);
int32_t c_eq_s32_u16(int32_t, uint16_t);
int32_t c_eq_s32_s32(int32_t, int32_t);
int32_t c_eq_s32_u32(int32_t, uint32_t);
int32_t c_eq_s32_s64(int32_t, int64_t);
int32_t c_eq_s32_u64(int32_t, uint64_t);
void s_eq_s32_s128(int32_t *, int32_t, vp_i128 *);
static int32_t c_eq_s32_s128(int32_t a, vp_i128 b) { int32_t r; s_eq_s32_s128(&r, a, &b); return r; }
void s_eq_s32_u128(int32_t *, int32_t, vp_u128 *);
static int32_t c_eq_s32_u128(int32_t a, vp_u128 b) { int32_t r; s_eq_s32_u128(&r, a, &b); return r; }
int32_t c_eq_u32_s8(uint32_t, int8_t);
int32_t c_eq_u32_u8(uint32_t, uint8_t);
int32_t c_eq_u32_s16(uint32_t, int16_t);
int32_t c_eq_u32_u16(uint32_t, uint16_t);
int32_t c_eq_u32_s32(uint32_t, int32_t);
int32_t c_eq_u32_u32(uint32_t, uint32_t);
int32_t c_eq_u32_s64(uint32_t, int64_t);
int32_t c_eq_u32_u64(uint32_t, uint64_t);
void s_eq_u32_s128(int32_t *, uint32_t, vp_i128 *);
static int32_t c_eq_u32_s128(uint32_t a, vp_i128 b) { int32_t r; s_eq_u32_s128(&r, a, &b); return r; }
void s_eq_u32_u128(int32_t *, uint32_t, vp_u128 *);
static int32_t c_eq_u32_u128(uint32_t a, vp_u128 b) { int32_t r; s_eq_u32_u128(&r, a, &b); return r; }
int32_t c_eq_s64_s8(int64_t, int8_t);
int32_t c_eq_s64_u8(int64_t, uint8_t);
int32_t c_eq_s64_s16(int64_t, int16_t);
int32_t c_eq_s64_u16(int64_t, uint16_t);
int32_t c_eq_s64_s32(int64_t, int32_t);
int32_t c_eq_s64_u32(int64_t, uint32_t);
int32_t c_eq_s64_s64(int64_t, int64_t);
int32_t c_eq_s64_u64(int64_t, uint64_t);
void s_eq_s64_s128(int32_t *, int64_t, vp_i128 *);
static int32_t c_eq_s64_s128(int64_t a, vp_i128 b) { int32_t r; s_eq_s64_s128(&r, a, &b); return r; }
void s_eq_s64_u128(int32_t *, int64_t, vp_u128 *);
static int32_t c_eq_s64_u128(int64_t a, vp_u128 b) { int32_t r; s_eq_s64_u128(&r, a, &b); return r; }
int32_t c_eq_u64_s8(uint64_t, int8_t);
int32_t c_eq_u64_u8(uint64_t, uint8_t);
int32_t c_eq_u64_s16(uint64_t, int16_t);
int32_t c_eq_u64_u16(uint64_t, uint16_t);
int32_t c_eq_u64_s32(uint64_t, int32_t);
int32_t c_eq_u64_u32(uint64_t, uint32_t);
int32_t c_eq_u64_s64(uint64_t, int64_t);
int32_t c_eq_u64_u64(uint64_t, uint64_t);
void s_eq_u64_s128(int32_t *, uint64_t, vp_i128 *);
static int32_t c_eq_u64_s128(uint64_t a, vp_i128 b) { int32_t r; s_eq_u64_s128(&r, a, &b); return r; }
void s_eq_u64_u128(int32_t *, uint64_t, vp_u128 *);
static int32_t c_eq_u64_u128(uint64_t a, vp_u128 b) { int32_t r; s_eq_u64_u128(&r, a, &b); return r; }
void s_eq_s128_s8(int32_t *, vp_i128 *, int8_t);
static int32_t c_eq_s128_s8(vp_i128 a, int8_t b) { int32_t r; s_eq_s128_s8(&r, &a, b); return r; }
void s_eq_s128_u8(int32_t *, vp_i128 *, uint8_t);
static int32_t c_eq_s128_u8(vp_i128 a, uint8_t b) { int32_t r; s_eq_s128_u8(&r, &a, b); return r; }
void s_eq_s128_s16(int32_t *, vp_i128 *, int16_t);
static int32_t c_eq_s128_s16(vp_i128 a, int16_t b) { int32_t r; s_eq_s128_s16(&r, &a, b); return r; }
void s_eq_s128_u16(int32_t *, vp_i128 *, uint16_t);
static int32_t c_eq_s128_u16(vp_i128 a, uint16_t b) { int32_t r; s_eq_s128_u16(&r, &a, b); return r; }
void s_eq_s128_s32(int32_t *, vp_i128 *, int32_t);
static int32_t c_eq_s128_s32(vp_i128 a, int32_t b) { int32_t r; s_eq_s128_s32(&r, &a, b); return r; }
void s_eq_s128_u32(int32_t *, vp_i128 *, uint32_t);
static int32_t c_eq_s128_u32(vp_i128 a, uint32_t b) { int32_t r; s_eq_s128_u32(&r, &a, b); return r; }
void s_eq_s128_s64(int32_t *, vp_i128 *, int64_t);
static int32_t c_eq_s128_s64(vp_i128 a, int64_t b) { int32_t r; s_eq_s128_s64(&r, &a, b); return r; }
void s_eq_s128_u64(int32_t *, vp_i128 *, uint64_t);
static int32_t c_eq_s128_u64(vp_i128 a, uint64_t b) { int32_t r; s_eq_s128_u64(&r, &a, b); return r; }
void s_eq_s128_s128(int32_t *, vp_i128 *, vp_i128 *);
static int32_t c_eq_s128_s128(vp_i128 a, vp_i128 b) { int32_t r; s_eq_s128_s128(&r, &a, &b); return r; }
void s_eq_s128_u128(int32_t *, vp_i128 *, vp_u128 *);
static int32_t c_eq_s128_u128(vp_i128 a, vp_u128 b) { int32_t r; s_eq_s128_u128(&r, &a, &b); return r; }
void s_eq_u128_s8(int32_t *, vp_u128 *, int8_t);
static int32_t c_eq_u128_s8(vp_u128 a, int8_t b) { int32_t r; s_eq_u128_s8(&r, &a, b); return r; }
void s_eq_u128_u8(int32_t *, vp_u128 *, uint8_t);
static int32_t c_eq_u128_u8(vp_u128 a, uint8_t b) { int32_t r; s_eq_u128_u8(&r, &a, b); return r; }
void s_eq_u128_s16(int32_t *, vp_u128 *, int16_t);
static int32_t c_eq_u128_s16(vp_u128 a, int16_t b) { int32_t r; s_eq_u128_s16(&r, &a, b); return r; }
void s_eq_u128_u16(int32_t *, vp_u128 *, uint16_t);
static int32_t c_eq_u128_u16(vp_u128 a, uint16_t b) { int32_t r; s_eq_u128_u16(&r, &a, b); return r; }
void s_eq_u128_s32(int32_t *, vp_u128 *, int32_t);
static int32_t c_eq_u128_s32(vp_u128 a, int32_t b) { int32_t r; s_eq_u128_s32(&r, &a, b); return r; }
void s_eq_u128_u32(int32_t *, vp_u128 *, uint32_t);
static int32_t c_eq_u128_u32(vp_u128 a, uint32_t b) { int32_t r; s_eq_u128_u32(&r, &a, b); return r; }
void s_eq_u128_s64(int32_t *, vp_u128 *, int64_t);
static int32_t c_eq_u128_s64(vp_u128 a, int64_t b) { int32_t r; s_eq_u128_s64(&r, &a, b); return r; }
void s_eq_u128_u64(int32_t *, vp_u128 *, uint64_t);
static int32_t c_eq_u128_u64(vp_u128 a, uint64_t b) { int32_t r; s_eq_u128_u64(&r, &a, b); return r; }
void s_eq_u128_s128(int32_t *, vp_u128 *, vp_i128 *);
static int32_t c_eq_u128_s128(vp_u128 a, vp_i128 b) { int32_t r; s_eq_u128_s128(&r, &a, &b); return r; }
void s_eq_u128_u128(int32_t *, vp_u128 *, vp_u128 *);
static int32_t c_eq_u128_u128(vp_u128 a, vp_u128 b) { int32_t r; s_eq_u128_u128(&r, &a, &b); return r; }
int32_t c_ne_s8_s8(int8_t, int8_t);
int32_t c_ne_s8_u8(int8_t, uint8_t);
int32_t c_ne_s8_s16(int8_t, int16_t);
int32_t c_ne_s8_u16(int8_t, uint16_t);
int32_t c_ne_s8_s32(int8_t, int32_t);
int32_t c_ne_s8_u32(int8_t, uint32_t);
int32_t c_ne_s8_s64(int8_t, int64_t);
int32_t c_ne_s8_u64(int8_t, uint64_t);
void s_ne_s8_s128(int32_t *, int8_t, vp_i128 *);
static int32_t c_ne_s8_s128(int8_t a, vp_i128 b) { int32_t r; s_ne_s8_s128(&r, a, &b); return r; }
void s_ne_s8_u128(int32_t *, int8_t, vp_u128 *);
static int32_t c_ne_s8_u128(int8_t a, vp_u128 b) { int32_t r; s_ne_s8_u128(&r, a, &b); return r; }
int32_t c_ne_u8_s8(uint8_t, int8_t);
int32_t c_ne_u8_u8(uint8_t, uint8_t);
int32_t c_ne_u8_s16(uint8_t, int16_t);
int32_t c_ne_u8_u16(uint8_t, uint16_t);
int32_t c_ne_u8_s32(uint8_t, int32_t);
int32_t c_ne_u8_u32(uint8_t, uint32_t);
int32_t c_ne_u8_s64(uint8_t, int64_t);
int32_t c_ne_u8_u64(uint8_t, uint64_t);
void s_ne_u8_s128(int32_t *, uint8_t, vp_i128 *);
static int32_t c_ne_u8_s128(uint8_t a, vp_i128 b) { int32_t r; s_ne_u8_s128(&r, a, &b); return r; }
void s_ne_u8_u128(int32_t *, uint8_t, vp_u128 *);
static int32_t c_ne_u8_u128(uint8_t a, vp_u128 b) { int32_t r; s_ne_u8_u128(&r, a, &b); return r; }
int32_t c_ne_s16_s8(int16_t, int8_t);
int32_t c_ne_s16_u8(int16_t, uint8_t);
int32_t c_ne_s16_s16(int16_t, int16_t);
int32_t c_ne_s16_u16(int16_t, uint16_t);
int32_t c_ne_s16_s32(int16_t, int32_t);
int32_t c_ne_s16_u32(int16_t, uint32_t);
int32_t c_ne_s16_s64(int16_t, int64_t);
int32_t c_ne_s16_u64(int16_t, uint64_t);
void s_ne_s16_s128(int32_t *, int16_t, vp_i128 *);
static int32_t c_ne_s16_s128(int16_t a, vp_i128 b) { int32_t r; s_ne_s16_s128(&r, a, &b); return r; }
void s_ne_s16_u128(int32_t *, int16_t, vp_u128 *);
static int32_t c_ne_s16_u128(int16_t a, vp_u128 b) { int32_t r; s_ne_s16_u128(&r, a, &b); return r; }
int32_t c_ne_u16_s8(uint16_t, int8_t);
int32_t c_ne_u16_u8(uint16_t, uint8_t);
int32_t c_ne_u16_s16(uint16_t, int16_t);
int32_t c_ne_u16_u16(uint16_t, uint16_t);
int32_t c_ne_u16_s32(uint16_t, int32_t);
int32_t c_ne_u16_u32(uint16_t, uint32_t);
int32_t c_ne_u16_s64(uint16_t, int64_t);
int32_t c_ne_u16_u64(uint16_t, uint64_t);
void s_ne_u16_s128(int32_t *, uint16_t, vp_i128 *);
static int32_t c_ne_u16_s128(uint16_t a, vp_i128 b) { int32_t r; s_ne_u16_s128(&r, a, &b); return r; }
void s_ne_u16_u128(int32_t *, uint16_t, vp_u128 *);
static int32_t c_ne_u16_u128(uint16_t a, vp_u128 b) { int32_t r; s_ne_u16_u128(&r, a, &b); return r; }
int32_t c_ne_s32_s8(int32_t, int8_t);
int32_t c_ne_s32_u8(int32_t, uint8_t);
int32_t c_ne_s32_s16(int32_t, int16_t);
int32_t c_ne_s32_u16(int32_t, uint16_t);
int32_t c_ne_s32_s32(int32_t, int32_t);
int32_t c_ne_s32_u32(int32_t, uint32_t);
int32_t c_ne_s32_s64(int32_t, int64_t);
int32_t c_ne_s32_u64(int32_t, uint64_t);
void s_ne_s32_s128(int32_t *, int32_t, vp_i128 *);
static int32_t c_ne_s32_s128(int32_t a, vp_i128 b) { int32_t r; s_ne_s32_s128(&r, a, &b); return r; }
void s_ne_s32_u128(int32_t *, int32_t, vp_u128 *);
static int32_t c_ne_s32_u128(int32_t a, vp_u128 b) { int32_t r; s_ne_s32_u128(&r, a, &b); return r; }
int32_t c_ne_u32_s8(uint32_t, int8_t);
int32_t c_ne_u32_u8(uint32_t, uint8_t);
int32_t c_ne_u32_s16(uint32_t, int16_t);
int32_t c_ne_u32_u16(uint32_t, uint16_t);
int32_t c_ne_u32_s32(uint32_t, int32_t);
int32_t c_ne_u32_u32(uint32_t, uint32_t);
int32_t c_ne_u32_s64(uint32_t, int64_t);
int32_t c_ne_u32_u64(uint32_t, uint64_t);
void s_ne_u32_s128(int32_t *, uint32_t, vp_i128 *);
static int32_t c_ne_u32_s128(uint32_t a, vp_i128 b) { int32_t r; s_ne_u32_s128(&r, a, &b); return r; }
void s_ne_u32_u128(int32_t *, uint32_t, vp_u128 *);
static int32_t c_ne_u32_u128(uint32_t a, vp_u128 b) { int32_t r; s_ne_u32_u128(&r, a, &b); return r; }
int32_t c_ne_s64_s8(int64_t, int8_t);
int32_t c_ne_s64_u8(int64_t, uint8_t);
int32_t c_ne_s64_s16(int64_t, int16_t);
int32_t c_ne_s64_u16(int64_t, uint16_t);
int32_t c_ne_s64_s32(int64_t, int32_t);
int32_t c_ne_s64_u32(int64_t, uint32_t);
int32_t c_ne_s64_s64(int64_t, int64_t);
int32_t c_ne_s64_u64(int64_t, uint64_t);
void s_ne_s64_s128(int32_t *, int64_t, vp_i128 *);
static int32_t c_ne_s64_s128(int64_t a, vp_i128 b) { int32_t r; s_ne_s64_s128(&r, a, &b); return r; }
void s_ne_s64_u128(int32_t *, int64_t, vp_u128 *);
static int32_t c_ne_s64_u128(int64_t a, vp_u128 b) { int32_t r; s_ne_s64_u128(&r, a, &b); return r; }
int32_t c_ne_u64_s8(uint64_t, int8_t);
int32_t c_ne_u64_u8(uint64_t, uint8_t);
int32_t c_ne_u64_s16(uint64_t, int16_t);
int32_t c_ne_u64_u16(uint64_t, uint16_t);
int32_t c_ne_u64_s32(uint64_t, int32_t);
int32_t c_ne_u64_u32(uint64_t, uint32_t);
int32_t c_ne_u64_s64(uint64_t, int64_t);
int32_t c_ne_u64_u64(uint64_t, uint64_t);
void s_ne_u64_s128(int32_t *, uint64_t, vp_i128 *);
static int32_t c_ne_u64_s128(uint64_t a, vp_i128 b) { int32_t r; s_ne_u64_s128(&r, a, &b); return r; }
void s_ne_u64_u128(int32_t *, uint64_t, vp_u128 *);
static int32_t c_ne_u64_u128(uint64_t a, vp_u128 b) { int32_t r; s_ne_u64_u128(&r, a, &b); return r; }
void s_ne_s128_s8(int32_t *, vp_i128 *, int8_t);
static int32_t c_ne_s128_s8(vp_i128 a, int8_t b) { int32_t r; s_ne_s128_s8(&r, &a, b); return r; }
void s_ne_s128_u8(int32_t *, vp_i128 *, uint8_t);
static int32_t c_ne_s128_u8(vp_i128 a, uint8_t b) { int32_t r; s_ne_s128_u8(&r, &a, b); return r; }
void s_ne_s128_s16(int32_t *, vp_i128 *, int16_t);
static int32_t c_ne_s128_s16(vp_i128 a, int16_t b) { int32_t r; s_ne_s128_s16(&r, &a, b); return r; }
void s_ne_s128_u16(int32_t *, vp_i128 *, uint16_t);
static int32_t c_ne_s128_u16(vp_i128 a, uint16_t b) { int32_t r; s_ne_s128_u16(&r, &a, b); return r; }
void s_ne_s128_s32(int32_t *, vp_i128 *, int32_t);
static int32_t c_ne_s128_s32(vp_i128 a, int32_t b) { int32_t r; s_ne_s128_s32(&r, &a, b); return r; }
void s_ne_s128_u32(int32_t *, vp_i128 *, uint32_t);
static int32_t c_ne_s128_u32(vp_i128 a, uint32_t b) { int32_t r; s_ne_s128_u32(&r, &a, b); return r; }
void s_ne_s128_s64(int32_t *, vp_i128 *, int64_t);
static int32_t c_ne_s128_s64(vp_i128 a, int64_t b) { int32_t r; s_ne_s128_s64(&r, &a, b); return r; }
void s_ne_s128_u64(int32_t *, vp_i128 *, uint64_t);
static int32_t c_ne_s128_u64(vp_i128 a, uint64_t b) { int32_t r; s_ne_s128_u64(&r, &a, b); return r; }
void s_ne_s128_s128(int32_t *, vp_i128 *, vp_i128 *);
static int32_t c_ne_s128_s128(vp_i128 a, vp_i128 b) { int32_t r; s_ne_s128_s128(&r, &a, &b); return r; }
void s_ne_s128_u128(int32_t *, vp_i128 *, vp_u128 *);
static int32_t c_ne_s128_u128(vp_i128 a, vp_u128 b) { int32_t r; s_ne_s128_u128(&r, &a, &b); return r; }
void s_ne_u128_s8(int32_t *, vp_u128 *, int8_t);
static int32_t c_ne_u128_s8(vp_u128 a, int8_t b) { int32_t r; s_ne_u128_s8(&r, &a, b); return r; }
void s_ne_u128_u8(int32_t *, vp_u128 *, uint8_t);
static int32_t c_ne_u128_u8(vp_u128 a, uint8_t b) { int32_t r; s_ne_u128_u8(&r, &a, b); return r; }
void s_ne_u128_s16(int32_t *, vp_u128 *, int16_t);
static int32_t c_ne_u128_s16(vp_u128 a, int16_t b) { int32_t r; s_ne_u128_s16(&r, &a, b); return r; }
void s_ne_u128_u16(int32_t *, vp_u128 *, uint16_t);
static int32_t c_ne_u128_u16(vp_u128 a, uint16_t b) { int32_t r; s_ne_u128_u16(&r, &a, b); return r; }
void s_ne_u128_s32(int32_t *, vp_u128 *, int32_t);
static int32_t c_ne_u128_s32(vp_u128 a, int32_t b) { int32_t r; s_ne_u128_s32(&r, &a, b); return r; }
void s_ne_u128_u32(int32_t *, vp_u128 *, uint32_t);
static int32_t c_ne_u128_u32(vp_u128 a, uint32_t b) { int32_t r; s_ne_u128_u32(&r, &a, b); return r; }
void s_ne_u128_s64(int32_t *, vp_u128 *, int64_t);
static int32_t c_ne_u128_s64(vp_u128 a, int64_t b) { int32_t r; s_ne_u128_s64(&r, &a, b); return r; }
void s_ne_u128_u64(int32_t *, vp_u128 *, uint64_t);
static int32_t c_ne_u128_u64(vp_u128 a, uint64_t b) { int32_t r; s_ne_u128_u64(&r, &a, b); return r; }
void s_ne_u128_s128(int32_t *, vp_u128 *, vp_i128 *);
static int32_t c_ne_u128_s128(vp_u128 a, vp_i128 b) { int32_t r; s_ne_u128_s128(&r, &a, &b); return r; }
void s_ne_u128_u128(int32_t *, vp_u128 *, vp_u128 *);
static int32_t c_ne_u128_u128(vp_u128 a, vp_u128 b) { int32_t r; s_ne_u128_u128(&r, &a, &b); return r; }
uint8_t c_cv_s8_u8(int8_t);
int16_t c_cv_s8_s16(int8_t);
int16_t c_im_s8_s16(int8_t);
uint16_t c_cv_s8_u16(int8_t);
int32_t c_cv_s8_s32(int8_t);
int32_t c_im_s8_s32(int8_t);
uint32_t c_cv_s8_u32(int8_t);
int64_t c_cv_s8_s64(int8_t);
int64_t c_im_s8_s64(int8_t);
uint64_t c_cv_s8_u64(int8_t);
void s_cv_s8_s128(vp_i128 *, int8_t);
static vp_i128 c_cv_s8_s128(int8_t a) { vp_i128 r; s_cv_s8_s128(&r, a); return r; }
void s_im_s8_s128(vp_i128 *, int8_t);
static vp_i128 c_im_s8_s128(int8_t a) { vp_i128 r; s_im_s8_s128(&r, a); return r; }
void s_cv_s8_u128(vp_u128 *, int8_t);
static vp_u128 c_cv_s8_u128(int8_t a) { vp_u128 r; s_cv_s8_u128(&r, a); return r; }
int8_t c_cv_u8_s8(uint8_t);
int16_t c_cv_u8_s16(uint8_t);
int16_t c_im_u8_s16(uint8_t);
uint16_t c_cv_u8_u16(uint8_t);
uint16_t c_im_u8_u16(uint8_t);
int32_t c_cv_u8_s32(uint8_t);
int32_t c_im_u8_s32(uint8_t);
uint32_t c_cv_u8_u32(uint8_t);
uint32_t c_im_u8_u32(uint8_t);
int64_t c_cv_u8_s64(uint8_t);
int64_t c_im_u8_s64(uint8_t);
uint64_t c_cv_u8_u64(uint8_t);
uint64_t c_im_u8_u64(uint8_t);
void s_cv_u8_s128(vp_i128 *, uint8_t);
static vp_i128 c_cv_u8_s128(uint8_t a) { vp_i128 r; s_cv_u8_s128(&r, a); return r; }
void s_im_u8_s128(vp_i128 *, uint8_t);
static vp_i128 c_im_u8_s128(uint8_t a) { vp_i128 r; s_im_u8_s128(&r, a); return r; }
void s_cv_u8_u128(vp_u128 *, uint8_t);
static vp_u128 c_cv_u8_u128(uint8_t a) { vp_u128 r; s_cv_u8_u128(&r, a); return r; }
void s_im_u8_u128(vp_u128 *, uint8_t);
static vp_u128 c_im_u8_u128(uint8_t a) { vp_u128 r; s_im_u8_u128(&r, a); return r; }
int8_t c_cv_s16_s8(int16_t);
uint8_t c_cv_s16_u8(int16_t);
uint16_t c_cv_s16_u16(int16_t);
int32_t c_cv_s16_s32(int16_t);
int32_t c_im_s16_s32(int16_t);
uint32_t c_cv_s16_u32(int16_t);
int64_t c_cv_s16_s64(int16_t);
int64_t c_im_s16_s64(int16_t);
uint64_t c_cv_s16_u64(int16_t);
void s_cv_s16_s128(vp_i128 *, int16_t);
static vp_i128 c_cv_s16_s128(int16_t a) { vp_i128 r; s_cv_s16_s128(&r, a); return r; }
void s_im_s16_s128(vp_i128 *, int16_t);
static vp_i128 c_im_s16_s128(int16_t a) { vp_i128 r; s_im_s16_s128(&r, a); return r; }
void s_cv_s16_u128(vp_u128 *, int16_t);
static vp_u128 c_cv_s16_u128(int16_t a) { vp_u128 r; s_cv_s16_u128(&r, a); return r; }
int8_t c_cv_u16_s8(uint16_t);
uint8_t c_cv_u16_u8(uint16_t);
int16_t c_cv_u16_s16(uint16_t);
int32_t c_cv_u16_s32(uint16_t);
int32_t c_im_u16_s32(uint16_t);
uint32_t c_cv_u16_u32(uint16_t);
uint32_t c_im_u16_u32(uint16_t);
int64_t c_cv_u16_s64(uint16_t);
int64_t c_im_u16_s64(uint16_t);
uint64_t c_cv_u16_u64(uint16_t);
uint64_t c_im_u16_u64(uint16_t);
void s_cv_u16_s128(vp_i128 *, uint16_t);
static vp_i128 c_cv_u16_s128(uint16_t a) { vp_i128 r; s_cv_u16_s128(&r, a); return r; }
void s_im_u16_s128(vp_i128 *, uint16_t);
static vp_i128 c_im_u16_s128(uint16_t a) { vp_i128 r; s_im_u16_s128(&r, a); return r; }
void s_cv_u16_u128(vp_u128 *, uint16_t);
static vp_u128 c_cv_u16_u128(uint16_t a) { vp_u128 r; s_cv_u16_u128(&r, a); return r; }
void s_im_u16_u128(vp_u128 *, uint16_t);
static vp_u128 c_im_u16_u128(uint16_t a) { vp_u128 r; s_im_u16_u128(&r, a); return r; }
int8_t c_cv_s32_s8(int32_t);
uint8_t c_cv_s32_u8(int32_t);
int16_t c_cv_s32_s16(int32_t);
uint16_t c_cv_s32_u16(int32_t);
uint32_t c_cv_s32_u32(int32_t);
int64_t c_cv_s32_s64(int32_t);
int64_t c_im_s32_s64(int32_t);
uint64_t c_cv_s32_u64(int32_t);
void s_cv_s32_s128(vp_i128 *, int32_t);
static vp_i128 c_cv_s32_s128(int32_t a) { vp_i128 r; s_cv_s32_s128(&r, a); return r; }
void s_im_s32_s128(vp_i128 *, int32_t);
static vp_i128 c_im_s32_s128(int32_t a) { vp_i128 r; s_im_s32_s128(&r, a); return r; }
void s_cv_s32_u128(vp_u128 *, int32_t);
static vp_u128 c_cv_s32_u128(int32_t a) { vp_u128 r; s_cv_s32_u128(&r, a); return r; }
int8_t c_cv_u32_s8(uint32_t);
uint8_t c_cv_u32_u8(uint32_t);
int16_t c_cv_u32_s16(uint32_t);
uint16_t c_cv_u32_u16(uint32_t);
int32_t c_cv_u32_s32(uint32_t);
int64_t c_cv_u32_s64(uint32_t);
int64_t c_im_u32_s64(uint32_t);
uint64_t c_cv_u32_u64(uint32_t);
uint64_t c_im_u32_u64(uint32_t);
void s_cv_u32_s128(vp_i128 *, uint32_t);
static vp_i128 c_cv_u32_s128(uint32_t a) { vp_i128 r; s_cv_u32_s128(&r, a); return r; }
void s_im_u32_s128(vp_i128 *, uint32_t);
static vp_i128 c_im_u32_s128(uint32_t a) { vp_i128 r; s_im_u32_s128(&r, a); return r; }
void s_cv_u32_u128(vp_u128 *, uint32_t);
static vp_u128 c_cv_u32_u128(uint32_t a) { vp_u128 r; s_cv_u32_u128(&r, a); return r; }
void s_im_u32_u128(vp_u128 *, uint32_t);
static vp_u128 c_im_u32_u128(uint32_t a) { vp_u128 r; s_im_u32_u128(&r, a); return r; }
int8_t c_cv_s64_s8(int64_t);
uint8_t c_cv_s64_u8(int64_t);
int16_t c_cv_s64_s16(int64_t);
uint16_t c_cv_s64_u16(int64_t);
int32_t c_cv_s64_s32(int64_t);
uint32_t c_cv_s64_u32(int64_t);
uint64_t c_cv_s64_u64(int64_t);
void s_cv_s64_s128(vp_i128 *, int64_t);
static vp_i128 c_cv_s64_s128(int64_t a) { vp_i128 r; s_cv_s64_s128(&r, a); return r; }
void s_im_s64_s128(vp_i128 *, int64_t);
static vp_i128 c_im_s64_s128(int64_t a) { vp_i128 r; s_im_s64_s128(&r, a); return r; }
void s_cv_s64_u128(vp_u128 *, int64_t);
static vp_u128 c_cv_s64_u128(int64_t a) { vp_u128 r; s_cv_s64_u128(&r, a); return r; }
int8_t c_cv_u64_s8(uint64_t);
uint8_t c_cv_u64_u8(uint64_t);
int16_t c_cv_u64_s16(uint64_t);
uint16_t c_cv_u64_u16(uint64_t);
int32_t c_cv_u64_s32(uint64_t);
uint32_t c_cv_u64_u32(uint64_t);
int64_t c_cv_u64_s64(uint64_t);
void s_cv_u64_s128(vp_i128 *, uint64_t);
static vp_i128 c_cv_u64_s128(uint64_t a) { vp_i128 r; s_cv_u64_s128(&r, a); return r; }
void s_im_u64_s128(vp_i128 *, uint64_t);
static vp_i128 c_im_u64_s128(uint64_t a) { vp_i128 r; s_im_u64_s128(&r, a); return r; }
void s_cv_u64_u128(vp_u128 *, uint64_t);
static vp_u128 c_cv_u64_u128(uint64_t a) { vp_u128 r; s_cv_u64_u128(&r, a); return r; }
void s_im_u64_u128(vp_u128 *, uint64_t);
static vp_u128 c_im_u64_u128(uint64_t a) { vp_u128 r; s_im_u64_u128(&r, a); return r; }
void s_cv_s128_s8(int8_t *, vp_i128 *);
static int8_t c_cv_s128_s8(vp_i128 a) { int8_t r; s_cv_s128_s8(&r, &a); return r; }
void s_cv_s128_u8(uint8_t *, vp_i128 *);
static uint8_t c_cv_s128_u8(vp_i128 a) { uint8_t r; s_cv_s128_u8(&r, &a); return r; }
void s_cv_s128_s16(int16_t *, vp_i128 *);
static int16_t c_cv_s128_s16(vp_i128 a) { int16_t r; s_cv_s128_s16(&r, &a); return r; }
void s_cv_s128_u16(uint16_t *, vp_i128 *);
static uint16_t c_cv_s128_u16(vp_i128 a) { uint16_t r; s_cv_s128_u16(&r, &a); return r; }
void s_cv_s128_s32(int32_t *, vp_i128 *);
static int32_t c_cv_s128_s32(vp_i128 a) { int32_t r; s_cv_s128_s32(&r, &a); return r; }
void s_cv_s128_u32(uint32_t *, vp_i128 *);
static uint32_t c_cv_s128_u32(vp_i128 a) { uint32_t r; s_cv_s128_u32(&r, &a); return r; }
void s_cv_s128_s64(int64_t *, vp_i128 *);
static int64_t c_cv_s128_s64(vp_i128 a) { int64_t r; s_cv_s128_s64(&r, &a); return r; }
void s_cv_s128_u64(uint64_t *, vp_i128 *);
static uint64_t c_cv_s128_u64(vp_i128 a) { uint64_t r; s_cv_s128_u64(&r, &a); return r; }
void s_cv_s128_u128(vp_u128 *, vp_i128 *);
static vp_u128 c_cv_s128_u128(vp_i128 a) { vp_u128 r; s_cv_s128_u128(&r, &a); return r; }
void s_cv_u128_s8(int8_t *, vp_u128 *);
static int8_t c_cv_u128_s8(vp_u128 a) { int8_t r; s_cv_u128_s8(&r, &a); return r; }
void s_cv_u128_u8(uint8_t *, vp_u128 *);
static uint8_t c_cv_u128_u8(vp_u128 a) { uint8_t r; s_cv_u128_u8(&r, &a); return r; }
void s_cv_u128_s16(int16_t *, vp_u128 *);
static int16_t c_cv_u128_s16(vp_u128 a) { int16_t r; s_cv_u128_s16(&r, &a); return r; }
void s_cv_u128_u16(uint16_t *, vp_u128 *);
static uint16_t c_cv_u128_u16(vp_u128 a) { uint16_t r; s_cv_u128_u16(&r, &a); return r; }
void s_cv_u128_s32(int32_t *, vp_u128 *);
static int32_t c_cv_u128_s32(vp_u128 a) { int32_t r; s_cv_u128_s32(&r, &a); return r; }
void s_cv_u128_u32(uint32_t *, vp_u128 *);
static uint32_t c_cv_u128_u32(vp_u128 a) { uint32_t r; s_cv_u128_u32(&r, &a); return r; }
void s_cv_u128_s64(int64_t *, vp_u128 *);
static int64_t c_cv_u128_s64(vp_u128 a) { int64_t r; s_cv_u128_s64(&r, &a); return r; }
void s_cv_u128_u64(uint64_t *, vp_u128 *);
static uint64_t c_cv_u128_u64(vp_u128 a) { uint64_t r; s_cv_u128_u64(&r, &a); return r; }
void s_cv_u128_s128(vp_i128 *, vp_u128 *);
static vp_i128 c_cv_u128_s128(vp_u128 a) { vp_i128 r; s_cv_u128_s128(&r, &a); return r; }
int32_t c_mix_s8_s16(int8_t, int16_t);
int32_t c_mix_s8_s32(int8_t, int32_t);
int64_t c_mix_s8_s64(int8_t, int64_t);
void s_mix_s8_s128(vp_i128 *, int8_t, vp_i128 *);
static vp_i128 c_mix_s8_s128(int8_t a, vp_i128 b) { vp_i128 r; s_mix_s8_s128(&r, a, &b); return r; }
uint32_t c_mix_u8_u16(uint8_t, uint16_t);
uint32_t c_mix_u8_u32(uint8_t, uint32_t);
uint64_t c_mix_u8_u64(uint8_t, uint64_t);
void s_mix_u8_u128(vp_u128 *, uint8_t, vp_u128 *);
static vp_u128 c_mix_u8_u128(uint8_t a, vp_u128 b) { vp_u128 r; s_mix_u8_u128(&r, a, &b); return r; }
int32_t c_mix_s16_s8(int16_t, int8_t);
int32_t c_mix_s16_s32(int16_t, int32_t);
int64_t c_mix_s16_s64(int16_t, int64_t);
void s_mix_s16_s128(vp_i128 *, int16_t, vp_i128 *);
static vp_i128 c_mix_s16_s128(int16_t a, vp_i128 b) { vp_i128 r; s_mix_s16_s128(&r, a, &b); return r; }
uint32_t c_mix_u16_u8(uint16_t, uint8_t);
uint32_t c_mix_u16_u32(uint16_t, uint32_t);
uint64_t c_mix_u16_u64(uint16_t, uint64_t);
void s_mix_u16_u128(vp_u128 *, uint16_t, vp_u128 *);
static vp_u128 c_mix_u16_u128(uint16_t a, vp_u128 b) { vp_u128 r; s_mix_u16_u128(&r, a, &b); return r; }
int32_t c_mix_s32_s8(int32_t, int8_t);
int32_t c_mix_s32_s16(int32_t, int16_t);
int64_t c_mix_s32_s64(int32_t, int64_t);
void s_mix_s32_s128(vp_i128 *, int32_t, vp_i128 *);
static vp_i128 c_mix_s32_s128(int32_t a, vp_i128 b) { vp_i128 r; s_mix_s32_s128(&r, a, &b); return r; }
uint32_t c_mix_u32_u8(uint32_t, uint8_t);
uint32_t c_mix_u32_u16(uint32_t, uint16_t);
uint64_t c_mix_u32_u64(uint32_t, uint64_t);
void s_mix_u32_u128(vp_u128 *, uint32_t, vp_u128 *);
static vp_u128 c_mix_u32_u128(uint32_t a, vp_u128 b) { vp_u128 r; s_mix_u32_u128(&r, a, &b); return r; }
int64_t c_mix_s64_s8(int64_t, int8_t);
int64_t c_mix_s64_s16(int64_t, int16_t);
int64_t c_mix_s64_s32(int64_t, int32_t);
void s_mix_s64_s128(vp_i128 *, int64_t, vp_i128 *);
static vp_i128 c_mix_s64_s128(int64_t a, vp_i128 b) { vp_i128 r; s_mix_s64_s128(&r, a, &b); return r; }
uint64_t c_mix_u64_u8(uint64_t, uint8_t);
uint64_t c_mix_u64_u16(uint64_t, uint16_t);
uint64_t c_mix_u64_u32(uint64_t, uint32_t);
void s_mix_u64_u128(vp_u128 *, uint64_t, vp_u128 *);
static vp_u128 c_mix_u64_u128(uint64_t a, vp_u128 b) { vp_u128 r; s_mix_u64_u128(&r, a, &b); return r; }
void s_mix_s128_s8(vp_i128 *, vp_i128 *, int8_t);
static vp_i128 c_mix_s128_s8(vp_i128 a, int8_t b) { vp_i128 r; s_mix_s128_s8(&r, &a, b); return r; }
void s_mix_s128_s16(vp_i128 *, vp_i128 *, int16_t);
static vp_i128 c_mix_s128_s16(vp_i128 a, int16_t b) { vp_i128 r; s_mix_s128_s16(&r, &a, b); return r; }
void s_mix_s128_s32(vp_i128 *, vp_i128 *, int32_t);
static vp_i128 c_mix_s128_s32(vp_i128 a, int32_t b) { vp_i128 r; s_mix_s128_s32(&r, &a, b); return r; }
void s_mix_s128_s64(vp_i128 *, vp_i128 *, int64_t);
static vp_i128 c_mix_s128_s64(vp_i128 a, int64_t b) { vp_i128 r; s_mix_s128_s64(&r, &a, b); return r; }
void s_mix_u128_u8(vp_u128 *, vp_u128 *, uint8_t);
static vp_u128 c_mix_u128_u8(vp_u128 a, uint8_t b) { vp_u128 r; s_mix_u128_u8(&r, &a, b); return r; }
void s_mix_u128_u16(vp_u128 *, vp_u128 *, uint16_t);
static vp_u128 c_mix_u128_u16(vp_u128 a, uint16_t b) { vp_u128 r; s_mix_u128_u16(&r, &a, b); return r; }
void s_mix_u128_u32(vp_u128 *, vp_u128 *, uint32_t);
static vp_u128 c_mix_u128_u32(vp_u128 a, uint32_t b) { vp_u128 r; s_mix_u128_u32(&r, &a, b); return r; }
void s_mix_u128_u64(vp_u128 *, vp_u128 *, uint64_t);
static vp_u128 c_mix_u128_u64(vp_u128 a, uint64_t b) { vp_u128 r; s_mix_u128_u64(&r, &a, b); return r; }
int32_t c_klt_s8_0l(int8_t);
int32_t c_klt_s8_0r(int8_t);
int32_t c_klt_s8_1l(int8_t);
int32_t c_klt_s8_1r(int8_t);
int32_t c_klt_s8_2l(int8_t);
int32_t c_klt_s8_2r(int8_t);
int32_t c_klt_s8_3l(int8_t);
int32_t c_klt_s8_3r(int8_t);
int32_t c_klt_s8_4l(int8_t);
int32_t c_klt_s8_4r(int8_t);
int32_t c_klt_s8_5l(int8_t);
int32_t c_klt_s8_5r(int8_t);
int32_t c_klt_s8_6l(int8_t);
int32_t c_klt_s8_6r(int8_t);
int32_t c_klt_s8_7l(int8_t);
int32_t c_klt_s8_7r(int8_t);
int32_t c_klt_s8_8l(int8_t);
int32_t c_klt_s8_8r(int8_t);
int32_t c_klt_u8_0l(uint8_t);
int32_t c_klt_u8_0r(uint8_t);
int32_t c_klt_u8_1l(uint8_t);
int32_t c_klt_u8_1r(uint8_t);
int32_t c_klt_u8_2l(uint8_t);
int32_t c_klt_u8_2r(uint8_t);
int32_t c_klt_u8_3l(uint8_t);
int32_t c_klt_u8_3r(uint8_t);
int32_t c_klt_u8_4l(uint8_t);
int32_t c_klt_u8_4r(uint8_t);
int32_t c_klt_u8_5l(uint8_t);
int32_t c_klt_u8_5r(uint8_t);
int32_t c_klt_u8_6l(uint8_t);
int32_t c_klt_u8_6r(uint8_t);
int32_t c_klt_u8_7l(uint8_t);
int32_t c_klt_u8_7r(uint8_t);
int32_t c_klt_u8_8l(uint8_t);
int32_t c_klt_u8_8r(uint8_t);
int32_t c_klt_s16_0l(int16_t);
int32_t c_klt_s16_0r(int16_t);
int32_t c_klt_s16_1l(int16_t);
int32_t c_klt_s16_1r(int16_t);
int32_t c_klt_s16_2l(int16_t);
int32_t c_klt_s16_2r(int16_t);
int32_t c_klt_s16_3l(int16_t);
int32_t c_klt_s16_3r(int16_t);
int32_t c_klt_s16_4l(int16_t);
int32_t c_klt_s16_4r(int16_t);
int32_t c_klt_s16_5l(int16_t);
int32_t c_klt_s16_5r(int16_t);
int32_t c_klt_s16_6l(int16_t);
int32_t c_klt_s16_6r(int16_t);
int32_t c_klt_s16_7l(int16_t);
int32_t c_klt_s16_7r(int16_t);
int32_t c_klt_s16_8l(int16_t);
int32_t c_klt_s16_8r(int16_t);
int32_t c_klt_u16_0l(uint16_t);
int32_t c_klt_u16_0r(uint16_t);
int32_t c_klt_u16_1l(uint16_t);
int32_t c_klt_u16_1r(uint16_t);
int32_t c_klt_u16_2l(uint16_t);
int32_t c_klt_u16_2r(uint16_t);
int32_t c_klt_u16_3l(uint16_t);
int32_t c_klt_u16_3r(uint16_t);
int32_t c_klt_u16_4l(uint16_t);
int32_t c_klt_u16_4r(uint16_t);
int32_t c_klt_u16_5l(uint16_t);
int32_t c_klt_u16_5r(uint16_t);
int32_t c_klt_u16_6l(uint16_t);
int32_t c_klt_u16_6r(uint16_t);
int32_t c_klt_u16_7l(uint16_t);
int32_t c_klt_u16_7r(uint16_t);
int32_t c_klt_u16_8l(uint16_t);
int32_t c_klt_u16_8r(uint16_t);
int32_t c_klt_s32_0l(int32_t);
int32_t c_klt_s32_0r(int32_t);
int32_t c_klt_s32_1l(int32_t);
int32_t c_klt_s32_1r(int32_t);
int32_t c_klt_s32_2l(int32_t);
int32_t c_klt_s32_2r(int32_t);
int32_t c_klt_s32_3l(int32_t);
int32_t c_klt_s32_3r(int32_t);
int32_t c_klt_s32_4l(int32_t);
int32_t c_klt_s32_4r(int32_t);
int32_t c_klt_s32_5l(int32_t);
int32_t c_klt_s32_5r(int32_t);
int32_t c_klt_s32_6l(int32_t);
int32_t c_klt_s32_6r(int32_t);
int32_t c_klt_s32_7l(int32_t);
int32_t c_klt_s32_7r(int32_t);
int32_t c_klt_s32_8l(int32_t);
int32_t c_klt_s32_8r(int32_t);
int32_t c_klt_u32_0l(uint32_t);
int32_t c_klt_u32_0r(uint32_t);
int32_t c_klt_u32_1l(uint32_t);
int32_t c_klt_u32_1r(uint32_t);
int32_t c_klt_u32_2l(uint32_t);
int32_t c_klt_u32_2r(uint32_t);
int32_t c_klt_u32_3l(uint32_t);
int32_t c_klt_u32_3r(uint32_t);
int32_t c_klt_u32_4l(uint32_t);
int32_t c_klt_u32_4r(uint32_t);
int32_t c_klt_u32_5l(uint32_t);
int32_t c_klt_u32_5r(uint32_t);
int32_t c_klt_u32_6l(uint32_t);
int32_t c_klt_u32_6r(uint32_t);
int32_t c_klt_u32_7l(uint32_t);
int32_t c_klt_u32_7r(uint32_t);
int32_t c_klt_u32_8l(uint32_t);
int32_t c_klt_u32_8r(uint32_t);
int32_t c_klt_s64_0l(int64_t);
int32_t c_klt_s64_0r(int64_t);
int32_t c_klt_s64_1l(int64_t);
int32_t c_klt_s64_1r(int64_t);
int32_t c_klt_s64_2l(int64_t);
int32_t c_klt_s64_2r(int64_t);
int32_t c_klt_s64_3l(int64_t);
int32_t c_klt_s64_3r(int64_t);
int32_t c_klt_s64_4l(int64_t);
int32_t c_klt_s64_4r(int64_t);
int32_t c_klt_s64_5l(int64_t);
int32_t c_klt_s64_5r(int64_t);
int32_t c_klt_s64_6l(int64_t);
int32_t c_klt_s64_6r(int64_t);
int32_t c_klt_s64_7l(int64_t);
int32_t c_klt_s64_7r(int64_t);
int32_t c_klt_s64_8l(int64_t);
int32_t c_klt_s64_8r(int64_t);
int32_t c_klt_u64_0l(uint64_t);
int32_t c_klt_u64_0r(uint64_t);
int32_t c_klt_u64_1l(uint64_t);
int32_t c_klt_u64_1r(uint64_t);
int32_t c_klt_u64_2l(uint64_t);
int32_t c_klt_u64_2r(uint64_t);
int32_t c_klt_u64_3l(uint64_t);
int32_t c_klt_u64_3r(uint64_t);
int32_t c_klt_u64_4l(uint64_t);
int32_t c_klt_u64_4r(uint64_t);
int32_t c_klt_u64_5l(uint64_t);
int32_t c_klt_u64_5r(uint64_t);
int32_t c_klt_u64_6l(uint64_t);
int32_t c_klt_u64_6r(uint64_t);
int32_t c_klt_u64_7l(uint64_t);
int32_t c_klt_u64_7r(uint64_t);
int32_t c_klt_u64_8l(uint64_t);
int32_t c_klt_u64_8r(uint64_t);
void s_klt_s128_0l(int32_t *, vp_i128 *);
static int32_t c_klt_s128_0l(vp_i128 a) { int32_t r; s_klt_s128_0l(&r, &a); return r; }
void s_klt_s128_0r(int32_t *, vp_i128 *);
static int32_t c_klt_s128_0r(vp_i128 a) { int32_t r; s_klt_s128_0r(&r, &a); return r; }
void s_klt_s128_1l(int32_t *, vp_i128 *);
static int32_t c_klt_s128_1l(vp_i128 a) { int32_t r; s_klt_s128_1l(&r, &a); return r; }
void s_klt_s128_1r(int32_t *, vp_i128 *);
static int32_t c_klt_s128_1r(vp_i128 a) { int32_t r; s_klt_s128_1r(&r, &a); return r; }
void s_klt_s128_2l(int32_t *, vp_i128 *);
static int32_t c_klt_s128_2l(vp_i128 a) { int32_t r; s_klt_s128_2l(&r, &a); return r; }
void s_klt_s128_2r(int32_t *, vp_i128 *);
static int32_t c_klt_s128_2r(vp_i128 a) { int32_t r; s_klt_s128_2r(&r, &a); return r; }
void s_klt_s128_3l(int32_t *, vp_i128 *);
static int32_t c_klt_s128_3l(vp_i128 a) { int32_t r; s_klt_s128_3l(&r, &a); return r; }
void s_klt_s128_3r(int32_t *, vp_i128 *);
static int32_t c_klt_s128_3r(vp_i128 a) { int32_t r; s_klt_s128_3r(&r, &a); return r; }
void s_klt_s128_4l(int32_t *, vp_i128 *);
static int32_t c_klt_s128_4l(vp_i128 a) { int32_t r; s_klt_s128_4l(&r, &a); return r; }
void s_klt_s128_4r(int32_t *, vp_i128 *);
static int32_t c_klt_s128_4r(vp_i128 a) { int32_t r; s_klt_s128_4r(&r, &a); return r; }
void s_klt_s128_5l(int32_t *, vp_i128 *);
static int32_t c_klt_s128_5l(vp_i128 a) { int32_t r; s_klt_s128_5l(&r, &a); return r; }
void s_klt_s128_5r(int32_t *, vp_i128 *);
static int32_t c_klt_s128_5r(vp_i128 a) { int32_t r; s_klt_s128_5r(&r, &a); return r; }
void s_klt_s128_6l(int32_t *, vp_i128 *);
static int32_t c_klt_s128_6l(vp_i128 a) { int32_t r; s_klt_s128_6l(&r, &a); return r; }
void s_klt_s128_6r(int32_t *, vp_i128 *);
static int32_t c_klt_s128_6r(vp_i128 a) { int32_t r; s_klt_s128_6r(&r, &a); return r; }
void s_klt_s128_7l(int32_t *, vp_i128 *);
static int32_t c_klt_s128_7l(vp_i128 a) { int32_t r; s_klt_s128_7l(&r, &a); return r; }
void s_klt_s128_7r(int32_t *, vp_i128 *);
static int32_t c_klt_s128_7r(vp_i128 a) { int32_t r; s_klt_s128_7r(&r, &a); return r; }
void s_klt_s128_8l(int32_t *, vp_i128 *);
static int32_t c_klt_s128_8l(vp_i128 a) { int32_t r; s_klt_s128_8l(&r, &a); return r; }
void s_klt_s128_8r(int32_t *, vp_i128 *);
static int32_t c_klt_s128_8r(vp_i128 a) { int32_t r; s_klt_s128_8r(&r, &a); return r; }
void s_klt_u128_0l(int32_t *, vp_u128 *);
static int32_t c_klt_u128_0l(vp_u128 a) { int32_t r; s_klt_u128_0l(&r, &a); return r; }
void s_klt_u128_0r(int32_t *, vp_u128 *);
static int32_t c_klt_u128_0r(vp_u128 a) { int32_t r; s_klt_u128_0r(&r, &a); return r; }
void s_klt_u128_1l(int32_t *, vp_u128 *);
static int32_t c_klt_u128_1l(vp_u128 a) { int32_t r; s_klt_u128_1l(&r, &a); return r; }
void s_klt_u128_1r(int32_t *, vp_u128 *);
static int32_t c_klt_u128_1r(vp_u128 a) { int32_t r; s_klt_u128_1r(&r, &a); return r; }
void s_klt_u128_2l(int32_t *, vp_u128 *);
static int32_t c_klt_u128_2l(vp_u128 a) { int32_t r; s_klt_u128_2l(&r, &a); return r; }
void s_klt_u128_2r(int32_t *, vp_u128 *);
static int32_t c_klt_u128_2r(vp_u128 a) { int32_t r; s_klt_u128_2r(&r, &a); return r; }
void s_klt_u128_3l(int32_t *, vp_u128 *);
static int32_t c_klt_u128_3l(vp_u128 a) { int32_t r; s_klt_u128_3l(&r, &a); return r; }
void s_klt_u128_3r(int32_t *, vp_u128 *);
static int32_t c_klt_u128_3r(vp_u128 a) { int32_t r; s_klt_u128_3r(&r, &a); return r; }
void s_klt_u128_4l(int32_t *, vp_u128 *);
static int32_t c_klt_u128_4l(vp_u128 a) { int32_t r; s_klt_u128_4l(&r, &a); return r; }
void s_klt_u128_4r(int32_t *, vp_u128 *);
static int32_t c_klt_u128_4r(vp_u128 a) { int32_t r; s_klt_u128_4r(&r, &a); return r; }
void s_klt_u128_5l(int32_t *, vp_u128 *);
static int32_t c_klt_u128_5l(vp_u128 a) { int32_t r; s_klt_u128_5l(&r, &a); return r; }
void s_klt_u128_5r(int32_t *, vp_u128 *);
static int32_t c_klt_u128_5r(vp_u128 a) { int32_t r; s_klt_u128_5r(&r, &a); return r; }
void s_klt_u128_6l(int32_t *, vp_u128 *);
static int32_t c_klt_u128_6l(vp_u128 a) { int32_t r; s_klt_u128_6l(&r, &a); return r; }
void s_klt_u128_6r(int32_t *, vp_u128 *);
static int32_t c_klt_u128_6r(vp_u128 a) { int32_t r; s_klt_u128_6r(&r, &a); return r; }
void s_klt_u128_7l(int32_t *, vp_u128 *);
static int32_t c_klt_u128_7l(vp_u128 a) { int32_t r; s_klt_u128_7l(&r, &a); return r; }
void s_klt_u128_7r(int32_t *, vp_u128 *);
static int32_t c_klt_u128_7r(vp_u128 a) { int32_t r; s_klt_u128_7r(&r, &a); return r; }
void s_klt_u128_8l(int32_t *, vp_u128 *);
static int32_t c_klt_u128_8l(vp_u128 a) { int32_t r; s_klt_u128_8l(&r, &a); return r; }
void s_klt_u128_8r(int32_t *, vp_u128 *);
static int32_t c_klt_u128_8r(vp_u128 a) { int32_t r; s_klt_u128_8r(&r, &a); return r; }
int32_t c_kle_s8_0l(int8_t);
int32_t c_kle_s8_0r(int8_t);
int32_t c_kle_s8_1l(int8_t);
int32_t c_kle_s8_1r(int8_t);
int32_t c_kle_s8_2l(int8_t);
int32_t c_kle_s8_2r(int8_t);
int32_t c_kle_s8_3l(int8_t);
int32_t c_kle_s8_3r(int8_t);
int32_t c_kle_s8_4l(int8_t);
int32_t c_kle_s8_4r(int8_t);
int32_t c_kle_s8_5l(int8_t);
int32_t c_kle_s8_5r(int8_t);
int32_t c_kle_s8_6l(int8_t);
int32_t c_kle_s8_6r(int8_t);
int32_t c_kle_s8_7l(int8_t);
int32_t c_kle_s8_7r(int8_t);
int32_t c_kle_s8_8l(int8_t);
int32_t c_kle_s8_8r(int8_t);
int32_t c_kle_u8_0l(uint8_t);
int32_t c_kle_u8_0r(uint8_t);
int32_t c_kle_u8_1l(uint8_t);
int32_t c_kle_u8_1r(uint8_t);
int32_t c_kle_u8_2l(uint8_t);
int32_t c_kle_u8_2r(uint8_t);
int32_t c_kle_u8_3l(uint8_t);
int32_t c_kle_u8_3r(uint8_t);
int32_t c_kle_u8_4l(uint8_t);
int32_t c_kle_u8_4r(uint8_t);
int32_t c_kle_u8_5l(uint8_t);
int32_t c_kle_u8_5r(uint8_t);
int32_t c_kle_u8_6l(uint8_t);
int32_t c_kle_u8_6r(uint8_t);
int32_t c_kle_u8_7l(uint8_t);
int32_t c_kle_u8_7r(uint8_t);
int32_t c_kle_u8_8l(uint8_t);
int32_t c_kle_u8_8r(uint8_t);
int32_t c_kle_s16_0l(int16_t);
int32_t c_kle_s16_0r(int16_t);
int32_t c_kle_s16_1l(int16_t);
int32_t c_kle_s16_1r(int16_t);
int32_t c_kle_s16_2l(int16_t);
int32_t c_kle_s16_2r(int16_t);
int32_t c_kle_s16_3l(int16_t);
int32_t c_kle_s16_3r(int16_t);
int32_t c_kle_s16_4l(int16_t);
int32_t c_kle_s16_4r(int16_t);
int32_t c_kle_s16_5l(int16_t);
int32_t c_kle_s16_5r(int16_t);
int32_t c_kle_s16_6l(int16_t);
int32_t c_kle_s16_6r(int16_t);
int32_t c_kle_s16_7l(int16_t);
int32_t c_kle_s16_7r(int16_t);
int32_t c_kle_s16_8l(int16_t);
int32_t c_kle_s16_8r(int16_t);
int32_t c_kle_u16_0l(uint16_t);
int32_t c_kle_u16_0r(uint16_t);
int32_t c_kle_u16_1l(uint16_t);
int32_t c_kle_u16_1r(uint16_t);
int32_t c_kle_u16_2l(uint16_t);
int32_t c_kle_u16_2r(uint16_t);
int32_t c_kle_u16_3l(uint16_t);
int32_t c_kle_u16_3r(uint16_t);
int32_t c_kle_u16_4l(uint16_t);
int32_t c_kle_u16_4r(uint16_t);
int32_t c_kle_u16_5l(uint16_t);
int32_t c_kle_u16_5r(uint16_t);
int32_t c_kle_u16_6l(uint16_t);
int32_t c_kle_u16_6r(uint16_t);
int32_t c_kle_u16_7l(uint16_t);
int32_t c_kle_u16_7r(uint16_t);
int32_t c_kle_u16_8l(uint16_t);
int32_t c_kle_u16_8r(uint16_t);
int32_t c_kle_s32_0l(int32_t);
int32_t c_kle_s32_0r(int32_t);
int32_t c_kle_s32_1l(int32_t);
int32_t c_kle_s32_1r(int32_t);
int32_t c_kle_s32_2l(int32_t);
int32_t c_kle_s32_2r(int32_t);
int32_t c_kle_s32_3l(int32_t);
int32_t c_kle_s32_3r(int32_t);
int32_t c_kle_s32_4l(int32_t);
int32_t c_kle_s32_4r(int32_t);
int32_t c_kle_s32_5l(int32_t);
int32_t c_kle_s32_5r(int32_t);
int32_t c_kle_s32_6l(int32_t);
int32_t c_kle_s32_6r(int32_t);
int32_t c_kle_s32_7l(int32_t);
int32_t c_kle_s32_7r(int32_t);
int32_t c_kle_s32_8l(int32_t);
int32_t c_kle_s32_8r(int32_t);
int32_t c_kle_u32_0l(uint32_t);
int32_t c_kle_u32_0r(uint32_t);
int32_t c_kle_u32_1l(uint32_t);
int32_t c_kle_u32_1r(uint32_t);
int32_t c_kle_u32_2l(uint32_t);
int32_t c_kle_u32_2r(uint32_t);
int32_t c_kle_u32_3l(uint32_t);
int32_t c_kle_u32_3r(uint32_t);
int32_t c_kle_u32_4l(uint32_t);
int32_t c_kle_u32_4r(uint32_t);
int32_t c_kle_u32_5l(uint32_t);
int32_t c_kle_u32_5r(uint32_t);
int32_t c_kle_u32_6l(uint32_t);
int32_t c_kle_u32_6r(uint32_t);
int32_t c_kle_u32_7l(uint32_t);
int32_t c_kle_u32_7r(uint32_t);
int32_t c_kle_u32_8l(uint32_t);
int32_t c_kle_u32_8r(uint32_t);
int32_t c_kle_s64_0l(int64_t);
int32_t c_kle_s64_0r(int64_t);
int32_t c_kle_s64_1l(int64_t);
int32_t c_kle_s64_1r(int64_t);
int32_t c_kle_s64_2l(int64_t);
int32_t c_kle_s64_2r(int64_t);
int32_t c_kle_s64_3l(int64_t);
int32_t c_kle_s64_3r(int64_t);
int32_t c_kle_s64_4l(int64_t);
int32_t c_kle_s64_4r(int64_t);
int32_t c_kle_s64_5l(int64_t);
int32_t c_kle_s64_5r(int64_t);
int32_t c_kle_s64_6l(int64_t);
int32_t c_kle_s64_6r(int64_t);
int32_t c_kle_s64_7l(int64_t);
int32_t c_kle_s64_7r(int64_t);
int32_t c_kle_s64_8l(int64_t);
int32_t c_kle_s64_8r(int64_t);
int32_t c_kle_u64_0l(uint64_t);
int32_t c_kle_u64_0r(uint64_t);
int32_t c_kle_u64_1l(uint64_t);
int32_t c_kle_u64_1r(uint64_t);
int32_t c_kle_u64_2l(uint64_t);
int32_t c_kle_u64_2r(uint64_t);
int32_t c_kle_u64_3l(uint64_t);
int32_t c_kle_u64_3r(uint64_t);
int32_t c_kle_u64_4l(uint64_t);
int32_t c_kle_u64_4r(uint64_t);
int32_t c_kle_u64_5l(uint64_t);
int32_t c_kle_u64_5r(uint64_t);
int32_t c_kle_u64_6l(uint64_t);
int32_t c_kle_u64_6r(uint64_t);
int32_t c_kle_u64_7l(uint64_t);
int32_t c_kle_u64_7r(uint64_t);
int32_t c_kle_u64_8l(uint64_t);
int32_t c_kle_u64_8r(uint64_t);
void s_kle_s128_0l(int32_t *, vp_i128 *);
static int32_t c_kle_s128_0l(vp_i128 a) { int32_t r; s_kle_s128_0l(&r, &a); return r; }
void s_kle_s128_0r(int32_t *, vp_i128 *);
static int32_t c_kle_s128_0r(vp_i128 a) { int32_t r; s_kle_s128_0r(&r, &a); return r; }
void s_kle_s128_1l(int32_t *, vp_i128 *);
static int32_t c_kle_s128_1l(vp_i128 a) { int32_t r; s_kle_s128_1l(&r, &a); return r; }
void s_kle_s128_1r(int32_t *, vp_i128 *);
static int32_t c_kle_s128_1r(vp_i128 a) { int32_t r; s_kle_s128_1r(&r, &a); return r; }
void s_kle_s128_2l(int32_t *, vp_i128 *);
static int32_t c_kle_s128_2l(vp_i128 a) { int32_t r; s_kle_s128_2l(&r, &a); return r; }
void s_kle_s128_2r(int32_t *, vp_i128 *);
static int32_t c_kle_s128_2r(vp_i128 a) { int32_t r; s_kle_s128_2r(&r, &a); return r; }
void s_kle_s128_3l(int32_t *, vp_i128 *);
static int32_t c_kle_s128_3l(vp_i128 a) { int32_t r; s_kle_s128_3l(&r, &a); return r; }
void s_kle_s128_3r(int32_t *, vp_i128 *);
static int32_t c_kle_s128_3r(vp_i128 a) { int32_t r; s_kle_s128_3r(&r, &a); return r; }
void s_kle_s128_4l(int32_t *, vp_i128 *);
static int32_t c_kle_s128_4l(vp_i128 a) { int32_t r; s_kle_s128_4l(&r, &a); return r; }
void s_kle_s128_4r(int32_t *, vp_i128 *);
static int32_t c_kle_s128_4r(vp_i128 a) { int32_t r; s_kle_s128_4r(&r, &a); return r; }
void s_kle_s128_5l(int32_t *, vp_i128 *);
static int32_t c_kle_s128_5l(vp_i128 a) { int32_t r; s_kle_s128_5l(&r, &a); return r; }
void s_kle_s128_5r(int32_t *, vp_i128 *);
static int32_t c_kle_s128_5r(vp_i128 a) { int32_t r; s_kle_s128_5r(&r, &a); return r; }
void s_kle_s128_6l(int32_t *, vp_i128 *);
static int32_t c_kle_s128_6l(vp_i128 a) { int32_t r; s_kle_s128_6l(&r, &a); return r; }
void s_kle_s128_6r(int32_t *, vp_i128 *);
static int32_t c_kle_s128_6r(vp_i128 a) { int32_t r; s_kle_s128_6r(&r, &a); return r; }
void s_kle_s128_7l(int32_t *, vp_i128 *);
static int32_t c_kle_s128_7l(vp_i128 a) { int32_t r; s_kle_s128_7l(&r, &a); return r; }
void s_kle_s128_7r(int32_t *, vp_i128 *);
static int32_t c_kle_s128_7r(vp_i128 a) { int32_t r; s_kle_s128_7r(&r, &a); return r; }
void s_kle_s128_8l(int32_t *, vp_i128 *);
static int32_t c_kle_s128_8l(vp_i128 a) { int32_t r; s_kle_s128_8l(&r, &a); return r; }
void s_kle_s128_8r(int32_t *, vp_i128 *);
static int32_t c_kle_s128_8r(vp_i128 a) { int32_t r; s_kle_s128_8r(&r, &a); return r; }
void s_kle_u128_0l(int32_t *, vp_u128 *);
static int32_t c_kle_u128_0l(vp_u128 a) { int32_t r; s_kle_u128_0l(&r, &a); return r; }
void s_kle_u128_0r(int32_t *, vp_u128 *);
static int32_t c_kle_u128_0r(vp_u128 a) { int32_t r; s_kle_u128_0r(&r, &a); return r; }
void s_kle_u128_1l(int32_t *, vp_u128 *);
static int32_t c_kle_u128_1l(vp_u128 a) { int32_t r; s_kle_u128_1l(&r, &a); return r; }
void s_kle_u128_1r(int32_t *, vp_u128 *);
static int32_t c_kle_u128_1r(vp_u128 a) { int32_t r; s_kle_u128_1r(&r, &a); return r; }
void s_kle_u128_2l(int32_t *, vp_u128 *);
static int32_t c_kle_u128_2l(vp_u128 a) { int32_t r; s_kle_u128_2l(&r, &a); return r; }
void s_kle_u128_2r(int32_t *, vp_u128 *);
static int32_t c_kle_u128_2r(vp_u128 a) { int32_t r; s_kle_u128_2r(&r, &a); return r; }
void s_kle_u128_3l(int32_t *, vp_u128 *);
static int32_t c_kle_u128_3l(vp_u128 a) { int32_t r; s_kle_u128_3l(&r, &a); return r; }
void s_kle_u128_3r(int32_t *, vp_u128 *);
static int32_t c_kle_u128_3r(vp_u128 a) { int32_t r; s_kle_u128_3r(&r, &a); return r; }
void s_kle_u128_4l(int32_t *, vp_u128 *);
static int32_t c_kle_u128_4l(vp_u128 a) { int32_t r; s_kle_u128_4l(&r, &a); return r; }
void s_kle_u128_4r(int32_t *, vp_u128 *);
static int32_t c_kle_u128_4r(vp_u128 a) { int32_t r; s_kle_u128_4r(&r, &a); return r; }
void s_kle_u128_5l(int32_t *, vp_u128 *);
static int32_t c_kle_u128_5l(vp_u128 a) { int32_t r; s_kle_u128_5l(&r, &a); return r; }
void s_kle_u128_5r(int32_t *, vp_u128 *);
static int32_t c_kle_u128_5r(vp_u128 a) { int32_t r; s_kle_u128_5r(&r, &a); return r; }
void s_kle_u128_6l(int32_t *, vp_u128 *);
static int32_t c_kle_u128_6l(vp_u128 a) { int32_t r; s_kle_u128_6l(&r, &a); return r; }
void s_kle_u128_6r(int32_t *, vp_u128 *);
static int32_t c_kle_u128_6r(vp_u128 a) { int32_t r; s_kle_u128_6r(&r, &a); return r; }
void s_kle_u128_7l(int32_t *, vp_u128 *);
static int32_t c_kle_u128_7l(vp_u128 a) { int32_t r; s_kle_u128_7l(&r, &a); return r; }
void s_kle_u128_7r(int32_t *, vp_u128 *);
static int32_t c_kle_u128_7r(vp_u128 a) { int32_t r; s_kle_u128_7r(&r, &a); return r; }
void s_kle_u128_8l(int32_t *, vp_u128 *);
static int32_t c_kle_u128_8l(vp_u128 a) { int32_t r; s_kle_u128_8l(&r, &a); return r; }
void s_kle_u128_8r(int32_t *, vp_u128 *);
static int32_t c_kle_u128_8r(vp_u128 a) { int32_t r; s_kle_u128_8r(&r, &a); return r; }
int32_t c_kgt_s8_0l(int8_t);
int32_t c_kgt_s8_0r(int8_t);
int32_t c_kgt_s8_1l(int8_t);
int32_t c_kgt_s8_1r(int8_t);
int32_t c_kgt_s8_2l(int8_t);
int32_t c_kgt_s8_2r(int8_t);
int32_t c_kgt_s8_3l(int8_t);
int32_t c_kgt_s8_3r(int8_t);
int32_t c_kgt_s8_4l(int8_t);
int32_t c_kgt_s8_4r(int8_t);
int32_t c_kgt_s8_5l(int8_t);
int32_t c_kgt_s8_5r(int8_t);
int32_t c_kgt_s8_6l(int8_t);
int32_t c_kgt_s8_6r(int8_t);
int32_t c_kgt_s8_7l(int8_t);
int32_t c_kgt_s8_7r(int8_t);
int32_t c_kgt_s8_8l(int8_t);
int32_t c_kgt_s8_8r(int8_t);
int32_t c_kgt_u8_0l(uint8_t);
int32_t c_kgt_u8_0r(uint8_t);
int32_t c_kgt_u8_1l(uint8_t);
int32_t c_kgt_u8_1r(uint8_t);
int32_t c_kgt_u8_2l(uint8_t);
int32_t c_kgt_u8_2r(uint8_t);
int32_t c_kgt_u8_3l(uint8_t);
int32_t c_kgt_u8_3r(uint8_t);
int32_t c_kgt_u8_4l(uint8_t);
int32_t c_kgt_u8_4r(uint8_t);
int32_t c_kgt_u8_5l(uint8_t);
int32_t c_kgt_u8_5r(uint8_t);
int32_t c_kgt_u8_6l(uint8_t);
int32_t c_kgt_u8_6r(uint8_t);
int32_t c_kgt_u8_7l(uint8_t);
int32_t c_kgt_u8_7r(uint8_t);
int32_t c_kgt_u8_8l(uint8_t);
int32_t c_kgt_u8_8r(uint8_t);
int32_t c_kgt_s16_0l(int16_t);
int32_t c_kgt_s16_0r(int16_t);
int32_t c_kgt_s16_1l(int16_t);
int32_t c_kgt_s16_1r(int16_t);
int32_t c_kgt_s16_2l(int16_t);
int32_t c_kgt_s16_2r(int16_t);
int32_t c_kgt_s16_3l(int16_t);
int32_t c_kgt_s16_3r(int16_t);
int32_t c_kgt_s16_4l(int16_t);
int32_t c_kgt_s16_4r(int16_t);
int32_t c_kgt_s16_5l(int16_t);
int32_t c_kgt_s16_5r(int16_t);
int32_t c_kgt_s16_6l(int16_t);
int32_t c_kgt_s16_6r(int16_t);
int32_t c_kgt_s16_7l(int16_t);
int32_t c_kgt_s16_7r(int16_t);
int32_t c_kgt_s16_8l(int16_t);
int32_t c_kgt_s16_8r(int16_t);
int32_t c_kgt_u16_0l(uint16_t);
int32_t c_kgt_u16_0r(uint16_t);
int32_t c_kgt_u16_1l(uint16_t);
int32_t c_kgt_u16_1r(uint16_t);
int32_t c_kgt_u16_2l(uint16_t);
int32_t c_kgt_u16_2r(uint16_t);
int32_t c_kgt_u16_3l(uint16_t);
int32_t c_kgt_u16_3r(uint16_t);
int32_t c_kgt_u16_4l(uint16_t);
int32_t c_kgt_u16_4r(uint16_t);
int32_t c_kgt_u16_5l(uint16_t);
int32_t c_kgt_u16_5r(uint16_t);
int32_t c_kgt_u16_6l(uint16_t);
int32_t c_kgt_u16_6r(uint16_t);
int32_t c_kgt_u16_7l(uint16_t);
int32_t c_kgt_u16_7r(uint16_t);
int32_t c_kgt_u16_8l(uint16_t);
int32_t c_kgt_u16_8r(uint16_t);
int32_t c_kgt_s32_0l(int32_t);
int32_t c_kgt_s32_0r(int32_t);
int32_t c_kgt_s32_1l(int32_t);
int32_t c_kgt_s32_1r(int32_t);
int32_t c_kgt_s32_2l(int32_t);
int32_t c_kgt_s32_2r(int32_t);
int32_t c_kgt_s32_3l(int32_t);
int32_t c_kgt_s32_3r(int32_t);
int32_t c_kgt_s32_4l(int32_t);
int32_t c_kgt_s32_4r(int32_t);
int32_t c_kgt_s32_5l(int32_t);
int32_t c_kgt_s32_5r(int32_t);
int32_t c_kgt_s32_6l(int32_t);
int32_t c_kgt_s32_6r(int32_t);
int32_t c_kgt_s32_7l(int32_t);
int32_t c_kgt_s32_7r(int32_t);
int32_t c_kgt_s32_8l(int32_t);
int32_t c_kgt_s32_8r(int32_t);
int32_t c_kgt_u32_0l(uint32_t);
int32_t c_kgt_u32_0r(uint32_t);
int32_t c_kgt_u32_1l(uint32_t);
int32_t c_kgt_u32_1r(uint32_t);
int32_t c_kgt_u32_2l(uint32_t);
int32_t c_kgt_u32_2r(uint32_t);
int32_t c_kgt_u32_3l(uint32_t);
int32_t c_kgt_u32_3r(uint32_t);
int32_t c_kgt_u32_4l(uint32_t);
int32_t c_kgt_u32_4r(uint32_t);
int32_t c_kgt_u32_5l(uint32_t);
int32_t c_kgt_u32_5r(uint32_t);
int32_t c_kgt_u32_6l(uint32_t);
int32_t c_kgt_u32_6r(uint32_t);
int32_t c_kgt_u32_7l(uint32_t);
int32_t c_kgt_u32_7r(uint32_t);
int32_t c_kgt_u32_8l(uint32_t);
int32_t c_kgt_u32_8r(uint32_t);
int32_t c_kgt_s64_0l(int64_t);
int32_t c_kgt_s64_0r(int64_t);
int32_t c_kgt_s64_1l(int64_t);
int32_t c_kgt_s64_1r(int64_t);
int32_t c_kgt_s64_2l(int64_t);
int32_t c_kgt_s64_2r(int64_t);
int32_t c_kgt_s64_3l(int64_t);
int32_t c_kgt_s64_3r(int64_t);
int32_t c_kgt_s64_4l(int64_t);
int32_t c_kgt_s64_4r(int64_t);
int32_t c_kgt_s64_5l(int64_t);
int32_t c_kgt_s64_5r(int64_t);
int32_t c_kgt_s64_6l(int64_t);
int32_t c_kgt_s64_6r(int64_t);
int32_t c_kgt_s64_7l(int64_t);
int32_t c_kgt_s64_7r(int64_t);
int32_t c_kgt_s64_8l(int64_t);
int32_t c_kgt_s64_8r(int64_t);
int32_t c_kgt_u64_0l(uint64_t);
int32_t c_kgt_u64_0r(uint64_t);
int32_t c_kgt_u64_1l(uint64_t);
int32_t c_kgt_u64_1r(uint64_t);
int32_t c_kgt_u64_2l(uint64_t);
int32_t c_kgt_u64_2r(uint64_t);
int32_t c_kgt_u64_3l(uint64_t);
int32_t c_kgt_u64_3r(uint64_t);
int32_t c_kgt_u64_4l(uint64_t);
int32_t c_kgt_u64_4r(uint64_t);
int32_t c_kgt_u64_5l(uint64_t);
int32_t c_kgt_u64_5r(uint64_t);
int32_t c_kgt_u64_6l(uint64_t);
int32_t c_kgt_u64_6r(uint64_t);
int32_t c_kgt_u64_7l(uint64_t);
int32_t c_kgt_u64_7r(uint64_t);
int32_t c_kgt_u64_8l(uint64_t);
int32_t c_kgt_u64_8r(uint64_t);
void s_kgt_s128_0l(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_0l(vp_i128 a) { int32_t r; s_kgt_s128_0l(&r, &a); return r; }
void s_kgt_s128_0r(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_0r(vp_i128 a) { int32_t r; s_kgt_s128_0r(&r, &a); return r; }
void s_kgt_s128_1l(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_1l(vp_i128 a) { int32_t r; s_kgt_s128_1l(&r, &a); return r; }
void s_kgt_s128_1r(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_1r(vp_i128 a) { int32_t r; s_kgt_s128_1r(&r, &a); return r; }
void s_kgt_s128_2l(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_2l(vp_i128 a) { int32_t r; s_kgt_s128_2l(&r, &a); return r; }
void s_kgt_s128_2r(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_2r(vp_i128 a) { int32_t r; s_kgt_s128_2r(&r, &a); return r; }
void s_kgt_s128_3l(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_3l(vp_i128 a) { int32_t r; s_kgt_s128_3l(&r, &a); return r; }
void s_kgt_s128_3r(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_3r(vp_i128 a) { int32_t r; s_kgt_s128_3r(&r, &a); return r; }
void s_kgt_s128_4l(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_4l(vp_i128 a) { int32_t r; s_kgt_s128_4l(&r, &a); return r; }
void s_kgt_s128_4r(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_4r(vp_i128 a) { int32_t r; s_kgt_s128_4r(&r, &a); return r; }
void s_kgt_s128_5l(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_5l(vp_i128 a) { int32_t r; s_kgt_s128_5l(&r, &a); return r; }
void s_kgt_s128_5r(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_5r(vp_i128 a) { int32_t r; s_kgt_s128_5r(&r, &a); return r; }
void s_kgt_s128_6l(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_6l(vp_i128 a) { int32_t r; s_kgt_s128_6l(&r, &a); return r; }
void s_kgt_s128_6r(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_6r(vp_i128 a) { int32_t r; s_kgt_s128_6r(&r, &a); return r; }
void s_kgt_s128_7l(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_7l(vp_i128 a) { int32_t r; s_kgt_s128_7l(&r, &a); return r; }
void s_kgt_s128_7r(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_7r(vp_i128 a) { int32_t r; s_kgt_s128_7r(&r, &a); return r; }
void s_kgt_s128_8l(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_8l(vp_i128 a) { int32_t r; s_kgt_s128_8l(&r, &a); return r; }
void s_kgt_s128_8r(int32_t *, vp_i128 *);
static int32_t c_kgt_s128_8r(vp_i128 a) { int32_t r; s_kgt_s128_8r(&r, &a); return r; }
void s_kgt_u128_0l(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_0l(vp_u128 a) { int32_t r; s_kgt_u128_0l(&r, &a); return r; }
void s_kgt_u128_0r(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_0r(vp_u128 a) { int32_t r; s_kgt_u128_0r(&r, &a); return r; }
void s_kgt_u128_1l(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_1l(vp_u128 a) { int32_t r; s_kgt_u128_1l(&r, &a); return r; }
void s_kgt_u128_1r(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_1r(vp_u128 a) { int32_t r; s_kgt_u128_1r(&r, &a); return r; }
void s_kgt_u128_2l(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_2l(vp_u128 a) { int32_t r; s_kgt_u128_2l(&r, &a); return r; }
void s_kgt_u128_2r(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_2r(vp_u128 a) { int32_t r; s_kgt_u128_2r(&r, &a); return r; }
void s_kgt_u128_3l(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_3l(vp_u128 a) { int32_t r; s_kgt_u128_3l(&r, &a); return r; }
void s_kgt_u128_3r(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_3r(vp_u128 a) { int32_t r; s_kgt_u128_3r(&r, &a); return r; }
void s_kgt_u128_4l(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_4l(vp_u128 a) { int32_t r; s_kgt_u128_4l(&r, &a); return r; }
void s_kgt_u128_4r(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_4r(vp_u128 a) { int32_t r; s_kgt_u128_4r(&r, &a); return r; }
void s_kgt_u128_5l(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_5l(vp_u128 a) { int32_t r; s_kgt_u128_5l(&r, &a); return r; }
void s_kgt_u128_5r(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_5r(vp_u128 a) { int32_t r; s_kgt_u128_5r(&r, &a); return r; }
void s_kgt_u128_6l(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_6l(vp_u128 a) { int32_t r; s_kgt_u128_6l(&r, &a); return r; }
void s_kgt_u128_6r(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_6r(vp_u128 a) { int32_t r; s_kgt_u128_6r(&r, &a); return r; }
void s_kgt_u128_7l(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_7l(vp_u128 a) { int32_t r; s_kgt_u128_7l(&r, &a); return r; }
void s_kgt_u128_7r(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_7r(vp_u128 a) { int32_t r; s_kgt_u128_7r(&r, &a); return r; }
void s_kgt_u128_8l(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_8l(vp_u128 a) { int32_t r; s_kgt_u128_8l(&r, &a); return r; }
void s_kgt_u128_8r(int32_t *, vp_u128 *);
static int32_t c_kgt_u128_8r(vp_u128 a) { int32_t r; s_kgt_u128_8r(&r, &a); return r; }
int32_t c_kge_s8_0l(int8_t);
int32_t c_kge_s8_0r(int8_t);
int32_t c_kge_s8_1l(int8_t);
int32_t c_kge_s8_1r(int8_t);
int32_t c_kge_s8_2l(int8_t);
int32_t c_kge_s8_2r(int8_t);
int32_t c_kge_s8_3l(int8_t);
int32_t c_kge_s8_3r(int8_t);
int32_t c_kge_s8_4l(int8_t);
int32_t c_kge_s8_4r(int8_t);
int32_t c_kge_s8_5l(int8_t);
int32_t c_kge_s8_5r(int8_t);
int32_t c_kge_s8_6l(int8_t);
int32_t c_kge_s8_6r(int8_t);
int32_t c_kge_s8_7l(int8_t);
int32_t c_kge_s8_7r(int8_t);
int32_t c_kge_s8_8l(int8_t);
int32_t c_kge_s8_8r(int8_t);
int32_t c_kge_u8_0l(uint8_t);
int32_t c_kge_u8_0r(uint8_t);
int32_t c_kge_u8_1l(uint8_t);
int32_t c_kge_u8_1r(uint8_t);
int32_t c_kge_u8_2l(uint8_t);
int32_t c_kge_u8_2r(uint8_t);
int32_t c_kge_u8_3l(uint8_t);
int32_t c_kge_u8_3r(uint8_t);
int32_t c_kge_u8_4l(uint8_t);
int32_t c_kge_u8_4r(uint8_t);
int32_t c_kge_u8_5l(uint8_t);
int32_t c_kge_u8_5r(uint8_t);
int32_t c_kge_u8_6l(uint8_t);
int32_t c_kge_u8_6r(uint8_t);
int32_t c_kge_u8_7l(uint8_t);
int32_t c_kge_u8_7r(uint8_t);
int32_t c_kge_u8_8l(uint8_t);
int32_t c_kge_u8_8r(uint8_t);
int32_t c_kge_s16_0l(int16_t);
int32_t c_kge_s16_0r(int16_t);
int32_t c_kge_s16_1l(int16_t);
int32_t c_kge_s16_1r(int16_t);
int32_t c_kge_s16_2l(int16_t);
int32_t c_kge_s16_2r(int16_t);
int32_t c_kge_s16_3l(int16_t);
int32_t c_kge_s16_3r(int16_t);
int32_t c_kge_s16_4l(int16_t);
int32_t c_kge_s16_4r(int16_t);
int32_t c_kge_s16_5l(int16_t);
int32_t c_kge_s16_5r(int16_t);
int32_t c_kge_s16_6l(int16_t);
int32_t c_kge_s16_6r(int16_t);
int32_t c_kge_s16_7l(int16_t);
int32_t c_kge_s16_7r(int16_t);
int32_t c_kge_s16_8l(int16_t);
int32_t c_kge_s16_8r(int16_t);
int32_t c_kge_u16_0l(uint16_t);
int32_t c_kge_u16_0r(uint16_t);
int32_t c_kge_u16_1l(uint16_t);
int32_t c_kge_u16_1r(uint16_t);
int32_t c_kge_u16_2l(uint16_t);
int32_t c_kge_u16_2r(uint16_t);
int32_t c_kge_u16_3l(uint16_t);
int32_t c_kge_u16_3r(uint16_t);
int32_t c_kge_u16_4l(uint16_t);
int32_t c_kge_u16_4r(uint16_t);
int32_t c_kge_u16_5l(uint16_t);
int32_t c_kge_u16_5r(uint16_t);
int32_t c_kge_u16_6l(uint16_t);
int32_t c_kge_u16_6r(uint16_t);
int32_t c_kge_u16_7l(uint16_t);
int32_t c_kge_u16_7r(uint16_t);
int32_t c_kge_u16_8l(uint16_t);
int32_t c_kge_u16_8r(uint16_t);
int32_t c_kge_s32_0l(int32_t);
int32_t c_kge_s32_0r(int32_t);
int32_t c_kge_s32_1l(int32_t);
int32_t c_kge_s32_1r(int32_t);
int32_t c_kge_s32_2l(int32_t);
int32_t c_kge_s32_2r(int32_t);
int32_t c_kge_s32_3l(int32_t);
int32_t c_kge_s32_3r(int32_t);
int32_t c_kge_s32_4l(int32_t);
int32_t c_kge_s32_4r(int32_t);
int32_t c_kge_s32_5l(int32_t);
int32_t c_kge_s32_5r(int32_t);
int32_t c_kge_s32_6l(int32_t);
int32_t c_kge_s32_6r(int32_t);
int32_t c_kge_s32_7l(int32_t);
int32_t c_kge_s32_7r(int32_t);
int32_t c_kge_s32_8l(int32_t);
int32_t c_kge_s32_8r(int32_t);
int32_t c_kge_u32_0l(uint32_t);
int32_t c_kge_u32_0r(uint32_t);
int32_t c_kge_u32_1l(uint32_t);
int32_t c_kge_u32_1r(uint32_t);
int32_t c_kge_u32_2l(uint32_t);
int32_t c_kge_u32_2r(uint32_t);
int32_t c_kge_u32_3l(uint32_t);
int32_t c_kge_u32_3r(uint32_t);
int32_t c_kge_u32_4l(uint32_t);
int32_t c_kge_u32_4r(uint32_t);
int32_t c_kge_u32_5l(uint32_t);
int32_t c_kge_u32_5r(uint32_t);
int32_t c_kge_u32_6l(uint32_t);
int32_t c_kge_u32_6r(uint32_t);
int32_t c_kge_u32_7l(uint32_t);
int32_t c_kge_u32_7r(uint32_t);
int32_t c_kge_u32_8l(uint32_t);
int32_t c_kge_u32_8r(uint32_t);
int32_t c_kge_s64_0l(int64_t);
int32_t c_kge_s64_0r(int64_t);
int32_t c_kge_s64_1l(int64_t);
int32_t c_kge_s64_1r(int64_t);
int32_t c_kge_s64_2l(int64_t);
int32_t c_kge_s64_2r(int64_t);
int32_t c_kge_s64_3l(int64_t);
int32_t c_kge_s64_3r(int64_t);
int32_t c_kge_s64_4l(int64_t);
int32_t c_kge_s64_4r(int64_t);
int32_t c_kge_s64_5l(int64_t);
int32_t c_kge_s64_5r(int64_t);
int32_t c_kge_s64_6l(int64_t);
int32_t c_kge_s64_6r(int64_t);
int32_t c_kge_s64_7l(int64_t);
int32_t c_kge_s64_7r(int64_t);
int32_t c_kge_s64_8l(int64_t);
int32_t c_kge_s64_8r(int64_t);
int32_t c_kge_u64_0l(uint64_t);
int32_t c_kge_u64_0r(uint64_t);
int32_t c_kge_u64_1l(uint64_t);
int32_t c_kge_u64_1r(uint64_t);
int32_t c_kge_u64_2l(uint64_t);
int32_t c_kge_u64_2r(uint64_t);
int32_t c_kge_u64_3l(uint64_t);
int32_t c_kge_u64_3r(uint64_t);
int32_t c_kge_u64_4l(uint64_t);
int32_t c_kge_u64_4r(uint64_t);
int32_t c_kge_u64_5l(uint64_t);
int32_t c_kge_u64_5r(uint64_t);
int32_t c_kge_u64_6l(uint64_t);
int32_t c_kge_u64_6r(uint64_t);
int32_t c_kge_u64_7l(uint64_t);
int32_t c_kge_u64_7r(uint64_t);
int32_t c_kge_u64_8l(uint64_t);
int32_t c_kge_u64_8r(uint64_t);
void s_kge_s128_0l(int32_t *, vp_i128 *);
static int32_t c_kge_s128_0l(vp_i128 a) { int32_t r; s_kge_s128_0l(&r, &a); return r; }
void s_kge_s128_0r(int32_t *, vp_i128 *);
static int32_t c_kge_s128_0r(vp_i128 a) { int32_t r; s_kge_s128_0r(&r, &a); return r; }
void s_kge_s128_1l(int32_t *, vp_i128 *);
static int32_t c_kge_s128_1l(vp_i128 a) { int32_t r; s_kge_s128_1l(&r, &a); return r; }
void s_kge_s128_1r(int32_t *, vp_i128 *);
static int32_t c_kge_s128_1r(vp_i128 a) { int32_t r; s_kge_s128_1r(&r, &a); return r; }
void s_kge_s128_2l(int32_t *, vp_i128 *);
static int32_t c_kge_s128_2l(vp_i128 a) { int32_t r; s_kge_s128_2l(&r, &a); return r; }
void s_kge_s128_2r(int32_t *, vp_i128 *);
static int32_t c_kge_s128_2r(vp_i128 a) { int32_t r; s_kge_s128_2r(&r, &a); return r; }
void s_kge_s128_3l(int32_t *, vp_i128 *);
static int32_t c_kge_s128_3l(vp_i128 a) { int32_t r; s_kge_s128_3l(&r, &a); return r; }
void s_kge_s128_3r(int32_t *, vp_i128 *);
static int32_t c_kge_s128_3r(vp_i128 a) { int32_t r; s_kge_s128_3r(&r, &a); return r; }
void s_kge_s128_4l(int32_t *, vp_i128 *);
static int32_t c_kge_s128_4l(vp_i128 a) { int32_t r; s_kge_s128_4l(&r, &a); return r; }
void s_kge_s128_4r(int32_t *, vp_i128 *);
static int32_t c_kge_s128_4r(vp_i128 a) { int32_t r; s_kge_s128_4r(&r, &a); return r; }
void s_kge_s128_5l(int32_t *, vp_i128 *);
static int32_t c_kge_s128_5l(vp_i128 a) { int32_t r; s_kge_s128_5l(&r, &a); return r; }
void s_kge_s128_5r(int32_t *, vp_i128 *);
static int32_t c_kge_s128_5r(vp_i128 a) { int32_t r; s_kge_s128_5r(&r, &a); return r; }
void s_kge_s128_6l(int32_t *, vp_i128 *);
static int32_t c_kge_s128_6l(vp_i128 a) { int32_t r; s_kge_s128_6l(&r, &a); return r; }
void s_kge_s128_6r(int32_t *, vp_i128 *);
static int32_t c_kge_s128_6r(vp_i128 a) { int32_t r; s_kge_s128_6r(&r, &a); return r; }
void s_kge_s128_7l(int32_t *, vp_i128 *);
static int32_t c_kge_s128_7l(vp_i128 a) { int32_t r; s_kge_s128_7l(&r, &a); return r; }
void s_kge_s128_7r(int32_t *, vp_i128 *);
static int32_t c_kge_s128_7r(vp_i128 a) { int32_t r; s_kge_s128_7r(&r, &a); return r; }
void s_kge_s128_8l(int32_t *, vp_i128 *);
static int32_t c_kge_s128_8l(vp_i128 a) { int32_t r; s_kge_s128_8l(&r, &a); return r; }
void s_kge_s128_8r(int32_t *, vp_i128 *);
static int32_t c_kge_s128_8r(vp_i128 a) { int32_t r; s_kge_s128_8r(&r, &a); return r; }
void s_kge_u128_0l(int32_t *, vp_u128 *);
static int32_t c_kge_u128_0l(vp_u128 a) { int32_t r; s_kge_u128_0l(&r, &a); return r; }
void s_kge_u128_0r(int32_t *, vp_u128 *);
static int32_t c_kge_u128_0r(vp_u128 a) { int32_t r; s_kge_u128_0r(&r, &a); return r; }
void s_kge_u128_1l(int32_t *, vp_u128 *);
static int32_t c_kge_u128_1l(vp_u128 a) { int32_t r; s_kge_u128_1l(&r, &a); return r; }
void s_kge_u128_1r(int32_t *, vp_u128 *);
static int32_t c_kge_u128_1r(vp_u128 a) { int32_t r; s_kge_u128_1r(&r, &a); return r; }
void s_kge_u128_2l(int32_t *, vp_u128 *);
static int32_t c_kge_u128_2l(vp_u128 a) { int32_t r; s_kge_u128_2l(&r, &a); return r; }
void s_kge_u128_2r(int32_t *, vp_u128 *);
static int32_t c_kge_u128_2r(vp_u128 a) { int32_t r; s_kge_u128_2r(&r, &a); return r; }
void s_kge_u128_3l(int32_t *, vp_u128 *);
static int32_t c_kge_u128_3l(vp_u128 a) { int32_t r; s_kge_u128_3l(&r, &a); return r; }
void s_kge_u128_3r(int32_t *, vp_u128 *);
static int32_t c_kge_u128_3r(vp_u128 a) { int32_t r; s_kge_u128_3r(&r, &a); return r; }
void s_kge_u128_4l(int32_t *, vp_u128 *);
static int32_t c_kge_u128_4l(vp_u128 a) { int32_t r; s_kge_u128_4l(&r, &a); return r; }
void s_kge_u128_4r(int32_t *, vp_u128 *);
static int32_t c_kge_u128_4r(vp_u128 a) { int32_t r; s_kge_u128_4r(&r, &a); return r; }
void s_kge_u128_5l(int32_t *, vp_u128 *);
static int32_t c_kge_u128_5l(vp_u128 a) { int32_t r; s_kge_u128_5l(&r, &a); return r; }
void s_kge_u128_5r(int32_t *, vp_u128 *);
static int32_t c_kge_u128_5r(vp_u128 a) { int32_t r; s_kge_u128_5r(&r, &a); return r; }
void s_kge_u128_6l(int32_t *, vp_u128 *);
static int32_t c_kge_u128_6l(vp_u128 a) { int32_t r; s_kge_u128_6l(&r, &a); return r; }
void s_kge_u128_6r(int32_t *, vp_u128 *);
static int32_t c_kge_u128_6r(vp_u128 a) { int32_t r; s_kge_u128_6r(&r, &a); return r; }
void s_kge_u128_7l(int32_t *, vp_u128 *);
static int32_t c_kge_u128_7l(vp_u128 a) { int32_t r; s_kge_u128_7l(&r, &a); return r; }
void s_kge_u128_7r(int32_t *, vp_u128 *);
static int32_t c_kge_u128_7r(vp_u128 a) { int32_t r; s_kge_u128_7r(&r, &a); return r; }
void s_kge_u128_8l(int32_t *, vp_u128 *);
static int32_t c_kge_u128_8l(vp_u128 a) { int32_t r; s_kge_u128_8l(&r, &a); return r; }
void s_kge_u128_8r(int32_t *, vp_u128 *);
static int32_t c_kge_u128_8r(vp_u128 a) { int32_t r; s_kge_u128_8r(&r, &a); return r; }
int32_t c_keq_s8_0l(int8_t);
int32_t c_keq_s8_0r(int8_t);
int32_t c_keq_s8_1l(int8_t);
int32_t c_keq_s8_1r(int8_t);
int32_t c_keq_s8_2l(int8_t);
int32_t c_keq_s8_2r(int8_t);
int32_t c_keq_s8_3l(int8_t);
int32_t c_keq_s8_3r(int8_t);
int32_t c_keq_s8_4l(int8_t);
int32_t c_keq_s8_4r(int8_t);
int32_t c_keq_s8_5l(int8_t);
int32_t c_keq_s8_5r(int8_t);
int32_t c_keq_s8_6l(int8_t);
int32_t c_keq_s8_6r(int8_t);
int32_t c_keq_s8_7l(int8_t);
int32_t c_keq_s8_7r(int8_t);
int32_t c_keq_s8_8l(int8_t);
int32_t c_keq_s8_8r(int8_t);
int32_t c_keq_u8_0l(uint8_t);
int32_t c_keq_u8_0r(uint8_t);
int32_t c_keq_u8_1l(uint8_t);
int32_t c_keq_u8_1r(uint8_t);
int32_t c_keq_u8_2l(uint8_t);
int32_t c_keq_u8_2r(uint8_t);
int32_t c_keq_u8_3l(uint8_t);
int32_t c_keq_u8_3r(uint8_t);
int32_t c_keq_u8_4l(uint8_t);
int32_t c_keq_u8_4r(uint8_t);
int32_t c_keq_u8_5l(uint8_t);
int32_t c_keq_u8_5r(uint8_t);
int32_t c_keq_u8_6l(uint8_t);
int32_t c_keq_u8_6r(uint8_t);
int32_t c_keq_u8_7l(uint8_t);
int32_t c_keq_u8_7r(uint8_t);
int32_t c_keq_u8_8l(uint8_t);
int32_t c_keq_u8_8r(uint8_t);
int32_t c_keq_s16_0l(int16_t);
int32_t c_keq_s16_0r(int16_t);
int32_t c_keq_s16_1l(int16_t);
int32_t c_keq_s16_1r(int16_t);
int32_t c_keq_s16_2l(int16_t);
int32_t c_keq_s16_2r(int16_t);
int32_t c_keq_s16_3l(int16_t);
int32_t c_keq_s16_3r(int16_t);
int32_t c_keq_s16_4l(int16_t);
int32_t c_keq_s16_4r(int16_t);
int32_t c_keq_s16_5l(int16_t);
int32_t c_keq_s16_5r(int16_t);
int32_t c_keq_s16_6l(int16_t);
int32_t c_keq_s16_6r(int16_t);
int32_t c_keq_s16_7l(int16_t);
int32_t c_keq_s16_7r(int16_t);
int32_t c_keq_s16_8l(int16_t);
int32_t c_keq_s16_8r(int16_t);
int32_t c_keq_u16_0l(uint16_t);
int32_t c_keq_u16_0r(uint16_t);
int32_t c_keq_u16_1l(uint16_t);
int32_t c_keq_u16_1r(uint16_t);
int32_t c_keq_u16_2l(uint16_t);
int32_t c_keq_u16_2r(uint16_t);
int32_t c_keq_u16_3l(uint16_t);
int32_t c_keq_u16_3r(uint16_t);
int32_t c_keq_u16_4l(uint16_t);
int32_t c_keq_u16_4r(uint16_t);
int32_t c_keq_u16_5l(uint16_t);
int32_t c_keq_u16_5r(uint16_t);
int32_t c_keq_u16_6l(uint16_t);
int32_t c_keq_u16_6r(uint16_t);
int32_t c_keq_u16_7l(uint16_t);
int32_t c_keq_u16_7r(uint16_t);
int32_t c_keq_u16_8l(uint16_t);
int32_t c_keq_u16_8r(uint16_t);
int32_t c_keq_s32_0l(int32_t);
int32_t c_keq_s32_0r(int32_t);
int32_t c_keq_s32_1l(int32_t);
int32_t c_keq_s32_1r(int32_t);
int32_t c_keq_s32_2l(int32_t);
int32_t c_keq_s32_2r(int32_t);
int32_t c_keq_s32_3l(int32_t);
int32_t c_keq_s32_3r(int32_t);
int32_t c_keq_s32_4l(int32_t);
int32_t c_keq_s32_4r(int32_t);
int32_t c_keq_s32_5l(int32_t);
int32_t c_keq_s32_5r(int32_t);
int32_t c_keq_s32_6l(int32_t);
int32_t c_keq_s32_6r(int32_t);
int32_t c_keq_s32_7l(int32_t);
int32_t c_keq_s32_7r(int32_t);
int32_t c_keq_s32_8l(int32_t);
int32_t c_keq_s32_8r(int32_t);
int32_t c_keq_u32_0l(uint32_t);
int32_t c_keq_u32_0r(uint32_t);
int32_t c_keq_u32_1l(uint32_t);
int32_t c_keq_u32_1r(uint32_t);
int32_t c_keq_u32_2l(uint32_t);
int32_t c_keq_u32_2r(uint32_t);
int32_t c_keq_u32_3l(uint32_t);
int32_t c_keq_u32_3r(uint32_t);
int32_t c_keq_u32_4l(uint32_t);
int32_t c_keq_u32_4r(uint32_t);
int32_t c_keq_u32_5l(uint32_t);
int32_t c_keq_u32_5r(uint32_t);
int32_t c_keq_u32_6l(uint32_t);
int32_t c_keq_u32_6r(uint32_t);
int32_t c_keq_u32_7l(uint32_t);
int32_t c_keq_u32_7r(uint32_t);
int32_t c_keq_u32_8l(uint32_t);
int32_t c_keq_u32_8r(uint32_t);
int32_t c_keq_s64_0l(int64_t);
int32_t c_keq_s64_0r(int64_t);
int32_t c_keq_s64_1l(int64_t);
int32_t c_keq_s64_1r(int64_t);
int32_t c_keq_s64_2l(int64_t);
int32_t c_keq_s64_2r(int64_t);
int32_t c_keq_s64_3l(int64_t);
int32_t c_keq_s64_3r(int64_t);
int32_t c_keq_s64_4l(int64_t);
int32_t c_keq_s64_4r(int64_t);
int32_t c_keq_s64_5l(int64_t);
int32_t c_keq_s64_5r(int64_t);
int32_t c_keq_s64_6l(int64_t);
int32_t c_keq_s64_6r(int64_t);
int32_t c_keq_s64_7l(int64_t);
int32_t c_keq_s64_7r(int64_t);
int32_t c_keq_s64_8l(int64_t);
int32_t c_keq_s64_8r(int64_t);
int32_t c_keq_u64_0l(uint64_t);
int32_t c_keq_u64_0r(uint64_t);
int32_t c_keq_u64_1l(uint64_t);
int32_t c_keq_u64_1r(uint64_t);
int32_t c_keq_u64_2l(uint64_t);
int32_t c_keq_u64_2r(uint64_t);
int32_t c_keq_u64_3l(uint64_t);
int32_t c_keq_u64_3r(uint64_t);
int32_t c_keq_u64_4l(uint64_t);
int32_t c_keq_u64_4r(uint64_t);
int32_t c_keq_u64_5l(uint64_t);
int32_t c_keq_u64_5r(uint64_t);
int32_t c_keq_u64_6l(uint64_t);
int32_t c_keq_u64_6r(uint64_t);
int32_t c_keq_u64_7l(uint64_t);
int32_t c_keq_u64_7r(uint64_t);
int32_t c_keq_u64_8l(uint64_t);
int32_t c_keq_u64_8r(uint64_t);
void s_keq_s128_0l(int32_t *, vp_i128 *);
static int32_t c_keq_s128_0l(vp_i128 a) { int32_t r; s_keq_s128_0l(&r, &a); return r; }
void s_keq_s128_0r(int32_t *, vp_i128 *);
static int32_t c_keq_s128_0r(vp_i128 a) { int32_t r; s_keq_s128_0r(&r, &a); return r; }
void s_keq_s128_1l(int32_t *, vp_i128 *);
static int32_t c_keq_s128_1l(vp_i128 a) { int32_t r; s_keq_s128_1l(&r, &a); return r; }
void s_keq_s128_1r(int32_t *, vp_i128 *);
static int32_t c_keq_s128_1r(vp_i128 a) { int32_t r; s_keq_s128_1r(&r, &a); return r; }
void s_keq_s128_2l(int32_t *, vp_i128 *);
static int32_t c_keq_s128_2l(vp_i128 a) { int32_t r; s_keq_s128_2l(&r, &a); return r; }
void s_keq_s128_2r(int32_t *, vp_i128 *);
static int32_t c_keq_s128_2r(vp_i128 a) { int32_t r; s_keq_s128_2r(&r, &a); return r; }
void s_keq_s128_3l(int32_t *, vp_i128 *);
static int32_t c_keq_s128_3l(vp_i128 a) { int32_t r; s_keq_s128_3l(&r, &a); return r; }
void s_keq_s128_3r(int32_t *, vp_i128 *);
static int32_t c_keq_s128_3r(vp_i128 a) { int32_t r; s_keq_s128_3r(&r, &a); return r; }
void s_keq_s128_4l(int32_t *, vp_i128 *);
static int32_t c_keq_s128_4l(vp_i128 a) { int32_t r; s_keq_s128_4l(&r, &a); return r; }
void s_keq_s128_4r(int32_t *, vp_i128 *);
static int32_t c_keq_s128_4r(vp_i128 a) { int32_t r; s_keq_s128_4r(&r, &a); return r; }
void s_keq_s128_5l(int32_t *, vp_i128 *);
static int32_t c_keq_s128_5l(vp_i128 a) { int32_t r; s_keq_s128_5l(&r, &a); return r; }
void s_keq_s128_5r(int32_t *, vp_i128 *);
static int32_t c_keq_s128_5r(vp_i128 a) { int32_t r; s_keq_s128_5r(&r, &a); return r; }
void s_keq_s128_6l(int32_t *, vp_i128 *);
static int32_t c_keq_s128_6l(vp_i128 a) { int32_t r; s_keq_s128_6l(&r, &a); return r; }
void s_keq_s128_6r(int32_t *, vp_i128 *);
static int32_t c_keq_s128_6r(vp_i128 a) { int32_t r; s_keq_s128_6r(&r, &a); return r; }
void s_keq_s128_7l(int32_t *, vp_i128 *);
static int32_t c_keq_s128_7l(vp_i128 a) { int32_t r; s_keq_s128_7l(&r, &a); return r; }
void s_keq_s128_7r(int32_t *, vp_i128 *);
static int32_t c_keq_s128_7r(vp_i128 a) { int32_t r; s_keq_s128_7r(&r, &a); return r; }
void s_keq_s128_8l(int32_t *, vp_i128 *);
static int32_t c_keq_s128_8l(vp_i128 a) { int32_t r; s_keq_s128_8l(&r, &a); return r; }
void s_keq_s128_8r(int32_t *, vp_i128 *);
static int32_t c_keq_s128_8r(vp_i128 a) { int32_t r; s_keq_s128_8r(&r, &a); return r; }
void s_keq_u128_0l(int32_t *, vp_u128 *);
static int32_t c_keq_u128_0l(vp_u128 a) { int32_t r; s_keq_u128_0l(&r, &a); return r; }
void s_keq_u128_0r(int32_t *, vp_u128 *);
static int32_t c_keq_u128_0r(vp_u128 a) { int32_t r; s_keq_u128_0r(&r, &a); return r; }
void s_keq_u128_1l(int32_t *, vp_u128 *);
static int32_t c_keq_u128_1l(vp_u128 a) { int32_t r; s_keq_u128_1l(&r, &a); return r; }
void s_keq_u128_1r(int32_t *, vp_u128 *);
static int32_t c_keq_u128_1r(vp_u128 a) { int32_t r; s_keq_u128_1r(&r, &a); return r; }
void s_keq_u128_2l(int32_t *, vp_u128 *);
static int32_t c_keq_u128_2l(vp_u128 a) { int32_t r; s_keq_u128_2l(&r, &a); return r; }
void s_keq_u128_2r(int32_t *, vp_u128 *);
static int32_t c_keq_u128_2r(vp_u128 a) { int32_t r; s_keq_u128_2r(&r, &a); return r; }
void s_keq_u128_3l(int32_t *, vp_u128 *);
static int32_t c_keq_u128_3l(vp_u128 a) { int32_t r; s_keq_u128_3l(&r, &a); return r; }
void s_keq_u128_3r(int32_t *, vp_u128 *);
static int32_t c_keq_u128_3r(vp_u128 a) { int32_t r; s_keq_u128_3r(&r, &a); return r; }
void s_keq_u128_4l(int32_t *, vp_u128 *);
static int32_t c_keq_u128_4l(vp_u128 a) { int32_t r; s_keq_u128_4l(&r, &a); return r; }
void s_keq_u128_4r(int32_t *, vp_u128 *);
static int32_t c_keq_u128_4r(vp_u128 a) { int32_t r; s_keq_u128_4r(&r, &a); return r; }
void s_keq_u128_5l(int32_t *, vp_u128 *);
static int32_t c_keq_u128_5l(vp_u128 a) { int32_t r; s_keq_u128_5l(&r, &a); return r; }
void s_keq_u128_5r(int32_t *, vp_u128 *);
static int32_t c_keq_u128_5r(vp_u128 a) { int32_t r; s_keq_u128_5r(&r, &a); return r; }
void s_keq_u128_6l(int32_t *, vp_u128 *);
static int32_t c_keq_u128_6l(vp_u128 a) { int32_t r; s_keq_u128_6l(&r, &a); return r; }
void s_keq_u128_6r(int32_t *, vp_u128 *);
static int32_t c_keq_u128_6r(vp_u128 a) { int32_t r; s_keq_u128_6r(&r, &a); return r; }
void s_keq_u128_7l(int32_t *, vp_u128 *);
static int32_t c_keq_u128_7l(vp_u128 a) { int32_t r; s_keq_u128_7l(&r, &a); return r; }
void s_keq_u128_7r(int32_t *, vp_u128 *);
static int32_t c_keq_u128_7r(vp_u128 a) { int32_t r; s_keq_u128_7r(&r, &a); return r; }
void s_keq_u128_8l(int32_t *, vp_u128 *);
static int32_t c_keq_u128_8l(vp_u128 a) { int32_t r; s_keq_u128_8l(&r, &a); return r; }
void s_keq_u128_8r(int32_t *, vp_u128 *);
static int32_t c_keq_u128_8r(vp_u128 a) { int32_t r; s_keq_u128_8r(&r, &a); return r; }
int32_t c_kne_s8_0l(int8_t);
int32_t c_kne_s8_0r(int8_t);
int32_t c_kne_s8_1l(int8_t);
int32_t c_kne_s8_1r(int8_t);
int32_t c_kne_s8_2l(int8_t);
int32_t c_kne_s8_2r(int8_t);
int32_t c_kne_s8_3l(int8_t);
int32_t c_kne_s8_3r(int8_t);
int32_t c_kne_s8_4l(int8_t);
int32_t c_kne_s8_4r(int8_t);
int32_t c_kne_s8_5l(int8_t);
int32_t c_kne_s8_5r(int8_t);
int32_t c_kne_s8_6l(int8_t);
int32_t c_kne_s8_6r(int8_t);
int32_t c_kne_s8_7l(int8_t);
int32_t c_kne_s8_7r(int8_t);
int32_t c_kne_s8_8l(int8_t);
int32_t c_kne_s8_8r(int8_t);
int32_t c_kne_u8_0l(uint8_t);
int32_t c_kne_u8_0r(uint8_t);
int32_t c_kne_u8_1l(uint8_t);
int32_t c_kne_u8_1r(uint8_t);
int32_t c_kne_u8_2l(uint8_t);
int32_t c_kne_u8_2r(uint8_t);
int32_t c_kne_u8_3l(uint8_t);
int32_t c_kne_u8_3r(uint8_t);
int32_t c_kne_u8_4l(uint8_t);
int32_t c_kne_u8_4r(uint8_t);
int32_t c_kne_u8_5l(uint8_t);
int32_t c_kne_u8_5r(uint8_t);
int32_t c_kne_u8_6l(uint8_t);
int32_t c_kne_u8_6r(uint8_t);
int32_t c_kne_u8_7l(uint8_t);
int32_t c_kne_u8_7r(uint8_t);
int32_t c_kne_u8_8l(uint8_t);
int32_t c_kne_u8_8r(uint8_t);
int32_t c_kne_s16_0l(int16_t);
int32_t c_kne_s16_0r(int16_t);
int32_t c_kne_s16_1l(int16_t);
int32_t c_kne_s16_1r(int16_t);
int32_t c_kne_s16_2l(int16_t);
int32_t c_kne_s16_2r(int16_t);
int32_t c_kne_s16_3l(int16_t);
int32_t c_kne_s16_3r(int16_t);
int32_t c_kne_s16_4l(int16_t);
int32_t c_kne_s16_4r(int16_t);
int32_t c_kne_s16_5l(int16_t);
int32_t c_kne_s16_5r(int16_t);
int32_t c_kne_s16_6l(int16_t);
int32_t c_kne_s16_6r(int16_t);
int32_t c_kne_s16_7l(int16_t);
int32_t c_kne_s16_7r(int16_t);
int32_t c_kne_s16_8l(int16_t);
int32_t c_kne_s16_8r(int16_t);
int32_t c_kne_u16_0l(uint16_t);
int32_t c_kne_u16_0r(uint16_t);
int32_t c_kne_u16_1l(uint16_t);
int32_t c_kne_u16_1r(uint16_t);
int32_t c_kne_u16_2l(uint16_t);
int32_t c_kne_u16_2r(uint16_t);
int32_t c_kne_u16_3l(uint16_t);
int32_t c_kne_u16_3r(uint16_t);
int32_t c_kne_u16_4l(uint16_t);
int32_t c_kne_u16_4r(uint16_t);
int32_t c_kne_u16_5l(uint16_t);
int32_t c_kne_u16_5r(uint16_t);
int32_t c_kne_u16_6l(uint16_t);
int32_t c_kne_u16_6r(uint16_t);
int32_t c_kne_u16_7l(uint16_t);
int32_t c_kne_u16_7r(uint16_t);
int32_t c_kne_u16_8l(uint16_t);
int32_t c_kne_u16_8r(uint16_t);
int32_t c_kne_s32_0l(int32_t);
int32_t c_kne_s32_0r(int32_t);
int32_t c_kne_s32_1l(int32_t);
int32_t c_kne_s32_1r(int32_t);
int32_t c_kne_s32_2l(int32_t);
int32_t c_kne_s32_2r(int32_t);
int32_t c_kne_s32_3l(int32_t);
int32_t c_kne_s32_3r(int32_t);
int32_t c_kne_s32_4l(int32_t);
int32_t c_kne_s32_4r(int32_t);
int32_t c_kne_s32_5l(int32_t);
int32_t c_kne_s32_5r(int32_t);
int32_t c_kne_s32_6l(int32_t);
int32_t c_kne_s32_6r(int32_t);
int32_t c_kne_s32_7l(int32_t);
int32_t c_kne_s32_7r(int32_t);
int32_t c_kne_s32_8l(int32_t);
int32_t c_kne_s32_8r(int32_t);
int32_t c_kne_u32_0l(uint32_t);
int32_t c_kne_u32_0r(uint32_t);
int32_t c_kne_u32_1l(uint32_t);
int32_t c_kne_u32_1r(uint32_t);
int32_t c_kne_u32_2l(uint32_t);
int32_t c_kne_u32_2r(uint32_t);
int32_t c_kne_u32_3l(uint32_t);
int32_t c_kne_u32_3r(uint32_t);
int32_t c_kne_u32_4l(uint32_t);
int32_t c_kne_u32_4r(uint32_t);
int32_t c_kne_u32_5l(uint32_t);
int32_t c_kne_u32_5r(uint32_t);
int32_t c_kne_u32_6l(uint32_t);
int32_t c_kne_u32_6r(uint32_t);
int32_t c_kne_u32_7l(uint32_t);
int32_t c_kne_u32_7r(uint32_t);
int32_t c_kne_u32_8l(uint32_t);
int32_t c_kne_u32_8r(uint32_t);
int32_t c_kne_s64_0l(int64_t);
int32_t c_kne_s64_0r(int64_t);
int32_t c_kne_s64_1l(int64_t);
int32_t c_kne_s64_1r(int64_t);
int32_t c_kne_s64_2l(int64_t);
int32_t c_kne_s64_2r(int64_t);
int32_t c_kne_s64_3l(int64_t);
int32_t c_kne_s64_3r(int64_t);
int32_t c_kne_s64_4l(int64_t);
int32_t c_kne_s64_4r(int64_t);
int32_t c_kne_s64_5l(int64_t);
int32_t c_kne_s64_5r(int64_t);
int32_t c_kne_s64_6l(int64_t);
int32_t c_kne_s64_6r(int64_t);
int32_t c_kne_s64_7l(int64_t);
int32_t c_kne_s64_7r(int64_t);
int32_t c_kne_s64_8l(int64_t);
int32_t c_kne_s64_8r(int64_t);
int32_t c_kne_u64_0l(uint64_t);
int32_t c_kne_u64_0r(uint64_t);
int32_t c_kne_u64_1l(uint64_t);
int32_t c_kne_u64_1r(uint64_t);
int32_t c_kne_u64_2l(uint64_t);
int32_t c_kne_u64_2r(uint64_t);
int32_t c_kne_u64_3l(uint64_t);
int32_t c_kne_u64_3r(uint64_t);
int32_t c_kne_u64_4l(uint64_t);
int32_t c_kne_u64_4r(uint64_t);
int32_t c_kne_u64_5l(uint64_t);
int32_t c_kne_u64_5r(uint64_t);
int32_t c_kne_u64_6l(uint64_t);
int32_t c_kne_u64_6r(uint64_t);
int32_t c_kne_u64_7l(uint64_t);
int32_t c_kne_u64_7r(uint64_t);
int32_t c_kne_u64_8l(uint64_t);
int32_t c_kne_u64_8r(uint64_t);
void s_kne_s128_0l(int32_t *, vp_i128 *);
static int32_t c_kne_s128_0l(vp_i128 a) { int32_t r; s_kne_s128_0l(&r, &a); return r; }
void s_kne_s128_0r(int32_t *, vp_i128 *);
static int32_t c_kne_s128_0r(vp_i128 a) { int32_t r; s_kne_s128_0r(&r, &a); return r; }
void s_kne_s128_1l(int32_t *, vp_i128 *);
static int32_t c_kne_s128_1l(vp_i128 a) { int32_t r; s_kne_s128_1l(&r, &a); return r; }
void s_kne_s128_1r(int32_t *, vp_i128 *);
static int32_t c_kne_s128_1r(vp_i128 a) { int32_t r; s_kne_s128_1r(&r, &a); return r; }
void s_kne_s128_2l(int32_t *, vp_i128 *);
static int32_t c_kne_s128_2l(vp_i128 a) { int32_t r; s_kne_s128_2l(&r, &a); return r; }
void s_kne_s128_2r(int32_t *, vp_i128 *);
static int32_t c_kne_s128_2r(vp_i128 a) { int32_t r; s_kne_s128_2r(&r, &a); return r; }
void s_kne_s128_3l(int32_t *, vp_i128 *);
static int32_t c_kne_s128_3l(vp_i128 a) { int32_t r; s_kne_s128_3l(&r, &a); return r; }
void s_kne_s128_3r(int32_t *, vp_i128 *);
static int32_t c_kne_s128_3r(vp_i128 a) { int32_t r; s_kne_s128_3r(&r, &a); return r; }
void s_kne_s128_4l(int32_t *, vp_i128 *);
static int32_t c_kne_s128_4l(vp_i128 a) { int32_t r; s_kne_s128_4l(&r, &a); return r; }
void s_kne_s128_4r(int32_t *, vp_i128 *);
static int32_t c_kne_s128_4r(vp_i128 a) { int32_t r; s_kne_s128_4r(&r, &a); return r; }
void s_kne_s128_5l(int32_t *, vp_i128 *);
static int32_t c_kne_s128_5l(vp_i128 a) { int32_t r; s_kne_s128_5l(&r, &a); return r; }
void s_kne_s128_5r(int32_t *, vp_i128 *);
static int32_t c_kne_s128_5r(vp_i128 a) { int32_t r; s_kne_s128_5r(&r, &a); return r; }
void s_kne_s128_6l(int32_t *, vp_i128 *);
static int32_t c_kne_s128_6l(vp_i128 a) { int32_t r; s_kne_s128_6l(&r, &a); return r; }
void s_kne_s128_6r(int32_t *, vp_i128 *);
static int32_t c_kne_s128_6r(vp_i128 a) { int32_t r; s_kne_s128_6r(&r, &a); return r; }
void s_kne_s128_7l(int32_t *, vp_i128 *);
static int32_t c_kne_s128_7l(vp_i128 a) { int32_t r; s_kne_s128_7l(&r, &a); return r; }
void s_kne_s128_7r(int32_t *, vp_i128 *);
static int32_t c_kne_s128_7r(vp_i128 a) { int32_t r; s_kne_s128_7r(&r, &a); return r; }
void s_kne_s128_8l(int32_t *, vp_i128 *);
static int32_t c_kne_s128_8l(vp_i128 a) { int32_t r; s_kne_s128_8l(&r, &a); return r; }
void s_kne_s128_8r(int32_t *, vp_i128 *);
static int32_t c_kne_s128_8r(vp_i128 a) { int32_t r; s_kne_s128_8r(&r, &a); return r; }
void s_kne_u128_0l(int32_t *, vp_u128 *);
static int32_t c_kne_u128_0l(vp_u128 a) { int32_t r; s_kne_u128_0l(&r, &a); return r; }
void s_kne_u128_0r(int32_t *, vp_u128 *);
static int32_t c_kne_u128_0r(vp_u128 a) { int32_t r; s_kne_u128_0r(&r, &a); return r; }
void s_kne_u128_1l(int32_t *, vp_u128 *);
static int32_t c_kne_u128_1l(vp_u128 a) { int32_t r; s_kne_u128_1l(&r, &a); return r; }
void s_kne_u128_1r(int32_t *, vp_u128 *);
static int32_t c_kne_u128_1r(vp_u128 a) { int32_t r; s_kne_u128_1r(&r, &a); return r; }
void s_kne_u128_2l(int32_t *, vp_u128 *);
static int32_t c_kne_u128_2l(vp_u128 a) { int32_t r; s_kne_u128_2l(&r, &a); return r; }
void s_kne_u128_2r(int32_t *, vp_u128 *);
static int32_t c_kne_u128_2r(vp_u128 a) { int32_t r; s_kne_u128_2r(&r, &a); return r; }
void s_kne_u128_3l(int32_t *, vp_u128 *);
static int32_t c_kne_u128_3l(vp_u128 a) { int32_t r; s_kne_u128_3l(&r, &a); return r; }
void s_kne_u128_3r(int32_t *, vp_u128 *);
static int32_t c_kne_u128_3r(vp_u128 a) { int32_t r; s_kne_u128_3r(&r, &a); return r; }
void s_kne_u128_4l(int32_t *, vp_u128 *);
static int32_t c_kne_u128_4l(vp_u128 a) { int32_t r; s_kne_u128_4l(&r, &a); return r; }
void s_kne_u128_4r(int32_t *, vp_u128 *);
static int32_t c_kne_u128_4r(vp_u128 a) { int32_t r; s_kne_u128_4r(&r, &a); return r; }
void s_kne_u128_5l(int32_t *, vp_u128 *);
static int32_t c_kne_u128_5l(vp_u128 a) { int32_t r; s_kne_u128_5l(&r, &a); return r; }
void s_kne_u128_5r(int32_t *, vp_u128 *);
static int32_t c_kne_u128_5r(vp_u128 a) { int32_t r; s_kne_u128_5r(&r, &a); return r; }
void s_kne_u128_6l(int32_t *, vp_u128 *);
static int32_t c_kne_u128_6l(vp_u128 a) { int32_t r; s_kne_u128_6l(&r, &a); return r; }
void s_kne_u128_6r(int32_t *, vp_u128 *);
static int32_t c_kne_u128_6r(vp_u128 a) { int32_t r; s_kne_u128_6r(&r, &a); return r; }
void s_kne_u128_7l(int32_t *, vp_u128 *);
static int32_t c_kne_u128_7l(vp_u128 a) { int32_t r; s_kne_u128_7l(&r, &a); return r; }
void s_kne_u128_7r(int32_t *, vp_u128 *);
static int32_t c_kne_u128_7r(vp_u128 a) { int32_t r; s_kne_u128_7r(&r, &a); return r; }
void s_kne_u128_8l(int32_t *, vp_u128 *);
static int32_t c_kne_u128_8l(vp_u128 a) { int32_t r; s_kne_u128_8l(&r, &a); return r; }
void s_kne_u128_8r(int32_t *, vp_u128 *);
static int32_t c_kne_u128_8r(vp_u128 a) { int32_t r; s_kne_u128_8r(&r, &a); return r; }
void c_vadd_s8(int8_t *, int8_t *, int8_t *);
void c_vadd_u8(uint8_t *, uint8_t *, uint8_t *);
void c_vadd_s16(int16_t *, int16_t *, int16_t *);
void c_vadd_u16(uint16_t *, uint16_t *, uint16_t *);
void c_vadd_s32(int32_t *, int32_t *, int32_t *);
void c_vadd_u32(uint32_t *, uint32_t *, uint32_t *);
void c_vadd_s64(int64_t *, int64_t *, int64_t *);
void c_vadd_u64(uint64_t *, uint64_t *, uint64_t *);
void c_vsub_s8(int8_t *, int8_t *, int8_t *);
void c_vsub_u8(uint8_t *, uint8_t *, uint8_t *);
void c_vsub_s16(int16_t *, int16_t *, int16_t *);
void c_vsub_u16(uint16_t *, uint16_t *, uint16_t *);
void c_vsub_s32(int32_t *, int32_t *, int32_t *);
void c_vsub_u32(uint32_t *, uint32_t *, uint32_t *);
void c_vsub_s64(int64_t *, int64_t *, int64_t *);
void c_vsub_u64(uint64_t *, uint64_t *, uint64_t *);
void c_vand_s8(int8_t *, int8_t *, int8_t *);
void c_vand_u8(uint8_t *, uint8_t *, uint8_t *);
void c_vand_s16(int16_t *, int16_t *, int16_t *);
void c_vand_u16(uint16_t *, uint16_t *, uint16_t *);
void c_vand_s32(int32_t *, int32_t *, int32_t *);
void c_vand_u32(uint32_t *, uint32_t *, uint32_t *);
void c_vand_s64(int64_t *, int64_t *, int64_t *);
void c_vand_u64(uint64_t *, uint64_t *, uint64_t *);
void c_vor_s8(int8_t *, int8_t *, int8_t *);
void c_vor_u8(uint8_t *, uint8_t *, uint8_t *);
void c_vor_s16(int16_t *, int16_t *, int16_t *);
void c_vor_u16(uint16_t *, uint16_t *, uint16_t *);
void c_vor_s32(int32_t *, int32_t *, int32_t *);
void c_vor_u32(uint32_t *, uint32_t *, uint32_t *);
void c_vor_s64(int64_t *, int64_t *, int64_t *);
void c_vor_u64(uint64_t *, uint64_t *, uint64_t *);
void c_vxor_s8(int8_t *, int8_t *, int8_t *);
void c_vxor_u8(uint8_t *, uint8_t *, uint8_t *);
void c_vxor_s16(int16_t *, int16_t *, int16_t *);
void c_vxor_u16(uint16_t *, uint16_t *, uint16_t *);
void c_vxor_s32(int32_t *, int32_t *, int32_t *);
void c_vxor_u32(uint32_t *, uint32_t *, uint32_t *);
void c_vxor_s64(int64_t *, int64_t *, int64_t *);
void c_vxor_u64(uint64_t *, uint64_t *, uint64_t *);
void c_vshl_s8(int8_t *, int8_t *, int8_t *);
void c_vshl_u8(uint8_t *, uint8_t *, uint8_t *);
void c_vshl_s16(int16_t *, int16_t *, int16_t *);
void c_vshl_u16(uint16_t *, uint16_t *, uint16_t *);
void c_vshl_s32(int32_t *, int32_t *, int32_t *);
void c_vshl_u32(uint32_t *, uint32_t *, uint32_t *);
void c_vshl_s64(int64_t *, int64_t *, int64_t *);
void c_vshl_u64(uint64_t *, uint64_t *, uint64_t *);
void c_vshr_s8(int8_t *, int8_t *, int8_t *);
void c_vshr_u8(uint8_t *, uint8_t *, uint8_t *);
void c_vshr_s16(int16_t *, int16_t *, int16_t *);
void c_vshr_u16(uint16_t *, uint16_t *, uint16_t *);
void c_vshr_s32(int32_t *, int32_t *, int32_t *);
void c_vshr_u32(uint32_t *, uint32_t *, uint32_t *);
void c_vshr_s64(int64_t *, int64_t *, int64_t *);
void c_vshr_u64(uint64_t *, uint64_t *, uint64_t *);
void c_vmul_s8(int8_t *, int8_t *, int8_t *);
void c_vmul_u8(uint8_t *, uint8_t *, uint8_t *);
void c_vmul_s16(int16_t *, int16_t *, int16_t *);
void c_vmul_u16(uint16_t *, uint16_t *, uint16_t *);
void c_vmul_s32(int32_t *, int32_t *, int32_t *);
void c_vmul_u32(uint32_t *, uint32_t *, uint32_t *);
void c_vmul_s64(int64_t *, int64_t *, int64_t *);
void c_vmul_u64(uint64_t *, uint64_t *, uint64_t *);
void c_vdiv_s8(int8_t *, int8_t *, int8_t *);
void c_vdiv_u8(uint8_t *, uint8_t *, uint8_t *);
void c_vdiv_s16(int16_t *, int16_t *, int16_t *);
void c_vdiv_u16(uint16_t *, uint16_t *, uint16_t *);
void c_vdiv_s32(int32_t *, int32_t *, int32_t *);
void c_vdiv_u32(uint32_t *, uint32_t *, uint32_t *);
void c_vdiv_s64(int64_t *, int64_t *, int64_t *);
void c_vdiv_u64(uint64_t *, uint64_t *, uint64_t *);
void c_vrem_s8(int8_t *, int8_t *, int8_t *);
void c_vrem_u8(uint8_t *, uint8_t *, uint8_t *);
void c_vrem_s16(int16_t *, int16_t *, int16_t *);
void c_vrem_u16(uint16_t *, uint16_t *, uint16_t *);
void c_vrem_s32(int32_t *, int32_t *, int32_t *);
void c_vrem_u32(uint32_t *, uint32_t *, uint32_t *);
void c_vrem_s64(int64_t *, int64_t *, int64_t *);
void c_vrem_u64(uint64_t *, uint64_t *, uint64_t *);
void c_vneg_s8(int8_t *, int8_t *);
void c_vnot_s8(int8_t *, int8_t *);
void c_vneg_u8(uint8_t *, uint8_t *);
void c_vnot_u8(uint8_t *, uint8_t *);
void c_vneg_s16(int16_t *, int16_t *);
void c_vnot_s16(int16_t *, int16_t *);
void c_vneg_u16(uint16_t *, uint16_t *);
void c_vnot_u16(uint16_t *, uint16_t *);
void c_vneg_s32(int32_t *, int32_t *);
void c_vnot_s32(int32_t *, int32_t *);
void c_vneg_u32(uint32_t *, uint32_t *);
void c_vnot_u32(uint32_t *, uint32_t *);
void c_vneg_s64(int64_t *, int64_t *);
void c_vnot_s64(int64_t *, int64_t *);
void c_vneg_u64(uint64_t *, uint64_t *);
void c_vnot_u64(uint64_t *, uint64_t *);
void c_vcv_s8_u8(int8_t *, uint8_t *);
void c_vcv_s8_s16(int8_t *, int16_t *);
void c_vcv_s8_s32(int8_t *, int32_t *);
void c_vcv_s8_u64(int8_t *, uint64_t *);
void c_vcv_u8_s16(uint8_t *, int16_t *);
void c_vcv_u8_s32(uint8_t *, int32_t *);
void c_vcv_u8_u64(uint8_t *, uint64_t *);
void c_vcv_s16_u8(int16_t *, uint8_t *);
void c_vcv_s16_s32(int16_t *, int32_t *);
void c_vcv_s16_u64(int16_t *, uint64_t *);
void c_vcv_u16_u8(uint16_t *, uint8_t *);
void c_vcv_u16_s16(uint16_t *, int16_t *);
void c_vcv_u16_s32(uint16_t *, int32_t *);
void c_vcv_u16_u64(uint16_t *, uint64_t *);
void c_vcv_s32_u8(int32_t *, uint8_t *);
void c_vcv_s32_s16(int32_t *, int16_t *);
void c_vcv_s32_u64(int32_t *, uint64_t *);
void c_vcv_u32_u8(uint32_t *, uint8_t *);
void c_vcv_u32_s16(uint32_t *, int16_t *);
void c_vcv_u32_s32(uint32_t *, int32_t *);
void c_vcv_u32_u64(uint32_t *, uint64_t *);
void c_vcv_s64_u8(int64_t *, uint8_t *);
void c_vcv_s64_s16(int64_t *, int16_t *);
void c_vcv_s64_s32(int64_t *, int32_t *);
void c_vcv_s64_u64(int64_t *, uint64_t *);
void c_vcv_u64_u8(uint64_t *, uint8_t *);
void c_vcv_u64_s16(uint64_t *, int16_t *);
void c_vcv_u64_s32(uint64_t *, int32_t *);
//@unit add fns=llvm_emit_binary cost=5
void vp_add(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar + wraps", c_add_s8(a, b) == (int8_t)((uint32_t)(int32_t)a + (uint32_t)(int32_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8); VP_ENSURES("char + wraps", c_add_u8(a, b) == (uint8_t)((uint32_t)(uint32_t)a + (uint32_t)(uint32_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16); VP_ENSURES("short + wraps", c_add_s16(a, b) == (int16_t)((uint32_t)(int32_t)a + (uint32_t)(int32_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort + wraps", c_add_u16(a, b) == (uint16_t)((uint32_t)(uint32_t)a + (uint32_t)(uint32_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32); VP_ENSURES("int + wraps", c_add_s32(a, b) == (int32_t)((uint32_t)(int32_t)a + (uint32_t)(int32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint + wraps", c_add_u32(a, b) == (uint32_t)((uint32_t)(uint32_t)a + (uint32_t)(uint32_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64); VP_ENSURES("long + wraps", c_add_s64(a, b) == (int64_t)((uint64_t)(int64_t)a + (uint64_t)(int64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong + wraps", c_add_u64(a, b) == (uint64_t)((uint64_t)(uint64_t)a + (uint64_t)(uint64_t)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 + wraps", c_add_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a + (vp_u128)(vp_i128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 + wraps", c_add_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a + (vp_u128)(vp_u128)b)); }
	VP_REACH();
}
//@unit add_assign fns=llvm_emit_binary,llvm_emit_binary_assign_expr cost=5
void vp_add_assign(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar += wraps", c_adda_s8(a, b) == (int8_t)((uint8_t)(int8_t)a + (uint8_t)(int8_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8); VP_ENSURES("char += wraps", c_adda_u8(a, b) == (uint8_t)((uint8_t)(uint8_t)a + (uint8_t)(uint8_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16); VP_ENSURES("short += wraps", c_adda_s16(a, b) == (int16_t)((uint16_t)(int16_t)a + (uint16_t)(int16_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort += wraps", c_adda_u16(a, b) == (uint16_t)((uint16_t)(uint16_t)a + (uint16_t)(uint16_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32); VP_ENSURES("int += wraps", c_adda_s32(a, b) == (int32_t)((uint32_t)(int32_t)a + (uint32_t)(int32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint += wraps", c_adda_u32(a, b) == (uint32_t)((uint32_t)(uint32_t)a + (uint32_t)(uint32_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64); VP_ENSURES("long += wraps", c_adda_s64(a, b) == (int64_t)((uint64_t)(int64_t)a + (uint64_t)(int64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong += wraps", c_adda_u64(a, b) == (uint64_t)((uint64_t)(uint64_t)a + (uint64_t)(uint64_t)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 += wraps", c_adda_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a + (vp_u128)(vp_i128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 += wraps", c_adda_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a + (vp_u128)(vp_u128)b)); }
	VP_REACH();
}
//@unit sub fns=llvm_emit_binary cost=5
void vp_sub(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar - wraps", c_sub_s8(a, b) == (int8_t)((uint32_t)(int32_t)a - (uint32_t)(int32_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8); VP_ENSURES("char - wraps", c_sub_u8(a, b) == (uint8_t)((uint32_t)(uint32_t)a - (uint32_t)(uint32_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16); VP_ENSURES("short - wraps", c_sub_s16(a, b) == (int16_t)((uint32_t)(int32_t)a - (uint32_t)(int32_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort - wraps", c_sub_u16(a, b) == (uint16_t)((uint32_t)(uint32_t)a - (uint32_t)(uint32_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32); VP_ENSURES("int - wraps", c_sub_s32(a, b) == (int32_t)((uint32_t)(int32_t)a - (uint32_t)(int32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint - wraps", c_sub_u32(a, b) == (uint32_t)((uint32_t)(uint32_t)a - (uint32_t)(uint32_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64); VP_ENSURES("long - wraps", c_sub_s64(a, b) == (int64_t)((uint64_t)(int64_t)a - (uint64_t)(int64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong - wraps", c_sub_u64(a, b) == (uint64_t)((uint64_t)(uint64_t)a - (uint64_t)(uint64_t)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 - wraps", c_sub_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a - (vp_u128)(vp_i128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 - wraps", c_sub_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a - (vp_u128)(vp_u128)b)); }
	VP_REACH();
}
//@unit sub_assign fns=llvm_emit_binary,llvm_emit_binary_assign_expr cost=5
void vp_sub_assign(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar -= wraps", c_suba_s8(a, b) == (int8_t)((uint8_t)(int8_t)a - (uint8_t)(int8_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8); VP_ENSURES("char -= wraps", c_suba_u8(a, b) == (uint8_t)((uint8_t)(uint8_t)a - (uint8_t)(uint8_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16); VP_ENSURES("short -= wraps", c_suba_s16(a, b) == (int16_t)((uint16_t)(int16_t)a - (uint16_t)(int16_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort -= wraps", c_suba_u16(a, b) == (uint16_t)((uint16_t)(uint16_t)a - (uint16_t)(uint16_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32); VP_ENSURES("int -= wraps", c_suba_s32(a, b) == (int32_t)((uint32_t)(int32_t)a - (uint32_t)(int32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint -= wraps", c_suba_u32(a, b) == (uint32_t)((uint32_t)(uint32_t)a - (uint32_t)(uint32_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64); VP_ENSURES("long -= wraps", c_suba_s64(a, b) == (int64_t)((uint64_t)(int64_t)a - (uint64_t)(int64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong -= wraps", c_suba_u64(a, b) == (uint64_t)((uint64_t)(uint64_t)a - (uint64_t)(uint64_t)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 -= wraps", c_suba_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a - (vp_u128)(vp_i128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 -= wraps", c_suba_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a - (vp_u128)(vp_u128)b)); }
	VP_REACH();
}
//@unit mul fns=llvm_emit_binary cost=5
void vp_mul(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar * wraps", c_mul_s8(a, b) == (int8_t)vp_uf_mul_32((int32_t)a, (int32_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8); VP_ENSURES("char * wraps", c_mul_u8(a, b) == (uint8_t)vp_uf_mul_32((uint32_t)a, (uint32_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16); VP_ENSURES("short * wraps", c_mul_s16(a, b) == (int16_t)vp_uf_mul_32((int32_t)a, (int32_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort * wraps", c_mul_u16(a, b) == (uint16_t)vp_uf_mul_32((uint32_t)a, (uint32_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32); VP_ENSURES("int * wraps", c_mul_s32(a, b) == (int32_t)vp_uf_mul_32((int32_t)a, (int32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint * wraps", c_mul_u32(a, b) == (uint32_t)vp_uf_mul_32((uint32_t)a, (uint32_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64); VP_ENSURES("long * wraps", c_mul_s64(a, b) == (int64_t)vp_uf_mul_64((int64_t)a, (int64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong * wraps", c_mul_u64(a, b) == (uint64_t)vp_uf_mul_64((uint64_t)a, (uint64_t)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 * wraps", c_mul_s128(a, b) == (vp_i128)vp_uf_mul_128((vp_i128)a, (vp_i128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 * wraps", c_mul_u128(a, b) == (vp_u128)vp_uf_mul_128((vp_u128)a, (vp_u128)b)); }
	VP_REACH();
}
//@unit mul_assign fns=llvm_emit_binary,llvm_emit_binary_assign_expr cost=5
void vp_mul_assign(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar *= wraps", c_mula_s8(a, b) == (int8_t)vp_uf_mul_8((int8_t)a, (int8_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8); VP_ENSURES("char *= wraps", c_mula_u8(a, b) == (uint8_t)vp_uf_mul_8((uint8_t)a, (uint8_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16); VP_ENSURES("short *= wraps", c_mula_s16(a, b) == (int16_t)vp_uf_mul_16((int16_t)a, (int16_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort *= wraps", c_mula_u16(a, b) == (uint16_t)vp_uf_mul_16((uint16_t)a, (uint16_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32); VP_ENSURES("int *= wraps", c_mula_s32(a, b) == (int32_t)vp_uf_mul_32((int32_t)a, (int32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint *= wraps", c_mula_u32(a, b) == (uint32_t)vp_uf_mul_32((uint32_t)a, (uint32_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64); VP_ENSURES("long *= wraps", c_mula_s64(a, b) == (int64_t)vp_uf_mul_64((int64_t)a, (int64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong *= wraps", c_mula_u64(a, b) == (uint64_t)vp_uf_mul_64((uint64_t)a, (uint64_t)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 *= wraps", c_mula_s128(a, b) == (vp_i128)vp_uf_mul_128((vp_i128)a, (vp_i128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 *= wraps", c_mula_u128(a, b) == (vp_u128)vp_uf_mul_128((vp_u128)a, (vp_u128)b)); }
	VP_REACH();
}
//@unit and fns=llvm_emit_binary cost=5
void vp_and(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar & wraps", c_and_s8(a, b) == (int8_t)((uint32_t)(int32_t)a & (uint32_t)(int32_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8); VP_ENSURES("char & wraps", c_and_u8(a, b) == (uint8_t)((uint32_t)(uint32_t)a & (uint32_t)(uint32_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16); VP_ENSURES("short & wraps", c_and_s16(a, b) == (int16_t)((uint32_t)(int32_t)a & (uint32_t)(int32_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort & wraps", c_and_u16(a, b) == (uint16_t)((uint32_t)(uint32_t)a & (uint32_t)(uint32_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32); VP_ENSURES("int & wraps", c_and_s32(a, b) == (int32_t)((uint32_t)(int32_t)a & (uint32_t)(int32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint & wraps", c_and_u32(a, b) == (uint32_t)((uint32_t)(uint32_t)a & (uint32_t)(uint32_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64); VP_ENSURES("long & wraps", c_and_s64(a, b) == (int64_t)((uint64_t)(int64_t)a & (uint64_t)(int64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong & wraps", c_and_u64(a, b) == (uint64_t)((uint64_t)(uint64_t)a & (uint64_t)(uint64_t)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 & wraps", c_and_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a & (vp_u128)(vp_i128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 & wraps", c_and_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a & (vp_u128)(vp_u128)b)); }
	VP_REACH();
}
//@unit and_assign fns=llvm_emit_binary,llvm_emit_binary_assign_expr cost=5
void vp_and_assign(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar &= wraps", c_anda_s8(a, b) == (int8_t)((uint8_t)(int8_t)a & (uint8_t)(int8_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8); VP_ENSURES("char &= wraps", c_anda_u8(a, b) == (uint8_t)((uint8_t)(uint8_t)a & (uint8_t)(uint8_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16); VP_ENSURES("short &= wraps", c_anda_s16(a, b) == (int16_t)((uint16_t)(int16_t)a & (uint16_t)(int16_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort &= wraps", c_anda_u16(a, b) == (uint16_t)((uint16_t)(uint16_t)a & (uint16_t)(uint16_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32); VP_ENSURES("int &= wraps", c_anda_s32(a, b) == (int32_t)((uint32_t)(int32_t)a & (uint32_t)(int32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint &= wraps", c_anda_u32(a, b) == (uint32_t)((uint32_t)(uint32_t)a & (uint32_t)(uint32_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64); VP_ENSURES("long &= wraps", c_anda_s64(a, b) == (int64_t)((uint64_t)(int64_t)a & (uint64_t)(int64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong &= wraps", c_anda_u64(a, b) == (uint64_t)((uint64_t)(uint64_t)a & (uint64_t)(uint64_t)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 &= wraps", c_anda_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a & (vp_u128)(vp_i128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 &= wraps", c_anda_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a & (vp_u128)(vp_u128)b)); }
	VP_REACH();
}
//@unit or fns=llvm_emit_binary cost=5
void vp_or(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar | wraps", c_or_s8(a, b) == (int8_t)((uint32_t)(int32_t)a | (uint32_t)(int32_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8); VP_ENSURES("char | wraps", c_or_u8(a, b) == (uint8_t)((uint32_t)(uint32_t)a | (uint32_t)(uint32_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16); VP_ENSURES("short | wraps", c_or_s16(a, b) == (int16_t)((uint32_t)(int32_t)a | (uint32_t)(int32_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort | wraps", c_or_u16(a, b) == (uint16_t)((uint32_t)(uint32_t)a | (uint32_t)(uint32_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32); VP_ENSURES("int | wraps", c_or_s32(a, b) == (int32_t)((uint32_t)(int32_t)a | (uint32_t)(int32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint | wraps", c_or_u32(a, b) == (uint32_t)((uint32_t)(uint32_t)a | (uint32_t)(uint32_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64); VP_ENSURES("long | wraps", c_or_s64(a, b) == (int64_t)((uint64_t)(int64_t)a | (uint64_t)(int64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong | wraps", c_or_u64(a, b) == (uint64_t)((uint64_t)(uint64_t)a | (uint64_t)(uint64_t)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 | wraps", c_or_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a | (vp_u128)(vp_i128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 | wraps", c_or_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a | (vp_u128)(vp_u128)b)); }
	VP_REACH();
}
//@unit or_assign fns=llvm_emit_binary,llvm_emit_binary_assign_expr cost=5
void vp_or_assign(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar |= wraps", c_ora_s8(a, b) == (int8_t)((uint8_t)(int8_t)a | (uint8_t)(int8_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8); VP_ENSURES("char |= wraps", c_ora_u8(a, b) == (uint8_t)((uint8_t)(uint8_t)a | (uint8_t)(uint8_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16); VP_ENSURES("short |= wraps", c_ora_s16(a, b) == (int16_t)((uint16_t)(int16_t)a | (uint16_t)(int16_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort |= wraps", c_ora_u16(a, b) == (uint16_t)((uint16_t)(uint16_t)a | (uint16_t)(uint16_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32); VP_ENSURES("int |= wraps", c_ora_s32(a, b) == (int32_t)((uint32_t)(int32_t)a | (uint32_t)(int32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint |= wraps", c_ora_u32(a, b) == (uint32_t)((uint32_t)(uint32_t)a | (uint32_t)(uint32_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64); VP_ENSURES("long |= wraps", c_ora_s64(a, b) == (int64_t)((uint64_t)(int64_t)a | (uint64_t)(int64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong |= wraps", c_ora_u64(a, b) == (uint64_t)((uint64_t)(uint64_t)a | (uint64_t)(uint64_t)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 |= wraps", c_ora_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a | (vp_u128)(vp_i128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 |= wraps", c_ora_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a | (vp_u128)(vp_u128)b)); }
	VP_REACH();
}
//@unit xor fns=llvm_emit_binary cost=5
void vp_xor(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar ^ wraps", c_xor_s8(a, b) == (int8_t)((uint32_t)(int32_t)a ^ (uint32_t)(int32_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8); VP_ENSURES("char ^ wraps", c_xor_u8(a, b) == (uint8_t)((uint32_t)(uint32_t)a ^ (uint32_t)(uint32_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16); VP_ENSURES("short ^ wraps", c_xor_s16(a, b) == (int16_t)((uint32_t)(int32_t)a ^ (uint32_t)(int32_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort ^ wraps", c_xor_u16(a, b) == (uint16_t)((uint32_t)(uint32_t)a ^ (uint32_t)(uint32_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32); VP_ENSURES("int ^ wraps", c_xor_s32(a, b) == (int32_t)((uint32_t)(int32_t)a ^ (uint32_t)(int32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint ^ wraps", c_xor_u32(a, b) == (uint32_t)((uint32_t)(uint32_t)a ^ (uint32_t)(uint32_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64); VP_ENSURES("long ^ wraps", c_xor_s64(a, b) == (int64_t)((uint64_t)(int64_t)a ^ (uint64_t)(int64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong ^ wraps", c_xor_u64(a, b) == (uint64_t)((uint64_t)(uint64_t)a ^ (uint64_t)(uint64_t)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 ^ wraps", c_xor_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a ^ (vp_u128)(vp_i128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 ^ wraps", c_xor_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a ^ (vp_u128)(vp_u128)b)); }
	VP_REACH();
}
//@unit xor_assign fns=llvm_emit_binary,llvm_emit_binary_assign_expr cost=5
void vp_xor_assign(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar ^= wraps", c_xora_s8(a, b) == (int8_t)((uint8_t)(int8_t)a ^ (uint8_t)(int8_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8); VP_ENSURES("char ^= wraps", c_xora_u8(a, b) == (uint8_t)((uint8_t)(uint8_t)a ^ (uint8_t)(uint8_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16); VP_ENSURES("short ^= wraps", c_xora_s16(a, b) == (int16_t)((uint16_t)(int16_t)a ^ (uint16_t)(int16_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort ^= wraps", c_xora_u16(a, b) == (uint16_t)((uint16_t)(uint16_t)a ^ (uint16_t)(uint16_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32); VP_ENSURES("int ^= wraps", c_xora_s32(a, b) == (int32_t)((uint32_t)(int32_t)a ^ (uint32_t)(int32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint ^= wraps", c_xora_u32(a, b) == (uint32_t)((uint32_t)(uint32_t)a ^ (uint32_t)(uint32_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64); VP_ENSURES("long ^= wraps", c_xora_s64(a, b) == (int64_t)((uint64_t)(int64_t)a ^ (uint64_t)(int64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong ^= wraps", c_xora_u64(a, b) == (uint64_t)((uint64_t)(uint64_t)a ^ (uint64_t)(uint64_t)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 ^= wraps", c_xora_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a ^ (vp_u128)(vp_i128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 ^= wraps", c_xora_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a ^ (vp_u128)(vp_u128)b)); }
	VP_REACH();
}
//@unit div_s8 fns=llvm_emit_binary cost=1
void vp_div_s8(void)
{
	int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8);
	VP_REQUIRES(b != 0);
	VP_REQUIRES(!(a == (int8_t)((uint8_t)1 << 7) && b == -1));
	VP_ENSURES("ichar / truncates towards zero", c_div_s8(a, b) == (int8_t)vp_uf_sdiv_32((int32_t)a, (int32_t)b));
	VP_REACH();
}
//@unit div_u8 fns=llvm_emit_binary cost=1
void vp_div_u8(void)
{
	uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8);
	VP_REQUIRES(b != 0);
	VP_ENSURES("char / truncates towards zero", c_div_u8(a, b) == (uint8_t)vp_uf_udiv_32((uint32_t)a, (uint32_t)b));
	VP_REACH();
}
//@unit div_s16 fns=llvm_emit_binary cost=1
void vp_div_s16(void)
{
	int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16);
	VP_REQUIRES(b != 0);
	VP_REQUIRES(!(a == (int16_t)((uint16_t)1 << 15) && b == -1));
	VP_ENSURES("short / truncates towards zero", c_div_s16(a, b) == (int16_t)vp_uf_sdiv_32((int32_t)a, (int32_t)b));
	VP_REACH();
}
//@unit div_u16 fns=llvm_emit_binary cost=1
void vp_div_u16(void)
{
	uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16);
	VP_REQUIRES(b != 0);
	VP_ENSURES("ushort / truncates towards zero", c_div_u16(a, b) == (uint16_t)vp_uf_udiv_32((uint32_t)a, (uint32_t)b));
	VP_REACH();
}
//@unit div_s32 fns=llvm_emit_binary cost=1
void vp_div_s32(void)
{
	int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32);
	VP_REQUIRES(b != 0);
	VP_REQUIRES(!(a == (int32_t)((uint32_t)1 << 31) && b == -1));
	VP_ENSURES("int / truncates towards zero", c_div_s32(a, b) == (int32_t)vp_uf_sdiv_32((int32_t)a, (int32_t)b));
	VP_REACH();
}
//@unit div_u32 fns=llvm_emit_binary cost=1
void vp_div_u32(void)
{
	uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32);
	VP_REQUIRES(b != 0);
	VP_ENSURES("uint / truncates towards zero", c_div_u32(a, b) == (uint32_t)vp_uf_udiv_32((uint32_t)a, (uint32_t)b));
	VP_REACH();
}
//@unit div_s64 fns=llvm_emit_binary cost=8
void vp_div_s64(void)
{
	int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64);
	VP_REQUIRES(b != 0);
	VP_REQUIRES(!(a == (int64_t)((uint64_t)1 << 63) && b == -1));
	VP_ENSURES("long / truncates towards zero", c_div_s64(a, b) == (int64_t)vp_uf_sdiv_64((int64_t)a, (int64_t)b));
	VP_REACH();
}
//@unit div_u64 fns=llvm_emit_binary cost=8
void vp_div_u64(void)
{
	uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64);
	VP_REQUIRES(b != 0);
	VP_ENSURES("ulong / truncates towards zero", c_div_u64(a, b) == (uint64_t)vp_uf_udiv_64((uint64_t)a, (uint64_t)b));
	VP_REACH();
}
//@unit div_s128 fns=llvm_emit_binary cost=8
void vp_div_s128(void)
{
	vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b");
	VP_REQUIRES(b != 0);
	VP_REQUIRES(!(a == (vp_i128)((vp_u128)1 << 127) && b == -1));
	VP_ENSURES("int128 / truncates towards zero", c_div_s128(a, b) == (vp_i128)vp_uf_sdiv_128((vp_i128)a, (vp_i128)b));
	VP_REACH();
}
//@unit div_u128 fns=llvm_emit_binary cost=8
void vp_div_u128(void)
{
	vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b");
	VP_REQUIRES(b != 0);
	VP_ENSURES("uint128 / truncates towards zero", c_div_u128(a, b) == (vp_u128)vp_uf_udiv_128((vp_u128)a, (vp_u128)b));
	VP_REACH();
}
//@unit rem_s8 fns=llvm_emit_binary cost=1
void vp_rem_s8(void)
{
	int8_t a = (int8_t)vp_input("a", 8), b = (int8_t)vp_input("b", 8);
	VP_REQUIRES(b != 0);
	VP_REQUIRES(!(a == (int8_t)((uint8_t)1 << 7) && b == -1));
	VP_ENSURES("ichar % truncates towards zero", c_rem_s8(a, b) == (int8_t)vp_uf_srem_32((int32_t)a, (int32_t)b));
	VP_REACH();
}
//@unit rem_u8 fns=llvm_emit_binary cost=1
void vp_rem_u8(void)
{
	uint8_t a = (uint8_t)vp_input("a", 8), b = (uint8_t)vp_input("b", 8);
	VP_REQUIRES(b != 0);
	VP_ENSURES("char % truncates towards zero", c_rem_u8(a, b) == (uint8_t)vp_uf_urem_32((uint32_t)a, (uint32_t)b));
	VP_REACH();
}
//@unit rem_s16 fns=llvm_emit_binary cost=1
void vp_rem_s16(void)
{
	int16_t a = (int16_t)vp_input("a", 16), b = (int16_t)vp_input("b", 16);
	VP_REQUIRES(b != 0);
	VP_REQUIRES(!(a == (int16_t)((uint16_t)1 << 15) && b == -1));
	VP_ENSURES("short % truncates towards zero", c_rem_s16(a, b) == (int16_t)vp_uf_srem_32((int32_t)a, (int32_t)b));
	VP_REACH();
}
//@unit rem_u16 fns=llvm_emit_binary cost=1
void vp_rem_u16(void)
{
	uint16_t a = (uint16_t)vp_input("a", 16), b = (uint16_t)vp_input("b", 16);
	VP_REQUIRES(b != 0);
	VP_ENSURES("ushort % truncates towards zero", c_rem_u16(a, b) == (uint16_t)vp_uf_urem_32((uint32_t)a, (uint32_t)b));
	VP_REACH();
}
//@unit rem_s32 fns=llvm_emit_binary cost=1
void vp_rem_s32(void)
{
	int32_t a = (int32_t)vp_input("a", 32), b = (int32_t)vp_input("b", 32);
	VP_REQUIRES(b != 0);
	VP_REQUIRES(!(a == (int32_t)((uint32_t)1 << 31) && b == -1));
	VP_ENSURES("int % truncates towards zero", c_rem_s32(a, b) == (int32_t)vp_uf_srem_32((int32_t)a, (int32_t)b));
	VP_REACH();
}
//@unit rem_u32 fns=llvm_emit_binary cost=1
void vp_rem_u32(void)
{
	uint32_t a = (uint32_t)vp_input("a", 32), b = (uint32_t)vp_input("b", 32);
	VP_REQUIRES(b != 0);
	VP_ENSURES("uint % truncates towards zero", c_rem_u32(a, b) == (uint32_t)vp_uf_urem_32((uint32_t)a, (uint32_t)b));
	VP_REACH();
}
//@unit rem_s64 fns=llvm_emit_binary cost=8
void vp_rem_s64(void)
{
	int64_t a = (int64_t)vp_input("a", 64), b = (int64_t)vp_input("b", 64);
	VP_REQUIRES(b != 0);
	VP_REQUIRES(!(a == (int64_t)((uint64_t)1 << 63) && b == -1));
	VP_ENSURES("long % truncates towards zero", c_rem_s64(a, b) == (int64_t)vp_uf_srem_64((int64_t)a, (int64_t)b));
	VP_REACH();
}
//@unit rem_u64 fns=llvm_emit_binary cost=8
void vp_rem_u64(void)
{
	uint64_t a = (uint64_t)vp_input("a", 64), b = (uint64_t)vp_input("b", 64);
	VP_REQUIRES(b != 0);
	VP_ENSURES("ulong % truncates towards zero", c_rem_u64(a, b) == (uint64_t)vp_uf_urem_64((uint64_t)a, (uint64_t)b));
	VP_REACH();
}
//@unit rem_s128 fns=llvm_emit_binary cost=8
void vp_rem_s128(void)
{
	vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b");
	VP_REQUIRES(b != 0);
	VP_REQUIRES(!(a == (vp_i128)((vp_u128)1 << 127) && b == -1));
	VP_ENSURES("int128 % truncates towards zero", c_rem_s128(a, b) == (vp_i128)vp_uf_srem_128((vp_i128)a, (vp_i128)b));
	VP_REACH();
}
//@unit rem_u128 fns=llvm_emit_binary cost=8
void vp_rem_u128(void)
{
	vp_u128 a = (vp_u128)VP_U128("a"), b = (vp_u128)VP_U128("b");
	VP_REQUIRES(b != 0);
	VP_ENSURES("uint128 % truncates towards zero", c_rem_u128(a, b) == (vp_u128)vp_uf_urem_128((vp_u128)a, (vp_u128)b));
	VP_REACH();
}
//@unit shl fns=llvm_emit_binary off=signed-overflow cost=5
void vp_shl(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8); int32_t b = (int32_t)VP_RANGE("b", 0, 7);
	VP_ENSURES("ichar <<", c_shl_s8(a, b) == (int8_t)(uint8_t)((uint32_t)a << b));
	VP_ENSURES("ichar <<=", c_shla_s8(a, b) == (int8_t)(uint8_t)((uint32_t)a << b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int32_t b = (int32_t)VP_RANGE("b", 0, 7);
	VP_ENSURES("char <<", c_shl_u8(a, b) == (uint8_t)(uint8_t)((uint32_t)a << b));
	VP_ENSURES("char <<=", c_shla_u8(a, b) == (uint8_t)(uint8_t)((uint32_t)a << b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int32_t b = (int32_t)VP_RANGE("b", 0, 15);
	VP_ENSURES("short <<", c_shl_s16(a, b) == (int16_t)(uint16_t)((uint32_t)a << b));
	VP_ENSURES("short <<=", c_shla_s16(a, b) == (int16_t)(uint16_t)((uint32_t)a << b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int32_t b = (int32_t)VP_RANGE("b", 0, 15);
	VP_ENSURES("ushort <<", c_shl_u16(a, b) == (uint16_t)(uint16_t)((uint32_t)a << b));
	VP_ENSURES("ushort <<=", c_shla_u16(a, b) == (uint16_t)(uint16_t)((uint32_t)a << b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int32_t b = (int32_t)VP_RANGE("b", 0, 31);
	VP_ENSURES("int <<", c_shl_s32(a, b) == (int32_t)(uint32_t)((uint32_t)a << b));
	VP_ENSURES("int <<=", c_shla_s32(a, b) == (int32_t)(uint32_t)((uint32_t)a << b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int32_t b = (int32_t)VP_RANGE("b", 0, 31);
	VP_ENSURES("uint <<", c_shl_u32(a, b) == (uint32_t)(uint32_t)((uint32_t)a << b));
	VP_ENSURES("uint <<=", c_shla_u32(a, b) == (uint32_t)(uint32_t)((uint32_t)a << b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int32_t b = (int32_t)VP_RANGE("b", 0, 63);
	VP_ENSURES("long <<", c_shl_s64(a, b) == (int64_t)(uint64_t)((uint64_t)a << b));
	VP_ENSURES("long <<=", c_shla_s64(a, b) == (int64_t)(uint64_t)((uint64_t)a << b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int32_t b = (int32_t)VP_RANGE("b", 0, 63);
	VP_ENSURES("ulong <<", c_shl_u64(a, b) == (uint64_t)(uint64_t)((uint64_t)a << b));
	VP_ENSURES("ulong <<=", c_shla_u64(a, b) == (uint64_t)(uint64_t)((uint64_t)a << b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int32_t b = (int32_t)VP_RANGE("b", 0, 127);
	VP_ENSURES("int128 <<", c_shl_s128(a, b) == (vp_i128)(vp_u128)((vp_u128)a << b));
	VP_ENSURES("int128 <<=", c_shla_s128(a, b) == (vp_i128)(vp_u128)((vp_u128)a << b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int32_t b = (int32_t)VP_RANGE("b", 0, 127);
	VP_ENSURES("uint128 <<", c_shl_u128(a, b) == (vp_u128)(vp_u128)((vp_u128)a << b));
	VP_ENSURES("uint128 <<=", c_shla_u128(a, b) == (vp_u128)(vp_u128)((vp_u128)a << b)); }
	VP_REACH();
}
//@unit shr fns=llvm_emit_binary off=signed-overflow cost=5
void vp_shr(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8); int32_t b = (int32_t)VP_RANGE("b", 0, 7);
	VP_ENSURES("ichar >>", c_shr_s8(a, b) == (int8_t)(a >> b));
	VP_ENSURES("ichar >>=", c_shra_s8(a, b) == (int8_t)(a >> b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int32_t b = (int32_t)VP_RANGE("b", 0, 7);
	VP_ENSURES("char >>", c_shr_u8(a, b) == (uint8_t)(a >> b));
	VP_ENSURES("char >>=", c_shra_u8(a, b) == (uint8_t)(a >> b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int32_t b = (int32_t)VP_RANGE("b", 0, 15);
	VP_ENSURES("short >>", c_shr_s16(a, b) == (int16_t)(a >> b));
	VP_ENSURES("short >>=", c_shra_s16(a, b) == (int16_t)(a >> b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int32_t b = (int32_t)VP_RANGE("b", 0, 15);
	VP_ENSURES("ushort >>", c_shr_u16(a, b) == (uint16_t)(a >> b));
	VP_ENSURES("ushort >>=", c_shra_u16(a, b) == (uint16_t)(a >> b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int32_t b = (int32_t)VP_RANGE("b", 0, 31);
	VP_ENSURES("int >>", c_shr_s32(a, b) == (int32_t)(a >> b));
	VP_ENSURES("int >>=", c_shra_s32(a, b) == (int32_t)(a >> b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int32_t b = (int32_t)VP_RANGE("b", 0, 31);
	VP_ENSURES("uint >>", c_shr_u32(a, b) == (uint32_t)(a >> b));
	VP_ENSURES("uint >>=", c_shra_u32(a, b) == (uint32_t)(a >> b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int32_t b = (int32_t)VP_RANGE("b", 0, 63);
	VP_ENSURES("long >>", c_shr_s64(a, b) == (int64_t)(a >> b));
	VP_ENSURES("long >>=", c_shra_s64(a, b) == (int64_t)(a >> b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int32_t b = (int32_t)VP_RANGE("b", 0, 63);
	VP_ENSURES("ulong >>", c_shr_u64(a, b) == (uint64_t)(a >> b));
	VP_ENSURES("ulong >>=", c_shra_u64(a, b) == (uint64_t)(a >> b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int32_t b = (int32_t)VP_RANGE("b", 0, 127);
	VP_ENSURES("int128 >>", c_shr_s128(a, b) == (vp_i128)(a >> b));
	VP_ENSURES("int128 >>=", c_shra_s128(a, b) == (vp_i128)(a >> b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int32_t b = (int32_t)VP_RANGE("b", 0, 127);
	VP_ENSURES("uint128 >>", c_shr_u128(a, b) == (vp_u128)(a >> b));
	VP_ENSURES("uint128 >>=", c_shra_u128(a, b) == (vp_u128)(a >> b)); }
	VP_REACH();
}
//@unit unary fns=llvm_emit_unary_expr,llvm_emit_pre_inc_dec,llvm_emit_post_inc_dec cost=3
void vp_unary(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8);
	VP_ENSURES("ichar neg", c_neg_s8(a) == (int8_t)(uint8_t)(0 - (uint8_t)a));
	VP_ENSURES("ichar not", c_not_s8(a) == (int8_t)~a);
	VP_ENSURES("ichar !", c_lnot_s8(a) == (a == 0));
	VP_ENSURES("ichar to bool", c_bool_s8(a) == (a != 0));
	VP_ENSURES("ichar ?:", c_tern_s8(a, (int8_t)7) == (a ? a : (int8_t)7));
	{ int8_t x = a; int8_t r = c_preinc_s8(&x); VP_ENSURES("ichar preinc stores", x == (int8_t)(uint8_t)((uint8_t)a + 1)); VP_ENSURES("ichar preinc value", r == x); }
	{ int8_t x = a; int8_t r = c_predec_s8(&x); VP_ENSURES("ichar predec stores", x == (int8_t)(uint8_t)((uint8_t)a - 1)); VP_ENSURES("ichar predec value", r == x); }
	{ int8_t x = a; int8_t r = c_postinc_s8(&x); VP_ENSURES("ichar postinc stores", x == (int8_t)(uint8_t)((uint8_t)a + 1)); VP_ENSURES("ichar postinc value", r == a); }
	{ int8_t x = a; int8_t r = c_postdec_s8(&x); VP_ENSURES("ichar postdec stores", x == (int8_t)(uint8_t)((uint8_t)a - 1)); VP_ENSURES("ichar postdec value", r == a); }
	}
	{ uint8_t a = (uint8_t)vp_input("a", 8);
	VP_ENSURES("char neg", c_neg_u8(a) == (uint8_t)(uint8_t)(0 - (uint8_t)a));
	VP_ENSURES("char not", c_not_u8(a) == (uint8_t)~a);
	VP_ENSURES("char !", c_lnot_u8(a) == (a == 0));
	VP_ENSURES("char to bool", c_bool_u8(a) == (a != 0));
	VP_ENSURES("char ?:", c_tern_u8(a, (uint8_t)7) == (a ? a : (uint8_t)7));
	{ uint8_t x = a; uint8_t r = c_preinc_u8(&x); VP_ENSURES("char preinc stores", x == (uint8_t)(uint8_t)((uint8_t)a + 1)); VP_ENSURES("char preinc value", r == x); }
	{ uint8_t x = a; uint8_t r = c_predec_u8(&x); VP_ENSURES("char predec stores", x == (uint8_t)(uint8_t)((uint8_t)a - 1)); VP_ENSURES("char predec value", r == x); }
	{ uint8_t x = a; uint8_t r = c_postinc_u8(&x); VP_ENSURES("char postinc stores", x == (uint8_t)(uint8_t)((uint8_t)a + 1)); VP_ENSURES("char postinc value", r == a); }
	{ uint8_t x = a; uint8_t r = c_postdec_u8(&x); VP_ENSURES("char postdec stores", x == (uint8_t)(uint8_t)((uint8_t)a - 1)); VP_ENSURES("char postdec value", r == a); }
	}
	{ int16_t a = (int16_t)vp_input("a", 16);
	VP_ENSURES("short neg", c_neg_s16(a) == (int16_t)(uint16_t)(0 - (uint16_t)a));
	VP_ENSURES("short not", c_not_s16(a) == (int16_t)~a);
	VP_ENSURES("short !", c_lnot_s16(a) == (a == 0));
	VP_ENSURES("short to bool", c_bool_s16(a) == (a != 0));
	VP_ENSURES("short ?:", c_tern_s16(a, (int16_t)7) == (a ? a : (int16_t)7));
	{ int16_t x = a; int16_t r = c_preinc_s16(&x); VP_ENSURES("short preinc stores", x == (int16_t)(uint16_t)((uint16_t)a + 1)); VP_ENSURES("short preinc value", r == x); }
	{ int16_t x = a; int16_t r = c_predec_s16(&x); VP_ENSURES("short predec stores", x == (int16_t)(uint16_t)((uint16_t)a - 1)); VP_ENSURES("short predec value", r == x); }
	{ int16_t x = a; int16_t r = c_postinc_s16(&x); VP_ENSURES("short postinc stores", x == (int16_t)(uint16_t)((uint16_t)a + 1)); VP_ENSURES("short postinc value", r == a); }
	{ int16_t x = a; int16_t r = c_postdec_s16(&x); VP_ENSURES("short postdec stores", x == (int16_t)(uint16_t)((uint16_t)a - 1)); VP_ENSURES("short postdec value", r == a); }
	}
	{ uint16_t a = (uint16_t)vp_input("a", 16);
	VP_ENSURES("ushort neg", c_neg_u16(a) == (uint16_t)(uint16_t)(0 - (uint16_t)a));
	VP_ENSURES("ushort not", c_not_u16(a) == (uint16_t)~a);
	VP_ENSURES("ushort !", c_lnot_u16(a) == (a == 0));
	VP_ENSURES("ushort to bool", c_bool_u16(a) == (a != 0));
	VP_ENSURES("ushort ?:", c_tern_u16(a, (uint16_t)7) == (a ? a : (uint16_t)7));
	{ uint16_t x = a; uint16_t r = c_preinc_u16(&x); VP_ENSURES("ushort preinc stores", x == (uint16_t)(uint16_t)((uint16_t)a + 1)); VP_ENSURES("ushort preinc value", r == x); }
	{ uint16_t x = a; uint16_t r = c_predec_u16(&x); VP_ENSURES("ushort predec stores", x == (uint16_t)(uint16_t)((uint16_t)a - 1)); VP_ENSURES("ushort predec value", r == x); }
	{ uint16_t x = a; uint16_t r = c_postinc_u16(&x); VP_ENSURES("ushort postinc stores", x == (uint16_t)(uint16_t)((uint16_t)a + 1)); VP_ENSURES("ushort postinc value", r == a); }
	{ uint16_t x = a; uint16_t r = c_postdec_u16(&x); VP_ENSURES("ushort postdec stores", x == (uint16_t)(uint16_t)((uint16_t)a - 1)); VP_ENSURES("ushort postdec value", r == a); }
	}
	{ int32_t a = (int32_t)vp_input("a", 32);
	VP_ENSURES("int neg", c_neg_s32(a) == (int32_t)(uint32_t)(0 - (uint32_t)a));
	VP_ENSURES("int not", c_not_s32(a) == (int32_t)~a);
	VP_ENSURES("int !", c_lnot_s32(a) == (a == 0));
	VP_ENSURES("int to bool", c_bool_s32(a) == (a != 0));
	VP_ENSURES("int ?:", c_tern_s32(a, (int32_t)7) == (a ? a : (int32_t)7));
	{ int32_t x = a; int32_t r = c_preinc_s32(&x); VP_ENSURES("int preinc stores", x == (int32_t)(uint32_t)((uint32_t)a + 1)); VP_ENSURES("int preinc value", r == x); }
	{ int32_t x = a; int32_t r = c_predec_s32(&x); VP_ENSURES("int predec stores", x == (int32_t)(uint32_t)((uint32_t)a - 1)); VP_ENSURES("int predec value", r == x); }
	{ int32_t x = a; int32_t r = c_postinc_s32(&x); VP_ENSURES("int postinc stores", x == (int32_t)(uint32_t)((uint32_t)a + 1)); VP_ENSURES("int postinc value", r == a); }
	{ int32_t x = a; int32_t r = c_postdec_s32(&x); VP_ENSURES("int postdec stores", x == (int32_t)(uint32_t)((uint32_t)a - 1)); VP_ENSURES("int postdec value", r == a); }
	}
	{ uint32_t a = (uint32_t)vp_input("a", 32);
	VP_ENSURES("uint neg", c_neg_u32(a) == (uint32_t)(uint32_t)(0 - (uint32_t)a));
	VP_ENSURES("uint not", c_not_u32(a) == (uint32_t)~a);
	VP_ENSURES("uint !", c_lnot_u32(a) == (a == 0));
	VP_ENSURES("uint to bool", c_bool_u32(a) == (a != 0));
	VP_ENSURES("uint ?:", c_tern_u32(a, (uint32_t)7) == (a ? a : (uint32_t)7));
	{ uint32_t x = a; uint32_t r = c_preinc_u32(&x); VP_ENSURES("uint preinc stores", x == (uint32_t)(uint32_t)((uint32_t)a + 1)); VP_ENSURES("uint preinc value", r == x); }
	{ uint32_t x = a; uint32_t r = c_predec_u32(&x); VP_ENSURES("uint predec stores", x == (uint32_t)(uint32_t)((uint32_t)a - 1)); VP_ENSURES("uint predec value", r == x); }
	{ uint32_t x = a; uint32_t r = c_postinc_u32(&x); VP_ENSURES("uint postinc stores", x == (uint32_t)(uint32_t)((uint32_t)a + 1)); VP_ENSURES("uint postinc value", r == a); }
	{ uint32_t x = a; uint32_t r = c_postdec_u32(&x); VP_ENSURES("uint postdec stores", x == (uint32_t)(uint32_t)((uint32_t)a - 1)); VP_ENSURES("uint postdec value", r == a); }
	}
	{ int64_t a = (int64_t)vp_input("a", 64);
	VP_ENSURES("long neg", c_neg_s64(a) == (int64_t)(uint64_t)(0 - (uint64_t)a));
	VP_ENSURES("long not", c_not_s64(a) == (int64_t)~a);
	VP_ENSURES("long !", c_lnot_s64(a) == (a == 0));
	VP_ENSURES("long to bool", c_bool_s64(a) == (a != 0));
	VP_ENSURES("long ?:", c_tern_s64(a, (int64_t)7) == (a ? a : (int64_t)7));
	{ int64_t x = a; int64_t r = c_preinc_s64(&x); VP_ENSURES("long preinc stores", x == (int64_t)(uint64_t)((uint64_t)a + 1)); VP_ENSURES("long preinc value", r == x); }
	{ int64_t x = a; int64_t r = c_predec_s64(&x); VP_ENSURES("long predec stores", x == (int64_t)(uint64_t)((uint64_t)a - 1)); VP_ENSURES("long predec value", r == x); }
	{ int64_t x = a; int64_t r = c_postinc_s64(&x); VP_ENSURES("long postinc stores", x == (int64_t)(uint64_t)((uint64_t)a + 1)); VP_ENSURES("long postinc value", r == a); }
	{ int64_t x = a; int64_t r = c_postdec_s64(&x); VP_ENSURES("long postdec stores", x == (int64_t)(uint64_t)((uint64_t)a - 1)); VP_ENSURES("long postdec value", r == a); }
	}
	{ uint64_t a = (uint64_t)vp_input("a", 64);
	VP_ENSURES("ulong neg", c_neg_u64(a) == (uint64_t)(uint64_t)(0 - (uint64_t)a));
	VP_ENSURES("ulong not", c_not_u64(a) == (uint64_t)~a);
	VP_ENSURES("ulong !", c_lnot_u64(a) == (a == 0));
	VP_ENSURES("ulong to bool", c_bool_u64(a) == (a != 0));
	VP_ENSURES("ulong ?:", c_tern_u64(a, (uint64_t)7) == (a ? a : (uint64_t)7));
	{ uint64_t x = a; uint64_t r = c_preinc_u64(&x); VP_ENSURES("ulong preinc stores", x == (uint64_t)(uint64_t)((uint64_t)a + 1)); VP_ENSURES("ulong preinc value", r == x); }
	{ uint64_t x = a; uint64_t r = c_predec_u64(&x); VP_ENSURES("ulong predec stores", x == (uint64_t)(uint64_t)((uint64_t)a - 1)); VP_ENSURES("ulong predec value", r == x); }
	{ uint64_t x = a; uint64_t r = c_postinc_u64(&x); VP_ENSURES("ulong postinc stores", x == (uint64_t)(uint64_t)((uint64_t)a + 1)); VP_ENSURES("ulong postinc value", r == a); }
	{ uint64_t x = a; uint64_t r = c_postdec_u64(&x); VP_ENSURES("ulong postdec stores", x == (uint64_t)(uint64_t)((uint64_t)a - 1)); VP_ENSURES("ulong postdec value", r == a); }
	}
	{ vp_i128 a = (vp_i128)VP_U128("a");
	VP_ENSURES("int128 neg", c_neg_s128(a) == (vp_i128)(vp_u128)(0 - (vp_u128)a));
	VP_ENSURES("int128 not", c_not_s128(a) == (vp_i128)~a);
	VP_ENSURES("int128 !", c_lnot_s128(a) == (a == 0));
	VP_ENSURES("int128 to bool", c_bool_s128(a) == (a != 0));
	VP_ENSURES("int128 ?:", c_tern_s128(a, (vp_i128)7) == (a ? a : (vp_i128)7));
	{ vp_i128 x = a; vp_i128 r = c_preinc_s128(&x); VP_ENSURES("int128 preinc stores", x == (vp_i128)(vp_u128)((vp_u128)a + 1)); VP_ENSURES("int128 preinc value", r == x); }
	{ vp_i128 x = a; vp_i128 r = c_predec_s128(&x); VP_ENSURES("int128 predec stores", x == (vp_i128)(vp_u128)((vp_u128)a - 1)); VP_ENSURES("int128 predec value", r == x); }
	{ vp_i128 x = a; vp_i128 r = c_postinc_s128(&x); VP_ENSURES("int128 postinc stores", x == (vp_i128)(vp_u128)((vp_u128)a + 1)); VP_ENSURES("int128 postinc value", r == a); }
	{ vp_i128 x = a; vp_i128 r = c_postdec_s128(&x); VP_ENSURES("int128 postdec stores", x == (vp_i128)(vp_u128)((vp_u128)a - 1)); VP_ENSURES("int128 postdec value", r == a); }
	}
	{ vp_u128 a = (vp_u128)VP_U128("a");
	VP_ENSURES("uint128 neg", c_neg_u128(a) == (vp_u128)(vp_u128)(0 - (vp_u128)a));
	VP_ENSURES("uint128 not", c_not_u128(a) == (vp_u128)~a);
	VP_ENSURES("uint128 !", c_lnot_u128(a) == (a == 0));
	VP_ENSURES("uint128 to bool", c_bool_u128(a) == (a != 0));
	VP_ENSURES("uint128 ?:", c_tern_u128(a, (vp_u128)7) == (a ? a : (vp_u128)7));
	{ vp_u128 x = a; vp_u128 r = c_preinc_u128(&x); VP_ENSURES("uint128 preinc stores", x == (vp_u128)(vp_u128)((vp_u128)a + 1)); VP_ENSURES("uint128 preinc value", r == x); }
	{ vp_u128 x = a; vp_u128 r = c_predec_u128(&x); VP_ENSURES("uint128 predec stores", x == (vp_u128)(vp_u128)((vp_u128)a - 1)); VP_ENSURES("uint128 predec value", r == x); }
	{ vp_u128 x = a; vp_u128 r = c_postinc_u128(&x); VP_ENSURES("uint128 postinc stores", x == (vp_u128)(vp_u128)((vp_u128)a + 1)); VP_ENSURES("uint128 postinc value", r == a); }
	{ vp_u128 x = a; vp_u128 r = c_postdec_u128(&x); VP_ENSURES("uint128 postdec stores", x == (vp_u128)(vp_u128)((vp_u128)a - 1)); VP_ENSURES("uint128 postdec value", r == a); }
	}
	VP_REACH();
}
//@unit cmp_lt fns=llvm_emit_int_comp cost=6
void vp_cmp_lt(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar < ichar is the mathematical comparison", c_lt_s8_s8(a, b) == (a < b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ichar < char is the mathematical comparison", c_lt_s8_u8(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ichar < short is the mathematical comparison", c_lt_s8_s16(a, b) == (a < b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ichar < ushort is the mathematical comparison", c_lt_s8_u16(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ichar < int is the mathematical comparison", c_lt_s8_s32(a, b) == (a < b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ichar < uint is the mathematical comparison", c_lt_s8_u32(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ichar < long is the mathematical comparison", c_lt_s8_s64(a, b) == (a < b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ichar < ulong is the mathematical comparison", c_lt_s8_u64(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ichar < int128 is the mathematical comparison", c_lt_s8_s128(a, b) == (a < b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ichar < uint128 is the mathematical comparison", c_lt_s8_u128(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("char < ichar is the mathematical comparison", c_lt_u8_s8(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("char < char is the mathematical comparison", c_lt_u8_u8(a, b) == (a < b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("char < short is the mathematical comparison", c_lt_u8_s16(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("char < ushort is the mathematical comparison", c_lt_u8_u16(a, b) == (a < b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("char < int is the mathematical comparison", c_lt_u8_s32(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("char < uint is the mathematical comparison", c_lt_u8_u32(a, b) == (a < b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("char < long is the mathematical comparison", c_lt_u8_s64(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("char < ulong is the mathematical comparison", c_lt_u8_u64(a, b) == (a < b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("char < int128 is the mathematical comparison", c_lt_u8_s128(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("char < uint128 is the mathematical comparison", c_lt_u8_u128(a, b) == (a < b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("short < ichar is the mathematical comparison", c_lt_s16_s8(a, b) == (a < b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("short < char is the mathematical comparison", c_lt_s16_u8(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("short < short is the mathematical comparison", c_lt_s16_s16(a, b) == (a < b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("short < ushort is the mathematical comparison", c_lt_s16_u16(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("short < int is the mathematical comparison", c_lt_s16_s32(a, b) == (a < b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("short < uint is the mathematical comparison", c_lt_s16_u32(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("short < long is the mathematical comparison", c_lt_s16_s64(a, b) == (a < b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("short < ulong is the mathematical comparison", c_lt_s16_u64(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("short < int128 is the mathematical comparison", c_lt_s16_s128(a, b) == (a < b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("short < uint128 is the mathematical comparison", c_lt_s16_u128(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ushort < ichar is the mathematical comparison", c_lt_u16_s8(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ushort < char is the mathematical comparison", c_lt_u16_u8(a, b) == (a < b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ushort < short is the mathematical comparison", c_lt_u16_s16(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort < ushort is the mathematical comparison", c_lt_u16_u16(a, b) == (a < b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ushort < int is the mathematical comparison", c_lt_u16_s32(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ushort < uint is the mathematical comparison", c_lt_u16_u32(a, b) == (a < b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ushort < long is the mathematical comparison", c_lt_u16_s64(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ushort < ulong is the mathematical comparison", c_lt_u16_u64(a, b) == (a < b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ushort < int128 is the mathematical comparison", c_lt_u16_s128(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ushort < uint128 is the mathematical comparison", c_lt_u16_u128(a, b) == (a < b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int < ichar is the mathematical comparison", c_lt_s32_s8(a, b) == (a < b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("int < char is the mathematical comparison", c_lt_s32_u8(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int < short is the mathematical comparison", c_lt_s32_s16(a, b) == (a < b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("int < ushort is the mathematical comparison", c_lt_s32_u16(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("int < int is the mathematical comparison", c_lt_s32_s32(a, b) == (a < b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("int < uint is the mathematical comparison", c_lt_s32_u32(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int < long is the mathematical comparison", c_lt_s32_s64(a, b) == (a < b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("int < ulong is the mathematical comparison", c_lt_s32_u64(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("int < int128 is the mathematical comparison", c_lt_s32_s128(a, b) == (a < b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("int < uint128 is the mathematical comparison", c_lt_s32_u128(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("uint < ichar is the mathematical comparison", c_lt_u32_s8(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint < char is the mathematical comparison", c_lt_u32_u8(a, b) == (a < b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("uint < short is the mathematical comparison", c_lt_u32_s16(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint < ushort is the mathematical comparison", c_lt_u32_u16(a, b) == (a < b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("uint < int is the mathematical comparison", c_lt_u32_s32(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint < uint is the mathematical comparison", c_lt_u32_u32(a, b) == (a < b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("uint < long is the mathematical comparison", c_lt_u32_s64(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint < ulong is the mathematical comparison", c_lt_u32_u64(a, b) == (a < b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("uint < int128 is the mathematical comparison", c_lt_u32_s128(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("uint < uint128 is the mathematical comparison", c_lt_u32_u128(a, b) == (a < b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("long < ichar is the mathematical comparison", c_lt_s64_s8(a, b) == (a < b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("long < char is the mathematical comparison", c_lt_s64_u8(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("long < short is the mathematical comparison", c_lt_s64_s16(a, b) == (a < b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("long < ushort is the mathematical comparison", c_lt_s64_u16(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("long < int is the mathematical comparison", c_lt_s64_s32(a, b) == (a < b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("long < uint is the mathematical comparison", c_lt_s64_u32(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("long < long is the mathematical comparison", c_lt_s64_s64(a, b) == (a < b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("long < ulong is the mathematical comparison", c_lt_s64_u64(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("long < int128 is the mathematical comparison", c_lt_s64_s128(a, b) == (a < b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("long < uint128 is the mathematical comparison", c_lt_s64_u128(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ulong < ichar is the mathematical comparison", c_lt_u64_s8(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ulong < char is the mathematical comparison", c_lt_u64_u8(a, b) == (a < b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ulong < short is the mathematical comparison", c_lt_u64_s16(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ulong < ushort is the mathematical comparison", c_lt_u64_u16(a, b) == (a < b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ulong < int is the mathematical comparison", c_lt_u64_s32(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ulong < uint is the mathematical comparison", c_lt_u64_u32(a, b) == (a < b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ulong < long is the mathematical comparison", c_lt_u64_s64(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong < ulong is the mathematical comparison", c_lt_u64_u64(a, b) == (a < b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ulong < int128 is the mathematical comparison", c_lt_u64_s128(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ulong < uint128 is the mathematical comparison", c_lt_u64_u128(a, b) == (a < b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int128 < ichar is the mathematical comparison", c_lt_s128_s8(a, b) == (a < b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("int128 < char is the mathematical comparison", c_lt_s128_u8(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int128 < short is the mathematical comparison", c_lt_s128_s16(a, b) == (a < b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("int128 < ushort is the mathematical comparison", c_lt_s128_u16(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("int128 < int is the mathematical comparison", c_lt_s128_s32(a, b) == (a < b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("int128 < uint is the mathematical comparison", c_lt_s128_u32(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int128 < long is the mathematical comparison", c_lt_s128_s64(a, b) == (a < b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("int128 < ulong is the mathematical comparison", c_lt_s128_u64(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 < int128 is the mathematical comparison", c_lt_s128_s128(a, b) == (a < b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("int128 < uint128 is the mathematical comparison", c_lt_s128_u128(a, b) == (a < 0 ? 1 : (vp_u128)a < (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("uint128 < ichar is the mathematical comparison", c_lt_u128_s8(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint128 < char is the mathematical comparison", c_lt_u128_u8(a, b) == (a < b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("uint128 < short is the mathematical comparison", c_lt_u128_s16(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint128 < ushort is the mathematical comparison", c_lt_u128_u16(a, b) == (a < b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("uint128 < int is the mathematical comparison", c_lt_u128_s32(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint128 < uint is the mathematical comparison", c_lt_u128_u32(a, b) == (a < b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("uint128 < long is the mathematical comparison", c_lt_u128_s64(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint128 < ulong is the mathematical comparison", c_lt_u128_u64(a, b) == (a < b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("uint128 < int128 is the mathematical comparison", c_lt_u128_s128(a, b) == (b < 0 ? 0 : (vp_u128)a < (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 < uint128 is the mathematical comparison", c_lt_u128_u128(a, b) == (a < b)); }
	VP_REACH();
}
//@unit cmp_le fns=llvm_emit_int_comp cost=6
void vp_cmp_le(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar <= ichar is the mathematical comparison", c_le_s8_s8(a, b) == (a <= b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ichar <= char is the mathematical comparison", c_le_s8_u8(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ichar <= short is the mathematical comparison", c_le_s8_s16(a, b) == (a <= b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ichar <= ushort is the mathematical comparison", c_le_s8_u16(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ichar <= int is the mathematical comparison", c_le_s8_s32(a, b) == (a <= b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ichar <= uint is the mathematical comparison", c_le_s8_u32(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ichar <= long is the mathematical comparison", c_le_s8_s64(a, b) == (a <= b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ichar <= ulong is the mathematical comparison", c_le_s8_u64(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ichar <= int128 is the mathematical comparison", c_le_s8_s128(a, b) == (a <= b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ichar <= uint128 is the mathematical comparison", c_le_s8_u128(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("char <= ichar is the mathematical comparison", c_le_u8_s8(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("char <= char is the mathematical comparison", c_le_u8_u8(a, b) == (a <= b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("char <= short is the mathematical comparison", c_le_u8_s16(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("char <= ushort is the mathematical comparison", c_le_u8_u16(a, b) == (a <= b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("char <= int is the mathematical comparison", c_le_u8_s32(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("char <= uint is the mathematical comparison", c_le_u8_u32(a, b) == (a <= b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("char <= long is the mathematical comparison", c_le_u8_s64(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("char <= ulong is the mathematical comparison", c_le_u8_u64(a, b) == (a <= b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("char <= int128 is the mathematical comparison", c_le_u8_s128(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("char <= uint128 is the mathematical comparison", c_le_u8_u128(a, b) == (a <= b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("short <= ichar is the mathematical comparison", c_le_s16_s8(a, b) == (a <= b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("short <= char is the mathematical comparison", c_le_s16_u8(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("short <= short is the mathematical comparison", c_le_s16_s16(a, b) == (a <= b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("short <= ushort is the mathematical comparison", c_le_s16_u16(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("short <= int is the mathematical comparison", c_le_s16_s32(a, b) == (a <= b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("short <= uint is the mathematical comparison", c_le_s16_u32(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("short <= long is the mathematical comparison", c_le_s16_s64(a, b) == (a <= b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("short <= ulong is the mathematical comparison", c_le_s16_u64(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("short <= int128 is the mathematical comparison", c_le_s16_s128(a, b) == (a <= b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("short <= uint128 is the mathematical comparison", c_le_s16_u128(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ushort <= ichar is the mathematical comparison", c_le_u16_s8(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ushort <= char is the mathematical comparison", c_le_u16_u8(a, b) == (a <= b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ushort <= short is the mathematical comparison", c_le_u16_s16(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort <= ushort is the mathematical comparison", c_le_u16_u16(a, b) == (a <= b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ushort <= int is the mathematical comparison", c_le_u16_s32(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ushort <= uint is the mathematical comparison", c_le_u16_u32(a, b) == (a <= b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ushort <= long is the mathematical comparison", c_le_u16_s64(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ushort <= ulong is the mathematical comparison", c_le_u16_u64(a, b) == (a <= b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ushort <= int128 is the mathematical comparison", c_le_u16_s128(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ushort <= uint128 is the mathematical comparison", c_le_u16_u128(a, b) == (a <= b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int <= ichar is the mathematical comparison", c_le_s32_s8(a, b) == (a <= b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("int <= char is the mathematical comparison", c_le_s32_u8(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int <= short is the mathematical comparison", c_le_s32_s16(a, b) == (a <= b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("int <= ushort is the mathematical comparison", c_le_s32_u16(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("int <= int is the mathematical comparison", c_le_s32_s32(a, b) == (a <= b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("int <= uint is the mathematical comparison", c_le_s32_u32(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int <= long is the mathematical comparison", c_le_s32_s64(a, b) == (a <= b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("int <= ulong is the mathematical comparison", c_le_s32_u64(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("int <= int128 is the mathematical comparison", c_le_s32_s128(a, b) == (a <= b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("int <= uint128 is the mathematical comparison", c_le_s32_u128(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("uint <= ichar is the mathematical comparison", c_le_u32_s8(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint <= char is the mathematical comparison", c_le_u32_u8(a, b) == (a <= b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("uint <= short is the mathematical comparison", c_le_u32_s16(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint <= ushort is the mathematical comparison", c_le_u32_u16(a, b) == (a <= b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("uint <= int is the mathematical comparison", c_le_u32_s32(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint <= uint is the mathematical comparison", c_le_u32_u32(a, b) == (a <= b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("uint <= long is the mathematical comparison", c_le_u32_s64(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint <= ulong is the mathematical comparison", c_le_u32_u64(a, b) == (a <= b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("uint <= int128 is the mathematical comparison", c_le_u32_s128(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("uint <= uint128 is the mathematical comparison", c_le_u32_u128(a, b) == (a <= b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("long <= ichar is the mathematical comparison", c_le_s64_s8(a, b) == (a <= b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("long <= char is the mathematical comparison", c_le_s64_u8(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("long <= short is the mathematical comparison", c_le_s64_s16(a, b) == (a <= b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("long <= ushort is the mathematical comparison", c_le_s64_u16(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("long <= int is the mathematical comparison", c_le_s64_s32(a, b) == (a <= b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("long <= uint is the mathematical comparison", c_le_s64_u32(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("long <= long is the mathematical comparison", c_le_s64_s64(a, b) == (a <= b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("long <= ulong is the mathematical comparison", c_le_s64_u64(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("long <= int128 is the mathematical comparison", c_le_s64_s128(a, b) == (a <= b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("long <= uint128 is the mathematical comparison", c_le_s64_u128(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ulong <= ichar is the mathematical comparison", c_le_u64_s8(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ulong <= char is the mathematical comparison", c_le_u64_u8(a, b) == (a <= b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ulong <= short is the mathematical comparison", c_le_u64_s16(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ulong <= ushort is the mathematical comparison", c_le_u64_u16(a, b) == (a <= b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ulong <= int is the mathematical comparison", c_le_u64_s32(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ulong <= uint is the mathematical comparison", c_le_u64_u32(a, b) == (a <= b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ulong <= long is the mathematical comparison", c_le_u64_s64(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong <= ulong is the mathematical comparison", c_le_u64_u64(a, b) == (a <= b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ulong <= int128 is the mathematical comparison", c_le_u64_s128(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ulong <= uint128 is the mathematical comparison", c_le_u64_u128(a, b) == (a <= b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int128 <= ichar is the mathematical comparison", c_le_s128_s8(a, b) == (a <= b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("int128 <= char is the mathematical comparison", c_le_s128_u8(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int128 <= short is the mathematical comparison", c_le_s128_s16(a, b) == (a <= b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("int128 <= ushort is the mathematical comparison", c_le_s128_u16(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("int128 <= int is the mathematical comparison", c_le_s128_s32(a, b) == (a <= b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("int128 <= uint is the mathematical comparison", c_le_s128_u32(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int128 <= long is the mathematical comparison", c_le_s128_s64(a, b) == (a <= b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("int128 <= ulong is the mathematical comparison", c_le_s128_u64(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 <= int128 is the mathematical comparison", c_le_s128_s128(a, b) == (a <= b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("int128 <= uint128 is the mathematical comparison", c_le_s128_u128(a, b) == (a < 0 ? 1 : (vp_u128)a <= (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("uint128 <= ichar is the mathematical comparison", c_le_u128_s8(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint128 <= char is the mathematical comparison", c_le_u128_u8(a, b) == (a <= b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("uint128 <= short is the mathematical comparison", c_le_u128_s16(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint128 <= ushort is the mathematical comparison", c_le_u128_u16(a, b) == (a <= b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("uint128 <= int is the mathematical comparison", c_le_u128_s32(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint128 <= uint is the mathematical comparison", c_le_u128_u32(a, b) == (a <= b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("uint128 <= long is the mathematical comparison", c_le_u128_s64(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint128 <= ulong is the mathematical comparison", c_le_u128_u64(a, b) == (a <= b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("uint128 <= int128 is the mathematical comparison", c_le_u128_s128(a, b) == (b < 0 ? 0 : (vp_u128)a <= (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 <= uint128 is the mathematical comparison", c_le_u128_u128(a, b) == (a <= b)); }
	VP_REACH();
}
//@unit cmp_gt fns=llvm_emit_int_comp cost=6
void vp_cmp_gt(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar > ichar is the mathematical comparison", c_gt_s8_s8(a, b) == (a > b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ichar > char is the mathematical comparison", c_gt_s8_u8(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ichar > short is the mathematical comparison", c_gt_s8_s16(a, b) == (a > b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ichar > ushort is the mathematical comparison", c_gt_s8_u16(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ichar > int is the mathematical comparison", c_gt_s8_s32(a, b) == (a > b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ichar > uint is the mathematical comparison", c_gt_s8_u32(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ichar > long is the mathematical comparison", c_gt_s8_s64(a, b) == (a > b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ichar > ulong is the mathematical comparison", c_gt_s8_u64(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ichar > int128 is the mathematical comparison", c_gt_s8_s128(a, b) == (a > b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ichar > uint128 is the mathematical comparison", c_gt_s8_u128(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("char > ichar is the mathematical comparison", c_gt_u8_s8(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("char > char is the mathematical comparison", c_gt_u8_u8(a, b) == (a > b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("char > short is the mathematical comparison", c_gt_u8_s16(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("char > ushort is the mathematical comparison", c_gt_u8_u16(a, b) == (a > b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("char > int is the mathematical comparison", c_gt_u8_s32(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("char > uint is the mathematical comparison", c_gt_u8_u32(a, b) == (a > b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("char > long is the mathematical comparison", c_gt_u8_s64(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("char > ulong is the mathematical comparison", c_gt_u8_u64(a, b) == (a > b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("char > int128 is the mathematical comparison", c_gt_u8_s128(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("char > uint128 is the mathematical comparison", c_gt_u8_u128(a, b) == (a > b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("short > ichar is the mathematical comparison", c_gt_s16_s8(a, b) == (a > b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("short > char is the mathematical comparison", c_gt_s16_u8(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("short > short is the mathematical comparison", c_gt_s16_s16(a, b) == (a > b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("short > ushort is the mathematical comparison", c_gt_s16_u16(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("short > int is the mathematical comparison", c_gt_s16_s32(a, b) == (a > b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("short > uint is the mathematical comparison", c_gt_s16_u32(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("short > long is the mathematical comparison", c_gt_s16_s64(a, b) == (a > b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("short > ulong is the mathematical comparison", c_gt_s16_u64(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("short > int128 is the mathematical comparison", c_gt_s16_s128(a, b) == (a > b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("short > uint128 is the mathematical comparison", c_gt_s16_u128(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ushort > ichar is the mathematical comparison", c_gt_u16_s8(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ushort > char is the mathematical comparison", c_gt_u16_u8(a, b) == (a > b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ushort > short is the mathematical comparison", c_gt_u16_s16(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort > ushort is the mathematical comparison", c_gt_u16_u16(a, b) == (a > b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ushort > int is the mathematical comparison", c_gt_u16_s32(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ushort > uint is the mathematical comparison", c_gt_u16_u32(a, b) == (a > b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ushort > long is the mathematical comparison", c_gt_u16_s64(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ushort > ulong is the mathematical comparison", c_gt_u16_u64(a, b) == (a > b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ushort > int128 is the mathematical comparison", c_gt_u16_s128(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ushort > uint128 is the mathematical comparison", c_gt_u16_u128(a, b) == (a > b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int > ichar is the mathematical comparison", c_gt_s32_s8(a, b) == (a > b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("int > char is the mathematical comparison", c_gt_s32_u8(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int > short is the mathematical comparison", c_gt_s32_s16(a, b) == (a > b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("int > ushort is the mathematical comparison", c_gt_s32_u16(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("int > int is the mathematical comparison", c_gt_s32_s32(a, b) == (a > b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("int > uint is the mathematical comparison", c_gt_s32_u32(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int > long is the mathematical comparison", c_gt_s32_s64(a, b) == (a > b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("int > ulong is the mathematical comparison", c_gt_s32_u64(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("int > int128 is the mathematical comparison", c_gt_s32_s128(a, b) == (a > b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("int > uint128 is the mathematical comparison", c_gt_s32_u128(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("uint > ichar is the mathematical comparison", c_gt_u32_s8(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint > char is the mathematical comparison", c_gt_u32_u8(a, b) == (a > b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("uint > short is the mathematical comparison", c_gt_u32_s16(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint > ushort is the mathematical comparison", c_gt_u32_u16(a, b) == (a > b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("uint > int is the mathematical comparison", c_gt_u32_s32(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint > uint is the mathematical comparison", c_gt_u32_u32(a, b) == (a > b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("uint > long is the mathematical comparison", c_gt_u32_s64(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint > ulong is the mathematical comparison", c_gt_u32_u64(a, b) == (a > b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("uint > int128 is the mathematical comparison", c_gt_u32_s128(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("uint > uint128 is the mathematical comparison", c_gt_u32_u128(a, b) == (a > b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("long > ichar is the mathematical comparison", c_gt_s64_s8(a, b) == (a > b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("long > char is the mathematical comparison", c_gt_s64_u8(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("long > short is the mathematical comparison", c_gt_s64_s16(a, b) == (a > b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("long > ushort is the mathematical comparison", c_gt_s64_u16(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("long > int is the mathematical comparison", c_gt_s64_s32(a, b) == (a > b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("long > uint is the mathematical comparison", c_gt_s64_u32(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("long > long is the mathematical comparison", c_gt_s64_s64(a, b) == (a > b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("long > ulong is the mathematical comparison", c_gt_s64_u64(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("long > int128 is the mathematical comparison", c_gt_s64_s128(a, b) == (a > b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("long > uint128 is the mathematical comparison", c_gt_s64_u128(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ulong > ichar is the mathematical comparison", c_gt_u64_s8(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ulong > char is the mathematical comparison", c_gt_u64_u8(a, b) == (a > b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ulong > short is the mathematical comparison", c_gt_u64_s16(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ulong > ushort is the mathematical comparison", c_gt_u64_u16(a, b) == (a > b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ulong > int is the mathematical comparison", c_gt_u64_s32(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ulong > uint is the mathematical comparison", c_gt_u64_u32(a, b) == (a > b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ulong > long is the mathematical comparison", c_gt_u64_s64(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong > ulong is the mathematical comparison", c_gt_u64_u64(a, b) == (a > b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ulong > int128 is the mathematical comparison", c_gt_u64_s128(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ulong > uint128 is the mathematical comparison", c_gt_u64_u128(a, b) == (a > b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int128 > ichar is the mathematical comparison", c_gt_s128_s8(a, b) == (a > b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("int128 > char is the mathematical comparison", c_gt_s128_u8(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int128 > short is the mathematical comparison", c_gt_s128_s16(a, b) == (a > b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("int128 > ushort is the mathematical comparison", c_gt_s128_u16(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("int128 > int is the mathematical comparison", c_gt_s128_s32(a, b) == (a > b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("int128 > uint is the mathematical comparison", c_gt_s128_u32(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int128 > long is the mathematical comparison", c_gt_s128_s64(a, b) == (a > b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("int128 > ulong is the mathematical comparison", c_gt_s128_u64(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 > int128 is the mathematical comparison", c_gt_s128_s128(a, b) == (a > b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("int128 > uint128 is the mathematical comparison", c_gt_s128_u128(a, b) == (a < 0 ? 0 : (vp_u128)a > (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("uint128 > ichar is the mathematical comparison", c_gt_u128_s8(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint128 > char is the mathematical comparison", c_gt_u128_u8(a, b) == (a > b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("uint128 > short is the mathematical comparison", c_gt_u128_s16(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint128 > ushort is the mathematical comparison", c_gt_u128_u16(a, b) == (a > b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("uint128 > int is the mathematical comparison", c_gt_u128_s32(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint128 > uint is the mathematical comparison", c_gt_u128_u32(a, b) == (a > b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("uint128 > long is the mathematical comparison", c_gt_u128_s64(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint128 > ulong is the mathematical comparison", c_gt_u128_u64(a, b) == (a > b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("uint128 > int128 is the mathematical comparison", c_gt_u128_s128(a, b) == (b < 0 ? 1 : (vp_u128)a > (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 > uint128 is the mathematical comparison", c_gt_u128_u128(a, b) == (a > b)); }
	VP_REACH();
}
//@unit cmp_ge fns=llvm_emit_int_comp cost=6
void vp_cmp_ge(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar >= ichar is the mathematical comparison", c_ge_s8_s8(a, b) == (a >= b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ichar >= char is the mathematical comparison", c_ge_s8_u8(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ichar >= short is the mathematical comparison", c_ge_s8_s16(a, b) == (a >= b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ichar >= ushort is the mathematical comparison", c_ge_s8_u16(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ichar >= int is the mathematical comparison", c_ge_s8_s32(a, b) == (a >= b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ichar >= uint is the mathematical comparison", c_ge_s8_u32(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ichar >= long is the mathematical comparison", c_ge_s8_s64(a, b) == (a >= b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ichar >= ulong is the mathematical comparison", c_ge_s8_u64(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ichar >= int128 is the mathematical comparison", c_ge_s8_s128(a, b) == (a >= b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ichar >= uint128 is the mathematical comparison", c_ge_s8_u128(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("char >= ichar is the mathematical comparison", c_ge_u8_s8(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("char >= char is the mathematical comparison", c_ge_u8_u8(a, b) == (a >= b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("char >= short is the mathematical comparison", c_ge_u8_s16(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("char >= ushort is the mathematical comparison", c_ge_u8_u16(a, b) == (a >= b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("char >= int is the mathematical comparison", c_ge_u8_s32(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("char >= uint is the mathematical comparison", c_ge_u8_u32(a, b) == (a >= b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("char >= long is the mathematical comparison", c_ge_u8_s64(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("char >= ulong is the mathematical comparison", c_ge_u8_u64(a, b) == (a >= b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("char >= int128 is the mathematical comparison", c_ge_u8_s128(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("char >= uint128 is the mathematical comparison", c_ge_u8_u128(a, b) == (a >= b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("short >= ichar is the mathematical comparison", c_ge_s16_s8(a, b) == (a >= b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("short >= char is the mathematical comparison", c_ge_s16_u8(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("short >= short is the mathematical comparison", c_ge_s16_s16(a, b) == (a >= b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("short >= ushort is the mathematical comparison", c_ge_s16_u16(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("short >= int is the mathematical comparison", c_ge_s16_s32(a, b) == (a >= b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("short >= uint is the mathematical comparison", c_ge_s16_u32(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("short >= long is the mathematical comparison", c_ge_s16_s64(a, b) == (a >= b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("short >= ulong is the mathematical comparison", c_ge_s16_u64(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("short >= int128 is the mathematical comparison", c_ge_s16_s128(a, b) == (a >= b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("short >= uint128 is the mathematical comparison", c_ge_s16_u128(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ushort >= ichar is the mathematical comparison", c_ge_u16_s8(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ushort >= char is the mathematical comparison", c_ge_u16_u8(a, b) == (a >= b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ushort >= short is the mathematical comparison", c_ge_u16_s16(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort >= ushort is the mathematical comparison", c_ge_u16_u16(a, b) == (a >= b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ushort >= int is the mathematical comparison", c_ge_u16_s32(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ushort >= uint is the mathematical comparison", c_ge_u16_u32(a, b) == (a >= b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ushort >= long is the mathematical comparison", c_ge_u16_s64(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ushort >= ulong is the mathematical comparison", c_ge_u16_u64(a, b) == (a >= b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ushort >= int128 is the mathematical comparison", c_ge_u16_s128(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ushort >= uint128 is the mathematical comparison", c_ge_u16_u128(a, b) == (a >= b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int >= ichar is the mathematical comparison", c_ge_s32_s8(a, b) == (a >= b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("int >= char is the mathematical comparison", c_ge_s32_u8(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int >= short is the mathematical comparison", c_ge_s32_s16(a, b) == (a >= b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("int >= ushort is the mathematical comparison", c_ge_s32_u16(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("int >= int is the mathematical comparison", c_ge_s32_s32(a, b) == (a >= b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("int >= uint is the mathematical comparison", c_ge_s32_u32(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int >= long is the mathematical comparison", c_ge_s32_s64(a, b) == (a >= b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("int >= ulong is the mathematical comparison", c_ge_s32_u64(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("int >= int128 is the mathematical comparison", c_ge_s32_s128(a, b) == (a >= b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("int >= uint128 is the mathematical comparison", c_ge_s32_u128(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("uint >= ichar is the mathematical comparison", c_ge_u32_s8(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint >= char is the mathematical comparison", c_ge_u32_u8(a, b) == (a >= b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("uint >= short is the mathematical comparison", c_ge_u32_s16(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint >= ushort is the mathematical comparison", c_ge_u32_u16(a, b) == (a >= b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("uint >= int is the mathematical comparison", c_ge_u32_s32(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint >= uint is the mathematical comparison", c_ge_u32_u32(a, b) == (a >= b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("uint >= long is the mathematical comparison", c_ge_u32_s64(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint >= ulong is the mathematical comparison", c_ge_u32_u64(a, b) == (a >= b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("uint >= int128 is the mathematical comparison", c_ge_u32_s128(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("uint >= uint128 is the mathematical comparison", c_ge_u32_u128(a, b) == (a >= b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("long >= ichar is the mathematical comparison", c_ge_s64_s8(a, b) == (a >= b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("long >= char is the mathematical comparison", c_ge_s64_u8(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("long >= short is the mathematical comparison", c_ge_s64_s16(a, b) == (a >= b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("long >= ushort is the mathematical comparison", c_ge_s64_u16(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("long >= int is the mathematical comparison", c_ge_s64_s32(a, b) == (a >= b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("long >= uint is the mathematical comparison", c_ge_s64_u32(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("long >= long is the mathematical comparison", c_ge_s64_s64(a, b) == (a >= b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("long >= ulong is the mathematical comparison", c_ge_s64_u64(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("long >= int128 is the mathematical comparison", c_ge_s64_s128(a, b) == (a >= b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("long >= uint128 is the mathematical comparison", c_ge_s64_u128(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ulong >= ichar is the mathematical comparison", c_ge_u64_s8(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ulong >= char is the mathematical comparison", c_ge_u64_u8(a, b) == (a >= b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ulong >= short is the mathematical comparison", c_ge_u64_s16(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ulong >= ushort is the mathematical comparison", c_ge_u64_u16(a, b) == (a >= b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ulong >= int is the mathematical comparison", c_ge_u64_s32(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ulong >= uint is the mathematical comparison", c_ge_u64_u32(a, b) == (a >= b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ulong >= long is the mathematical comparison", c_ge_u64_s64(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong >= ulong is the mathematical comparison", c_ge_u64_u64(a, b) == (a >= b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ulong >= int128 is the mathematical comparison", c_ge_u64_s128(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ulong >= uint128 is the mathematical comparison", c_ge_u64_u128(a, b) == (a >= b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int128 >= ichar is the mathematical comparison", c_ge_s128_s8(a, b) == (a >= b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("int128 >= char is the mathematical comparison", c_ge_s128_u8(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int128 >= short is the mathematical comparison", c_ge_s128_s16(a, b) == (a >= b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("int128 >= ushort is the mathematical comparison", c_ge_s128_u16(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("int128 >= int is the mathematical comparison", c_ge_s128_s32(a, b) == (a >= b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("int128 >= uint is the mathematical comparison", c_ge_s128_u32(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int128 >= long is the mathematical comparison", c_ge_s128_s64(a, b) == (a >= b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("int128 >= ulong is the mathematical comparison", c_ge_s128_u64(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 >= int128 is the mathematical comparison", c_ge_s128_s128(a, b) == (a >= b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("int128 >= uint128 is the mathematical comparison", c_ge_s128_u128(a, b) == (a < 0 ? 0 : (vp_u128)a >= (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("uint128 >= ichar is the mathematical comparison", c_ge_u128_s8(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint128 >= char is the mathematical comparison", c_ge_u128_u8(a, b) == (a >= b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("uint128 >= short is the mathematical comparison", c_ge_u128_s16(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint128 >= ushort is the mathematical comparison", c_ge_u128_u16(a, b) == (a >= b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("uint128 >= int is the mathematical comparison", c_ge_u128_s32(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint128 >= uint is the mathematical comparison", c_ge_u128_u32(a, b) == (a >= b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("uint128 >= long is the mathematical comparison", c_ge_u128_s64(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint128 >= ulong is the mathematical comparison", c_ge_u128_u64(a, b) == (a >= b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("uint128 >= int128 is the mathematical comparison", c_ge_u128_s128(a, b) == (b < 0 ? 1 : (vp_u128)a >= (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 >= uint128 is the mathematical comparison", c_ge_u128_u128(a, b) == (a >= b)); }
	VP_REACH();
}
//@unit cmp_eq fns=llvm_emit_int_comp cost=6
void vp_cmp_eq(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar == ichar is the mathematical comparison", c_eq_s8_s8(a, b) == (a == b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ichar == char is the mathematical comparison", c_eq_s8_u8(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ichar == short is the mathematical comparison", c_eq_s8_s16(a, b) == (a == b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ichar == ushort is the mathematical comparison", c_eq_s8_u16(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ichar == int is the mathematical comparison", c_eq_s8_s32(a, b) == (a == b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ichar == uint is the mathematical comparison", c_eq_s8_u32(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ichar == long is the mathematical comparison", c_eq_s8_s64(a, b) == (a == b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ichar == ulong is the mathematical comparison", c_eq_s8_u64(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ichar == int128 is the mathematical comparison", c_eq_s8_s128(a, b) == (a == b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ichar == uint128 is the mathematical comparison", c_eq_s8_u128(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("char == ichar is the mathematical comparison", c_eq_u8_s8(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("char == char is the mathematical comparison", c_eq_u8_u8(a, b) == (a == b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("char == short is the mathematical comparison", c_eq_u8_s16(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("char == ushort is the mathematical comparison", c_eq_u8_u16(a, b) == (a == b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("char == int is the mathematical comparison", c_eq_u8_s32(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("char == uint is the mathematical comparison", c_eq_u8_u32(a, b) == (a == b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("char == long is the mathematical comparison", c_eq_u8_s64(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("char == ulong is the mathematical comparison", c_eq_u8_u64(a, b) == (a == b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("char == int128 is the mathematical comparison", c_eq_u8_s128(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("char == uint128 is the mathematical comparison", c_eq_u8_u128(a, b) == (a == b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("short == ichar is the mathematical comparison", c_eq_s16_s8(a, b) == (a == b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("short == char is the mathematical comparison", c_eq_s16_u8(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("short == short is the mathematical comparison", c_eq_s16_s16(a, b) == (a == b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("short == ushort is the mathematical comparison", c_eq_s16_u16(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("short == int is the mathematical comparison", c_eq_s16_s32(a, b) == (a == b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("short == uint is the mathematical comparison", c_eq_s16_u32(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("short == long is the mathematical comparison", c_eq_s16_s64(a, b) == (a == b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("short == ulong is the mathematical comparison", c_eq_s16_u64(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("short == int128 is the mathematical comparison", c_eq_s16_s128(a, b) == (a == b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("short == uint128 is the mathematical comparison", c_eq_s16_u128(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ushort == ichar is the mathematical comparison", c_eq_u16_s8(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ushort == char is the mathematical comparison", c_eq_u16_u8(a, b) == (a == b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ushort == short is the mathematical comparison", c_eq_u16_s16(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort == ushort is the mathematical comparison", c_eq_u16_u16(a, b) == (a == b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ushort == int is the mathematical comparison", c_eq_u16_s32(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ushort == uint is the mathematical comparison", c_eq_u16_u32(a, b) == (a == b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ushort == long is the mathematical comparison", c_eq_u16_s64(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ushort == ulong is the mathematical comparison", c_eq_u16_u64(a, b) == (a == b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ushort == int128 is the mathematical comparison", c_eq_u16_s128(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ushort == uint128 is the mathematical comparison", c_eq_u16_u128(a, b) == (a == b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int == ichar is the mathematical comparison", c_eq_s32_s8(a, b) == (a == b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("int == char is the mathematical comparison", c_eq_s32_u8(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int == short is the mathematical comparison", c_eq_s32_s16(a, b) == (a == b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("int == ushort is the mathematical comparison", c_eq_s32_u16(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("int == int is the mathematical comparison", c_eq_s32_s32(a, b) == (a == b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("int == uint is the mathematical comparison", c_eq_s32_u32(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int == long is the mathematical comparison", c_eq_s32_s64(a, b) == (a == b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("int == ulong is the mathematical comparison", c_eq_s32_u64(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("int == int128 is the mathematical comparison", c_eq_s32_s128(a, b) == (a == b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("int == uint128 is the mathematical comparison", c_eq_s32_u128(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("uint == ichar is the mathematical comparison", c_eq_u32_s8(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint == char is the mathematical comparison", c_eq_u32_u8(a, b) == (a == b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("uint == short is the mathematical comparison", c_eq_u32_s16(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint == ushort is the mathematical comparison", c_eq_u32_u16(a, b) == (a == b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("uint == int is the mathematical comparison", c_eq_u32_s32(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint == uint is the mathematical comparison", c_eq_u32_u32(a, b) == (a == b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("uint == long is the mathematical comparison", c_eq_u32_s64(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint == ulong is the mathematical comparison", c_eq_u32_u64(a, b) == (a == b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("uint == int128 is the mathematical comparison", c_eq_u32_s128(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("uint == uint128 is the mathematical comparison", c_eq_u32_u128(a, b) == (a == b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("long == ichar is the mathematical comparison", c_eq_s64_s8(a, b) == (a == b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("long == char is the mathematical comparison", c_eq_s64_u8(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("long == short is the mathematical comparison", c_eq_s64_s16(a, b) == (a == b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("long == ushort is the mathematical comparison", c_eq_s64_u16(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("long == int is the mathematical comparison", c_eq_s64_s32(a, b) == (a == b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("long == uint is the mathematical comparison", c_eq_s64_u32(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("long == long is the mathematical comparison", c_eq_s64_s64(a, b) == (a == b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("long == ulong is the mathematical comparison", c_eq_s64_u64(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("long == int128 is the mathematical comparison", c_eq_s64_s128(a, b) == (a == b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("long == uint128 is the mathematical comparison", c_eq_s64_u128(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ulong == ichar is the mathematical comparison", c_eq_u64_s8(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ulong == char is the mathematical comparison", c_eq_u64_u8(a, b) == (a == b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ulong == short is the mathematical comparison", c_eq_u64_s16(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ulong == ushort is the mathematical comparison", c_eq_u64_u16(a, b) == (a == b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ulong == int is the mathematical comparison", c_eq_u64_s32(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ulong == uint is the mathematical comparison", c_eq_u64_u32(a, b) == (a == b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ulong == long is the mathematical comparison", c_eq_u64_s64(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong == ulong is the mathematical comparison", c_eq_u64_u64(a, b) == (a == b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ulong == int128 is the mathematical comparison", c_eq_u64_s128(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ulong == uint128 is the mathematical comparison", c_eq_u64_u128(a, b) == (a == b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int128 == ichar is the mathematical comparison", c_eq_s128_s8(a, b) == (a == b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("int128 == char is the mathematical comparison", c_eq_s128_u8(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int128 == short is the mathematical comparison", c_eq_s128_s16(a, b) == (a == b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("int128 == ushort is the mathematical comparison", c_eq_s128_u16(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("int128 == int is the mathematical comparison", c_eq_s128_s32(a, b) == (a == b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("int128 == uint is the mathematical comparison", c_eq_s128_u32(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int128 == long is the mathematical comparison", c_eq_s128_s64(a, b) == (a == b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("int128 == ulong is the mathematical comparison", c_eq_s128_u64(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 == int128 is the mathematical comparison", c_eq_s128_s128(a, b) == (a == b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("int128 == uint128 is the mathematical comparison", c_eq_s128_u128(a, b) == (a < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("uint128 == ichar is the mathematical comparison", c_eq_u128_s8(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint128 == char is the mathematical comparison", c_eq_u128_u8(a, b) == (a == b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("uint128 == short is the mathematical comparison", c_eq_u128_s16(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint128 == ushort is the mathematical comparison", c_eq_u128_u16(a, b) == (a == b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("uint128 == int is the mathematical comparison", c_eq_u128_s32(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint128 == uint is the mathematical comparison", c_eq_u128_u32(a, b) == (a == b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("uint128 == long is the mathematical comparison", c_eq_u128_s64(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint128 == ulong is the mathematical comparison", c_eq_u128_u64(a, b) == (a == b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("uint128 == int128 is the mathematical comparison", c_eq_u128_s128(a, b) == (b < 0 ? 0 : (vp_u128)a == (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 == uint128 is the mathematical comparison", c_eq_u128_u128(a, b) == (a == b)); }
	VP_REACH();
}
//@unit cmp_ne fns=llvm_emit_int_comp cost=6
void vp_cmp_ne(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ichar != ichar is the mathematical comparison", c_ne_s8_s8(a, b) == (a != b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ichar != char is the mathematical comparison", c_ne_s8_u8(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ichar != short is the mathematical comparison", c_ne_s8_s16(a, b) == (a != b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ichar != ushort is the mathematical comparison", c_ne_s8_u16(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ichar != int is the mathematical comparison", c_ne_s8_s32(a, b) == (a != b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ichar != uint is the mathematical comparison", c_ne_s8_u32(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ichar != long is the mathematical comparison", c_ne_s8_s64(a, b) == (a != b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ichar != ulong is the mathematical comparison", c_ne_s8_u64(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ichar != int128 is the mathematical comparison", c_ne_s8_s128(a, b) == (a != b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ichar != uint128 is the mathematical comparison", c_ne_s8_u128(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("char != ichar is the mathematical comparison", c_ne_u8_s8(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("char != char is the mathematical comparison", c_ne_u8_u8(a, b) == (a != b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("char != short is the mathematical comparison", c_ne_u8_s16(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("char != ushort is the mathematical comparison", c_ne_u8_u16(a, b) == (a != b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("char != int is the mathematical comparison", c_ne_u8_s32(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("char != uint is the mathematical comparison", c_ne_u8_u32(a, b) == (a != b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("char != long is the mathematical comparison", c_ne_u8_s64(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("char != ulong is the mathematical comparison", c_ne_u8_u64(a, b) == (a != b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("char != int128 is the mathematical comparison", c_ne_u8_s128(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("char != uint128 is the mathematical comparison", c_ne_u8_u128(a, b) == (a != b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("short != ichar is the mathematical comparison", c_ne_s16_s8(a, b) == (a != b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("short != char is the mathematical comparison", c_ne_s16_u8(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("short != short is the mathematical comparison", c_ne_s16_s16(a, b) == (a != b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("short != ushort is the mathematical comparison", c_ne_s16_u16(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("short != int is the mathematical comparison", c_ne_s16_s32(a, b) == (a != b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("short != uint is the mathematical comparison", c_ne_s16_u32(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("short != long is the mathematical comparison", c_ne_s16_s64(a, b) == (a != b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("short != ulong is the mathematical comparison", c_ne_s16_u64(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("short != int128 is the mathematical comparison", c_ne_s16_s128(a, b) == (a != b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("short != uint128 is the mathematical comparison", c_ne_s16_u128(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ushort != ichar is the mathematical comparison", c_ne_u16_s8(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ushort != char is the mathematical comparison", c_ne_u16_u8(a, b) == (a != b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ushort != short is the mathematical comparison", c_ne_u16_s16(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ushort != ushort is the mathematical comparison", c_ne_u16_u16(a, b) == (a != b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ushort != int is the mathematical comparison", c_ne_u16_s32(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ushort != uint is the mathematical comparison", c_ne_u16_u32(a, b) == (a != b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ushort != long is the mathematical comparison", c_ne_u16_s64(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ushort != ulong is the mathematical comparison", c_ne_u16_u64(a, b) == (a != b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ushort != int128 is the mathematical comparison", c_ne_u16_s128(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ushort != uint128 is the mathematical comparison", c_ne_u16_u128(a, b) == (a != b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int != ichar is the mathematical comparison", c_ne_s32_s8(a, b) == (a != b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("int != char is the mathematical comparison", c_ne_s32_u8(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int != short is the mathematical comparison", c_ne_s32_s16(a, b) == (a != b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("int != ushort is the mathematical comparison", c_ne_s32_u16(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("int != int is the mathematical comparison", c_ne_s32_s32(a, b) == (a != b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("int != uint is the mathematical comparison", c_ne_s32_u32(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int != long is the mathematical comparison", c_ne_s32_s64(a, b) == (a != b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("int != ulong is the mathematical comparison", c_ne_s32_u64(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("int != int128 is the mathematical comparison", c_ne_s32_s128(a, b) == (a != b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("int != uint128 is the mathematical comparison", c_ne_s32_u128(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("uint != ichar is the mathematical comparison", c_ne_u32_s8(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint != char is the mathematical comparison", c_ne_u32_u8(a, b) == (a != b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("uint != short is the mathematical comparison", c_ne_u32_s16(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint != ushort is the mathematical comparison", c_ne_u32_u16(a, b) == (a != b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("uint != int is the mathematical comparison", c_ne_u32_s32(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint != uint is the mathematical comparison", c_ne_u32_u32(a, b) == (a != b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("uint != long is the mathematical comparison", c_ne_u32_s64(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint != ulong is the mathematical comparison", c_ne_u32_u64(a, b) == (a != b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("uint != int128 is the mathematical comparison", c_ne_u32_s128(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("uint != uint128 is the mathematical comparison", c_ne_u32_u128(a, b) == (a != b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("long != ichar is the mathematical comparison", c_ne_s64_s8(a, b) == (a != b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("long != char is the mathematical comparison", c_ne_s64_u8(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("long != short is the mathematical comparison", c_ne_s64_s16(a, b) == (a != b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("long != ushort is the mathematical comparison", c_ne_s64_u16(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("long != int is the mathematical comparison", c_ne_s64_s32(a, b) == (a != b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("long != uint is the mathematical comparison", c_ne_s64_u32(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("long != long is the mathematical comparison", c_ne_s64_s64(a, b) == (a != b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("long != ulong is the mathematical comparison", c_ne_s64_u64(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("long != int128 is the mathematical comparison", c_ne_s64_s128(a, b) == (a != b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("long != uint128 is the mathematical comparison", c_ne_s64_u128(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("ulong != ichar is the mathematical comparison", c_ne_u64_s8(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ulong != char is the mathematical comparison", c_ne_u64_u8(a, b) == (a != b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ulong != short is the mathematical comparison", c_ne_u64_s16(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ulong != ushort is the mathematical comparison", c_ne_u64_u16(a, b) == (a != b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ulong != int is the mathematical comparison", c_ne_u64_s32(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ulong != uint is the mathematical comparison", c_ne_u64_u32(a, b) == (a != b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ulong != long is the mathematical comparison", c_ne_u64_s64(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ulong != ulong is the mathematical comparison", c_ne_u64_u64(a, b) == (a != b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ulong != int128 is the mathematical comparison", c_ne_u64_s128(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ulong != uint128 is the mathematical comparison", c_ne_u64_u128(a, b) == (a != b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int128 != ichar is the mathematical comparison", c_ne_s128_s8(a, b) == (a != b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("int128 != char is the mathematical comparison", c_ne_s128_u8(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int128 != short is the mathematical comparison", c_ne_s128_s16(a, b) == (a != b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("int128 != ushort is the mathematical comparison", c_ne_s128_u16(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("int128 != int is the mathematical comparison", c_ne_s128_s32(a, b) == (a != b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("int128 != uint is the mathematical comparison", c_ne_s128_u32(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int128 != long is the mathematical comparison", c_ne_s128_s64(a, b) == (a != b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("int128 != ulong is the mathematical comparison", c_ne_s128_u64(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("int128 != int128 is the mathematical comparison", c_ne_s128_s128(a, b) == (a != b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("int128 != uint128 is the mathematical comparison", c_ne_s128_u128(a, b) == (a < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("uint128 != ichar is the mathematical comparison", c_ne_u128_s8(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint128 != char is the mathematical comparison", c_ne_u128_u8(a, b) == (a != b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("uint128 != short is the mathematical comparison", c_ne_u128_s16(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint128 != ushort is the mathematical comparison", c_ne_u128_u16(a, b) == (a != b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("uint128 != int is the mathematical comparison", c_ne_u128_s32(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint128 != uint is the mathematical comparison", c_ne_u128_u32(a, b) == (a != b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("uint128 != long is the mathematical comparison", c_ne_u128_s64(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint128 != ulong is the mathematical comparison", c_ne_u128_u64(a, b) == (a != b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("uint128 != int128 is the mathematical comparison", c_ne_u128_s128(a, b) == (b < 0 ? 1 : (vp_u128)a != (vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("uint128 != uint128 is the mathematical comparison", c_ne_u128_u128(a, b) == (a != b)); }
	VP_REACH();
}
//@unit convert fns=llvm_emit_cast cost=4
void vp_convert(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8);
	VP_ENSURES("ichar to char", c_cv_s8_u8(a) == (uint8_t)a);
	VP_ENSURES("ichar to short", c_cv_s8_s16(a) == (int16_t)a);
	VP_ENSURES("ichar widens to short", c_im_s8_s16(a) == (int16_t)a);
	VP_ENSURES("ichar to ushort", c_cv_s8_u16(a) == (uint16_t)a);
	VP_ENSURES("ichar to int", c_cv_s8_s32(a) == (int32_t)a);
	VP_ENSURES("ichar widens to int", c_im_s8_s32(a) == (int32_t)a);
	VP_ENSURES("ichar to uint", c_cv_s8_u32(a) == (uint32_t)a);
	VP_ENSURES("ichar to long", c_cv_s8_s64(a) == (int64_t)a);
	VP_ENSURES("ichar widens to long", c_im_s8_s64(a) == (int64_t)a);
	VP_ENSURES("ichar to ulong", c_cv_s8_u64(a) == (uint64_t)a);
	VP_ENSURES("ichar to int128", c_cv_s8_s128(a) == (vp_i128)a);
	VP_ENSURES("ichar widens to int128", c_im_s8_s128(a) == (vp_i128)a);
	VP_ENSURES("ichar to uint128", c_cv_s8_u128(a) == (vp_u128)a);
	}
	{ uint8_t a = (uint8_t)vp_input("a", 8);
	VP_ENSURES("char to ichar", c_cv_u8_s8(a) == (int8_t)a);
	VP_ENSURES("char to short", c_cv_u8_s16(a) == (int16_t)a);
	VP_ENSURES("char widens to short", c_im_u8_s16(a) == (int16_t)a);
	VP_ENSURES("char to ushort", c_cv_u8_u16(a) == (uint16_t)a);
	VP_ENSURES("char widens to ushort", c_im_u8_u16(a) == (uint16_t)a);
	VP_ENSURES("char to int", c_cv_u8_s32(a) == (int32_t)a);
	VP_ENSURES("char widens to int", c_im_u8_s32(a) == (int32_t)a);
	VP_ENSURES("char to uint", c_cv_u8_u32(a) == (uint32_t)a);
	VP_ENSURES("char widens to uint", c_im_u8_u32(a) == (uint32_t)a);
	VP_ENSURES("char to long", c_cv_u8_s64(a) == (int64_t)a);
	VP_ENSURES("char widens to long", c_im_u8_s64(a) == (int64_t)a);
	VP_ENSURES("char to ulong", c_cv_u8_u64(a) == (uint64_t)a);
	VP_ENSURES("char widens to ulong", c_im_u8_u64(a) == (uint64_t)a);
	VP_ENSURES("char to int128", c_cv_u8_s128(a) == (vp_i128)a);
	VP_ENSURES("char widens to int128", c_im_u8_s128(a) == (vp_i128)a);
	VP_ENSURES("char to uint128", c_cv_u8_u128(a) == (vp_u128)a);
	VP_ENSURES("char widens to uint128", c_im_u8_u128(a) == (vp_u128)a);
	}
	{ int16_t a = (int16_t)vp_input("a", 16);
	VP_ENSURES("short to ichar", c_cv_s16_s8(a) == (int8_t)a);
	VP_ENSURES("short to char", c_cv_s16_u8(a) == (uint8_t)a);
	VP_ENSURES("short to ushort", c_cv_s16_u16(a) == (uint16_t)a);
	VP_ENSURES("short to int", c_cv_s16_s32(a) == (int32_t)a);
	VP_ENSURES("short widens to int", c_im_s16_s32(a) == (int32_t)a);
	VP_ENSURES("short to uint", c_cv_s16_u32(a) == (uint32_t)a);
	VP_ENSURES("short to long", c_cv_s16_s64(a) == (int64_t)a);
	VP_ENSURES("short widens to long", c_im_s16_s64(a) == (int64_t)a);
	VP_ENSURES("short to ulong", c_cv_s16_u64(a) == (uint64_t)a);
	VP_ENSURES("short to int128", c_cv_s16_s128(a) == (vp_i128)a);
	VP_ENSURES("short widens to int128", c_im_s16_s128(a) == (vp_i128)a);
	VP_ENSURES("short to uint128", c_cv_s16_u128(a) == (vp_u128)a);
	}
	{ uint16_t a = (uint16_t)vp_input("a", 16);
	VP_ENSURES("ushort to ichar", c_cv_u16_s8(a) == (int8_t)a);
	VP_ENSURES("ushort to char", c_cv_u16_u8(a) == (uint8_t)a);
	VP_ENSURES("ushort to short", c_cv_u16_s16(a) == (int16_t)a);
	VP_ENSURES("ushort to int", c_cv_u16_s32(a) == (int32_t)a);
	VP_ENSURES("ushort widens to int", c_im_u16_s32(a) == (int32_t)a);
	VP_ENSURES("ushort to uint", c_cv_u16_u32(a) == (uint32_t)a);
	VP_ENSURES("ushort widens to uint", c_im_u16_u32(a) == (uint32_t)a);
	VP_ENSURES("ushort to long", c_cv_u16_s64(a) == (int64_t)a);
	VP_ENSURES("ushort widens to long", c_im_u16_s64(a) == (int64_t)a);
	VP_ENSURES("ushort to ulong", c_cv_u16_u64(a) == (uint64_t)a);
	VP_ENSURES("ushort widens to ulong", c_im_u16_u64(a) == (uint64_t)a);
	VP_ENSURES("ushort to int128", c_cv_u16_s128(a) == (vp_i128)a);
	VP_ENSURES("ushort widens to int128", c_im_u16_s128(a) == (vp_i128)a);
	VP_ENSURES("ushort to uint128", c_cv_u16_u128(a) == (vp_u128)a);
	VP_ENSURES("ushort widens to uint128", c_im_u16_u128(a) == (vp_u128)a);
	}
	{ int32_t a = (int32_t)vp_input("a", 32);
	VP_ENSURES("int to ichar", c_cv_s32_s8(a) == (int8_t)a);
	VP_ENSURES("int to char", c_cv_s32_u8(a) == (uint8_t)a);
	VP_ENSURES("int to short", c_cv_s32_s16(a) == (int16_t)a);
	VP_ENSURES("int to ushort", c_cv_s32_u16(a) == (uint16_t)a);
	VP_ENSURES("int to uint", c_cv_s32_u32(a) == (uint32_t)a);
	VP_ENSURES("int to long", c_cv_s32_s64(a) == (int64_t)a);
	VP_ENSURES("int widens to long", c_im_s32_s64(a) == (int64_t)a);
	VP_ENSURES("int to ulong", c_cv_s32_u64(a) == (uint64_t)a);
	VP_ENSURES("int to int128", c_cv_s32_s128(a) == (vp_i128)a);
	VP_ENSURES("int widens to int128", c_im_s32_s128(a) == (vp_i128)a);
	VP_ENSURES("int to uint128", c_cv_s32_u128(a) == (vp_u128)a);
	}
	{ uint32_t a = (uint32_t)vp_input("a", 32);
	VP_ENSURES("uint to ichar", c_cv_u32_s8(a) == (int8_t)a);
	VP_ENSURES("uint to char", c_cv_u32_u8(a) == (uint8_t)a);
	VP_ENSURES("uint to short", c_cv_u32_s16(a) == (int16_t)a);
	VP_ENSURES("uint to ushort", c_cv_u32_u16(a) == (uint16_t)a);
	VP_ENSURES("uint to int", c_cv_u32_s32(a) == (int32_t)a);
	VP_ENSURES("uint to long", c_cv_u32_s64(a) == (int64_t)a);
	VP_ENSURES("uint widens to long", c_im_u32_s64(a) == (int64_t)a);
	VP_ENSURES("uint to ulong", c_cv_u32_u64(a) == (uint64_t)a);
	VP_ENSURES("uint widens to ulong", c_im_u32_u64(a) == (uint64_t)a);
	VP_ENSURES("uint to int128", c_cv_u32_s128(a) == (vp_i128)a);
	VP_ENSURES("uint widens to int128", c_im_u32_s128(a) == (vp_i128)a);
	VP_ENSURES("uint to uint128", c_cv_u32_u128(a) == (vp_u128)a);
	VP_ENSURES("uint widens to uint128", c_im_u32_u128(a) == (vp_u128)a);
	}
	{ int64_t a = (int64_t)vp_input("a", 64);
	VP_ENSURES("long to ichar", c_cv_s64_s8(a) == (int8_t)a);
	VP_ENSURES("long to char", c_cv_s64_u8(a) == (uint8_t)a);
	VP_ENSURES("long to short", c_cv_s64_s16(a) == (int16_t)a);
	VP_ENSURES("long to ushort", c_cv_s64_u16(a) == (uint16_t)a);
	VP_ENSURES("long to int", c_cv_s64_s32(a) == (int32_t)a);
	VP_ENSURES("long to uint", c_cv_s64_u32(a) == (uint32_t)a);
	VP_ENSURES("long to ulong", c_cv_s64_u64(a) == (uint64_t)a);
	VP_ENSURES("long to int128", c_cv_s64_s128(a) == (vp_i128)a);
	VP_ENSURES("long widens to int128", c_im_s64_s128(a) == (vp_i128)a);
	VP_ENSURES("long to uint128", c_cv_s64_u128(a) == (vp_u128)a);
	}
	{ uint64_t a = (uint64_t)vp_input("a", 64);
	VP_ENSURES("ulong to ichar", c_cv_u64_s8(a) == (int8_t)a);
	VP_ENSURES("ulong to char", c_cv_u64_u8(a) == (uint8_t)a);
	VP_ENSURES("ulong to short", c_cv_u64_s16(a) == (int16_t)a);
	VP_ENSURES("ulong to ushort", c_cv_u64_u16(a) == (uint16_t)a);
	VP_ENSURES("ulong to int", c_cv_u64_s32(a) == (int32_t)a);
	VP_ENSURES("ulong to uint", c_cv_u64_u32(a) == (uint32_t)a);
	VP_ENSURES("ulong to long", c_cv_u64_s64(a) == (int64_t)a);
	VP_ENSURES("ulong to int128", c_cv_u64_s128(a) == (vp_i128)a);
	VP_ENSURES("ulong widens to int128", c_im_u64_s128(a) == (vp_i128)a);
	VP_ENSURES("ulong to uint128", c_cv_u64_u128(a) == (vp_u128)a);
	VP_ENSURES("ulong widens to uint128", c_im_u64_u128(a) == (vp_u128)a);
	}
	{ vp_i128 a = (vp_i128)VP_U128("a");
	VP_ENSURES("int128 to ichar", c_cv_s128_s8(a) == (int8_t)a);
	VP_ENSURES("int128 to char", c_cv_s128_u8(a) == (uint8_t)a);
	VP_ENSURES("int128 to short", c_cv_s128_s16(a) == (int16_t)a);
	VP_ENSURES("int128 to ushort", c_cv_s128_u16(a) == (uint16_t)a);
	VP_ENSURES("int128 to int", c_cv_s128_s32(a) == (int32_t)a);
	VP_ENSURES("int128 to uint", c_cv_s128_u32(a) == (uint32_t)a);
	VP_ENSURES("int128 to long", c_cv_s128_s64(a) == (int64_t)a);
	VP_ENSURES("int128 to ulong", c_cv_s128_u64(a) == (uint64_t)a);
	VP_ENSURES("int128 to uint128", c_cv_s128_u128(a) == (vp_u128)a);
	}
	{ vp_u128 a = (vp_u128)VP_U128("a");
	VP_ENSURES("uint128 to ichar", c_cv_u128_s8(a) == (int8_t)a);
	VP_ENSURES("uint128 to char", c_cv_u128_u8(a) == (uint8_t)a);
	VP_ENSURES("uint128 to short", c_cv_u128_s16(a) == (int16_t)a);
	VP_ENSURES("uint128 to ushort", c_cv_u128_u16(a) == (uint16_t)a);
	VP_ENSURES("uint128 to int", c_cv_u128_s32(a) == (int32_t)a);
	VP_ENSURES("uint128 to uint", c_cv_u128_u32(a) == (uint32_t)a);
	VP_ENSURES("uint128 to long", c_cv_u128_s64(a) == (int64_t)a);
	VP_ENSURES("uint128 to ulong", c_cv_u128_u64(a) == (uint64_t)a);
	VP_ENSURES("uint128 to int128", c_cv_u128_s128(a) == (vp_i128)a);
	}
	VP_REACH();
}
//@unit mixed fns=llvm_emit_binary,cast_numeric_arithmetic_promotion cost=4
void vp_mixed(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("ichar - short in the common type", c_mix_s8_s16(a, b) == (int32_t)((uint32_t)(int32_t)a - (uint32_t)(int32_t)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("ichar - int in the common type", c_mix_s8_s32(a, b) == (int32_t)((uint32_t)(int32_t)a - (uint32_t)(int32_t)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("ichar - long in the common type", c_mix_s8_s64(a, b) == (int64_t)((uint64_t)(int64_t)a - (uint64_t)(int64_t)b)); }
	{ int8_t a = (int8_t)vp_input("a", 8); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("ichar - int128 in the common type", c_mix_s8_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a - (vp_u128)(vp_i128)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("char - ushort in the common type", c_mix_u8_u16(a, b) == (uint32_t)((uint32_t)(uint32_t)a - (uint32_t)(uint32_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("char - uint in the common type", c_mix_u8_u32(a, b) == (uint32_t)((uint32_t)(uint32_t)a - (uint32_t)(uint32_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("char - ulong in the common type", c_mix_u8_u64(a, b) == (uint64_t)((uint64_t)(uint64_t)a - (uint64_t)(uint64_t)b)); }
	{ uint8_t a = (uint8_t)vp_input("a", 8); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("char - uint128 in the common type", c_mix_u8_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a - (vp_u128)(vp_u128)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("short - ichar in the common type", c_mix_s16_s8(a, b) == (int32_t)((uint32_t)(int32_t)a - (uint32_t)(int32_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("short - int in the common type", c_mix_s16_s32(a, b) == (int32_t)((uint32_t)(int32_t)a - (uint32_t)(int32_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("short - long in the common type", c_mix_s16_s64(a, b) == (int64_t)((uint64_t)(int64_t)a - (uint64_t)(int64_t)b)); }
	{ int16_t a = (int16_t)vp_input("a", 16); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("short - int128 in the common type", c_mix_s16_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a - (vp_u128)(vp_i128)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ushort - char in the common type", c_mix_u16_u8(a, b) == (uint32_t)((uint32_t)(uint32_t)a - (uint32_t)(uint32_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ushort - uint in the common type", c_mix_u16_u32(a, b) == (uint32_t)((uint32_t)(uint32_t)a - (uint32_t)(uint32_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("ushort - ulong in the common type", c_mix_u16_u64(a, b) == (uint64_t)((uint64_t)(uint64_t)a - (uint64_t)(uint64_t)b)); }
	{ uint16_t a = (uint16_t)vp_input("a", 16); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ushort - uint128 in the common type", c_mix_u16_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a - (vp_u128)(vp_u128)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int - ichar in the common type", c_mix_s32_s8(a, b) == (int32_t)((uint32_t)(int32_t)a - (uint32_t)(int32_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int - short in the common type", c_mix_s32_s16(a, b) == (int32_t)((uint32_t)(int32_t)a - (uint32_t)(int32_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int - long in the common type", c_mix_s32_s64(a, b) == (int64_t)((uint64_t)(int64_t)a - (uint64_t)(int64_t)b)); }
	{ int32_t a = (int32_t)vp_input("a", 32); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("int - int128 in the common type", c_mix_s32_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a - (vp_u128)(vp_i128)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint - char in the common type", c_mix_u32_u8(a, b) == (uint32_t)((uint32_t)(uint32_t)a - (uint32_t)(uint32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint - ushort in the common type", c_mix_u32_u16(a, b) == (uint32_t)((uint32_t)(uint32_t)a - (uint32_t)(uint32_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint - ulong in the common type", c_mix_u32_u64(a, b) == (uint64_t)((uint64_t)(uint64_t)a - (uint64_t)(uint64_t)b)); }
	{ uint32_t a = (uint32_t)vp_input("a", 32); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("uint - uint128 in the common type", c_mix_u32_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a - (vp_u128)(vp_u128)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("long - ichar in the common type", c_mix_s64_s8(a, b) == (int64_t)((uint64_t)(int64_t)a - (uint64_t)(int64_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("long - short in the common type", c_mix_s64_s16(a, b) == (int64_t)((uint64_t)(int64_t)a - (uint64_t)(int64_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("long - int in the common type", c_mix_s64_s32(a, b) == (int64_t)((uint64_t)(int64_t)a - (uint64_t)(int64_t)b)); }
	{ int64_t a = (int64_t)vp_input("a", 64); vp_i128 b = (vp_i128)VP_U128("b"); VP_ENSURES("long - int128 in the common type", c_mix_s64_s128(a, b) == (vp_i128)((vp_u128)(vp_i128)a - (vp_u128)(vp_i128)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("ulong - char in the common type", c_mix_u64_u8(a, b) == (uint64_t)((uint64_t)(uint64_t)a - (uint64_t)(uint64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("ulong - ushort in the common type", c_mix_u64_u16(a, b) == (uint64_t)((uint64_t)(uint64_t)a - (uint64_t)(uint64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("ulong - uint in the common type", c_mix_u64_u32(a, b) == (uint64_t)((uint64_t)(uint64_t)a - (uint64_t)(uint64_t)b)); }
	{ uint64_t a = (uint64_t)vp_input("a", 64); vp_u128 b = (vp_u128)VP_U128("b"); VP_ENSURES("ulong - uint128 in the common type", c_mix_u64_u128(a, b) == (vp_u128)((vp_u128)(vp_u128)a - (vp_u128)(vp_u128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int8_t b = (int8_t)vp_input("b", 8); VP_ENSURES("int128 - ichar in the common type", c_mix_s128_s8(a, b) == (vp_i128)((vp_u128)(vp_i128)a - (vp_u128)(vp_i128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int16_t b = (int16_t)vp_input("b", 16); VP_ENSURES("int128 - short in the common type", c_mix_s128_s16(a, b) == (vp_i128)((vp_u128)(vp_i128)a - (vp_u128)(vp_i128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int32_t b = (int32_t)vp_input("b", 32); VP_ENSURES("int128 - int in the common type", c_mix_s128_s32(a, b) == (vp_i128)((vp_u128)(vp_i128)a - (vp_u128)(vp_i128)b)); }
	{ vp_i128 a = (vp_i128)VP_U128("a"); int64_t b = (int64_t)vp_input("b", 64); VP_ENSURES("int128 - long in the common type", c_mix_s128_s64(a, b) == (vp_i128)((vp_u128)(vp_i128)a - (vp_u128)(vp_i128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint8_t b = (uint8_t)vp_input("b", 8); VP_ENSURES("uint128 - char in the common type", c_mix_u128_u8(a, b) == (vp_u128)((vp_u128)(vp_u128)a - (vp_u128)(vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint16_t b = (uint16_t)vp_input("b", 16); VP_ENSURES("uint128 - ushort in the common type", c_mix_u128_u16(a, b) == (vp_u128)((vp_u128)(vp_u128)a - (vp_u128)(vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint32_t b = (uint32_t)vp_input("b", 32); VP_ENSURES("uint128 - uint in the common type", c_mix_u128_u32(a, b) == (vp_u128)((vp_u128)(vp_u128)a - (vp_u128)(vp_u128)b)); }
	{ vp_u128 a = (vp_u128)VP_U128("a"); uint64_t b = (uint64_t)vp_input("b", 64); VP_ENSURES("uint128 - ulong in the common type", c_mix_u128_u64(a, b) == (vp_u128)((vp_u128)(vp_u128)a - (vp_u128)(vp_u128)b)); }
	VP_REACH();
}
//@unit const_lt fns=llvm_emit_int_comp cost=4
void vp_const_lt(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8);
	VP_ENSURES("ichar < constant -1 is the mathematical comparison", c_klt_s8_0l(a) == (((vp_i128)-1LL) < (vp_i128)a));
	VP_ENSURES("ichar < constant -1 is the mathematical comparison", c_klt_s8_0r(a) == ((vp_i128)a < ((vp_i128)-1LL)));
	VP_ENSURES("ichar < constant int.min is the mathematical comparison", c_klt_s8_1l(a) == (((vp_i128)-2147483648LL) < (vp_i128)a));
	VP_ENSURES("ichar < constant int.min is the mathematical comparison", c_klt_s8_1r(a) == ((vp_i128)a < ((vp_i128)-2147483648LL)));
	VP_ENSURES("ichar < constant 0 is the mathematical comparison", c_klt_s8_2l(a) == (((vp_i128)0LL) < (vp_i128)a));
	VP_ENSURES("ichar < constant 0 is the mathematical comparison", c_klt_s8_2r(a) == ((vp_i128)a < ((vp_i128)0LL)));
	VP_ENSURES("ichar < constant 7 is the mathematical comparison", c_klt_s8_3l(a) == (((vp_i128)7LL) < (vp_i128)a));
	VP_ENSURES("ichar < constant 7 is the mathematical comparison", c_klt_s8_3r(a) == ((vp_i128)a < ((vp_i128)7LL)));
	VP_ENSURES("ichar < constant (ichar)-128 is the mathematical comparison", c_klt_s8_4l(a) == (((vp_i128)-128LL) < (vp_i128)a));
	VP_ENSURES("ichar < constant (ichar)-128 is the mathematical comparison", c_klt_s8_4r(a) == ((vp_i128)a < ((vp_i128)-128LL)));
	VP_ENSURES("ichar < constant (short)-300 is the mathematical comparison", c_klt_s8_5l(a) == (((vp_i128)-300LL) < (vp_i128)a));
	VP_ENSURES("ichar < constant (short)-300 is the mathematical comparison", c_klt_s8_5r(a) == ((vp_i128)a < ((vp_i128)-300LL)));
	VP_ENSURES("ichar < constant (long)-5 is the mathematical comparison", c_klt_s8_6l(a) == (((vp_i128)-5LL) < (vp_i128)a));
	VP_ENSURES("ichar < constant (long)-5 is the mathematical comparison", c_klt_s8_6r(a) == ((vp_i128)a < ((vp_i128)-5LL)));
	VP_ENSURES("ichar < constant (char)200 is the mathematical comparison", c_klt_s8_7l(a) == (((vp_i128)200LL) < (vp_i128)a));
	VP_ENSURES("ichar < constant (char)200 is the mathematical comparison", c_klt_s8_7r(a) == ((vp_i128)a < ((vp_i128)200LL)));
	VP_ENSURES("ichar < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_s8_8l(a) == (((vp_i128)4294967295LL) < (vp_i128)a));
	VP_ENSURES("ichar < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_s8_8r(a) == ((vp_i128)a < ((vp_i128)4294967295LL)));
	}
	{ uint8_t a = (uint8_t)vp_input("a", 8);
	VP_ENSURES("char < constant -1 is the mathematical comparison", c_klt_u8_0l(a) == 1);
	VP_ENSURES("char < constant -1 is the mathematical comparison", c_klt_u8_0r(a) == 0);
	VP_ENSURES("char < constant int.min is the mathematical comparison", c_klt_u8_1l(a) == 1);
	VP_ENSURES("char < constant int.min is the mathematical comparison", c_klt_u8_1r(a) == 0);
	VP_ENSURES("char < constant 0 is the mathematical comparison", c_klt_u8_2l(a) == (((vp_u128)0LL) < (vp_u128)a));
	VP_ENSURES("char < constant 0 is the mathematical comparison", c_klt_u8_2r(a) == ((vp_u128)a < ((vp_u128)0LL)));
	VP_ENSURES("char < constant 7 is the mathematical comparison", c_klt_u8_3l(a) == (((vp_u128)7LL) < (vp_u128)a));
	VP_ENSURES("char < constant 7 is the mathematical comparison", c_klt_u8_3r(a) == ((vp_u128)a < ((vp_u128)7LL)));
	VP_ENSURES("char < constant (ichar)-128 is the mathematical comparison", c_klt_u8_4l(a) == 1);
	VP_ENSURES("char < constant (ichar)-128 is the mathematical comparison", c_klt_u8_4r(a) == 0);
	VP_ENSURES("char < constant (short)-300 is the mathematical comparison", c_klt_u8_5l(a) == 1);
	VP_ENSURES("char < constant (short)-300 is the mathematical comparison", c_klt_u8_5r(a) == 0);
	VP_ENSURES("char < constant (long)-5 is the mathematical comparison", c_klt_u8_6l(a) == 1);
	VP_ENSURES("char < constant (long)-5 is the mathematical comparison", c_klt_u8_6r(a) == 0);
	VP_ENSURES("char < constant (char)200 is the mathematical comparison", c_klt_u8_7l(a) == (((vp_u128)200LL) < (vp_u128)a));
	VP_ENSURES("char < constant (char)200 is the mathematical comparison", c_klt_u8_7r(a) == ((vp_u128)a < ((vp_u128)200LL)));
	VP_ENSURES("char < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_u8_8l(a) == (((vp_u128)4294967295LL) < (vp_u128)a));
	VP_ENSURES("char < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_u8_8r(a) == ((vp_u128)a < ((vp_u128)4294967295LL)));
	}
	{ int16_t a = (int16_t)vp_input("a", 16);
	VP_ENSURES("short < constant -1 is the mathematical comparison", c_klt_s16_0l(a) == (((vp_i128)-1LL) < (vp_i128)a));
	VP_ENSURES("short < constant -1 is the mathematical comparison", c_klt_s16_0r(a) == ((vp_i128)a < ((vp_i128)-1LL)));
	VP_ENSURES("short < constant int.min is the mathematical comparison", c_klt_s16_1l(a) == (((vp_i128)-2147483648LL) < (vp_i128)a));
	VP_ENSURES("short < constant int.min is the mathematical comparison", c_klt_s16_1r(a) == ((vp_i128)a < ((vp_i128)-2147483648LL)));
	VP_ENSURES("short < constant 0 is the mathematical comparison", c_klt_s16_2l(a) == (((vp_i128)0LL) < (vp_i128)a));
	VP_ENSURES("short < constant 0 is the mathematical comparison", c_klt_s16_2r(a) == ((vp_i128)a < ((vp_i128)0LL)));
	VP_ENSURES("short < constant 7 is the mathematical comparison", c_klt_s16_3l(a) == (((vp_i128)7LL) < (vp_i128)a));
	VP_ENSURES("short < constant 7 is the mathematical comparison", c_klt_s16_3r(a) == ((vp_i128)a < ((vp_i128)7LL)));
	VP_ENSURES("short < constant (ichar)-128 is the mathematical comparison", c_klt_s16_4l(a) == (((vp_i128)-128LL) < (vp_i128)a));
	VP_ENSURES("short < constant (ichar)-128 is the mathematical comparison", c_klt_s16_4r(a) == ((vp_i128)a < ((vp_i128)-128LL)));
	VP_ENSURES("short < constant (short)-300 is the mathematical comparison", c_klt_s16_5l(a) == (((vp_i128)-300LL) < (vp_i128)a));
	VP_ENSURES("short < constant (short)-300 is the mathematical comparison", c_klt_s16_5r(a) == ((vp_i128)a < ((vp_i128)-300LL)));
	VP_ENSURES("short < constant (long)-5 is the mathematical comparison", c_klt_s16_6l(a) == (((vp_i128)-5LL) < (vp_i128)a));
	VP_ENSURES("short < constant (long)-5 is the mathematical comparison", c_klt_s16_6r(a) == ((vp_i128)a < ((vp_i128)-5LL)));
	VP_ENSURES("short < constant (char)200 is the mathematical comparison", c_klt_s16_7l(a) == (((vp_i128)200LL) < (vp_i128)a));
	VP_ENSURES("short < constant (char)200 is the mathematical comparison", c_klt_s16_7r(a) == ((vp_i128)a < ((vp_i128)200LL)));
	VP_ENSURES("short < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_s16_8l(a) == (((vp_i128)4294967295LL) < (vp_i128)a));
	VP_ENSURES("short < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_s16_8r(a) == ((vp_i128)a < ((vp_i128)4294967295LL)));
	}
	{ uint16_t a = (uint16_t)vp_input("a", 16);
	VP_ENSURES("ushort < constant -1 is the mathematical comparison", c_klt_u16_0l(a) == 1);
	VP_ENSURES("ushort < constant -1 is the mathematical comparison", c_klt_u16_0r(a) == 0);
	VP_ENSURES("ushort < constant int.min is the mathematical comparison", c_klt_u16_1l(a) == 1);
	VP_ENSURES("ushort < constant int.min is the mathematical comparison", c_klt_u16_1r(a) == 0);
	VP_ENSURES("ushort < constant 0 is the mathematical comparison", c_klt_u16_2l(a) == (((vp_u128)0LL) < (vp_u128)a));
	VP_ENSURES("ushort < constant 0 is the mathematical comparison", c_klt_u16_2r(a) == ((vp_u128)a < ((vp_u128)0LL)));
	VP_ENSURES("ushort < constant 7 is the mathematical comparison", c_klt_u16_3l(a) == (((vp_u128)7LL) < (vp_u128)a));
	VP_ENSURES("ushort < constant 7 is the mathematical comparison", c_klt_u16_3r(a) == ((vp_u128)a < ((vp_u128)7LL)));
	VP_ENSURES("ushort < constant (ichar)-128 is the mathematical comparison", c_klt_u16_4l(a) == 1);
	VP_ENSURES("ushort < constant (ichar)-128 is the mathematical comparison", c_klt_u16_4r(a) == 0);
	VP_ENSURES("ushort < constant (short)-300 is the mathematical comparison", c_klt_u16_5l(a) == 1);
	VP_ENSURES("ushort < constant (short)-300 is the mathematical comparison", c_klt_u16_5r(a) == 0);
	VP_ENSURES("ushort < constant (long)-5 is the mathematical comparison", c_klt_u16_6l(a) == 1);
	VP_ENSURES("ushort < constant (long)-5 is the mathematical comparison", c_klt_u16_6r(a) == 0);
	VP_ENSURES("ushort < constant (char)200 is the mathematical comparison", c_klt_u16_7l(a) == (((vp_u128)200LL) < (vp_u128)a));
	VP_ENSURES("ushort < constant (char)200 is the mathematical comparison", c_klt_u16_7r(a) == ((vp_u128)a < ((vp_u128)200LL)));
	VP_ENSURES("ushort < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_u16_8l(a) == (((vp_u128)4294967295LL) < (vp_u128)a));
	VP_ENSURES("ushort < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_u16_8r(a) == ((vp_u128)a < ((vp_u128)4294967295LL)));
	}
	{ int32_t a = (int32_t)vp_input("a", 32);
	VP_ENSURES("int < constant -1 is the mathematical comparison", c_klt_s32_0l(a) == (((vp_i128)-1LL) < (vp_i128)a));
	VP_ENSURES("int < constant -1 is the mathematical comparison", c_klt_s32_0r(a) == ((vp_i128)a < ((vp_i128)-1LL)));
	VP_ENSURES("int < constant int.min is the mathematical comparison", c_klt_s32_1l(a) == (((vp_i128)-2147483648LL) < (vp_i128)a));
	VP_ENSURES("int < constant int.min is the mathematical comparison", c_klt_s32_1r(a) == ((vp_i128)a < ((vp_i128)-2147483648LL)));
	VP_ENSURES("int < constant 0 is the mathematical comparison", c_klt_s32_2l(a) == (((vp_i128)0LL) < (vp_i128)a));
	VP_ENSURES("int < constant 0 is the mathematical comparison", c_klt_s32_2r(a) == ((vp_i128)a < ((vp_i128)0LL)));
	VP_ENSURES("int < constant 7 is the mathematical comparison", c_klt_s32_3l(a) == (((vp_i128)7LL) < (vp_i128)a));
	VP_ENSURES("int < constant 7 is the mathematical comparison", c_klt_s32_3r(a) == ((vp_i128)a < ((vp_i128)7LL)));
	VP_ENSURES("int < constant (ichar)-128 is the mathematical comparison", c_klt_s32_4l(a) == (((vp_i128)-128LL) < (vp_i128)a));
	VP_ENSURES("int < constant (ichar)-128 is the mathematical comparison", c_klt_s32_4r(a) == ((vp_i128)a < ((vp_i128)-128LL)));
	VP_ENSURES("int < constant (short)-300 is the mathematical comparison", c_klt_s32_5l(a) == (((vp_i128)-300LL) < (vp_i128)a));
	VP_ENSURES("int < constant (short)-300 is the mathematical comparison", c_klt_s32_5r(a) == ((vp_i128)a < ((vp_i128)-300LL)));
	VP_ENSURES("int < constant (long)-5 is the mathematical comparison", c_klt_s32_6l(a) == (((vp_i128)-5LL) < (vp_i128)a));
	VP_ENSURES("int < constant (long)-5 is the mathematical comparison", c_klt_s32_6r(a) == ((vp_i128)a < ((vp_i128)-5LL)));
	VP_ENSURES("int < constant (char)200 is the mathematical comparison", c_klt_s32_7l(a) == (((vp_i128)200LL) < (vp_i128)a));
	VP_ENSURES("int < constant (char)200 is the mathematical comparison", c_klt_s32_7r(a) == ((vp_i128)a < ((vp_i128)200LL)));
	VP_ENSURES("int < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_s32_8l(a) == (((vp_i128)4294967295LL) < (vp_i128)a));
	VP_ENSURES("int < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_s32_8r(a) == ((vp_i128)a < ((vp_i128)4294967295LL)));
	}
	{ uint32_t a = (uint32_t)vp_input("a", 32);
	VP_ENSURES("uint < constant -1 is the mathematical comparison", c_klt_u32_0l(a) == 1);
	VP_ENSURES("uint < constant -1 is the mathematical comparison", c_klt_u32_0r(a) == 0);
	VP_ENSURES("uint < constant int.min is the mathematical comparison", c_klt_u32_1l(a) == 1);
	VP_ENSURES("uint < constant int.min is the mathematical comparison", c_klt_u32_1r(a) == 0);
	VP_ENSURES("uint < constant 0 is the mathematical comparison", c_klt_u32_2l(a) == (((vp_u128)0LL) < (vp_u128)a));
	VP_ENSURES("uint < constant 0 is the mathematical comparison", c_klt_u32_2r(a) == ((vp_u128)a < ((vp_u128)0LL)));
	VP_ENSURES("uint < constant 7 is the mathematical comparison", c_klt_u32_3l(a) == (((vp_u128)7LL) < (vp_u128)a));
	VP_ENSURES("uint < constant 7 is the mathematical comparison", c_klt_u32_3r(a) == ((vp_u128)a < ((vp_u128)7LL)));
	VP_ENSURES("uint < constant (ichar)-128 is the mathematical comparison", c_klt_u32_4l(a) == 1);
	VP_ENSURES("uint < constant (ichar)-128 is the mathematical comparison", c_klt_u32_4r(a) == 0);
	VP_ENSURES("uint < constant (short)-300 is the mathematical comparison", c_klt_u32_5l(a) == 1);
	VP_ENSURES("uint < constant (short)-300 is the mathematical comparison", c_klt_u32_5r(a) == 0);
	VP_ENSURES("uint < constant (long)-5 is the mathematical comparison", c_klt_u32_6l(a) == 1);
	VP_ENSURES("uint < constant (long)-5 is the mathematical comparison", c_klt_u32_6r(a) == 0);
	VP_ENSURES("uint < constant (char)200 is the mathematical comparison", c_klt_u32_7l(a) == (((vp_u128)200LL) < (vp_u128)a));
	VP_ENSURES("uint < constant (char)200 is the mathematical comparison", c_klt_u32_7r(a) == ((vp_u128)a < ((vp_u128)200LL)));
	VP_ENSURES("uint < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_u32_8l(a) == (((vp_u128)4294967295LL) < (vp_u128)a));
	VP_ENSURES("uint < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_u32_8r(a) == ((vp_u128)a < ((vp_u128)4294967295LL)));
	}
	{ int64_t a = (int64_t)vp_input("a", 64);
	VP_ENSURES("long < constant -1 is the mathematical comparison", c_klt_s64_0l(a) == (((vp_i128)-1LL) < (vp_i128)a));
	VP_ENSURES("long < constant -1 is the mathematical comparison", c_klt_s64_0r(a) == ((vp_i128)a < ((vp_i128)-1LL)));
	VP_ENSURES("long < constant int.min is the mathematical comparison", c_klt_s64_1l(a) == (((vp_i128)-2147483648LL) < (vp_i128)a));
	VP_ENSURES("long < constant int.min is the mathematical comparison", c_klt_s64_1r(a) == ((vp_i128)a < ((vp_i128)-2147483648LL)));
	VP_ENSURES("long < constant 0 is the mathematical comparison", c_klt_s64_2l(a) == (((vp_i128)0LL) < (vp_i128)a));
	VP_ENSURES("long < constant 0 is the mathematical comparison", c_klt_s64_2r(a) == ((vp_i128)a < ((vp_i128)0LL)));
	VP_ENSURES("long < constant 7 is the mathematical comparison", c_klt_s64_3l(a) == (((vp_i128)7LL) < (vp_i128)a));
	VP_ENSURES("long < constant 7 is the mathematical comparison", c_klt_s64_3r(a) == ((vp_i128)a < ((vp_i128)7LL)));
	VP_ENSURES("long < constant (ichar)-128 is the mathematical comparison", c_klt_s64_4l(a) == (((vp_i128)-128LL) < (vp_i128)a));
	VP_ENSURES("long < constant (ichar)-128 is the mathematical comparison", c_klt_s64_4r(a) == ((vp_i128)a < ((vp_i128)-128LL)));
	VP_ENSURES("long < constant (short)-300 is the mathematical comparison", c_klt_s64_5l(a) == (((vp_i128)-300LL) < (vp_i128)a));
	VP_ENSURES("long < constant (short)-300 is the mathematical comparison", c_klt_s64_5r(a) == ((vp_i128)a < ((vp_i128)-300LL)));
	VP_ENSURES("long < constant (long)-5 is the mathematical comparison", c_klt_s64_6l(a) == (((vp_i128)-5LL) < (vp_i128)a));
	VP_ENSURES("long < constant (long)-5 is the mathematical comparison", c_klt_s64_6r(a) == ((vp_i128)a < ((vp_i128)-5LL)));
	VP_ENSURES("long < constant (char)200 is the mathematical comparison", c_klt_s64_7l(a) == (((vp_i128)200LL) < (vp_i128)a));
	VP_ENSURES("long < constant (char)200 is the mathematical comparison", c_klt_s64_7r(a) == ((vp_i128)a < ((vp_i128)200LL)));
	VP_ENSURES("long < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_s64_8l(a) == (((vp_i128)4294967295LL) < (vp_i128)a));
	VP_ENSURES("long < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_s64_8r(a) == ((vp_i128)a < ((vp_i128)4294967295LL)));
	}
	{ uint64_t a = (uint64_t)vp_input("a", 64);
	VP_ENSURES("ulong < constant -1 is the mathematical comparison", c_klt_u64_0l(a) == 1);
	VP_ENSURES("ulong < constant -1 is the mathematical comparison", c_klt_u64_0r(a) == 0);
	VP_ENSURES("ulong < constant int.min is the mathematical comparison", c_klt_u64_1l(a) == 1);
	VP_ENSURES("ulong < constant int.min is the mathematical comparison", c_klt_u64_1r(a) == 0);
	VP_ENSURES("ulong < constant 0 is the mathematical comparison", c_klt_u64_2l(a) == (((vp_u128)0LL) < (vp_u128)a));
	VP_ENSURES("ulong < constant 0 is the mathematical comparison", c_klt_u64_2r(a) == ((vp_u128)a < ((vp_u128)0LL)));
	VP_ENSURES("ulong < constant 7 is the mathematical comparison", c_klt_u64_3l(a) == (((vp_u128)7LL) < (vp_u128)a));
	VP_ENSURES("ulong < constant 7 is the mathematical comparison", c_klt_u64_3r(a) == ((vp_u128)a < ((vp_u128)7LL)));
	VP_ENSURES("ulong < constant (ichar)-128 is the mathematical comparison", c_klt_u64_4l(a) == 1);
	VP_ENSURES("ulong < constant (ichar)-128 is the mathematical comparison", c_klt_u64_4r(a) == 0);
	VP_ENSURES("ulong < constant (short)-300 is the mathematical comparison", c_klt_u64_5l(a) == 1);
	VP_ENSURES("ulong < constant (short)-300 is the mathematical comparison", c_klt_u64_5r(a) == 0);
	VP_ENSURES("ulong < constant (long)-5 is the mathematical comparison", c_klt_u64_6l(a) == 1);
	VP_ENSURES("ulong < constant (long)-5 is the mathematical comparison", c_klt_u64_6r(a) == 0);
	VP_ENSURES("ulong < constant (char)200 is the mathematical comparison", c_klt_u64_7l(a) == (((vp_u128)200LL) < (vp_u128)a));
	VP_ENSURES("ulong < constant (char)200 is the mathematical comparison", c_klt_u64_7r(a) == ((vp_u128)a < ((vp_u128)200LL)));
	VP_ENSURES("ulong < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_u64_8l(a) == (((vp_u128)4294967295LL) < (vp_u128)a));
	VP_ENSURES("ulong < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_u64_8r(a) == ((vp_u128)a < ((vp_u128)4294967295LL)));
	}
	{ vp_i128 a = (vp_i128)VP_U128("a");
	VP_ENSURES("int128 < constant -1 is the mathematical comparison", c_klt_s128_0l(a) == (((vp_i128)-1LL) < (vp_i128)a));
	VP_ENSURES("int128 < constant -1 is the mathematical comparison", c_klt_s128_0r(a) == ((vp_i128)a < ((vp_i128)-1LL)));
	VP_ENSURES("int128 < constant int.min is the mathematical comparison", c_klt_s128_1l(a) == (((vp_i128)-2147483648LL) < (vp_i128)a));
	VP_ENSURES("int128 < constant int.min is the mathematical comparison", c_klt_s128_1r(a) == ((vp_i128)a < ((vp_i128)-2147483648LL)));
	VP_ENSURES("int128 < constant 0 is the mathematical comparison", c_klt_s128_2l(a) == (((vp_i128)0LL) < (vp_i128)a));
	VP_ENSURES("int128 < constant 0 is the mathematical comparison", c_klt_s128_2r(a) == ((vp_i128)a < ((vp_i128)0LL)));
	VP_ENSURES("int128 < constant 7 is the mathematical comparison", c_klt_s128_3l(a) == (((vp_i128)7LL) < (vp_i128)a));
	VP_ENSURES("int128 < constant 7 is the mathematical comparison", c_klt_s128_3r(a) == ((vp_i128)a < ((vp_i128)7LL)));
	VP_ENSURES("int128 < constant (ichar)-128 is the mathematical comparison", c_klt_s128_4l(a) == (((vp_i128)-128LL) < (vp_i128)a));
	VP_ENSURES("int128 < constant (ichar)-128 is the mathematical comparison", c_klt_s128_4r(a) == ((vp_i128)a < ((vp_i128)-128LL)));
	VP_ENSURES("int128 < constant (short)-300 is the mathematical comparison", c_klt_s128_5l(a) == (((vp_i128)-300LL) < (vp_i128)a));
	VP_ENSURES("int128 < constant (short)-300 is the mathematical comparison", c_klt_s128_5r(a) == ((vp_i128)a < ((vp_i128)-300LL)));
	VP_ENSURES("int128 < constant (long)-5 is the mathematical comparison", c_klt_s128_6l(a) == (((vp_i128)-5LL) < (vp_i128)a));
	VP_ENSURES("int128 < constant (long)-5 is the mathematical comparison", c_klt_s128_6r(a) == ((vp_i128)a < ((vp_i128)-5LL)));
	VP_ENSURES("int128 < constant (char)200 is the mathematical comparison", c_klt_s128_7l(a) == (((vp_i128)200LL) < (vp_i128)a));
	VP_ENSURES("int128 < constant (char)200 is the mathematical comparison", c_klt_s128_7r(a) == ((vp_i128)a < ((vp_i128)200LL)));
	VP_ENSURES("int128 < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_s128_8l(a) == (((vp_i128)4294967295LL) < (vp_i128)a));
	VP_ENSURES("int128 < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_s128_8r(a) == ((vp_i128)a < ((vp_i128)4294967295LL)));
	}
	{ vp_u128 a = (vp_u128)VP_U128("a");
	VP_ENSURES("uint128 < constant -1 is the mathematical comparison", c_klt_u128_0l(a) == 1);
	VP_ENSURES("uint128 < constant -1 is the mathematical comparison", c_klt_u128_0r(a) == 0);
	VP_ENSURES("uint128 < constant int.min is the mathematical comparison", c_klt_u128_1l(a) == 1);
	VP_ENSURES("uint128 < constant int.min is the mathematical comparison", c_klt_u128_1r(a) == 0);
	VP_ENSURES("uint128 < constant 0 is the mathematical comparison", c_klt_u128_2l(a) == (((vp_u128)0LL) < (vp_u128)a));
	VP_ENSURES("uint128 < constant 0 is the mathematical comparison", c_klt_u128_2r(a) == ((vp_u128)a < ((vp_u128)0LL)));
	VP_ENSURES("uint128 < constant 7 is the mathematical comparison", c_klt_u128_3l(a) == (((vp_u128)7LL) < (vp_u128)a));
	VP_ENSURES("uint128 < constant 7 is the mathematical comparison", c_klt_u128_3r(a) == ((vp_u128)a < ((vp_u128)7LL)));
	VP_ENSURES("uint128 < constant (ichar)-128 is the mathematical comparison", c_klt_u128_4l(a) == 1);
	VP_ENSURES("uint128 < constant (ichar)-128 is the mathematical comparison", c_klt_u128_4r(a) == 0);
	VP_ENSURES("uint128 < constant (short)-300 is the mathematical comparison", c_klt_u128_5l(a) == 1);
	VP_ENSURES("uint128 < constant (short)-300 is the mathematical comparison", c_klt_u128_5r(a) == 0);
	VP_ENSURES("uint128 < constant (long)-5 is the mathematical comparison", c_klt_u128_6l(a) == 1);
	VP_ENSURES("uint128 < constant (long)-5 is the mathematical comparison", c_klt_u128_6r(a) == 0);
	VP_ENSURES("uint128 < constant (char)200 is the mathematical comparison", c_klt_u128_7l(a) == (((vp_u128)200LL) < (vp_u128)a));
	VP_ENSURES("uint128 < constant (char)200 is the mathematical comparison", c_klt_u128_7r(a) == ((vp_u128)a < ((vp_u128)200LL)));
	VP_ENSURES("uint128 < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_u128_8l(a) == (((vp_u128)4294967295LL) < (vp_u128)a));
	VP_ENSURES("uint128 < constant 0xFFFF_FFFFu is the mathematical comparison", c_klt_u128_8r(a) == ((vp_u128)a < ((vp_u128)4294967295LL)));
	}
	VP_REACH();
}
//@unit const_le fns=llvm_emit_int_comp cost=4
void vp_const_le(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8);
	VP_ENSURES("ichar <= constant -1 is the mathematical comparison", c_kle_s8_0l(a) == (((vp_i128)-1LL) <= (vp_i128)a));
	VP_ENSURES("ichar <= constant -1 is the mathematical comparison", c_kle_s8_0r(a) == ((vp_i128)a <= ((vp_i128)-1LL)));
	VP_ENSURES("ichar <= constant int.min is the mathematical comparison", c_kle_s8_1l(a) == (((vp_i128)-2147483648LL) <= (vp_i128)a));
	VP_ENSURES("ichar <= constant int.min is the mathematical comparison", c_kle_s8_1r(a) == ((vp_i128)a <= ((vp_i128)-2147483648LL)));
	VP_ENSURES("ichar <= constant 0 is the mathematical comparison", c_kle_s8_2l(a) == (((vp_i128)0LL) <= (vp_i128)a));
	VP_ENSURES("ichar <= constant 0 is the mathematical comparison", c_kle_s8_2r(a) == ((vp_i128)a <= ((vp_i128)0LL)));
	VP_ENSURES("ichar <= constant 7 is the mathematical comparison", c_kle_s8_3l(a) == (((vp_i128)7LL) <= (vp_i128)a));
	VP_ENSURES("ichar <= constant 7 is the mathematical comparison", c_kle_s8_3r(a) == ((vp_i128)a <= ((vp_i128)7LL)));
	VP_ENSURES("ichar <= constant (ichar)-128 is the mathematical comparison", c_kle_s8_4l(a) == (((vp_i128)-128LL) <= (vp_i128)a));
	VP_ENSURES("ichar <= constant (ichar)-128 is the mathematical comparison", c_kle_s8_4r(a) == ((vp_i128)a <= ((vp_i128)-128LL)));
	VP_ENSURES("ichar <= constant (short)-300 is the mathematical comparison", c_kle_s8_5l(a) == (((vp_i128)-300LL) <= (vp_i128)a));
	VP_ENSURES("ichar <= constant (short)-300 is the mathematical comparison", c_kle_s8_5r(a) == ((vp_i128)a <= ((vp_i128)-300LL)));
	VP_ENSURES("ichar <= constant (long)-5 is the mathematical comparison", c_kle_s8_6l(a) == (((vp_i128)-5LL) <= (vp_i128)a));
	VP_ENSURES("ichar <= constant (long)-5 is the mathematical comparison", c_kle_s8_6r(a) == ((vp_i128)a <= ((vp_i128)-5LL)));
	VP_ENSURES("ichar <= constant (char)200 is the mathematical comparison", c_kle_s8_7l(a) == (((vp_i128)200LL) <= (vp_i128)a));
	VP_ENSURES("ichar <= constant (char)200 is the mathematical comparison", c_kle_s8_7r(a) == ((vp_i128)a <= ((vp_i128)200LL)));
	VP_ENSURES("ichar <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_s8_8l(a) == (((vp_i128)4294967295LL) <= (vp_i128)a));
	VP_ENSURES("ichar <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_s8_8r(a) == ((vp_i128)a <= ((vp_i128)4294967295LL)));
	}
	{ uint8_t a = (uint8_t)vp_input("a", 8);
	VP_ENSURES("char <= constant -1 is the mathematical comparison", c_kle_u8_0l(a) == 1);
	VP_ENSURES("char <= constant -1 is the mathematical comparison", c_kle_u8_0r(a) == 0);
	VP_ENSURES("char <= constant int.min is the mathematical comparison", c_kle_u8_1l(a) == 1);
	VP_ENSURES("char <= constant int.min is the mathematical comparison", c_kle_u8_1r(a) == 0);
	VP_ENSURES("char <= constant 0 is the mathematical comparison", c_kle_u8_2l(a) == (((vp_u128)0LL) <= (vp_u128)a));
	VP_ENSURES("char <= constant 0 is the mathematical comparison", c_kle_u8_2r(a) == ((vp_u128)a <= ((vp_u128)0LL)));
	VP_ENSURES("char <= constant 7 is the mathematical comparison", c_kle_u8_3l(a) == (((vp_u128)7LL) <= (vp_u128)a));
	VP_ENSURES("char <= constant 7 is the mathematical comparison", c_kle_u8_3r(a) == ((vp_u128)a <= ((vp_u128)7LL)));
	VP_ENSURES("char <= constant (ichar)-128 is the mathematical comparison", c_kle_u8_4l(a) == 1);
	VP_ENSURES("char <= constant (ichar)-128 is the mathematical comparison", c_kle_u8_4r(a) == 0);
	VP_ENSURES("char <= constant (short)-300 is the mathematical comparison", c_kle_u8_5l(a) == 1);
	VP_ENSURES("char <= constant (short)-300 is the mathematical comparison", c_kle_u8_5r(a) == 0);
	VP_ENSURES("char <= constant (long)-5 is the mathematical comparison", c_kle_u8_6l(a) == 1);
	VP_ENSURES("char <= constant (long)-5 is the mathematical comparison", c_kle_u8_6r(a) == 0);
	VP_ENSURES("char <= constant (char)200 is the mathematical comparison", c_kle_u8_7l(a) == (((vp_u128)200LL) <= (vp_u128)a));
	VP_ENSURES("char <= constant (char)200 is the mathematical comparison", c_kle_u8_7r(a) == ((vp_u128)a <= ((vp_u128)200LL)));
	VP_ENSURES("char <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_u8_8l(a) == (((vp_u128)4294967295LL) <= (vp_u128)a));
	VP_ENSURES("char <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_u8_8r(a) == ((vp_u128)a <= ((vp_u128)4294967295LL)));
	}
	{ int16_t a = (int16_t)vp_input("a", 16);
	VP_ENSURES("short <= constant -1 is the mathematical comparison", c_kle_s16_0l(a) == (((vp_i128)-1LL) <= (vp_i128)a));
	VP_ENSURES("short <= constant -1 is the mathematical comparison", c_kle_s16_0r(a) == ((vp_i128)a <= ((vp_i128)-1LL)));
	VP_ENSURES("short <= constant int.min is the mathematical comparison", c_kle_s16_1l(a) == (((vp_i128)-2147483648LL) <= (vp_i128)a));
	VP_ENSURES("short <= constant int.min is the mathematical comparison", c_kle_s16_1r(a) == ((vp_i128)a <= ((vp_i128)-2147483648LL)));
	VP_ENSURES("short <= constant 0 is the mathematical comparison", c_kle_s16_2l(a) == (((vp_i128)0LL) <= (vp_i128)a));
	VP_ENSURES("short <= constant 0 is the mathematical comparison", c_kle_s16_2r(a) == ((vp_i128)a <= ((vp_i128)0LL)));
	VP_ENSURES("short <= constant 7 is the mathematical comparison", c_kle_s16_3l(a) == (((vp_i128)7LL) <= (vp_i128)a));
	VP_ENSURES("short <= constant 7 is the mathematical comparison", c_kle_s16_3r(a) == ((vp_i128)a <= ((vp_i128)7LL)));
	VP_ENSURES("short <= constant (ichar)-128 is the mathematical comparison", c_kle_s16_4l(a) == (((vp_i128)-128LL) <= (vp_i128)a));
	VP_ENSURES("short <= constant (ichar)-128 is the mathematical comparison", c_kle_s16_4r(a) == ((vp_i128)a <= ((vp_i128)-128LL)));
	VP_ENSURES("short <= constant (short)-300 is the mathematical comparison", c_kle_s16_5l(a) == (((vp_i128)-300LL) <= (vp_i128)a));
	VP_ENSURES("short <= constant (short)-300 is the mathematical comparison", c_kle_s16_5r(a) == ((vp_i128)a <= ((vp_i128)-300LL)));
	VP_ENSURES("short <= constant (long)-5 is the mathematical comparison", c_kle_s16_6l(a) == (((vp_i128)-5LL) <= (vp_i128)a));
	VP_ENSURES("short <= constant (long)-5 is the mathematical comparison", c_kle_s16_6r(a) == ((vp_i128)a <= ((vp_i128)-5LL)));
	VP_ENSURES("short <= constant (char)200 is the mathematical comparison", c_kle_s16_7l(a) == (((vp_i128)200LL) <= (vp_i128)a));
	VP_ENSURES("short <= constant (char)200 is the mathematical comparison", c_kle_s16_7r(a) == ((vp_i128)a <= ((vp_i128)200LL)));
	VP_ENSURES("short <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_s16_8l(a) == (((vp_i128)4294967295LL) <= (vp_i128)a));
	VP_ENSURES("short <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_s16_8r(a) == ((vp_i128)a <= ((vp_i128)4294967295LL)));
	}
	{ uint16_t a = (uint16_t)vp_input("a", 16);
	VP_ENSURES("ushort <= constant -1 is the mathematical comparison", c_kle_u16_0l(a) == 1);
	VP_ENSURES("ushort <= constant -1 is the mathematical comparison", c_kle_u16_0r(a) == 0);
	VP_ENSURES("ushort <= constant int.min is the mathematical comparison", c_kle_u16_1l(a) == 1);
	VP_ENSURES("ushort <= constant int.min is the mathematical comparison", c_kle_u16_1r(a) == 0);
	VP_ENSURES("ushort <= constant 0 is the mathematical comparison", c_kle_u16_2l(a) == (((vp_u128)0LL) <= (vp_u128)a));
	VP_ENSURES("ushort <= constant 0 is the mathematical comparison", c_kle_u16_2r(a) == ((vp_u128)a <= ((vp_u128)0LL)));
	VP_ENSURES("ushort <= constant 7 is the mathematical comparison", c_kle_u16_3l(a) == (((vp_u128)7LL) <= (vp_u128)a));
	VP_ENSURES("ushort <= constant 7 is the mathematical comparison", c_kle_u16_3r(a) == ((vp_u128)a <= ((vp_u128)7LL)));
	VP_ENSURES("ushort <= constant (ichar)-128 is the mathematical comparison", c_kle_u16_4l(a) == 1);
	VP_ENSURES("ushort <= constant (ichar)-128 is the mathematical comparison", c_kle_u16_4r(a) == 0);
	VP_ENSURES("ushort <= constant (short)-300 is the mathematical comparison", c_kle_u16_5l(a) == 1);
	VP_ENSURES("ushort <= constant (short)-300 is the mathematical comparison", c_kle_u16_5r(a) == 0);
	VP_ENSURES("ushort <= constant (long)-5 is the mathematical comparison", c_kle_u16_6l(a) == 1);
	VP_ENSURES("ushort <= constant (long)-5 is the mathematical comparison", c_kle_u16_6r(a) == 0);
	VP_ENSURES("ushort <= constant (char)200 is the mathematical comparison", c_kle_u16_7l(a) == (((vp_u128)200LL) <= (vp_u128)a));
	VP_ENSURES("ushort <= constant (char)200 is the mathematical comparison", c_kle_u16_7r(a) == ((vp_u128)a <= ((vp_u128)200LL)));
	VP_ENSURES("ushort <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_u16_8l(a) == (((vp_u128)4294967295LL) <= (vp_u128)a));
	VP_ENSURES("ushort <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_u16_8r(a) == ((vp_u128)a <= ((vp_u128)4294967295LL)));
	}
	{ int32_t a = (int32_t)vp_input("a", 32);
	VP_ENSURES("int <= constant -1 is the mathematical comparison", c_kle_s32_0l(a) == (((vp_i128)-1LL) <= (vp_i128)a));
	VP_ENSURES("int <= constant -1 is the mathematical comparison", c_kle_s32_0r(a) == ((vp_i128)a <= ((vp_i128)-1LL)));
	VP_ENSURES("int <= constant int.min is the mathematical comparison", c_kle_s32_1l(a) == (((vp_i128)-2147483648LL) <= (vp_i128)a));
	VP_ENSURES("int <= constant int.min is the mathematical comparison", c_kle_s32_1r(a) == ((vp_i128)a <= ((vp_i128)-2147483648LL)));
	VP_ENSURES("int <= constant 0 is the mathematical comparison", c_kle_s32_2l(a) == (((vp_i128)0LL) <= (vp_i128)a));
	VP_ENSURES("int <= constant 0 is the mathematical comparison", c_kle_s32_2r(a) == ((vp_i128)a <= ((vp_i128)0LL)));
	VP_ENSURES("int <= constant 7 is the mathematical comparison", c_kle_s32_3l(a) == (((vp_i128)7LL) <= (vp_i128)a));
	VP_ENSURES("int <= constant 7 is the mathematical comparison", c_kle_s32_3r(a) == ((vp_i128)a <= ((vp_i128)7LL)));
	VP_ENSURES("int <= constant (ichar)-128 is the mathematical comparison", c_kle_s32_4l(a) == (((vp_i128)-128LL) <= (vp_i128)a));
	VP_ENSURES("int <= constant (ichar)-128 is the mathematical comparison", c_kle_s32_4r(a) == ((vp_i128)a <= ((vp_i128)-128LL)));
	VP_ENSURES("int <= constant (short)-300 is the mathematical comparison", c_kle_s32_5l(a) == (((vp_i128)-300LL) <= (vp_i128)a));
	VP_ENSURES("int <= constant (short)-300 is the mathematical comparison", c_kle_s32_5r(a) == ((vp_i128)a <= ((vp_i128)-300LL)));
	VP_ENSURES("int <= constant (long)-5 is the mathematical comparison", c_kle_s32_6l(a) == (((vp_i128)-5LL) <= (vp_i128)a));
	VP_ENSURES("int <= constant (long)-5 is the mathematical comparison", c_kle_s32_6r(a) == ((vp_i128)a <= ((vp_i128)-5LL)));
	VP_ENSURES("int <= constant (char)200 is the mathematical comparison", c_kle_s32_7l(a) == (((vp_i128)200LL) <= (vp_i128)a));
	VP_ENSURES("int <= constant (char)200 is the mathematical comparison", c_kle_s32_7r(a) == ((vp_i128)a <= ((vp_i128)200LL)));
	VP_ENSURES("int <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_s32_8l(a) == (((vp_i128)4294967295LL) <= (vp_i128)a));
	VP_ENSURES("int <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_s32_8r(a) == ((vp_i128)a <= ((vp_i128)4294967295LL)));
	}
	{ uint32_t a = (uint32_t)vp_input("a", 32);
	VP_ENSURES("uint <= constant -1 is the mathematical comparison", c_kle_u32_0l(a) == 1);
	VP_ENSURES("uint <= constant -1 is the mathematical comparison", c_kle_u32_0r(a) == 0);
	VP_ENSURES("uint <= constant int.min is the mathematical comparison", c_kle_u32_1l(a) == 1);
	VP_ENSURES("uint <= constant int.min is the mathematical comparison", c_kle_u32_1r(a) == 0);
	VP_ENSURES("uint <= constant 0 is the mathematical comparison", c_kle_u32_2l(a) == (((vp_u128)0LL) <= (vp_u128)a));
	VP_ENSURES("uint <= constant 0 is the mathematical comparison", c_kle_u32_2r(a) == ((vp_u128)a <= ((vp_u128)0LL)));
	VP_ENSURES("uint <= constant 7 is the mathematical comparison", c_kle_u32_3l(a) == (((vp_u128)7LL) <= (vp_u128)a));
	VP_ENSURES("uint <= constant 7 is the mathematical comparison", c_kle_u32_3r(a) == ((vp_u128)a <= ((vp_u128)7LL)));
	VP_ENSURES("uint <= constant (ichar)-128 is the mathematical comparison", c_kle_u32_4l(a) == 1);
	VP_ENSURES("uint <= constant (ichar)-128 is the mathematical comparison", c_kle_u32_4r(a) == 0);
	VP_ENSURES("uint <= constant (short)-300 is the mathematical comparison", c_kle_u32_5l(a) == 1);
	VP_ENSURES("uint <= constant (short)-300 is the mathematical comparison", c_kle_u32_5r(a) == 0);
	VP_ENSURES("uint <= constant (long)-5 is the mathematical comparison", c_kle_u32_6l(a) == 1);
	VP_ENSURES("uint <= constant (long)-5 is the mathematical comparison", c_kle_u32_6r(a) == 0);
	VP_ENSURES("uint <= constant (char)200 is the mathematical comparison", c_kle_u32_7l(a) == (((vp_u128)200LL) <= (vp_u128)a));
	VP_ENSURES("uint <= constant (char)200 is the mathematical comparison", c_kle_u32_7r(a) == ((vp_u128)a <= ((vp_u128)200LL)));
	VP_ENSURES("uint <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_u32_8l(a) == (((vp_u128)4294967295LL) <= (vp_u128)a));
	VP_ENSURES("uint <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_u32_8r(a) == ((vp_u128)a <= ((vp_u128)4294967295LL)));
	}
	{ int64_t a = (int64_t)vp_input("a", 64);
	VP_ENSURES("long <= constant -1 is the mathematical comparison", c_kle_s64_0l(a) == (((vp_i128)-1LL) <= (vp_i128)a));
	VP_ENSURES("long <= constant -1 is the mathematical comparison", c_kle_s64_0r(a) == ((vp_i128)a <= ((vp_i128)-1LL)));
	VP_ENSURES("long <= constant int.min is the mathematical comparison", c_kle_s64_1l(a) == (((vp_i128)-2147483648LL) <= (vp_i128)a));
	VP_ENSURES("long <= constant int.min is the mathematical comparison", c_kle_s64_1r(a) == ((vp_i128)a <= ((vp_i128)-2147483648LL)));
	VP_ENSURES("long <= constant 0 is the mathematical comparison", c_kle_s64_2l(a) == (((vp_i128)0LL) <= (vp_i128)a));
	VP_ENSURES("long <= constant 0 is the mathematical comparison", c_kle_s64_2r(a) == ((vp_i128)a <= ((vp_i128)0LL)));
	VP_ENSURES("long <= constant 7 is the mathematical comparison", c_kle_s64_3l(a) == (((vp_i128)7LL) <= (vp_i128)a));
	VP_ENSURES("long <= constant 7 is the mathematical comparison", c_kle_s64_3r(a) == ((vp_i128)a <= ((vp_i128)7LL)));
	VP_ENSURES("long <= constant (ichar)-128 is the mathematical comparison", c_kle_s64_4l(a) == (((vp_i128)-128LL) <= (vp_i128)a));
	VP_ENSURES("long <= constant (ichar)-128 is the mathematical comparison", c_kle_s64_4r(a) == ((vp_i128)a <= ((vp_i128)-128LL)));
	VP_ENSURES("long <= constant (short)-300 is the mathematical comparison", c_kle_s64_5l(a) == (((vp_i128)-300LL) <= (vp_i128)a));
	VP_ENSURES("long <= constant (short)-300 is the mathematical comparison", c_kle_s64_5r(a) == ((vp_i128)a <= ((vp_i128)-300LL)));
	VP_ENSURES("long <= constant (long)-5 is the mathematical comparison", c_kle_s64_6l(a) == (((vp_i128)-5LL) <= (vp_i128)a));
	VP_ENSURES("long <= constant (long)-5 is the mathematical comparison", c_kle_s64_6r(a) == ((vp_i128)a <= ((vp_i128)-5LL)));
	VP_ENSURES("long <= constant (char)200 is the mathematical comparison", c_kle_s64_7l(a) == (((vp_i128)200LL) <= (vp_i128)a));
	VP_ENSURES("long <= constant (char)200 is the mathematical comparison", c_kle_s64_7r(a) == ((vp_i128)a <= ((vp_i128)200LL)));
	VP_ENSURES("long <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_s64_8l(a) == (((vp_i128)4294967295LL) <= (vp_i128)a));
	VP_ENSURES("long <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_s64_8r(a) == ((vp_i128)a <= ((vp_i128)4294967295LL)));
	}
	{ uint64_t a = (uint64_t)vp_input("a", 64);
	VP_ENSURES("ulong <= constant -1 is the mathematical comparison", c_kle_u64_0l(a) == 1);
	VP_ENSURES("ulong <= constant -1 is the mathematical comparison", c_kle_u64_0r(a) == 0);
	VP_ENSURES("ulong <= constant int.min is the mathematical comparison", c_kle_u64_1l(a) == 1);
	VP_ENSURES("ulong <= constant int.min is the mathematical comparison", c_kle_u64_1r(a) == 0);
	VP_ENSURES("ulong <= constant 0 is the mathematical comparison", c_kle_u64_2l(a) == (((vp_u128)0LL) <= (vp_u128)a));
	VP_ENSURES("ulong <= constant 0 is the mathematical comparison", c_kle_u64_2r(a) == ((vp_u128)a <= ((vp_u128)0LL)));
	VP_ENSURES("ulong <= constant 7 is the mathematical comparison", c_kle_u64_3l(a) == (((vp_u128)7LL) <= (vp_u128)a));
	VP_ENSURES("ulong <= constant 7 is the mathematical comparison", c_kle_u64_3r(a) == ((vp_u128)a <= ((vp_u128)7LL)));
	VP_ENSURES("ulong <= constant (ichar)-128 is the mathematical comparison", c_kle_u64_4l(a) == 1);
	VP_ENSURES("ulong <= constant (ichar)-128 is the mathematical comparison", c_kle_u64_4r(a) == 0);
	VP_ENSURES("ulong <= constant (short)-300 is the mathematical comparison", c_kle_u64_5l(a) == 1);
	VP_ENSURES("ulong <= constant (short)-300 is the mathematical comparison", c_kle_u64_5r(a) == 0);
	VP_ENSURES("ulong <= constant (long)-5 is the mathematical comparison", c_kle_u64_6l(a) == 1);
	VP_ENSURES("ulong <= constant (long)-5 is the mathematical comparison", c_kle_u64_6r(a) == 0);
	VP_ENSURES("ulong <= constant (char)200 is the mathematical comparison", c_kle_u64_7l(a) == (((vp_u128)200LL) <= (vp_u128)a));
	VP_ENSURES("ulong <= constant (char)200 is the mathematical comparison", c_kle_u64_7r(a) == ((vp_u128)a <= ((vp_u128)200LL)));
	VP_ENSURES("ulong <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_u64_8l(a) == (((vp_u128)4294967295LL) <= (vp_u128)a));
	VP_ENSURES("ulong <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_u64_8r(a) == ((vp_u128)a <= ((vp_u128)4294967295LL)));
	}
	{ vp_i128 a = (vp_i128)VP_U128("a");
	VP_ENSURES("int128 <= constant -1 is the mathematical comparison", c_kle_s128_0l(a) == (((vp_i128)-1LL) <= (vp_i128)a));
	VP_ENSURES("int128 <= constant -1 is the mathematical comparison", c_kle_s128_0r(a) == ((vp_i128)a <= ((vp_i128)-1LL)));
	VP_ENSURES("int128 <= constant int.min is the mathematical comparison", c_kle_s128_1l(a) == (((vp_i128)-2147483648LL) <= (vp_i128)a));
	VP_ENSURES("int128 <= constant int.min is the mathematical comparison", c_kle_s128_1r(a) == ((vp_i128)a <= ((vp_i128)-2147483648LL)));
	VP_ENSURES("int128 <= constant 0 is the mathematical comparison", c_kle_s128_2l(a) == (((vp_i128)0LL) <= (vp_i128)a));
	VP_ENSURES("int128 <= constant 0 is the mathematical comparison", c_kle_s128_2r(a) == ((vp_i128)a <= ((vp_i128)0LL)));
	VP_ENSURES("int128 <= constant 7 is the mathematical comparison", c_kle_s128_3l(a) == (((vp_i128)7LL) <= (vp_i128)a));
	VP_ENSURES("int128 <= constant 7 is the mathematical comparison", c_kle_s128_3r(a) == ((vp_i128)a <= ((vp_i128)7LL)));
	VP_ENSURES("int128 <= constant (ichar)-128 is the mathematical comparison", c_kle_s128_4l(a) == (((vp_i128)-128LL) <= (vp_i128)a));
	VP_ENSURES("int128 <= constant (ichar)-128 is the mathematical comparison", c_kle_s128_4r(a) == ((vp_i128)a <= ((vp_i128)-128LL)));
	VP_ENSURES("int128 <= constant (short)-300 is the mathematical comparison", c_kle_s128_5l(a) == (((vp_i128)-300LL) <= (vp_i128)a));
	VP_ENSURES("int128 <= constant (short)-300 is the mathematical comparison", c_kle_s128_5r(a) == ((vp_i128)a <= ((vp_i128)-300LL)));
	VP_ENSURES("int128 <= constant (long)-5 is the mathematical comparison", c_kle_s128_6l(a) == (((vp_i128)-5LL) <= (vp_i128)a));
	VP_ENSURES("int128 <= constant (long)-5 is the mathematical comparison", c_kle_s128_6r(a) == ((vp_i128)a <= ((vp_i128)-5LL)));
	VP_ENSURES("int128 <= constant (char)200 is the mathematical comparison", c_kle_s128_7l(a) == (((vp_i128)200LL) <= (vp_i128)a));
	VP_ENSURES("int128 <= constant (char)200 is the mathematical comparison", c_kle_s128_7r(a) == ((vp_i128)a <= ((vp_i128)200LL)));
	VP_ENSURES("int128 <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_s128_8l(a) == (((vp_i128)4294967295LL) <= (vp_i128)a));
	VP_ENSURES("int128 <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_s128_8r(a) == ((vp_i128)a <= ((vp_i128)4294967295LL)));
	}
	{ vp_u128 a = (vp_u128)VP_U128("a");
	VP_ENSURES("uint128 <= constant -1 is the mathematical comparison", c_kle_u128_0l(a) == 1);
	VP_ENSURES("uint128 <= constant -1 is the mathematical comparison", c_kle_u128_0r(a) == 0);
	VP_ENSURES("uint128 <= constant int.min is the mathematical comparison", c_kle_u128_1l(a) == 1);
	VP_ENSURES("uint128 <= constant int.min is the mathematical comparison", c_kle_u128_1r(a) == 0);
	VP_ENSURES("uint128 <= constant 0 is the mathematical comparison", c_kle_u128_2l(a) == (((vp_u128)0LL) <= (vp_u128)a));
	VP_ENSURES("uint128 <= constant 0 is the mathematical comparison", c_kle_u128_2r(a) == ((vp_u128)a <= ((vp_u128)0LL)));
	VP_ENSURES("uint128 <= constant 7 is the mathematical comparison", c_kle_u128_3l(a) == (((vp_u128)7LL) <= (vp_u128)a));
	VP_ENSURES("uint128 <= constant 7 is the mathematical comparison", c_kle_u128_3r(a) == ((vp_u128)a <= ((vp_u128)7LL)));
	VP_ENSURES("uint128 <= constant (ichar)-128 is the mathematical comparison", c_kle_u128_4l(a) == 1);
	VP_ENSURES("uint128 <= constant (ichar)-128 is the mathematical comparison", c_kle_u128_4r(a) == 0);
	VP_ENSURES("uint128 <= constant (short)-300 is the mathematical comparison", c_kle_u128_5l(a) == 1);
	VP_ENSURES("uint128 <= constant (short)-300 is the mathematical comparison", c_kle_u128_5r(a) == 0);
	VP_ENSURES("uint128 <= constant (long)-5 is the mathematical comparison", c_kle_u128_6l(a) == 1);
	VP_ENSURES("uint128 <= constant (long)-5 is the mathematical comparison", c_kle_u128_6r(a) == 0);
	VP_ENSURES("uint128 <= constant (char)200 is the mathematical comparison", c_kle_u128_7l(a) == (((vp_u128)200LL) <= (vp_u128)a));
	VP_ENSURES("uint128 <= constant (char)200 is the mathematical comparison", c_kle_u128_7r(a) == ((vp_u128)a <= ((vp_u128)200LL)));
	VP_ENSURES("uint128 <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_u128_8l(a) == (((vp_u128)4294967295LL) <= (vp_u128)a));
	VP_ENSURES("uint128 <= constant 0xFFFF_FFFFu is the mathematical comparison", c_kle_u128_8r(a) == ((vp_u128)a <= ((vp_u128)4294967295LL)));
	}
	VP_REACH();
}
//@unit const_gt fns=llvm_emit_int_comp cost=4
void vp_const_gt(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8);
	VP_ENSURES("ichar > constant -1 is the mathematical comparison", c_kgt_s8_0l(a) == (((vp_i128)-1LL) > (vp_i128)a));
	VP_ENSURES("ichar > constant -1 is the mathematical comparison", c_kgt_s8_0r(a) == ((vp_i128)a > ((vp_i128)-1LL)));
	VP_ENSURES("ichar > constant int.min is the mathematical comparison", c_kgt_s8_1l(a) == (((vp_i128)-2147483648LL) > (vp_i128)a));
	VP_ENSURES("ichar > constant int.min is the mathematical comparison", c_kgt_s8_1r(a) == ((vp_i128)a > ((vp_i128)-2147483648LL)));
	VP_ENSURES("ichar > constant 0 is the mathematical comparison", c_kgt_s8_2l(a) == (((vp_i128)0LL) > (vp_i128)a));
	VP_ENSURES("ichar > constant 0 is the mathematical comparison", c_kgt_s8_2r(a) == ((vp_i128)a > ((vp_i128)0LL)));
	VP_ENSURES("ichar > constant 7 is the mathematical comparison", c_kgt_s8_3l(a) == (((vp_i128)7LL) > (vp_i128)a));
	VP_ENSURES("ichar > constant 7 is the mathematical comparison", c_kgt_s8_3r(a) == ((vp_i128)a > ((vp_i128)7LL)));
	VP_ENSURES("ichar > constant (ichar)-128 is the mathematical comparison", c_kgt_s8_4l(a) == (((vp_i128)-128LL) > (vp_i128)a));
	VP_ENSURES("ichar > constant (ichar)-128 is the mathematical comparison", c_kgt_s8_4r(a) == ((vp_i128)a > ((vp_i128)-128LL)));
	VP_ENSURES("ichar > constant (short)-300 is the mathematical comparison", c_kgt_s8_5l(a) == (((vp_i128)-300LL) > (vp_i128)a));
	VP_ENSURES("ichar > constant (short)-300 is the mathematical comparison", c_kgt_s8_5r(a) == ((vp_i128)a > ((vp_i128)-300LL)));
	VP_ENSURES("ichar > constant (long)-5 is the mathematical comparison", c_kgt_s8_6l(a) == (((vp_i128)-5LL) > (vp_i128)a));
	VP_ENSURES("ichar > constant (long)-5 is the mathematical comparison", c_kgt_s8_6r(a) == ((vp_i128)a > ((vp_i128)-5LL)));
	VP_ENSURES("ichar > constant (char)200 is the mathematical comparison", c_kgt_s8_7l(a) == (((vp_i128)200LL) > (vp_i128)a));
	VP_ENSURES("ichar > constant (char)200 is the mathematical comparison", c_kgt_s8_7r(a) == ((vp_i128)a > ((vp_i128)200LL)));
	VP_ENSURES("ichar > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_s8_8l(a) == (((vp_i128)4294967295LL) > (vp_i128)a));
	VP_ENSURES("ichar > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_s8_8r(a) == ((vp_i128)a > ((vp_i128)4294967295LL)));
	}
	{ uint8_t a = (uint8_t)vp_input("a", 8);
	VP_ENSURES("char > constant -1 is the mathematical comparison", c_kgt_u8_0l(a) == 0);
	VP_ENSURES("char > constant -1 is the mathematical comparison", c_kgt_u8_0r(a) == 1);
	VP_ENSURES("char > constant int.min is the mathematical comparison", c_kgt_u8_1l(a) == 0);
	VP_ENSURES("char > constant int.min is the mathematical comparison", c_kgt_u8_1r(a) == 1);
	VP_ENSURES("char > constant 0 is the mathematical comparison", c_kgt_u8_2l(a) == (((vp_u128)0LL) > (vp_u128)a));
	VP_ENSURES("char > constant 0 is the mathematical comparison", c_kgt_u8_2r(a) == ((vp_u128)a > ((vp_u128)0LL)));
	VP_ENSURES("char > constant 7 is the mathematical comparison", c_kgt_u8_3l(a) == (((vp_u128)7LL) > (vp_u128)a));
	VP_ENSURES("char > constant 7 is the mathematical comparison", c_kgt_u8_3r(a) == ((vp_u128)a > ((vp_u128)7LL)));
	VP_ENSURES("char > constant (ichar)-128 is the mathematical comparison", c_kgt_u8_4l(a) == 0);
	VP_ENSURES("char > constant (ichar)-128 is the mathematical comparison", c_kgt_u8_4r(a) == 1);
	VP_ENSURES("char > constant (short)-300 is the mathematical comparison", c_kgt_u8_5l(a) == 0);
	VP_ENSURES("char > constant (short)-300 is the mathematical comparison", c_kgt_u8_5r(a) == 1);
	VP_ENSURES("char > constant (long)-5 is the mathematical comparison", c_kgt_u8_6l(a) == 0);
	VP_ENSURES("char > constant (long)-5 is the mathematical comparison", c_kgt_u8_6r(a) == 1);
	VP_ENSURES("char > constant (char)200 is the mathematical comparison", c_kgt_u8_7l(a) == (((vp_u128)200LL) > (vp_u128)a));
	VP_ENSURES("char > constant (char)200 is the mathematical comparison", c_kgt_u8_7r(a) == ((vp_u128)a > ((vp_u128)200LL)));
	VP_ENSURES("char > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_u8_8l(a) == (((vp_u128)4294967295LL) > (vp_u128)a));
	VP_ENSURES("char > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_u8_8r(a) == ((vp_u128)a > ((vp_u128)4294967295LL)));
	}
	{ int16_t a = (int16_t)vp_input("a", 16);
	VP_ENSURES("short > constant -1 is the mathematical comparison", c_kgt_s16_0l(a) == (((vp_i128)-1LL) > (vp_i128)a));
	VP_ENSURES("short > constant -1 is the mathematical comparison", c_kgt_s16_0r(a) == ((vp_i128)a > ((vp_i128)-1LL)));
	VP_ENSURES("short > constant int.min is the mathematical comparison", c_kgt_s16_1l(a) == (((vp_i128)-2147483648LL) > (vp_i128)a));
	VP_ENSURES("short > constant int.min is the mathematical comparison", c_kgt_s16_1r(a) == ((vp_i128)a > ((vp_i128)-2147483648LL)));
	VP_ENSURES("short > constant 0 is the mathematical comparison", c_kgt_s16_2l(a) == (((vp_i128)0LL) > (vp_i128)a));
	VP_ENSURES("short > constant 0 is the mathematical comparison", c_kgt_s16_2r(a) == ((vp_i128)a > ((vp_i128)0LL)));
	VP_ENSURES("short > constant 7 is the mathematical comparison", c_kgt_s16_3l(a) == (((vp_i128)7LL) > (vp_i128)a));
	VP_ENSURES("short > constant 7 is the mathematical comparison", c_kgt_s16_3r(a) == ((vp_i128)a > ((vp_i128)7LL)));
	VP_ENSURES("short > constant (ichar)-128 is the mathematical comparison", c_kgt_s16_4l(a) == (((vp_i128)-128LL) > (vp_i128)a));
	VP_ENSURES("short > constant (ichar)-128 is the mathematical comparison", c_kgt_s16_4r(a) == ((vp_i128)a > ((vp_i128)-128LL)));
	VP_ENSURES("short > constant (short)-300 is the mathematical comparison", c_kgt_s16_5l(a) == (((vp_i128)-300LL) > (vp_i128)a));
	VP_ENSURES("short > constant (short)-300 is the mathematical comparison", c_kgt_s16_5r(a) == ((vp_i128)a > ((vp_i128)-300LL)));
	VP_ENSURES("short > constant (long)-5 is the mathematical comparison", c_kgt_s16_6l(a) == (((vp_i128)-5LL) > (vp_i128)a));
	VP_ENSURES("short > constant (long)-5 is the mathematical comparison", c_kgt_s16_6r(a) == ((vp_i128)a > ((vp_i128)-5LL)));
	VP_ENSURES("short > constant (char)200 is the mathematical comparison", c_kgt_s16_7l(a) == (((vp_i128)200LL) > (vp_i128)a));
	VP_ENSURES("short > constant (char)200 is the mathematical comparison", c_kgt_s16_7r(a) == ((vp_i128)a > ((vp_i128)200LL)));
	VP_ENSURES("short > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_s16_8l(a) == (((vp_i128)4294967295LL) > (vp_i128)a));
	VP_ENSURES("short > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_s16_8r(a) == ((vp_i128)a > ((vp_i128)4294967295LL)));
	}
	{ uint16_t a = (uint16_t)vp_input("a", 16);
	VP_ENSURES("ushort > constant -1 is the mathematical comparison", c_kgt_u16_0l(a) == 0);
	VP_ENSURES("ushort > constant -1 is the mathematical comparison", c_kgt_u16_0r(a) == 1);
	VP_ENSURES("ushort > constant int.min is the mathematical comparison", c_kgt_u16_1l(a) == 0);
	VP_ENSURES("ushort > constant int.min is the mathematical comparison", c_kgt_u16_1r(a) == 1);
	VP_ENSURES("ushort > constant 0 is the mathematical comparison", c_kgt_u16_2l(a) == (((vp_u128)0LL) > (vp_u128)a));
	VP_ENSURES("ushort > constant 0 is the mathematical comparison", c_kgt_u16_2r(a) == ((vp_u128)a > ((vp_u128)0LL)));
	VP_ENSURES("ushort > constant 7 is the mathematical comparison", c_kgt_u16_3l(a) == (((vp_u128)7LL) > (vp_u128)a));
	VP_ENSURES("ushort > constant 7 is the mathematical comparison", c_kgt_u16_3r(a) == ((vp_u128)a > ((vp_u128)7LL)));
	VP_ENSURES("ushort > constant (ichar)-128 is the mathematical comparison", c_kgt_u16_4l(a) == 0);
	VP_ENSURES("ushort > constant (ichar)-128 is the mathematical comparison", c_kgt_u16_4r(a) == 1);
	VP_ENSURES("ushort > constant (short)-300 is the mathematical comparison", c_kgt_u16_5l(a) == 0);
	VP_ENSURES("ushort > constant (short)-300 is the mathematical comparison", c_kgt_u16_5r(a) == 1);
	VP_ENSURES("ushort > constant (long)-5 is the mathematical comparison", c_kgt_u16_6l(a) == 0);
	VP_ENSURES("ushort > constant (long)-5 is the mathematical comparison", c_kgt_u16_6r(a) == 1);
	VP_ENSURES("ushort > constant (char)200 is the mathematical comparison", c_kgt_u16_7l(a) == (((vp_u128)200LL) > (vp_u128)a));
	VP_ENSURES("ushort > constant (char)200 is the mathematical comparison", c_kgt_u16_7r(a) == ((vp_u128)a > ((vp_u128)200LL)));
	VP_ENSURES("ushort > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_u16_8l(a) == (((vp_u128)4294967295LL) > (vp_u128)a));
	VP_ENSURES("ushort > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_u16_8r(a) == ((vp_u128)a > ((vp_u128)4294967295LL)));
	}
	{ int32_t a = (int32_t)vp_input("a", 32);
	VP_ENSURES("int > constant -1 is the mathematical comparison", c_kgt_s32_0l(a) == (((vp_i128)-1LL) > (vp_i128)a));
	VP_ENSURES("int > constant -1 is the mathematical comparison", c_kgt_s32_0r(a) == ((vp_i128)a > ((vp_i128)-1LL)));
	VP_ENSURES("int > constant int.min is the mathematical comparison", c_kgt_s32_1l(a) == (((vp_i128)-2147483648LL) > (vp_i128)a));
	VP_ENSURES("int > constant int.min is the mathematical comparison", c_kgt_s32_1r(a) == ((vp_i128)a > ((vp_i128)-2147483648LL)));
	VP_ENSURES("int > constant 0 is the mathematical comparison", c_kgt_s32_2l(a) == (((vp_i128)0LL) > (vp_i128)a));
	VP_ENSURES("int > constant 0 is the mathematical comparison", c_kgt_s32_2r(a) == ((vp_i128)a > ((vp_i128)0LL)));
	VP_ENSURES("int > constant 7 is the mathematical comparison", c_kgt_s32_3l(a) == (((vp_i128)7LL) > (vp_i128)a));
	VP_ENSURES("int > constant 7 is the mathematical comparison", c_kgt_s32_3r(a) == ((vp_i128)a > ((vp_i128)7LL)));
	VP_ENSURES("int > constant (ichar)-128 is the mathematical comparison", c_kgt_s32_4l(a) == (((vp_i128)-128LL) > (vp_i128)a));
	VP_ENSURES("int > constant (ichar)-128 is the mathematical comparison", c_kgt_s32_4r(a) == ((vp_i128)a > ((vp_i128)-128LL)));
	VP_ENSURES("int > constant (short)-300 is the mathematical comparison", c_kgt_s32_5l(a) == (((vp_i128)-300LL) > (vp_i128)a));
	VP_ENSURES("int > constant (short)-300 is the mathematical comparison", c_kgt_s32_5r(a) == ((vp_i128)a > ((vp_i128)-300LL)));
	VP_ENSURES("int > constant (long)-5 is the mathematical comparison", c_kgt_s32_6l(a) == (((vp_i128)-5LL) > (vp_i128)a));
	VP_ENSURES("int > constant (long)-5 is the mathematical comparison", c_kgt_s32_6r(a) == ((vp_i128)a > ((vp_i128)-5LL)));
	VP_ENSURES("int > constant (char)200 is the mathematical comparison", c_kgt_s32_7l(a) == (((vp_i128)200LL) > (vp_i128)a));
	VP_ENSURES("int > constant (char)200 is the mathematical comparison", c_kgt_s32_7r(a) == ((vp_i128)a > ((vp_i128)200LL)));
	VP_ENSURES("int > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_s32_8l(a) == (((vp_i128)4294967295LL) > (vp_i128)a));
	VP_ENSURES("int > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_s32_8r(a) == ((vp_i128)a > ((vp_i128)4294967295LL)));
	}
	{ uint32_t a = (uint32_t)vp_input("a", 32);
	VP_ENSURES("uint > constant -1 is the mathematical comparison", c_kgt_u32_0l(a) == 0);
	VP_ENSURES("uint > constant -1 is the mathematical comparison", c_kgt_u32_0r(a) == 1);
	VP_ENSURES("uint > constant int.min is the mathematical comparison", c_kgt_u32_1l(a) == 0);
	VP_ENSURES("uint > constant int.min is the mathematical comparison", c_kgt_u32_1r(a) == 1);
	VP_ENSURES("uint > constant 0 is the mathematical comparison", c_kgt_u32_2l(a) == (((vp_u128)0LL) > (vp_u128)a));
	VP_ENSURES("uint > constant 0 is the mathematical comparison", c_kgt_u32_2r(a) == ((vp_u128)a > ((vp_u128)0LL)));
	VP_ENSURES("uint > constant 7 is the mathematical comparison", c_kgt_u32_3l(a) == (((vp_u128)7LL) > (vp_u128)a));
	VP_ENSURES("uint > constant 7 is the mathematical comparison", c_kgt_u32_3r(a) == ((vp_u128)a > ((vp_u128)7LL)));
	VP_ENSURES("uint > constant (ichar)-128 is the mathematical comparison", c_kgt_u32_4l(a) == 0);
	VP_ENSURES("uint > constant (ichar)-128 is the mathematical comparison", c_kgt_u32_4r(a) == 1);
	VP_ENSURES("uint > constant (short)-300 is the mathematical comparison", c_kgt_u32_5l(a) == 0);
	VP_ENSURES("uint > constant (short)-300 is the mathematical comparison", c_kgt_u32_5r(a) == 1);
	VP_ENSURES("uint > constant (long)-5 is the mathematical comparison", c_kgt_u32_6l(a) == 0);
	VP_ENSURES("uint > constant (long)-5 is the mathematical comparison", c_kgt_u32_6r(a) == 1);
	VP_ENSURES("uint > constant (char)200 is the mathematical comparison", c_kgt_u32_7l(a) == (((vp_u128)200LL) > (vp_u128)a));
	VP_ENSURES("uint > constant (char)200 is the mathematical comparison", c_kgt_u32_7r(a) == ((vp_u128)a > ((vp_u128)200LL)));
	VP_ENSURES("uint > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_u32_8l(a) == (((vp_u128)4294967295LL) > (vp_u128)a));
	VP_ENSURES("uint > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_u32_8r(a) == ((vp_u128)a > ((vp_u128)4294967295LL)));
	}
	{ int64_t a = (int64_t)vp_input("a", 64);
	VP_ENSURES("long > constant -1 is the mathematical comparison", c_kgt_s64_0l(a) == (((vp_i128)-1LL) > (vp_i128)a));
	VP_ENSURES("long > constant -1 is the mathematical comparison", c_kgt_s64_0r(a) == ((vp_i128)a > ((vp_i128)-1LL)));
	VP_ENSURES("long > constant int.min is the mathematical comparison", c_kgt_s64_1l(a) == (((vp_i128)-2147483648LL) > (vp_i128)a));
	VP_ENSURES("long > constant int.min is the mathematical comparison", c_kgt_s64_1r(a) == ((vp_i128)a > ((vp_i128)-2147483648LL)));
	VP_ENSURES("long > constant 0 is the mathematical comparison", c_kgt_s64_2l(a) == (((vp_i128)0LL) > (vp_i128)a));
	VP_ENSURES("long > constant 0 is the mathematical comparison", c_kgt_s64_2r(a) == ((vp_i128)a > ((vp_i128)0LL)));
	VP_ENSURES("long > constant 7 is the mathematical comparison", c_kgt_s64_3l(a) == (((vp_i128)7LL) > (vp_i128)a));
	VP_ENSURES("long > constant 7 is the mathematical comparison", c_kgt_s64_3r(a) == ((vp_i128)a > ((vp_i128)7LL)));
	VP_ENSURES("long > constant (ichar)-128 is the mathematical comparison", c_kgt_s64_4l(a) == (((vp_i128)-128LL) > (vp_i128)a));
	VP_ENSURES("long > constant (ichar)-128 is the mathematical comparison", c_kgt_s64_4r(a) == ((vp_i128)a > ((vp_i128)-128LL)));
	VP_ENSURES("long > constant (short)-300 is the mathematical comparison", c_kgt_s64_5l(a) == (((vp_i128)-300LL) > (vp_i128)a));
	VP_ENSURES("long > constant (short)-300 is the mathematical comparison", c_kgt_s64_5r(a) == ((vp_i128)a > ((vp_i128)-300LL)));
	VP_ENSURES("long > constant (long)-5 is the mathematical comparison", c_kgt_s64_6l(a) == (((vp_i128)-5LL) > (vp_i128)a));
	VP_ENSURES("long > constant (long)-5 is the mathematical comparison", c_kgt_s64_6r(a) == ((vp_i128)a > ((vp_i128)-5LL)));
	VP_ENSURES("long > constant (char)200 is the mathematical comparison", c_kgt_s64_7l(a) == (((vp_i128)200LL) > (vp_i128)a));
	VP_ENSURES("long > constant (char)200 is the mathematical comparison", c_kgt_s64_7r(a) == ((vp_i128)a > ((vp_i128)200LL)));
	VP_ENSURES("long > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_s64_8l(a) == (((vp_i128)4294967295LL) > (vp_i128)a));
	VP_ENSURES("long > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_s64_8r(a) == ((vp_i128)a > ((vp_i128)4294967295LL)));
	}
	{ uint64_t a = (uint64_t)vp_input("a", 64);
	VP_ENSURES("ulong > constant -1 is the mathematical comparison", c_kgt_u64_0l(a) == 0);
	VP_ENSURES("ulong > constant -1 is the mathematical comparison", c_kgt_u64_0r(a) == 1);
	VP_ENSURES("ulong > constant int.min is the mathematical comparison", c_kgt_u64_1l(a) == 0);
	VP_ENSURES("ulong > constant int.min is the mathematical comparison", c_kgt_u64_1r(a) == 1);
	VP_ENSURES("ulong > constant 0 is the mathematical comparison", c_kgt_u64_2l(a) == (((vp_u128)0LL) > (vp_u128)a));
	VP_ENSURES("ulong > constant 0 is the mathematical comparison", c_kgt_u64_2r(a) == ((vp_u128)a > ((vp_u128)0LL)));
	VP_ENSURES("ulong > constant 7 is the mathematical comparison", c_kgt_u64_3l(a) == (((vp_u128)7LL) > (vp_u128)a));
	VP_ENSURES("ulong > constant 7 is the mathematical comparison", c_kgt_u64_3r(a) == ((vp_u128)a > ((vp_u128)7LL)));
	VP_ENSURES("ulong > constant (ichar)-128 is the mathematical comparison", c_kgt_u64_4l(a) == 0);
	VP_ENSURES("ulong > constant (ichar)-128 is the mathematical comparison", c_kgt_u64_4r(a) == 1);
	VP_ENSURES("ulong > constant (short)-300 is the mathematical comparison", c_kgt_u64_5l(a) == 0);
	VP_ENSURES("ulong > constant (short)-300 is the mathematical comparison", c_kgt_u64_5r(a) == 1);
	VP_ENSURES("ulong > constant (long)-5 is the mathematical comparison", c_kgt_u64_6l(a) == 0);
	VP_ENSURES("ulong > constant (long)-5 is the mathematical comparison", c_kgt_u64_6r(a) == 1);
	VP_ENSURES("ulong > constant (char)200 is the mathematical comparison", c_kgt_u64_7l(a) == (((vp_u128)200LL) > (vp_u128)a));
	VP_ENSURES("ulong > constant (char)200 is the mathematical comparison", c_kgt_u64_7r(a) == ((vp_u128)a > ((vp_u128)200LL)));
	VP_ENSURES("ulong > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_u64_8l(a) == (((vp_u128)4294967295LL) > (vp_u128)a));
	VP_ENSURES("ulong > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_u64_8r(a) == ((vp_u128)a > ((vp_u128)4294967295LL)));
	}
	{ vp_i128 a = (vp_i128)VP_U128("a");
	VP_ENSURES("int128 > constant -1 is the mathematical comparison", c_kgt_s128_0l(a) == (((vp_i128)-1LL) > (vp_i128)a));
	VP_ENSURES("int128 > constant -1 is the mathematical comparison", c_kgt_s128_0r(a) == ((vp_i128)a > ((vp_i128)-1LL)));
	VP_ENSURES("int128 > constant int.min is the mathematical comparison", c_kgt_s128_1l(a) == (((vp_i128)-2147483648LL) > (vp_i128)a));
	VP_ENSURES("int128 > constant int.min is the mathematical comparison", c_kgt_s128_1r(a) == ((vp_i128)a > ((vp_i128)-2147483648LL)));
	VP_ENSURES("int128 > constant 0 is the mathematical comparison", c_kgt_s128_2l(a) == (((vp_i128)0LL) > (vp_i128)a));
	VP_ENSURES("int128 > constant 0 is the mathematical comparison", c_kgt_s128_2r(a) == ((vp_i128)a > ((vp_i128)0LL)));
	VP_ENSURES("int128 > constant 7 is the mathematical comparison", c_kgt_s128_3l(a) == (((vp_i128)7LL) > (vp_i128)a));
	VP_ENSURES("int128 > constant 7 is the mathematical comparison", c_kgt_s128_3r(a) == ((vp_i128)a > ((vp_i128)7LL)));
	VP_ENSURES("int128 > constant (ichar)-128 is the mathematical comparison", c_kgt_s128_4l(a) == (((vp_i128)-128LL) > (vp_i128)a));
	VP_ENSURES("int128 > constant (ichar)-128 is the mathematical comparison", c_kgt_s128_4r(a) == ((vp_i128)a > ((vp_i128)-128LL)));
	VP_ENSURES("int128 > constant (short)-300 is the mathematical comparison", c_kgt_s128_5l(a) == (((vp_i128)-300LL) > (vp_i128)a));
	VP_ENSURES("int128 > constant (short)-300 is the mathematical comparison", c_kgt_s128_5r(a) == ((vp_i128)a > ((vp_i128)-300LL)));
	VP_ENSURES("int128 > constant (long)-5 is the mathematical comparison", c_kgt_s128_6l(a) == (((vp_i128)-5LL) > (vp_i128)a));
	VP_ENSURES("int128 > constant (long)-5 is the mathematical comparison", c_kgt_s128_6r(a) == ((vp_i128)a > ((vp_i128)-5LL)));
	VP_ENSURES("int128 > constant (char)200 is the mathematical comparison", c_kgt_s128_7l(a) == (((vp_i128)200LL) > (vp_i128)a));
	VP_ENSURES("int128 > constant (char)200 is the mathematical comparison", c_kgt_s128_7r(a) == ((vp_i128)a > ((vp_i128)200LL)));
	VP_ENSURES("int128 > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_s128_8l(a) == (((vp_i128)4294967295LL) > (vp_i128)a));
	VP_ENSURES("int128 > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_s128_8r(a) == ((vp_i128)a > ((vp_i128)4294967295LL)));
	}
	{ vp_u128 a = (vp_u128)VP_U128("a");
	VP_ENSURES("uint128 > constant -1 is the mathematical comparison", c_kgt_u128_0l(a) == 0);
	VP_ENSURES("uint128 > constant -1 is the mathematical comparison", c_kgt_u128_0r(a) == 1);
	VP_ENSURES("uint128 > constant int.min is the mathematical comparison", c_kgt_u128_1l(a) == 0);
	VP_ENSURES("uint128 > constant int.min is the mathematical comparison", c_kgt_u128_1r(a) == 1);
	VP_ENSURES("uint128 > constant 0 is the mathematical comparison", c_kgt_u128_2l(a) == (((vp_u128)0LL) > (vp_u128)a));
	VP_ENSURES("uint128 > constant 0 is the mathematical comparison", c_kgt_u128_2r(a) == ((vp_u128)a > ((vp_u128)0LL)));
	VP_ENSURES("uint128 > constant 7 is the mathematical comparison", c_kgt_u128_3l(a) == (((vp_u128)7LL) > (vp_u128)a));
	VP_ENSURES("uint128 > constant 7 is the mathematical comparison", c_kgt_u128_3r(a) == ((vp_u128)a > ((vp_u128)7LL)));
	VP_ENSURES("uint128 > constant (ichar)-128 is the mathematical comparison", c_kgt_u128_4l(a) == 0);
	VP_ENSURES("uint128 > constant (ichar)-128 is the mathematical comparison", c_kgt_u128_4r(a) == 1);
	VP_ENSURES("uint128 > constant (short)-300 is the mathematical comparison", c_kgt_u128_5l(a) == 0);
	VP_ENSURES("uint128 > constant (short)-300 is the mathematical comparison", c_kgt_u128_5r(a) == 1);
	VP_ENSURES("uint128 > constant (long)-5 is the mathematical comparison", c_kgt_u128_6l(a) == 0);
	VP_ENSURES("uint128 > constant (long)-5 is the mathematical comparison", c_kgt_u128_6r(a) == 1);
	VP_ENSURES("uint128 > constant (char)200 is the mathematical comparison", c_kgt_u128_7l(a) == (((vp_u128)200LL) > (vp_u128)a));
	VP_ENSURES("uint128 > constant (char)200 is the mathematical comparison", c_kgt_u128_7r(a) == ((vp_u128)a > ((vp_u128)200LL)));
	VP_ENSURES("uint128 > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_u128_8l(a) == (((vp_u128)4294967295LL) > (vp_u128)a));
	VP_ENSURES("uint128 > constant 0xFFFF_FFFFu is the mathematical comparison", c_kgt_u128_8r(a) == ((vp_u128)a > ((vp_u128)4294967295LL)));
	}
	VP_REACH();
}
//@unit const_ge fns=llvm_emit_int_comp cost=4
void vp_const_ge(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8);
	VP_ENSURES("ichar >= constant -1 is the mathematical comparison", c_kge_s8_0l(a) == (((vp_i128)-1LL) >= (vp_i128)a));
	VP_ENSURES("ichar >= constant -1 is the mathematical comparison", c_kge_s8_0r(a) == ((vp_i128)a >= ((vp_i128)-1LL)));
	VP_ENSURES("ichar >= constant int.min is the mathematical comparison", c_kge_s8_1l(a) == (((vp_i128)-2147483648LL) >= (vp_i128)a));
	VP_ENSURES("ichar >= constant int.min is the mathematical comparison", c_kge_s8_1r(a) == ((vp_i128)a >= ((vp_i128)-2147483648LL)));
	VP_ENSURES("ichar >= constant 0 is the mathematical comparison", c_kge_s8_2l(a) == (((vp_i128)0LL) >= (vp_i128)a));
	VP_ENSURES("ichar >= constant 0 is the mathematical comparison", c_kge_s8_2r(a) == ((vp_i128)a >= ((vp_i128)0LL)));
	VP_ENSURES("ichar >= constant 7 is the mathematical comparison", c_kge_s8_3l(a) == (((vp_i128)7LL) >= (vp_i128)a));
	VP_ENSURES("ichar >= constant 7 is the mathematical comparison", c_kge_s8_3r(a) == ((vp_i128)a >= ((vp_i128)7LL)));
	VP_ENSURES("ichar >= constant (ichar)-128 is the mathematical comparison", c_kge_s8_4l(a) == (((vp_i128)-128LL) >= (vp_i128)a));
	VP_ENSURES("ichar >= constant (ichar)-128 is the mathematical comparison", c_kge_s8_4r(a) == ((vp_i128)a >= ((vp_i128)-128LL)));
	VP_ENSURES("ichar >= constant (short)-300 is the mathematical comparison", c_kge_s8_5l(a) == (((vp_i128)-300LL) >= (vp_i128)a));
	VP_ENSURES("ichar >= constant (short)-300 is the mathematical comparison", c_kge_s8_5r(a) == ((vp_i128)a >= ((vp_i128)-300LL)));
	VP_ENSURES("ichar >= constant (long)-5 is the mathematical comparison", c_kge_s8_6l(a) == (((vp_i128)-5LL) >= (vp_i128)a));
	VP_ENSURES("ichar >= constant (long)-5 is the mathematical comparison", c_kge_s8_6r(a) == ((vp_i128)a >= ((vp_i128)-5LL)));
	VP_ENSURES("ichar >= constant (char)200 is the mathematical comparison", c_kge_s8_7l(a) == (((vp_i128)200LL) >= (vp_i128)a));
	VP_ENSURES("ichar >= constant (char)200 is the mathematical comparison", c_kge_s8_7r(a) == ((vp_i128)a >= ((vp_i128)200LL)));
	VP_ENSURES("ichar >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_s8_8l(a) == (((vp_i128)4294967295LL) >= (vp_i128)a));
	VP_ENSURES("ichar >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_s8_8r(a) == ((vp_i128)a >= ((vp_i128)4294967295LL)));
	}
	{ uint8_t a = (uint8_t)vp_input("a", 8);
	VP_ENSURES("char >= constant -1 is the mathematical comparison", c_kge_u8_0l(a) == 0);
	VP_ENSURES("char >= constant -1 is the mathematical comparison", c_kge_u8_0r(a) == 1);
	VP_ENSURES("char >= constant int.min is the mathematical comparison", c_kge_u8_1l(a) == 0);
	VP_ENSURES("char >= constant int.min is the mathematical comparison", c_kge_u8_1r(a) == 1);
	VP_ENSURES("char >= constant 0 is the mathematical comparison", c_kge_u8_2l(a) == (((vp_u128)0LL) >= (vp_u128)a));
	VP_ENSURES("char >= constant 0 is the mathematical comparison", c_kge_u8_2r(a) == ((vp_u128)a >= ((vp_u128)0LL)));
	VP_ENSURES("char >= constant 7 is the mathematical comparison", c_kge_u8_3l(a) == (((vp_u128)7LL) >= (vp_u128)a));
	VP_ENSURES("char >= constant 7 is the mathematical comparison", c_kge_u8_3r(a) == ((vp_u128)a >= ((vp_u128)7LL)));
	VP_ENSURES("char >= constant (ichar)-128 is the mathematical comparison", c_kge_u8_4l(a) == 0);
	VP_ENSURES("char >= constant (ichar)-128 is the mathematical comparison", c_kge_u8_4r(a) == 1);
	VP_ENSURES("char >= constant (short)-300 is the mathematical comparison", c_kge_u8_5l(a) == 0);
	VP_ENSURES("char >= constant (short)-300 is the mathematical comparison", c_kge_u8_5r(a) == 1);
	VP_ENSURES("char >= constant (long)-5 is the mathematical comparison", c_kge_u8_6l(a) == 0);
	VP_ENSURES("char >= constant (long)-5 is the mathematical comparison", c_kge_u8_6r(a) == 1);
	VP_ENSURES("char >= constant (char)200 is the mathematical comparison", c_kge_u8_7l(a) == (((vp_u128)200LL) >= (vp_u128)a));
	VP_ENSURES("char >= constant (char)200 is the mathematical comparison", c_kge_u8_7r(a) == ((vp_u128)a >= ((vp_u128)200LL)));
	VP_ENSURES("char >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_u8_8l(a) == (((vp_u128)4294967295LL) >= (vp_u128)a));
	VP_ENSURES("char >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_u8_8r(a) == ((vp_u128)a >= ((vp_u128)4294967295LL)));
	}
	{ int16_t a = (int16_t)vp_input("a", 16);
	VP_ENSURES("short >= constant -1 is the mathematical comparison", c_kge_s16_0l(a) == (((vp_i128)-1LL) >= (vp_i128)a));
	VP_ENSURES("short >= constant -1 is the mathematical comparison", c_kge_s16_0r(a) == ((vp_i128)a >= ((vp_i128)-1LL)));
	VP_ENSURES("short >= constant int.min is the mathematical comparison", c_kge_s16_1l(a) == (((vp_i128)-2147483648LL) >= (vp_i128)a));
	VP_ENSURES("short >= constant int.min is the mathematical comparison", c_kge_s16_1r(a) == ((vp_i128)a >= ((vp_i128)-2147483648LL)));
	VP_ENSURES("short >= constant 0 is the mathematical comparison", c_kge_s16_2l(a) == (((vp_i128)0LL) >= (vp_i128)a));
	VP_ENSURES("short >= constant 0 is the mathematical comparison", c_kge_s16_2r(a) == ((vp_i128)a >= ((vp_i128)0LL)));
	VP_ENSURES("short >= constant 7 is the mathematical comparison", c_kge_s16_3l(a) == (((vp_i128)7LL) >= (vp_i128)a));
	VP_ENSURES("short >= constant 7 is the mathematical comparison", c_kge_s16_3r(a) == ((vp_i128)a >= ((vp_i128)7LL)));
	VP_ENSURES("short >= constant (ichar)-128 is the mathematical comparison", c_kge_s16_4l(a) == (((vp_i128)-128LL) >= (vp_i128)a));
	VP_ENSURES("short >= constant (ichar)-128 is the mathematical comparison", c_kge_s16_4r(a) == ((vp_i128)a >= ((vp_i128)-128LL)));
	VP_ENSURES("short >= constant (short)-300 is the mathematical comparison", c_kge_s16_5l(a) == (((vp_i128)-300LL) >= (vp_i128)a));
	VP_ENSURES("short >= constant (short)-300 is the mathematical comparison", c_kge_s16_5r(a) == ((vp_i128)a >= ((vp_i128)-300LL)));
	VP_ENSURES("short >= constant (long)-5 is the mathematical comparison", c_kge_s16_6l(a) == (((vp_i128)-5LL) >= (vp_i128)a));
	VP_ENSURES("short >= constant (long)-5 is the mathematical comparison", c_kge_s16_6r(a) == ((vp_i128)a >= ((vp_i128)-5LL)));
	VP_ENSURES("short >= constant (char)200 is the mathematical comparison", c_kge_s16_7l(a) == (((vp_i128)200LL) >= (vp_i128)a));
	VP_ENSURES("short >= constant (char)200 is the mathematical comparison", c_kge_s16_7r(a) == ((vp_i128)a >= ((vp_i128)200LL)));
	VP_ENSURES("short >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_s16_8l(a) == (((vp_i128)4294967295LL) >= (vp_i128)a));
	VP_ENSURES("short >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_s16_8r(a) == ((vp_i128)a >= ((vp_i128)4294967295LL)));
	}
	{ uint16_t a = (uint16_t)vp_input("a", 16);
	VP_ENSURES("ushort >= constant -1 is the mathematical comparison", c_kge_u16_0l(a) == 0);
	VP_ENSURES("ushort >= constant -1 is the mathematical comparison", c_kge_u16_0r(a) == 1);
	VP_ENSURES("ushort >= constant int.min is the mathematical comparison", c_kge_u16_1l(a) == 0);
	VP_ENSURES("ushort >= constant int.min is the mathematical comparison", c_kge_u16_1r(a) == 1);
	VP_ENSURES("ushort >= constant 0 is the mathematical comparison", c_kge_u16_2l(a) == (((vp_u128)0LL) >= (vp_u128)a));
	VP_ENSURES("ushort >= constant 0 is the mathematical comparison", c_kge_u16_2r(a) == ((vp_u128)a >= ((vp_u128)0LL)));
	VP_ENSURES("ushort >= constant 7 is the mathematical comparison", c_kge_u16_3l(a) == (((vp_u128)7LL) >= (vp_u128)a));
	VP_ENSURES("ushort >= constant 7 is the mathematical comparison", c_kge_u16_3r(a) == ((vp_u128)a >= ((vp_u128)7LL)));
	VP_ENSURES("ushort >= constant (ichar)-128 is the mathematical comparison", c_kge_u16_4l(a) == 0);
	VP_ENSURES("ushort >= constant (ichar)-128 is the mathematical comparison", c_kge_u16_4r(a) == 1);
	VP_ENSURES("ushort >= constant (short)-300 is the mathematical comparison", c_kge_u16_5l(a) == 0);
	VP_ENSURES("ushort >= constant (short)-300 is the mathematical comparison", c_kge_u16_5r(a) == 1);
	VP_ENSURES("ushort >= constant (long)-5 is the mathematical comparison", c_kge_u16_6l(a) == 0);
	VP_ENSURES("ushort >= constant (long)-5 is the mathematical comparison", c_kge_u16_6r(a) == 1);
	VP_ENSURES("ushort >= constant (char)200 is the mathematical comparison", c_kge_u16_7l(a) == (((vp_u128)200LL) >= (vp_u128)a));
	VP_ENSURES("ushort >= constant (char)200 is the mathematical comparison", c_kge_u16_7r(a) == ((vp_u128)a >= ((vp_u128)200LL)));
	VP_ENSURES("ushort >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_u16_8l(a) == (((vp_u128)4294967295LL) >= (vp_u128)a));
	VP_ENSURES("ushort >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_u16_8r(a) == ((vp_u128)a >= ((vp_u128)4294967295LL)));
	}
	{ int32_t a = (int32_t)vp_input("a", 32);
	VP_ENSURES("int >= constant -1 is the mathematical comparison", c_kge_s32_0l(a) == (((vp_i128)-1LL) >= (vp_i128)a));
	VP_ENSURES("int >= constant -1 is the mathematical comparison", c_kge_s32_0r(a) == ((vp_i128)a >= ((vp_i128)-1LL)));
	VP_ENSURES("int >= constant int.min is the mathematical comparison", c_kge_s32_1l(a) == (((vp_i128)-2147483648LL) >= (vp_i128)a));
	VP_ENSURES("int >= constant int.min is the mathematical comparison", c_kge_s32_1r(a) == ((vp_i128)a >= ((vp_i128)-2147483648LL)));
	VP_ENSURES("int >= constant 0 is the mathematical comparison", c_kge_s32_2l(a) == (((vp_i128)0LL) >= (vp_i128)a));
	VP_ENSURES("int >= constant 0 is the mathematical comparison", c_kge_s32_2r(a) == ((vp_i128)a >= ((vp_i128)0LL)));
	VP_ENSURES("int >= constant 7 is the mathematical comparison", c_kge_s32_3l(a) == (((vp_i128)7LL) >= (vp_i128)a));
	VP_ENSURES("int >= constant 7 is the mathematical comparison", c_kge_s32_3r(a) == ((vp_i128)a >= ((vp_i128)7LL)));
	VP_ENSURES("int >= constant (ichar)-128 is the mathematical comparison", c_kge_s32_4l(a) == (((vp_i128)-128LL) >= (vp_i128)a));
	VP_ENSURES("int >= constant (ichar)-128 is the mathematical comparison", c_kge_s32_4r(a) == ((vp_i128)a >= ((vp_i128)-128LL)));
	VP_ENSURES("int >= constant (short)-300 is the mathematical comparison", c_kge_s32_5l(a) == (((vp_i128)-300LL) >= (vp_i128)a));
	VP_ENSURES("int >= constant (short)-300 is the mathematical comparison", c_kge_s32_5r(a) == ((vp_i128)a >= ((vp_i128)-300LL)));
	VP_ENSURES("int >= constant (long)-5 is the mathematical comparison", c_kge_s32_6l(a) == (((vp_i128)-5LL) >= (vp_i128)a));
	VP_ENSURES("int >= constant (long)-5 is the mathematical comparison", c_kge_s32_6r(a) == ((vp_i128)a >= ((vp_i128)-5LL)));
	VP_ENSURES("int >= constant (char)200 is the mathematical comparison", c_kge_s32_7l(a) == (((vp_i128)200LL) >= (vp_i128)a));
	VP_ENSURES("int >= constant (char)200 is the mathematical comparison", c_kge_s32_7r(a) == ((vp_i128)a >= ((vp_i128)200LL)));
	VP_ENSURES("int >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_s32_8l(a) == (((vp_i128)4294967295LL) >= (vp_i128)a));
	VP_ENSURES("int >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_s32_8r(a) == ((vp_i128)a >= ((vp_i128)4294967295LL)));
	}
	{ uint32_t a = (uint32_t)vp_input("a", 32);
	VP_ENSURES("uint >= constant -1 is the mathematical comparison", c_kge_u32_0l(a) == 0);
	VP_ENSURES("uint >= constant -1 is the mathematical comparison", c_kge_u32_0r(a) == 1);
	VP_ENSURES("uint >= constant int.min is the mathematical comparison", c_kge_u32_1l(a) == 0);
	VP_ENSURES("uint >= constant int.min is the mathematical comparison", c_kge_u32_1r(a) == 1);
	VP_ENSURES("uint >= constant 0 is the mathematical comparison", c_kge_u32_2l(a) == (((vp_u128)0LL) >= (vp_u128)a));
	VP_ENSURES("uint >= constant 0 is the mathematical comparison", c_kge_u32_2r(a) == ((vp_u128)a >= ((vp_u128)0LL)));
	VP_ENSURES("uint >= constant 7 is the mathematical comparison", c_kge_u32_3l(a) == (((vp_u128)7LL) >= (vp_u128)a));
	VP_ENSURES("uint >= constant 7 is the mathematical comparison", c_kge_u32_3r(a) == ((vp_u128)a >= ((vp_u128)7LL)));
	VP_ENSURES("uint >= constant (ichar)-128 is the mathematical comparison", c_kge_u32_4l(a) == 0);
	VP_ENSURES("uint >= constant (ichar)-128 is the mathematical comparison", c_kge_u32_4r(a) == 1);
	VP_ENSURES("uint >= constant (short)-300 is the mathematical comparison", c_kge_u32_5l(a) == 0);
	VP_ENSURES("uint >= constant (short)-300 is the mathematical comparison", c_kge_u32_5r(a) == 1);
	VP_ENSURES("uint >= constant (long)-5 is the mathematical comparison", c_kge_u32_6l(a) == 0);
	VP_ENSURES("uint >= constant (long)-5 is the mathematical comparison", c_kge_u32_6r(a) == 1);
	VP_ENSURES("uint >= constant (char)200 is the mathematical comparison", c_kge_u32_7l(a) == (((vp_u128)200LL) >= (vp_u128)a));
	VP_ENSURES("uint >= constant (char)200 is the mathematical comparison", c_kge_u32_7r(a) == ((vp_u128)a >= ((vp_u128)200LL)));
	VP_ENSURES("uint >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_u32_8l(a) == (((vp_u128)4294967295LL) >= (vp_u128)a));
	VP_ENSURES("uint >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_u32_8r(a) == ((vp_u128)a >= ((vp_u128)4294967295LL)));
	}
	{ int64_t a = (int64_t)vp_input("a", 64);
	VP_ENSURES("long >= constant -1 is the mathematical comparison", c_kge_s64_0l(a) == (((vp_i128)-1LL) >= (vp_i128)a));
	VP_ENSURES("long >= constant -1 is the mathematical comparison", c_kge_s64_0r(a) == ((vp_i128)a >= ((vp_i128)-1LL)));
	VP_ENSURES("long >= constant int.min is the mathematical comparison", c_kge_s64_1l(a) == (((vp_i128)-2147483648LL) >= (vp_i128)a));
	VP_ENSURES("long >= constant int.min is the mathematical comparison", c_kge_s64_1r(a) == ((vp_i128)a >= ((vp_i128)-2147483648LL)));
	VP_ENSURES("long >= constant 0 is the mathematical comparison", c_kge_s64_2l(a) == (((vp_i128)0LL) >= (vp_i128)a));
	VP_ENSURES("long >= constant 0 is the mathematical comparison", c_kge_s64_2r(a) == ((vp_i128)a >= ((vp_i128)0LL)));
	VP_ENSURES("long >= constant 7 is the mathematical comparison", c_kge_s64_3l(a) == (((vp_i128)7LL) >= (vp_i128)a));
	VP_ENSURES("long >= constant 7 is the mathematical comparison", c_kge_s64_3r(a) == ((vp_i128)a >= ((vp_i128)7LL)));
	VP_ENSURES("long >= constant (ichar)-128 is the mathematical comparison", c_kge_s64_4l(a) == (((vp_i128)-128LL) >= (vp_i128)a));
	VP_ENSURES("long >= constant (ichar)-128 is the mathematical comparison", c_kge_s64_4r(a) == ((vp_i128)a >= ((vp_i128)-128LL)));
	VP_ENSURES("long >= constant (short)-300 is the mathematical comparison", c_kge_s64_5l(a) == (((vp_i128)-300LL) >= (vp_i128)a));
	VP_ENSURES("long >= constant (short)-300 is the mathematical comparison", c_kge_s64_5r(a) == ((vp_i128)a >= ((vp_i128)-300LL)));
	VP_ENSURES("long >= constant (long)-5 is the mathematical comparison", c_kge_s64_6l(a) == (((vp_i128)-5LL) >= (vp_i128)a));
	VP_ENSURES("long >= constant (long)-5 is the mathematical comparison", c_kge_s64_6r(a) == ((vp_i128)a >= ((vp_i128)-5LL)));
	VP_ENSURES("long >= constant (char)200 is the mathematical comparison", c_kge_s64_7l(a) == (((vp_i128)200LL) >= (vp_i128)a));
	VP_ENSURES("long >= constant (char)200 is the mathematical comparison", c_kge_s64_7r(a) == ((vp_i128)a >= ((vp_i128)200LL)));
	VP_ENSURES("long >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_s64_8l(a) == (((vp_i128)4294967295LL) >= (vp_i128)a));
	VP_ENSURES("long >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_s64_8r(a) == ((vp_i128)a >= ((vp_i128)4294967295LL)));
	}
	{ uint64_t a = (uint64_t)vp_input("a", 64);
	VP_ENSURES("ulong >= constant -1 is the mathematical comparison", c_kge_u64_0l(a) == 0);
	VP_ENSURES("ulong >= constant -1 is the mathematical comparison", c_kge_u64_0r(a) == 1);
	VP_ENSURES("ulong >= constant int.min is the mathematical comparison", c_kge_u64_1l(a) == 0);
	VP_ENSURES("ulong >= constant int.min is the mathematical comparison", c_kge_u64_1r(a) == 1);
	VP_ENSURES("ulong >= constant 0 is the mathematical comparison", c_kge_u64_2l(a) == (((vp_u128)0LL) >= (vp_u128)a));
	VP_ENSURES("ulong >= constant 0 is the mathematical comparison", c_kge_u64_2r(a) == ((vp_u128)a >= ((vp_u128)0LL)));
	VP_ENSURES("ulong >= constant 7 is the mathematical comparison", c_kge_u64_3l(a) == (((vp_u128)7LL) >= (vp_u128)a));
	VP_ENSURES("ulong >= constant 7 is the mathematical comparison", c_kge_u64_3r(a) == ((vp_u128)a >= ((vp_u128)7LL)));
	VP_ENSURES("ulong >= constant (ichar)-128 is the mathematical comparison", c_kge_u64_4l(a) == 0);
	VP_ENSURES("ulong >= constant (ichar)-128 is the mathematical comparison", c_kge_u64_4r(a) == 1);
	VP_ENSURES("ulong >= constant (short)-300 is the mathematical comparison", c_kge_u64_5l(a) == 0);
	VP_ENSURES("ulong >= constant (short)-300 is the mathematical comparison", c_kge_u64_5r(a) == 1);
	VP_ENSURES("ulong >= constant (long)-5 is the mathematical comparison", c_kge_u64_6l(a) == 0);
	VP_ENSURES("ulong >= constant (long)-5 is the mathematical comparison", c_kge_u64_6r(a) == 1);
	VP_ENSURES("ulong >= constant (char)200 is the mathematical comparison", c_kge_u64_7l(a) == (((vp_u128)200LL) >= (vp_u128)a));
	VP_ENSURES("ulong >= constant (char)200 is the mathematical comparison", c_kge_u64_7r(a) == ((vp_u128)a >= ((vp_u128)200LL)));
	VP_ENSURES("ulong >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_u64_8l(a) == (((vp_u128)4294967295LL) >= (vp_u128)a));
	VP_ENSURES("ulong >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_u64_8r(a) == ((vp_u128)a >= ((vp_u128)4294967295LL)));
	}
	{ vp_i128 a = (vp_i128)VP_U128("a");
	VP_ENSURES("int128 >= constant -1 is the mathematical comparison", c_kge_s128_0l(a) == (((vp_i128)-1LL) >= (vp_i128)a));
	VP_ENSURES("int128 >= constant -1 is the mathematical comparison", c_kge_s128_0r(a) == ((vp_i128)a >= ((vp_i128)-1LL)));
	VP_ENSURES("int128 >= constant int.min is the mathematical comparison", c_kge_s128_1l(a) == (((vp_i128)-2147483648LL) >= (vp_i128)a));
	VP_ENSURES("int128 >= constant int.min is the mathematical comparison", c_kge_s128_1r(a) == ((vp_i128)a >= ((vp_i128)-2147483648LL)));
	VP_ENSURES("int128 >= constant 0 is the mathematical comparison", c_kge_s128_2l(a) == (((vp_i128)0LL) >= (vp_i128)a));
	VP_ENSURES("int128 >= constant 0 is the mathematical comparison", c_kge_s128_2r(a) == ((vp_i128)a >= ((vp_i128)0LL)));
	VP_ENSURES("int128 >= constant 7 is the mathematical comparison", c_kge_s128_3l(a) == (((vp_i128)7LL) >= (vp_i128)a));
	VP_ENSURES("int128 >= constant 7 is the mathematical comparison", c_kge_s128_3r(a) == ((vp_i128)a >= ((vp_i128)7LL)));
	VP_ENSURES("int128 >= constant (ichar)-128 is the mathematical comparison", c_kge_s128_4l(a) == (((vp_i128)-128LL) >= (vp_i128)a));
	VP_ENSURES("int128 >= constant (ichar)-128 is the mathematical comparison", c_kge_s128_4r(a) == ((vp_i128)a >= ((vp_i128)-128LL)));
	VP_ENSURES("int128 >= constant (short)-300 is the mathematical comparison", c_kge_s128_5l(a) == (((vp_i128)-300LL) >= (vp_i128)a));
	VP_ENSURES("int128 >= constant (short)-300 is the mathematical comparison", c_kge_s128_5r(a) == ((vp_i128)a >= ((vp_i128)-300LL)));
	VP_ENSURES("int128 >= constant (long)-5 is the mathematical comparison", c_kge_s128_6l(a) == (((vp_i128)-5LL) >= (vp_i128)a));
	VP_ENSURES("int128 >= constant (long)-5 is the mathematical comparison", c_kge_s128_6r(a) == ((vp_i128)a >= ((vp_i128)-5LL)));
	VP_ENSURES("int128 >= constant (char)200 is the mathematical comparison", c_kge_s128_7l(a) == (((vp_i128)200LL) >= (vp_i128)a));
	VP_ENSURES("int128 >= constant (char)200 is the mathematical comparison", c_kge_s128_7r(a) == ((vp_i128)a >= ((vp_i128)200LL)));
	VP_ENSURES("int128 >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_s128_8l(a) == (((vp_i128)4294967295LL) >= (vp_i128)a));
	VP_ENSURES("int128 >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_s128_8r(a) == ((vp_i128)a >= ((vp_i128)4294967295LL)));
	}
	{ vp_u128 a = (vp_u128)VP_U128("a");
	VP_ENSURES("uint128 >= constant -1 is the mathematical comparison", c_kge_u128_0l(a) == 0);
	VP_ENSURES("uint128 >= constant -1 is the mathematical comparison", c_kge_u128_0r(a) == 1);
	VP_ENSURES("uint128 >= constant int.min is the mathematical comparison", c_kge_u128_1l(a) == 0);
	VP_ENSURES("uint128 >= constant int.min is the mathematical comparison", c_kge_u128_1r(a) == 1);
	VP_ENSURES("uint128 >= constant 0 is the mathematical comparison", c_kge_u128_2l(a) == (((vp_u128)0LL) >= (vp_u128)a));
	VP_ENSURES("uint128 >= constant 0 is the mathematical comparison", c_kge_u128_2r(a) == ((vp_u128)a >= ((vp_u128)0LL)));
	VP_ENSURES("uint128 >= constant 7 is the mathematical comparison", c_kge_u128_3l(a) == (((vp_u128)7LL) >= (vp_u128)a));
	VP_ENSURES("uint128 >= constant 7 is the mathematical comparison", c_kge_u128_3r(a) == ((vp_u128)a >= ((vp_u128)7LL)));
	VP_ENSURES("uint128 >= constant (ichar)-128 is the mathematical comparison", c_kge_u128_4l(a) == 0);
	VP_ENSURES("uint128 >= constant (ichar)-128 is the mathematical comparison", c_kge_u128_4r(a) == 1);
	VP_ENSURES("uint128 >= constant (short)-300 is the mathematical comparison", c_kge_u128_5l(a) == 0);
	VP_ENSURES("uint128 >= constant (short)-300 is the mathematical comparison", c_kge_u128_5r(a) == 1);
	VP_ENSURES("uint128 >= constant (long)-5 is the mathematical comparison", c_kge_u128_6l(a) == 0);
	VP_ENSURES("uint128 >= constant (long)-5 is the mathematical comparison", c_kge_u128_6r(a) == 1);
	VP_ENSURES("uint128 >= constant (char)200 is the mathematical comparison", c_kge_u128_7l(a) == (((vp_u128)200LL) >= (vp_u128)a));
	VP_ENSURES("uint128 >= constant (char)200 is the mathematical comparison", c_kge_u128_7r(a) == ((vp_u128)a >= ((vp_u128)200LL)));
	VP_ENSURES("uint128 >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_u128_8l(a) == (((vp_u128)4294967295LL) >= (vp_u128)a));
	VP_ENSURES("uint128 >= constant 0xFFFF_FFFFu is the mathematical comparison", c_kge_u128_8r(a) == ((vp_u128)a >= ((vp_u128)4294967295LL)));
	}
	VP_REACH();
}
//@unit const_eq fns=llvm_emit_int_comp cost=4
void vp_const_eq(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8);
	VP_ENSURES("ichar == constant -1 is the mathematical comparison", c_keq_s8_0l(a) == (((vp_i128)-1LL) == (vp_i128)a));
	VP_ENSURES("ichar == constant -1 is the mathematical comparison", c_keq_s8_0r(a) == ((vp_i128)a == ((vp_i128)-1LL)));
	VP_ENSURES("ichar == constant int.min is the mathematical comparison", c_keq_s8_1l(a) == (((vp_i128)-2147483648LL) == (vp_i128)a));
	VP_ENSURES("ichar == constant int.min is the mathematical comparison", c_keq_s8_1r(a) == ((vp_i128)a == ((vp_i128)-2147483648LL)));
	VP_ENSURES("ichar == constant 0 is the mathematical comparison", c_keq_s8_2l(a) == (((vp_i128)0LL) == (vp_i128)a));
	VP_ENSURES("ichar == constant 0 is the mathematical comparison", c_keq_s8_2r(a) == ((vp_i128)a == ((vp_i128)0LL)));
	VP_ENSURES("ichar == constant 7 is the mathematical comparison", c_keq_s8_3l(a) == (((vp_i128)7LL) == (vp_i128)a));
	VP_ENSURES("ichar == constant 7 is the mathematical comparison", c_keq_s8_3r(a) == ((vp_i128)a == ((vp_i128)7LL)));
	VP_ENSURES("ichar == constant (ichar)-128 is the mathematical comparison", c_keq_s8_4l(a) == (((vp_i128)-128LL) == (vp_i128)a));
	VP_ENSURES("ichar == constant (ichar)-128 is the mathematical comparison", c_keq_s8_4r(a) == ((vp_i128)a == ((vp_i128)-128LL)));
	VP_ENSURES("ichar == constant (short)-300 is the mathematical comparison", c_keq_s8_5l(a) == (((vp_i128)-300LL) == (vp_i128)a));
	VP_ENSURES("ichar == constant (short)-300 is the mathematical comparison", c_keq_s8_5r(a) == ((vp_i128)a == ((vp_i128)-300LL)));
	VP_ENSURES("ichar == constant (long)-5 is the mathematical comparison", c_keq_s8_6l(a) == (((vp_i128)-5LL) == (vp_i128)a));
	VP_ENSURES("ichar == constant (long)-5 is the mathematical comparison", c_keq_s8_6r(a) == ((vp_i128)a == ((vp_i128)-5LL)));
	VP_ENSURES("ichar == constant (char)200 is the mathematical comparison", c_keq_s8_7l(a) == (((vp_i128)200LL) == (vp_i128)a));
	VP_ENSURES("ichar == constant (char)200 is the mathematical comparison", c_keq_s8_7r(a) == ((vp_i128)a == ((vp_i128)200LL)));
	VP_ENSURES("ichar == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_s8_8l(a) == (((vp_i128)4294967295LL) == (vp_i128)a));
	VP_ENSURES("ichar == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_s8_8r(a) == ((vp_i128)a == ((vp_i128)4294967295LL)));
	}
	{ uint8_t a = (uint8_t)vp_input("a", 8);
	VP_ENSURES("char == constant -1 is the mathematical comparison", c_keq_u8_0l(a) == 0);
	VP_ENSURES("char == constant -1 is the mathematical comparison", c_keq_u8_0r(a) == 0);
	VP_ENSURES("char == constant int.min is the mathematical comparison", c_keq_u8_1l(a) == 0);
	VP_ENSURES("char == constant int.min is the mathematical comparison", c_keq_u8_1r(a) == 0);
	VP_ENSURES("char == constant 0 is the mathematical comparison", c_keq_u8_2l(a) == (((vp_u128)0LL) == (vp_u128)a));
	VP_ENSURES("char == constant 0 is the mathematical comparison", c_keq_u8_2r(a) == ((vp_u128)a == ((vp_u128)0LL)));
	VP_ENSURES("char == constant 7 is the mathematical comparison", c_keq_u8_3l(a) == (((vp_u128)7LL) == (vp_u128)a));
	VP_ENSURES("char == constant 7 is the mathematical comparison", c_keq_u8_3r(a) == ((vp_u128)a == ((vp_u128)7LL)));
	VP_ENSURES("char == constant (ichar)-128 is the mathematical comparison", c_keq_u8_4l(a) == 0);
	VP_ENSURES("char == constant (ichar)-128 is the mathematical comparison", c_keq_u8_4r(a) == 0);
	VP_ENSURES("char == constant (short)-300 is the mathematical comparison", c_keq_u8_5l(a) == 0);
	VP_ENSURES("char == constant (short)-300 is the mathematical comparison", c_keq_u8_5r(a) == 0);
	VP_ENSURES("char == constant (long)-5 is the mathematical comparison", c_keq_u8_6l(a) == 0);
	VP_ENSURES("char == constant (long)-5 is the mathematical comparison", c_keq_u8_6r(a) == 0);
	VP_ENSURES("char == constant (char)200 is the mathematical comparison", c_keq_u8_7l(a) == (((vp_u128)200LL) == (vp_u128)a));
	VP_ENSURES("char == constant (char)200 is the mathematical comparison", c_keq_u8_7r(a) == ((vp_u128)a == ((vp_u128)200LL)));
	VP_ENSURES("char == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_u8_8l(a) == (((vp_u128)4294967295LL) == (vp_u128)a));
	VP_ENSURES("char == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_u8_8r(a) == ((vp_u128)a == ((vp_u128)4294967295LL)));
	}
	{ int16_t a = (int16_t)vp_input("a", 16);
	VP_ENSURES("short == constant -1 is the mathematical comparison", c_keq_s16_0l(a) == (((vp_i128)-1LL) == (vp_i128)a));
	VP_ENSURES("short == constant -1 is the mathematical comparison", c_keq_s16_0r(a) == ((vp_i128)a == ((vp_i128)-1LL)));
	VP_ENSURES("short == constant int.min is the mathematical comparison", c_keq_s16_1l(a) == (((vp_i128)-2147483648LL) == (vp_i128)a));
	VP_ENSURES("short == constant int.min is the mathematical comparison", c_keq_s16_1r(a) == ((vp_i128)a == ((vp_i128)-2147483648LL)));
	VP_ENSURES("short == constant 0 is the mathematical comparison", c_keq_s16_2l(a) == (((vp_i128)0LL) == (vp_i128)a));
	VP_ENSURES("short == constant 0 is the mathematical comparison", c_keq_s16_2r(a) == ((vp_i128)a == ((vp_i128)0LL)));
	VP_ENSURES("short == constant 7 is the mathematical comparison", c_keq_s16_3l(a) == (((vp_i128)7LL) == (vp_i128)a));
	VP_ENSURES("short == constant 7 is the mathematical comparison", c_keq_s16_3r(a) == ((vp_i128)a == ((vp_i128)7LL)));
	VP_ENSURES("short == constant (ichar)-128 is the mathematical comparison", c_keq_s16_4l(a) == (((vp_i128)-128LL) == (vp_i128)a));
	VP_ENSURES("short == constant (ichar)-128 is the mathematical comparison", c_keq_s16_4r(a) == ((vp_i128)a == ((vp_i128)-128LL)));
	VP_ENSURES("short == constant (short)-300 is the mathematical comparison", c_keq_s16_5l(a) == (((vp_i128)-300LL) == (vp_i128)a));
	VP_ENSURES("short == constant (short)-300 is the mathematical comparison", c_keq_s16_5r(a) == ((vp_i128)a == ((vp_i128)-300LL)));
	VP_ENSURES("short == constant (long)-5 is the mathematical comparison", c_keq_s16_6l(a) == (((vp_i128)-5LL) == (vp_i128)a));
	VP_ENSURES("short == constant (long)-5 is the mathematical comparison", c_keq_s16_6r(a) == ((vp_i128)a == ((vp_i128)-5LL)));
	VP_ENSURES("short == constant (char)200 is the mathematical comparison", c_keq_s16_7l(a) == (((vp_i128)200LL) == (vp_i128)a));
	VP_ENSURES("short == constant (char)200 is the mathematical comparison", c_keq_s16_7r(a) == ((vp_i128)a == ((vp_i128)200LL)));
	VP_ENSURES("short == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_s16_8l(a) == (((vp_i128)4294967295LL) == (vp_i128)a));
	VP_ENSURES("short == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_s16_8r(a) == ((vp_i128)a == ((vp_i128)4294967295LL)));
	}
	{ uint16_t a = (uint16_t)vp_input("a", 16);
	VP_ENSURES("ushort == constant -1 is the mathematical comparison", c_keq_u16_0l(a) == 0);
	VP_ENSURES("ushort == constant -1 is the mathematical comparison", c_keq_u16_0r(a) == 0);
	VP_ENSURES("ushort == constant int.min is the mathematical comparison", c_keq_u16_1l(a) == 0);
	VP_ENSURES("ushort == constant int.min is the mathematical comparison", c_keq_u16_1r(a) == 0);
	VP_ENSURES("ushort == constant 0 is the mathematical comparison", c_keq_u16_2l(a) == (((vp_u128)0LL) == (vp_u128)a));
	VP_ENSURES("ushort == constant 0 is the mathematical comparison", c_keq_u16_2r(a) == ((vp_u128)a == ((vp_u128)0LL)));
	VP_ENSURES("ushort == constant 7 is the mathematical comparison", c_keq_u16_3l(a) == (((vp_u128)7LL) == (vp_u128)a));
	VP_ENSURES("ushort == constant 7 is the mathematical comparison", c_keq_u16_3r(a) == ((vp_u128)a == ((vp_u128)7LL)));
	VP_ENSURES("ushort == constant (ichar)-128 is the mathematical comparison", c_keq_u16_4l(a) == 0);
	VP_ENSURES("ushort == constant (ichar)-128 is the mathematical comparison", c_keq_u16_4r(a) == 0);
	VP_ENSURES("ushort == constant (short)-300 is the mathematical comparison", c_keq_u16_5l(a) == 0);
	VP_ENSURES("ushort == constant (short)-300 is the mathematical comparison", c_keq_u16_5r(a) == 0);
	VP_ENSURES("ushort == constant (long)-5 is the mathematical comparison", c_keq_u16_6l(a) == 0);
	VP_ENSURES("ushort == constant (long)-5 is the mathematical comparison", c_keq_u16_6r(a) == 0);
	VP_ENSURES("ushort == constant (char)200 is the mathematical comparison", c_keq_u16_7l(a) == (((vp_u128)200LL) == (vp_u128)a));
	VP_ENSURES("ushort == constant (char)200 is the mathematical comparison", c_keq_u16_7r(a) == ((vp_u128)a == ((vp_u128)200LL)));
	VP_ENSURES("ushort == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_u16_8l(a) == (((vp_u128)4294967295LL) == (vp_u128)a));
	VP_ENSURES("ushort == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_u16_8r(a) == ((vp_u128)a == ((vp_u128)4294967295LL)));
	}
	{ int32_t a = (int32_t)vp_input("a", 32);
	VP_ENSURES("int == constant -1 is the mathematical comparison", c_keq_s32_0l(a) == (((vp_i128)-1LL) == (vp_i128)a));
	VP_ENSURES("int == constant -1 is the mathematical comparison", c_keq_s32_0r(a) == ((vp_i128)a == ((vp_i128)-1LL)));
	VP_ENSURES("int == constant int.min is the mathematical comparison", c_keq_s32_1l(a) == (((vp_i128)-2147483648LL) == (vp_i128)a));
	VP_ENSURES("int == constant int.min is the mathematical comparison", c_keq_s32_1r(a) == ((vp_i128)a == ((vp_i128)-2147483648LL)));
	VP_ENSURES("int == constant 0 is the mathematical comparison", c_keq_s32_2l(a) == (((vp_i128)0LL) == (vp_i128)a));
	VP_ENSURES("int == constant 0 is the mathematical comparison", c_keq_s32_2r(a) == ((vp_i128)a == ((vp_i128)0LL)));
	VP_ENSURES("int == constant 7 is the mathematical comparison", c_keq_s32_3l(a) == (((vp_i128)7LL) == (vp_i128)a));
	VP_ENSURES("int == constant 7 is the mathematical comparison", c_keq_s32_3r(a) == ((vp_i128)a == ((vp_i128)7LL)));
	VP_ENSURES("int == constant (ichar)-128 is the mathematical comparison", c_keq_s32_4l(a) == (((vp_i128)-128LL) == (vp_i128)a));
	VP_ENSURES("int == constant (ichar)-128 is the mathematical comparison", c_keq_s32_4r(a) == ((vp_i128)a == ((vp_i128)-128LL)));
	VP_ENSURES("int == constant (short)-300 is the mathematical comparison", c_keq_s32_5l(a) == (((vp_i128)-300LL) == (vp_i128)a));
	VP_ENSURES("int == constant (short)-300 is the mathematical comparison", c_keq_s32_5r(a) == ((vp_i128)a == ((vp_i128)-300LL)));
	VP_ENSURES("int == constant (long)-5 is the mathematical comparison", c_keq_s32_6l(a) == (((vp_i128)-5LL) == (vp_i128)a));
	VP_ENSURES("int == constant (long)-5 is the mathematical comparison", c_keq_s32_6r(a) == ((vp_i128)a == ((vp_i128)-5LL)));
	VP_ENSURES("int == constant (char)200 is the mathematical comparison", c_keq_s32_7l(a) == (((vp_i128)200LL) == (vp_i128)a));
	VP_ENSURES("int == constant (char)200 is the mathematical comparison", c_keq_s32_7r(a) == ((vp_i128)a == ((vp_i128)200LL)));
	VP_ENSURES("int == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_s32_8l(a) == (((vp_i128)4294967295LL) == (vp_i128)a));
	VP_ENSURES("int == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_s32_8r(a) == ((vp_i128)a == ((vp_i128)4294967295LL)));
	}
	{ uint32_t a = (uint32_t)vp_input("a", 32);
	VP_ENSURES("uint == constant -1 is the mathematical comparison", c_keq_u32_0l(a) == 0);
	VP_ENSURES("uint == constant -1 is the mathematical comparison", c_keq_u32_0r(a) == 0);
	VP_ENSURES("uint == constant int.min is the mathematical comparison", c_keq_u32_1l(a) == 0);
	VP_ENSURES("uint == constant int.min is the mathematical comparison", c_keq_u32_1r(a) == 0);
	VP_ENSURES("uint == constant 0 is the mathematical comparison", c_keq_u32_2l(a) == (((vp_u128)0LL) == (vp_u128)a));
	VP_ENSURES("uint == constant 0 is the mathematical comparison", c_keq_u32_2r(a) == ((vp_u128)a == ((vp_u128)0LL)));
	VP_ENSURES("uint == constant 7 is the mathematical comparison", c_keq_u32_3l(a) == (((vp_u128)7LL) == (vp_u128)a));
	VP_ENSURES("uint == constant 7 is the mathematical comparison", c_keq_u32_3r(a) == ((vp_u128)a == ((vp_u128)7LL)));
	VP_ENSURES("uint == constant (ichar)-128 is the mathematical comparison", c_keq_u32_4l(a) == 0);
	VP_ENSURES("uint == constant (ichar)-128 is the mathematical comparison", c_keq_u32_4r(a) == 0);
	VP_ENSURES("uint == constant (short)-300 is the mathematical comparison", c_keq_u32_5l(a) == 0);
	VP_ENSURES("uint == constant (short)-300 is the mathematical comparison", c_keq_u32_5r(a) == 0);
	VP_ENSURES("uint == constant (long)-5 is the mathematical comparison", c_keq_u32_6l(a) == 0);
	VP_ENSURES("uint == constant (long)-5 is the mathematical comparison", c_keq_u32_6r(a) == 0);
	VP_ENSURES("uint == constant (char)200 is the mathematical comparison", c_keq_u32_7l(a) == (((vp_u128)200LL) == (vp_u128)a));
	VP_ENSURES("uint == constant (char)200 is the mathematical comparison", c_keq_u32_7r(a) == ((vp_u128)a == ((vp_u128)200LL)));
	VP_ENSURES("uint == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_u32_8l(a) == (((vp_u128)4294967295LL) == (vp_u128)a));
	VP_ENSURES("uint == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_u32_8r(a) == ((vp_u128)a == ((vp_u128)4294967295LL)));
	}
	{ int64_t a = (int64_t)vp_input("a", 64);
	VP_ENSURES("long == constant -1 is the mathematical comparison", c_keq_s64_0l(a) == (((vp_i128)-1LL) == (vp_i128)a));
	VP_ENSURES("long == constant -1 is the mathematical comparison", c_keq_s64_0r(a) == ((vp_i128)a == ((vp_i128)-1LL)));
	VP_ENSURES("long == constant int.min is the mathematical comparison", c_keq_s64_1l(a) == (((vp_i128)-2147483648LL) == (vp_i128)a));
	VP_ENSURES("long == constant int.min is the mathematical comparison", c_keq_s64_1r(a) == ((vp_i128)a == ((vp_i128)-2147483648LL)));
	VP_ENSURES("long == constant 0 is the mathematical comparison", c_keq_s64_2l(a) == (((vp_i128)0LL) == (vp_i128)a));
	VP_ENSURES("long == constant 0 is the mathematical comparison", c_keq_s64_2r(a) == ((vp_i128)a == ((vp_i128)0LL)));
	VP_ENSURES("long == constant 7 is the mathematical comparison", c_keq_s64_3l(a) == (((vp_i128)7LL) == (vp_i128)a));
	VP_ENSURES("long == constant 7 is the mathematical comparison", c_keq_s64_3r(a) == ((vp_i128)a == ((vp_i128)7LL)));
	VP_ENSURES("long == constant (ichar)-128 is the mathematical comparison", c_keq_s64_4l(a) == (((vp_i128)-128LL) == (vp_i128)a));
	VP_ENSURES("long == constant (ichar)-128 is the mathematical comparison", c_keq_s64_4r(a) == ((vp_i128)a == ((vp_i128)-128LL)));
	VP_ENSURES("long == constant (short)-300 is the mathematical comparison", c_keq_s64_5l(a) == (((vp_i128)-300LL) == (vp_i128)a));
	VP_ENSURES("long == constant (short)-300 is the mathematical comparison", c_keq_s64_5r(a) == ((vp_i128)a == ((vp_i128)-300LL)));
	VP_ENSURES("long == constant (long)-5 is the mathematical comparison", c_keq_s64_6l(a) == (((vp_i128)-5LL) == (vp_i128)a));
	VP_ENSURES("long == constant (long)-5 is the mathematical comparison", c_keq_s64_6r(a) == ((vp_i128)a == ((vp_i128)-5LL)));
	VP_ENSURES("long == constant (char)200 is the mathematical comparison", c_keq_s64_7l(a) == (((vp_i128)200LL) == (vp_i128)a));
	VP_ENSURES("long == constant (char)200 is the mathematical comparison", c_keq_s64_7r(a) == ((vp_i128)a == ((vp_i128)200LL)));
	VP_ENSURES("long == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_s64_8l(a) == (((vp_i128)4294967295LL) == (vp_i128)a));
	VP_ENSURES("long == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_s64_8r(a) == ((vp_i128)a == ((vp_i128)4294967295LL)));
	}
	{ uint64_t a = (uint64_t)vp_input("a", 64);
	VP_ENSURES("ulong == constant -1 is the mathematical comparison", c_keq_u64_0l(a) == 0);
	VP_ENSURES("ulong == constant -1 is the mathematical comparison", c_keq_u64_0r(a) == 0);
	VP_ENSURES("ulong == constant int.min is the mathematical comparison", c_keq_u64_1l(a) == 0);
	VP_ENSURES("ulong == constant int.min is the mathematical comparison", c_keq_u64_1r(a) == 0);
	VP_ENSURES("ulong == constant 0 is the mathematical comparison", c_keq_u64_2l(a) == (((vp_u128)0LL) == (vp_u128)a));
	VP_ENSURES("ulong == constant 0 is the mathematical comparison", c_keq_u64_2r(a) == ((vp_u128)a == ((vp_u128)0LL)));
	VP_ENSURES("ulong == constant 7 is the mathematical comparison", c_keq_u64_3l(a) == (((vp_u128)7LL) == (vp_u128)a));
	VP_ENSURES("ulong == constant 7 is the mathematical comparison", c_keq_u64_3r(a) == ((vp_u128)a == ((vp_u128)7LL)));
	VP_ENSURES("ulong == constant (ichar)-128 is the mathematical comparison", c_keq_u64_4l(a) == 0);
	VP_ENSURES("ulong == constant (ichar)-128 is the mathematical comparison", c_keq_u64_4r(a) == 0);
	VP_ENSURES("ulong == constant (short)-300 is the mathematical comparison", c_keq_u64_5l(a) == 0);
	VP_ENSURES("ulong == constant (short)-300 is the mathematical comparison", c_keq_u64_5r(a) == 0);
	VP_ENSURES("ulong == constant (long)-5 is the mathematical comparison", c_keq_u64_6l(a) == 0);
	VP_ENSURES("ulong == constant (long)-5 is the mathematical comparison", c_keq_u64_6r(a) == 0);
	VP_ENSURES("ulong == constant (char)200 is the mathematical comparison", c_keq_u64_7l(a) == (((vp_u128)200LL) == (vp_u128)a));
	VP_ENSURES("ulong == constant (char)200 is the mathematical comparison", c_keq_u64_7r(a) == ((vp_u128)a == ((vp_u128)200LL)));
	VP_ENSURES("ulong == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_u64_8l(a) == (((vp_u128)4294967295LL) == (vp_u128)a));
	VP_ENSURES("ulong == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_u64_8r(a) == ((vp_u128)a == ((vp_u128)4294967295LL)));
	}
	{ vp_i128 a = (vp_i128)VP_U128("a");
	VP_ENSURES("int128 == constant -1 is the mathematical comparison", c_keq_s128_0l(a) == (((vp_i128)-1LL) == (vp_i128)a));
	VP_ENSURES("int128 == constant -1 is the mathematical comparison", c_keq_s128_0r(a) == ((vp_i128)a == ((vp_i128)-1LL)));
	VP_ENSURES("int128 == constant int.min is the mathematical comparison", c_keq_s128_1l(a) == (((vp_i128)-2147483648LL) == (vp_i128)a));
	VP_ENSURES("int128 == constant int.min is the mathematical comparison", c_keq_s128_1r(a) == ((vp_i128)a == ((vp_i128)-2147483648LL)));
	VP_ENSURES("int128 == constant 0 is the mathematical comparison", c_keq_s128_2l(a) == (((vp_i128)0LL) == (vp_i128)a));
	VP_ENSURES("int128 == constant 0 is the mathematical comparison", c_keq_s128_2r(a) == ((vp_i128)a == ((vp_i128)0LL)));
	VP_ENSURES("int128 == constant 7 is the mathematical comparison", c_keq_s128_3l(a) == (((vp_i128)7LL) == (vp_i128)a));
	VP_ENSURES("int128 == constant 7 is the mathematical comparison", c_keq_s128_3r(a) == ((vp_i128)a == ((vp_i128)7LL)));
	VP_ENSURES("int128 == constant (ichar)-128 is the mathematical comparison", c_keq_s128_4l(a) == (((vp_i128)-128LL) == (vp_i128)a));
	VP_ENSURES("int128 == constant (ichar)-128 is the mathematical comparison", c_keq_s128_4r(a) == ((vp_i128)a == ((vp_i128)-128LL)));
	VP_ENSURES("int128 == constant (short)-300 is the mathematical comparison", c_keq_s128_5l(a) == (((vp_i128)-300LL) == (vp_i128)a));
	VP_ENSURES("int128 == constant (short)-300 is the mathematical comparison", c_keq_s128_5r(a) == ((vp_i128)a == ((vp_i128)-300LL)));
	VP_ENSURES("int128 == constant (long)-5 is the mathematical comparison", c_keq_s128_6l(a) == (((vp_i128)-5LL) == (vp_i128)a));
	VP_ENSURES("int128 == constant (long)-5 is the mathematical comparison", c_keq_s128_6r(a) == ((vp_i128)a == ((vp_i128)-5LL)));
	VP_ENSURES("int128 == constant (char)200 is the mathematical comparison", c_keq_s128_7l(a) == (((vp_i128)200LL) == (vp_i128)a));
	VP_ENSURES("int128 == constant (char)200 is the mathematical comparison", c_keq_s128_7r(a) == ((vp_i128)a == ((vp_i128)200LL)));
	VP_ENSURES("int128 == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_s128_8l(a) == (((vp_i128)4294967295LL) == (vp_i128)a));
	VP_ENSURES("int128 == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_s128_8r(a) == ((vp_i128)a == ((vp_i128)4294967295LL)));
	}
	{ vp_u128 a = (vp_u128)VP_U128("a");
	VP_ENSURES("uint128 == constant -1 is the mathematical comparison", c_keq_u128_0l(a) == 0);
	VP_ENSURES("uint128 == constant -1 is the mathematical comparison", c_keq_u128_0r(a) == 0);
	VP_ENSURES("uint128 == constant int.min is the mathematical comparison", c_keq_u128_1l(a) == 0);
	VP_ENSURES("uint128 == constant int.min is the mathematical comparison", c_keq_u128_1r(a) == 0);
	VP_ENSURES("uint128 == constant 0 is the mathematical comparison", c_keq_u128_2l(a) == (((vp_u128)0LL) == (vp_u128)a));
	VP_ENSURES("uint128 == constant 0 is the mathematical comparison", c_keq_u128_2r(a) == ((vp_u128)a == ((vp_u128)0LL)));
	VP_ENSURES("uint128 == constant 7 is the mathematical comparison", c_keq_u128_3l(a) == (((vp_u128)7LL) == (vp_u128)a));
	VP_ENSURES("uint128 == constant 7 is the mathematical comparison", c_keq_u128_3r(a) == ((vp_u128)a == ((vp_u128)7LL)));
	VP_ENSURES("uint128 == constant (ichar)-128 is the mathematical comparison", c_keq_u128_4l(a) == 0);
	VP_ENSURES("uint128 == constant (ichar)-128 is the mathematical comparison", c_keq_u128_4r(a) == 0);
	VP_ENSURES("uint128 == constant (short)-300 is the mathematical comparison", c_keq_u128_5l(a) == 0);
	VP_ENSURES("uint128 == constant (short)-300 is the mathematical comparison", c_keq_u128_5r(a) == 0);
	VP_ENSURES("uint128 == constant (long)-5 is the mathematical comparison", c_keq_u128_6l(a) == 0);
	VP_ENSURES("uint128 == constant (long)-5 is the mathematical comparison", c_keq_u128_6r(a) == 0);
	VP_ENSURES("uint128 == constant (char)200 is the mathematical comparison", c_keq_u128_7l(a) == (((vp_u128)200LL) == (vp_u128)a));
	VP_ENSURES("uint128 == constant (char)200 is the mathematical comparison", c_keq_u128_7r(a) == ((vp_u128)a == ((vp_u128)200LL)));
	VP_ENSURES("uint128 == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_u128_8l(a) == (((vp_u128)4294967295LL) == (vp_u128)a));
	VP_ENSURES("uint128 == constant 0xFFFF_FFFFu is the mathematical comparison", c_keq_u128_8r(a) == ((vp_u128)a == ((vp_u128)4294967295LL)));
	}
	VP_REACH();
}
//@unit const_ne fns=llvm_emit_int_comp cost=4
void vp_const_ne(void)
{
	{ int8_t a = (int8_t)vp_input("a", 8);
	VP_ENSURES("ichar != constant -1 is the mathematical comparison", c_kne_s8_0l(a) == (((vp_i128)-1LL) != (vp_i128)a));
	VP_ENSURES("ichar != constant -1 is the mathematical comparison", c_kne_s8_0r(a) == ((vp_i128)a != ((vp_i128)-1LL)));
	VP_ENSURES("ichar != constant int.min is the mathematical comparison", c_kne_s8_1l(a) == (((vp_i128)-2147483648LL) != (vp_i128)a));
	VP_ENSURES("ichar != constant int.min is the mathematical comparison", c_kne_s8_1r(a) == ((vp_i128)a != ((vp_i128)-2147483648LL)));
	VP_ENSURES("ichar != constant 0 is the mathematical comparison", c_kne_s8_2l(a) == (((vp_i128)0LL) != (vp_i128)a));
	VP_ENSURES("ichar != constant 0 is the mathematical comparison", c_kne_s8_2r(a) == ((vp_i128)a != ((vp_i128)0LL)));
	VP_ENSURES("ichar != constant 7 is the mathematical comparison", c_kne_s8_3l(a) == (((vp_i128)7LL) != (vp_i128)a));
	VP_ENSURES("ichar != constant 7 is the mathematical comparison", c_kne_s8_3r(a) == ((vp_i128)a != ((vp_i128)7LL)));
	VP_ENSURES("ichar != constant (ichar)-128 is the mathematical comparison", c_kne_s8_4l(a) == (((vp_i128)-128LL) != (vp_i128)a));
	VP_ENSURES("ichar != constant (ichar)-128 is the mathematical comparison", c_kne_s8_4r(a) == ((vp_i128)a != ((vp_i128)-128LL)));
	VP_ENSURES("ichar != constant (short)-300 is the mathematical comparison", c_kne_s8_5l(a) == (((vp_i128)-300LL) != (vp_i128)a));
	VP_ENSURES("ichar != constant (short)-300 is the mathematical comparison", c_kne_s8_5r(a) == ((vp_i128)a != ((vp_i128)-300LL)));
	VP_ENSURES("ichar != constant (long)-5 is the mathematical comparison", c_kne_s8_6l(a) == (((vp_i128)-5LL) != (vp_i128)a));
	VP_ENSURES("ichar != constant (long)-5 is the mathematical comparison", c_kne_s8_6r(a) == ((vp_i128)a != ((vp_i128)-5LL)));
	VP_ENSURES("ichar != constant (char)200 is the mathematical comparison", c_kne_s8_7l(a) == (((vp_i128)200LL) != (vp_i128)a));
	VP_ENSURES("ichar != constant (char)200 is the mathematical comparison", c_kne_s8_7r(a) == ((vp_i128)a != ((vp_i128)200LL)));
	VP_ENSURES("ichar != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_s8_8l(a) == (((vp_i128)4294967295LL) != (vp_i128)a));
	VP_ENSURES("ichar != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_s8_8r(a) == ((vp_i128)a != ((vp_i128)4294967295LL)));
	}
	{ uint8_t a = (uint8_t)vp_input("a", 8);
	VP_ENSURES("char != constant -1 is the mathematical comparison", c_kne_u8_0l(a) == 1);
	VP_ENSURES("char != constant -1 is the mathematical comparison", c_kne_u8_0r(a) == 1);
	VP_ENSURES("char != constant int.min is the mathematical comparison", c_kne_u8_1l(a) == 1);
	VP_ENSURES("char != constant int.min is the mathematical comparison", c_kne_u8_1r(a) == 1);
	VP_ENSURES("char != constant 0 is the mathematical comparison", c_kne_u8_2l(a) == (((vp_u128)0LL) != (vp_u128)a));
	VP_ENSURES("char != constant 0 is the mathematical comparison", c_kne_u8_2r(a) == ((vp_u128)a != ((vp_u128)0LL)));
	VP_ENSURES("char != constant 7 is the mathematical comparison", c_kne_u8_3l(a) == (((vp_u128)7LL) != (vp_u128)a));
	VP_ENSURES("char != constant 7 is the mathematical comparison", c_kne_u8_3r(a) == ((vp_u128)a != ((vp_u128)7LL)));
	VP_ENSURES("char != constant (ichar)-128 is the mathematical comparison", c_kne_u8_4l(a) == 1);
	VP_ENSURES("char != constant (ichar)-128 is the mathematical comparison", c_kne_u8_4r(a) == 1);
	VP_ENSURES("char != constant (short)-300 is the mathematical comparison", c_kne_u8_5l(a) == 1);
	VP_ENSURES("char != constant (short)-300 is the mathematical comparison", c_kne_u8_5r(a) == 1);
	VP_ENSURES("char != constant (long)-5 is the mathematical comparison", c_kne_u8_6l(a) == 1);
	VP_ENSURES("char != constant (long)-5 is the mathematical comparison", c_kne_u8_6r(a) == 1);
	VP_ENSURES("char != constant (char)200 is the mathematical comparison", c_kne_u8_7l(a) == (((vp_u128)200LL) != (vp_u128)a));
	VP_ENSURES("char != constant (char)200 is the mathematical comparison", c_kne_u8_7r(a) == ((vp_u128)a != ((vp_u128)200LL)));
	VP_ENSURES("char != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_u8_8l(a) == (((vp_u128)4294967295LL) != (vp_u128)a));
	VP_ENSURES("char != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_u8_8r(a) == ((vp_u128)a != ((vp_u128)4294967295LL)));
	}
	{ int16_t a = (int16_t)vp_input("a", 16);
	VP_ENSURES("short != constant -1 is the mathematical comparison", c_kne_s16_0l(a) == (((vp_i128)-1LL) != (vp_i128)a));
	VP_ENSURES("short != constant -1 is the mathematical comparison", c_kne_s16_0r(a) == ((vp_i128)a != ((vp_i128)-1LL)));
	VP_ENSURES("short != constant int.min is the mathematical comparison", c_kne_s16_1l(a) == (((vp_i128)-2147483648LL) != (vp_i128)a));
	VP_ENSURES("short != constant int.min is the mathematical comparison", c_kne_s16_1r(a) == ((vp_i128)a != ((vp_i128)-2147483648LL)));
	VP_ENSURES("short != constant 0 is the mathematical comparison", c_kne_s16_2l(a) == (((vp_i128)0LL) != (vp_i128)a));
	VP_ENSURES("short != constant 0 is the mathematical comparison", c_kne_s16_2r(a) == ((vp_i128)a != ((vp_i128)0LL)));
	VP_ENSURES("short != constant 7 is the mathematical comparison", c_kne_s16_3l(a) == (((vp_i128)7LL) != (vp_i128)a));
	VP_ENSURES("short != constant 7 is the mathematical comparison", c_kne_s16_3r(a) == ((vp_i128)a != ((vp_i128)7LL)));
	VP_ENSURES("short != constant (ichar)-128 is the mathematical comparison", c_kne_s16_4l(a) == (((vp_i128)-128LL) != (vp_i128)a));
	VP_ENSURES("short != constant (ichar)-128 is the mathematical comparison", c_kne_s16_4r(a) == ((vp_i128)a != ((vp_i128)-128LL)));
	VP_ENSURES("short != constant (short)-300 is the mathematical comparison", c_kne_s16_5l(a) == (((vp_i128)-300LL) != (vp_i128)a));
	VP_ENSURES("short != constant (short)-300 is the mathematical comparison", c_kne_s16_5r(a) == ((vp_i128)a != ((vp_i128)-300LL)));
	VP_ENSURES("short != constant (long)-5 is the mathematical comparison", c_kne_s16_6l(a) == (((vp_i128)-5LL) != (vp_i128)a));
	VP_ENSURES("short != constant (long)-5 is the mathematical comparison", c_kne_s16_6r(a) == ((vp_i128)a != ((vp_i128)-5LL)));
	VP_ENSURES("short != constant (char)200 is the mathematical comparison", c_kne_s16_7l(a) == (((vp_i128)200LL) != (vp_i128)a));
	VP_ENSURES("short != constant (char)200 is the mathematical comparison", c_kne_s16_7r(a) == ((vp_i128)a != ((vp_i128)200LL)));
	VP_ENSURES("short != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_s16_8l(a) == (((vp_i128)4294967295LL) != (vp_i128)a));
	VP_ENSURES("short != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_s16_8r(a) == ((vp_i128)a != ((vp_i128)4294967295LL)));
	}
	{ uint16_t a = (uint16_t)vp_input("a", 16);
	VP_ENSURES("ushort != constant -1 is the mathematical comparison", c_kne_u16_0l(a) == 1);
	VP_ENSURES("ushort != constant -1 is the mathematical comparison", c_kne_u16_0r(a) == 1);
	VP_ENSURES("ushort != constant int.min is the mathematical comparison", c_kne_u16_1l(a) == 1);
	VP_ENSURES("ushort != constant int.min is the mathematical comparison", c_kne_u16_1r(a) == 1);
	VP_ENSURES("ushort != constant 0 is the mathematical comparison", c_kne_u16_2l(a) == (((vp_u128)0LL) != (vp_u128)a));
	VP_ENSURES("ushort != constant 0 is the mathematical comparison", c_kne_u16_2r(a) == ((vp_u128)a != ((vp_u128)0LL)));
	VP_ENSURES("ushort != constant 7 is the mathematical comparison", c_kne_u16_3l(a) == (((vp_u128)7LL) != (vp_u128)a));
	VP_ENSURES("ushort != constant 7 is the mathematical comparison", c_kne_u16_3r(a) == ((vp_u128)a != ((vp_u128)7LL)));
	VP_ENSURES("ushort != constant (ichar)-128 is the mathematical comparison", c_kne_u16_4l(a) == 1);
	VP_ENSURES("ushort != constant (ichar)-128 is the mathematical comparison", c_kne_u16_4r(a) == 1);
	VP_ENSURES("ushort != constant (short)-300 is the mathematical comparison", c_kne_u16_5l(a) == 1);
	VP_ENSURES("ushort != constant (short)-300 is the mathematical comparison", c_kne_u16_5r(a) == 1);
	VP_ENSURES("ushort != constant (long)-5 is the mathematical comparison", c_kne_u16_6l(a) == 1);
	VP_ENSURES("ushort != constant (long)-5 is the mathematical comparison", c_kne_u16_6r(a) == 1);
	VP_ENSURES("ushort != constant (char)200 is the mathematical comparison", c_kne_u16_7l(a) == (((vp_u128)200LL) != (vp_u128)a));
	VP_ENSURES("ushort != constant (char)200 is the mathematical comparison", c_kne_u16_7r(a) == ((vp_u128)a != ((vp_u128)200LL)));
	VP_ENSURES("ushort != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_u16_8l(a) == (((vp_u128)4294967295LL) != (vp_u128)a));
	VP_ENSURES("ushort != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_u16_8r(a) == ((vp_u128)a != ((vp_u128)4294967295LL)));
	}
	{ int32_t a = (int32_t)vp_input("a", 32);
	VP_ENSURES("int != constant -1 is the mathematical comparison", c_kne_s32_0l(a) == (((vp_i128)-1LL) != (vp_i128)a));
	VP_ENSURES("int != constant -1 is the mathematical comparison", c_kne_s32_0r(a) == ((vp_i128)a != ((vp_i128)-1LL)));
	VP_ENSURES("int != constant int.min is the mathematical comparison", c_kne_s32_1l(a) == (((vp_i128)-2147483648LL) != (vp_i128)a));
	VP_ENSURES("int != constant int.min is the mathematical comparison", c_kne_s32_1r(a) == ((vp_i128)a != ((vp_i128)-2147483648LL)));
	VP_ENSURES("int != constant 0 is the mathematical comparison", c_kne_s32_2l(a) == (((vp_i128)0LL) != (vp_i128)a));
	VP_ENSURES("int != constant 0 is the mathematical comparison", c_kne_s32_2r(a) == ((vp_i128)a != ((vp_i128)0LL)));
	VP_ENSURES("int != constant 7 is the mathematical comparison", c_kne_s32_3l(a) == (((vp_i128)7LL) != (vp_i128)a));
	VP_ENSURES("int != constant 7 is the mathematical comparison", c_kne_s32_3r(a) == ((vp_i128)a != ((vp_i128)7LL)));
	VP_ENSURES("int != constant (ichar)-128 is the mathematical comparison", c_kne_s32_4l(a) == (((vp_i128)-128LL) != (vp_i128)a));
	VP_ENSURES("int != constant (ichar)-128 is the mathematical comparison", c_kne_s32_4r(a) == ((vp_i128)a != ((vp_i128)-128LL)));
	VP_ENSURES("int != constant (short)-300 is the mathematical comparison", c_kne_s32_5l(a) == (((vp_i128)-300LL) != (vp_i128)a));
	VP_ENSURES("int != constant (short)-300 is the mathematical comparison", c_kne_s32_5r(a) == ((vp_i128)a != ((vp_i128)-300LL)));
	VP_ENSURES("int != constant (long)-5 is the mathematical comparison", c_kne_s32_6l(a) == (((vp_i128)-5LL) != (vp_i128)a));
	VP_ENSURES("int != constant (long)-5 is the mathematical comparison", c_kne_s32_6r(a) == ((vp_i128)a != ((vp_i128)-5LL)));
	VP_ENSURES("int != constant (char)200 is the mathematical comparison", c_kne_s32_7l(a) == (((vp_i128)200LL) != (vp_i128)a));
	VP_ENSURES("int != constant (char)200 is the mathematical comparison", c_kne_s32_7r(a) == ((vp_i128)a != ((vp_i128)200LL)));
	VP_ENSURES("int != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_s32_8l(a) == (((vp_i128)4294967295LL) != (vp_i128)a));
	VP_ENSURES("int != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_s32_8r(a) == ((vp_i128)a != ((vp_i128)4294967295LL)));
	}
	{ uint32_t a = (uint32_t)vp_input("a", 32);
	VP_ENSURES("uint != constant -1 is the mathematical comparison", c_kne_u32_0l(a) == 1);
	VP_ENSURES("uint != constant -1 is the mathematical comparison", c_kne_u32_0r(a) == 1);
	VP_ENSURES("uint != constant int.min is the mathematical comparison", c_kne_u32_1l(a) == 1);
	VP_ENSURES("uint != constant int.min is the mathematical comparison", c_kne_u32_1r(a) == 1);
	VP_ENSURES("uint != constant 0 is the mathematical comparison", c_kne_u32_2l(a) == (((vp_u128)0LL) != (vp_u128)a));
	VP_ENSURES("uint != constant 0 is the mathematical comparison", c_kne_u32_2r(a) == ((vp_u128)a != ((vp_u128)0LL)));
	VP_ENSURES("uint != constant 7 is the mathematical comparison", c_kne_u32_3l(a) == (((vp_u128)7LL) != (vp_u128)a));
	VP_ENSURES("uint != constant 7 is the mathematical comparison", c_kne_u32_3r(a) == ((vp_u128)a != ((vp_u128)7LL)));
	VP_ENSURES("uint != constant (ichar)-128 is the mathematical comparison", c_kne_u32_4l(a) == 1);
	VP_ENSURES("uint != constant (ichar)-128 is the mathematical comparison", c_kne_u32_4r(a) == 1);
	VP_ENSURES("uint != constant (short)-300 is the mathematical comparison", c_kne_u32_5l(a) == 1);
	VP_ENSURES("uint != constant (short)-300 is the mathematical comparison", c_kne_u32_5r(a) == 1);
	VP_ENSURES("uint != constant (long)-5 is the mathematical comparison", c_kne_u32_6l(a) == 1);
	VP_ENSURES("uint != constant (long)-5 is the mathematical comparison", c_kne_u32_6r(a) == 1);
	VP_ENSURES("uint != constant (char)200 is the mathematical comparison", c_kne_u32_7l(a) == (((vp_u128)200LL) != (vp_u128)a));
	VP_ENSURES("uint != constant (char)200 is the mathematical comparison", c_kne_u32_7r(a) == ((vp_u128)a != ((vp_u128)200LL)));
	VP_ENSURES("uint != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_u32_8l(a) == (((vp_u128)4294967295LL) != (vp_u128)a));
	VP_ENSURES("uint != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_u32_8r(a) == ((vp_u128)a != ((vp_u128)4294967295LL)));
	}
	{ int64_t a = (int64_t)vp_input("a", 64);
	VP_ENSURES("long != constant -1 is the mathematical comparison", c_kne_s64_0l(a) == (((vp_i128)-1LL) != (vp_i128)a));
	VP_ENSURES("long != constant -1 is the mathematical comparison", c_kne_s64_0r(a) == ((vp_i128)a != ((vp_i128)-1LL)));
	VP_ENSURES("long != constant int.min is the mathematical comparison", c_kne_s64_1l(a) == (((vp_i128)-2147483648LL) != (vp_i128)a));
	VP_ENSURES("long != constant int.min is the mathematical comparison", c_kne_s64_1r(a) == ((vp_i128)a != ((vp_i128)-2147483648LL)));
	VP_ENSURES("long != constant 0 is the mathematical comparison", c_kne_s64_2l(a) == (((vp_i128)0LL) != (vp_i128)a));
	VP_ENSURES("long != constant 0 is the mathematical comparison", c_kne_s64_2r(a) == ((vp_i128)a != ((vp_i128)0LL)));
	VP_ENSURES("long != constant 7 is the mathematical comparison", c_kne_s64_3l(a) == (((vp_i128)7LL) != (vp_i128)a));
	VP_ENSURES("long != constant 7 is the mathematical comparison", c_kne_s64_3r(a) == ((vp_i128)a != ((vp_i128)7LL)));
	VP_ENSURES("long != constant (ichar)-128 is the mathematical comparison", c_kne_s64_4l(a) == (((vp_i128)-128LL) != (vp_i128)a));
	VP_ENSURES("long != constant (ichar)-128 is the mathematical comparison", c_kne_s64_4r(a) == ((vp_i128)a != ((vp_i128)-128LL)));
	VP_ENSURES("long != constant (short)-300 is the mathematical comparison", c_kne_s64_5l(a) == (((vp_i128)-300LL) != (vp_i128)a));
	VP_ENSURES("long != constant (short)-300 is the mathematical comparison", c_kne_s64_5r(a) == ((vp_i128)a != ((vp_i128)-300LL)));
	VP_ENSURES("long != constant (long)-5 is the mathematical comparison", c_kne_s64_6l(a) == (((vp_i128)-5LL) != (vp_i128)a));
	VP_ENSURES("long != constant (long)-5 is the mathematical comparison", c_kne_s64_6r(a) == ((vp_i128)a != ((vp_i128)-5LL)));
	VP_ENSURES("long != constant (char)200 is the mathematical comparison", c_kne_s64_7l(a) == (((vp_i128)200LL) != (vp_i128)a));
	VP_ENSURES("long != constant (char)200 is the mathematical comparison", c_kne_s64_7r(a) == ((vp_i128)a != ((vp_i128)200LL)));
	VP_ENSURES("long != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_s64_8l(a) == (((vp_i128)4294967295LL) != (vp_i128)a));
	VP_ENSURES("long != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_s64_8r(a) == ((vp_i128)a != ((vp_i128)4294967295LL)));
	}
	{ uint64_t a = (uint64_t)vp_input("a", 64);
	VP_ENSURES("ulong != constant -1 is the mathematical comparison", c_kne_u64_0l(a) == 1);
	VP_ENSURES("ulong != constant -1 is the mathematical comparison", c_kne_u64_0r(a) == 1);
	VP_ENSURES("ulong != constant int.min is the mathematical comparison", c_kne_u64_1l(a) == 1);
	VP_ENSURES("ulong != constant int.min is the mathematical comparison", c_kne_u64_1r(a) == 1);
	VP_ENSURES("ulong != constant 0 is the mathematical comparison", c_kne_u64_2l(a) == (((vp_u128)0LL) != (vp_u128)a));
	VP_ENSURES("ulong != constant 0 is the mathematical comparison", c_kne_u64_2r(a) == ((vp_u128)a != ((vp_u128)0LL)));
	VP_ENSURES("ulong != constant 7 is the mathematical comparison", c_kne_u64_3l(a) == (((vp_u128)7LL) != (vp_u128)a));
	VP_ENSURES("ulong != constant 7 is the mathematical comparison", c_kne_u64_3r(a) == ((vp_u128)a != ((vp_u128)7LL)));
	VP_ENSURES("ulong != constant (ichar)-128 is the mathematical comparison", c_kne_u64_4l(a) == 1);
	VP_ENSURES("ulong != constant (ichar)-128 is the mathematical comparison", c_kne_u64_4r(a) == 1);
	VP_ENSURES("ulong != constant (short)-300 is the mathematical comparison", c_kne_u64_5l(a) == 1);
	VP_ENSURES("ulong != constant (short)-300 is the mathematical comparison", c_kne_u64_5r(a) == 1);
	VP_ENSURES("ulong != constant (long)-5 is the mathematical comparison", c_kne_u64_6l(a) == 1);
	VP_ENSURES("ulong != constant (long)-5 is the mathematical comparison", c_kne_u64_6r(a) == 1);
	VP_ENSURES("ulong != constant (char)200 is the mathematical comparison", c_kne_u64_7l(a) == (((vp_u128)200LL) != (vp_u128)a));
	VP_ENSURES("ulong != constant (char)200 is the mathematical comparison", c_kne_u64_7r(a) == ((vp_u128)a != ((vp_u128)200LL)));
	VP_ENSURES("ulong != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_u64_8l(a) == (((vp_u128)4294967295LL) != (vp_u128)a));
	VP_ENSURES("ulong != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_u64_8r(a) == ((vp_u128)a != ((vp_u128)4294967295LL)));
	}
	{ vp_i128 a = (vp_i128)VP_U128("a");
	VP_ENSURES("int128 != constant -1 is the mathematical comparison", c_kne_s128_0l(a) == (((vp_i128)-1LL) != (vp_i128)a));
	VP_ENSURES("int128 != constant -1 is the mathematical comparison", c_kne_s128_0r(a) == ((vp_i128)a != ((vp_i128)-1LL)));
	VP_ENSURES("int128 != constant int.min is the mathematical comparison", c_kne_s128_1l(a) == (((vp_i128)-2147483648LL) != (vp_i128)a));
	VP_ENSURES("int128 != constant int.min is the mathematical comparison", c_kne_s128_1r(a) == ((vp_i128)a != ((vp_i128)-2147483648LL)));
	VP_ENSURES("int128 != constant 0 is the mathematical comparison", c_kne_s128_2l(a) == (((vp_i128)0LL) != (vp_i128)a));
	VP_ENSURES("int128 != constant 0 is the mathematical comparison", c_kne_s128_2r(a) == ((vp_i128)a != ((vp_i128)0LL)));
	VP_ENSURES("int128 != constant 7 is the mathematical comparison", c_kne_s128_3l(a) == (((vp_i128)7LL) != (vp_i128)a));
	VP_ENSURES("int128 != constant 7 is the mathematical comparison", c_kne_s128_3r(a) == ((vp_i128)a != ((vp_i128)7LL)));
	VP_ENSURES("int128 != constant (ichar)-128 is the mathematical comparison", c_kne_s128_4l(a) == (((vp_i128)-128LL) != (vp_i128)a));
	VP_ENSURES("int128 != constant (ichar)-128 is the mathematical comparison", c_kne_s128_4r(a) == ((vp_i128)a != ((vp_i128)-128LL)));
	VP_ENSURES("int128 != constant (short)-300 is the mathematical comparison", c_kne_s128_5l(a) == (((vp_i128)-300LL) != (vp_i128)a));
	VP_ENSURES("int128 != constant (short)-300 is the mathematical comparison", c_kne_s128_5r(a) == ((vp_i128)a != ((vp_i128)-300LL)));
	VP_ENSURES("int128 != constant (long)-5 is the mathematical comparison", c_kne_s128_6l(a) == (((vp_i128)-5LL) != (vp_i128)a));
	VP_ENSURES("int128 != constant (long)-5 is the mathematical comparison", c_kne_s128_6r(a) == ((vp_i128)a != ((vp_i128)-5LL)));
	VP_ENSURES("int128 != constant (char)200 is the mathematical comparison", c_kne_s128_7l(a) == (((vp_i128)200LL) != (vp_i128)a));
	VP_ENSURES("int128 != constant (char)200 is the mathematical comparison", c_kne_s128_7r(a) == ((vp_i128)a != ((vp_i128)200LL)));
	VP_ENSURES("int128 != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_s128_8l(a) == (((vp_i128)4294967295LL) != (vp_i128)a));
	VP_ENSURES("int128 != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_s128_8r(a) == ((vp_i128)a != ((vp_i128)4294967295LL)));
	}
	{ vp_u128 a = (vp_u128)VP_U128("a");
	VP_ENSURES("uint128 != constant -1 is the mathematical comparison", c_kne_u128_0l(a) == 1);
	VP_ENSURES("uint128 != constant -1 is the mathematical comparison", c_kne_u128_0r(a) == 1);
	VP_ENSURES("uint128 != constant int.min is the mathematical comparison", c_kne_u128_1l(a) == 1);
	VP_ENSURES("uint128 != constant int.min is the mathematical comparison", c_kne_u128_1r(a) == 1);
	VP_ENSURES("uint128 != constant 0 is the mathematical comparison", c_kne_u128_2l(a) == (((vp_u128)0LL) != (vp_u128)a));
	VP_ENSURES("uint128 != constant 0 is the mathematical comparison", c_kne_u128_2r(a) == ((vp_u128)a != ((vp_u128)0LL)));
	VP_ENSURES("uint128 != constant 7 is the mathematical comparison", c_kne_u128_3l(a) == (((vp_u128)7LL) != (vp_u128)a));
	VP_ENSURES("uint128 != constant 7 is the mathematical comparison", c_kne_u128_3r(a) == ((vp_u128)a != ((vp_u128)7LL)));
	VP_ENSURES("uint128 != constant (ichar)-128 is the mathematical comparison", c_kne_u128_4l(a) == 1);
	VP_ENSURES("uint128 != constant (ichar)-128 is the mathematical comparison", c_kne_u128_4r(a) == 1);
	VP_ENSURES("uint128 != constant (short)-300 is the mathematical comparison", c_kne_u128_5l(a) == 1);
	VP_ENSURES("uint128 != constant (short)-300 is the mathematical comparison", c_kne_u128_5r(a) == 1);
	VP_ENSURES("uint128 != constant (long)-5 is the mathematical comparison", c_kne_u128_6l(a) == 1);
	VP_ENSURES("uint128 != constant (long)-5 is the mathematical comparison", c_kne_u128_6r(a) == 1);
	VP_ENSURES("uint128 != constant (char)200 is the mathematical comparison", c_kne_u128_7l(a) == (((vp_u128)200LL) != (vp_u128)a));
	VP_ENSURES("uint128 != constant (char)200 is the mathematical comparison", c_kne_u128_7r(a) == ((vp_u128)a != ((vp_u128)200LL)));
	VP_ENSURES("uint128 != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_u128_8l(a) == (((vp_u128)4294967295LL) != (vp_u128)a));
	VP_ENSURES("uint128 != constant 0xFFFF_FFFFu is the mathematical comparison", c_kne_u128_8r(a) == ((vp_u128)a != ((vp_u128)4294967295LL)));
	}
	VP_REACH();
}
//@unit vec_add fns=llvm_emit_binary off=signed-overflow cost=3 unwind=5
void vp_vec_add(void)
{
	{ int8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int8_t)vp_input("a", 8); b[k] = (int8_t)vp_input("b", 8); }
	c_vadd_s8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector +", r[k] == (int8_t)(uint8_t)((uint8_t)a[k] + (uint8_t)b[k])); }
	{ uint8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint8_t)vp_input("a", 8); b[k] = (uint8_t)vp_input("b", 8); }
	c_vadd_u8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector +", r[k] == (uint8_t)(uint8_t)((uint8_t)a[k] + (uint8_t)b[k])); }
	{ int16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int16_t)vp_input("a", 16); b[k] = (int16_t)vp_input("b", 16); }
	c_vadd_s16(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector +", r[k] == (int16_t)(uint16_t)((uint16_t)a[k] + (uint16_t)b[k])); }
	{ uint16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint16_t)vp_input("a", 16); b[k] = (uint16_t)vp_input("b", 16); }
	c_vadd_u16(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ushort vector +", r[k] == (uint16_t)(uint16_t)((uint16_t)a[k] + (uint16_t)b[k])); }
	{ int32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int32_t)vp_input("a", 32); b[k] = (int32_t)vp_input("b", 32); }
	c_vadd_s32(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector +", r[k] == (int32_t)(uint32_t)((uint32_t)a[k] + (uint32_t)b[k])); }
	{ uint32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint32_t)vp_input("a", 32); b[k] = (uint32_t)vp_input("b", 32); }
	c_vadd_u32(a, b, r); for (int k = 0; k < 3; k++) VP_ENSURES("uint vector +", r[k] == (uint32_t)(uint32_t)((uint32_t)a[k] + (uint32_t)b[k])); }
	{ int64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int64_t)vp_input("a", 64); b[k] = (int64_t)vp_input("b", 64); }
	c_vadd_s64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("long vector +", r[k] == (int64_t)(uint64_t)((uint64_t)a[k] + (uint64_t)b[k])); }
	{ uint64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint64_t)vp_input("a", 64); b[k] = (uint64_t)vp_input("b", 64); }
	c_vadd_u64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ulong vector +", r[k] == (uint64_t)(uint64_t)((uint64_t)a[k] + (uint64_t)b[k])); }
	VP_REACH();
}
//@unit vec_sub fns=llvm_emit_binary off=signed-overflow cost=3 unwind=5
void vp_vec_sub(void)
{
	{ int8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int8_t)vp_input("a", 8); b[k] = (int8_t)vp_input("b", 8); }
	c_vsub_s8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector -", r[k] == (int8_t)(uint8_t)((uint8_t)a[k] - (uint8_t)b[k])); }
	{ uint8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint8_t)vp_input("a", 8); b[k] = (uint8_t)vp_input("b", 8); }
	c_vsub_u8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector -", r[k] == (uint8_t)(uint8_t)((uint8_t)a[k] - (uint8_t)b[k])); }
	{ int16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int16_t)vp_input("a", 16); b[k] = (int16_t)vp_input("b", 16); }
	c_vsub_s16(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector -", r[k] == (int16_t)(uint16_t)((uint16_t)a[k] - (uint16_t)b[k])); }
	{ uint16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint16_t)vp_input("a", 16); b[k] = (uint16_t)vp_input("b", 16); }
	c_vsub_u16(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ushort vector -", r[k] == (uint16_t)(uint16_t)((uint16_t)a[k] - (uint16_t)b[k])); }
	{ int32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int32_t)vp_input("a", 32); b[k] = (int32_t)vp_input("b", 32); }
	c_vsub_s32(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector -", r[k] == (int32_t)(uint32_t)((uint32_t)a[k] - (uint32_t)b[k])); }
	{ uint32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint32_t)vp_input("a", 32); b[k] = (uint32_t)vp_input("b", 32); }
	c_vsub_u32(a, b, r); for (int k = 0; k < 3; k++) VP_ENSURES("uint vector -", r[k] == (uint32_t)(uint32_t)((uint32_t)a[k] - (uint32_t)b[k])); }
	{ int64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int64_t)vp_input("a", 64); b[k] = (int64_t)vp_input("b", 64); }
	c_vsub_s64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("long vector -", r[k] == (int64_t)(uint64_t)((uint64_t)a[k] - (uint64_t)b[k])); }
	{ uint64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint64_t)vp_input("a", 64); b[k] = (uint64_t)vp_input("b", 64); }
	c_vsub_u64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ulong vector -", r[k] == (uint64_t)(uint64_t)((uint64_t)a[k] - (uint64_t)b[k])); }
	VP_REACH();
}
//@unit vec_and fns=llvm_emit_binary off=signed-overflow cost=3 unwind=5
void vp_vec_and(void)
{
	{ int8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int8_t)vp_input("a", 8); b[k] = (int8_t)vp_input("b", 8); }
	c_vand_s8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector &", r[k] == (int8_t)(uint8_t)((uint8_t)a[k] & (uint8_t)b[k])); }
	{ uint8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint8_t)vp_input("a", 8); b[k] = (uint8_t)vp_input("b", 8); }
	c_vand_u8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector &", r[k] == (uint8_t)(uint8_t)((uint8_t)a[k] & (uint8_t)b[k])); }
	{ int16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int16_t)vp_input("a", 16); b[k] = (int16_t)vp_input("b", 16); }
	c_vand_s16(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector &", r[k] == (int16_t)(uint16_t)((uint16_t)a[k] & (uint16_t)b[k])); }
	{ uint16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint16_t)vp_input("a", 16); b[k] = (uint16_t)vp_input("b", 16); }
	c_vand_u16(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ushort vector &", r[k] == (uint16_t)(uint16_t)((uint16_t)a[k] & (uint16_t)b[k])); }
	{ int32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int32_t)vp_input("a", 32); b[k] = (int32_t)vp_input("b", 32); }
	c_vand_s32(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector &", r[k] == (int32_t)(uint32_t)((uint32_t)a[k] & (uint32_t)b[k])); }
	{ uint32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint32_t)vp_input("a", 32); b[k] = (uint32_t)vp_input("b", 32); }
	c_vand_u32(a, b, r); for (int k = 0; k < 3; k++) VP_ENSURES("uint vector &", r[k] == (uint32_t)(uint32_t)((uint32_t)a[k] & (uint32_t)b[k])); }
	{ int64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int64_t)vp_input("a", 64); b[k] = (int64_t)vp_input("b", 64); }
	c_vand_s64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("long vector &", r[k] == (int64_t)(uint64_t)((uint64_t)a[k] & (uint64_t)b[k])); }
	{ uint64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint64_t)vp_input("a", 64); b[k] = (uint64_t)vp_input("b", 64); }
	c_vand_u64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ulong vector &", r[k] == (uint64_t)(uint64_t)((uint64_t)a[k] & (uint64_t)b[k])); }
	VP_REACH();
}
//@unit vec_or fns=llvm_emit_binary off=signed-overflow cost=3 unwind=5
void vp_vec_or(void)
{
	{ int8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int8_t)vp_input("a", 8); b[k] = (int8_t)vp_input("b", 8); }
	c_vor_s8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector |", r[k] == (int8_t)(uint8_t)((uint8_t)a[k] | (uint8_t)b[k])); }
	{ uint8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint8_t)vp_input("a", 8); b[k] = (uint8_t)vp_input("b", 8); }
	c_vor_u8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector |", r[k] == (uint8_t)(uint8_t)((uint8_t)a[k] | (uint8_t)b[k])); }
	{ int16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int16_t)vp_input("a", 16); b[k] = (int16_t)vp_input("b", 16); }
	c_vor_s16(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector |", r[k] == (int16_t)(uint16_t)((uint16_t)a[k] | (uint16_t)b[k])); }
	{ uint16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint16_t)vp_input("a", 16); b[k] = (uint16_t)vp_input("b", 16); }
	c_vor_u16(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ushort vector |", r[k] == (uint16_t)(uint16_t)((uint16_t)a[k] | (uint16_t)b[k])); }
	{ int32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int32_t)vp_input("a", 32); b[k] = (int32_t)vp_input("b", 32); }
	c_vor_s32(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector |", r[k] == (int32_t)(uint32_t)((uint32_t)a[k] | (uint32_t)b[k])); }
	{ uint32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint32_t)vp_input("a", 32); b[k] = (uint32_t)vp_input("b", 32); }
	c_vor_u32(a, b, r); for (int k = 0; k < 3; k++) VP_ENSURES("uint vector |", r[k] == (uint32_t)(uint32_t)((uint32_t)a[k] | (uint32_t)b[k])); }
	{ int64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int64_t)vp_input("a", 64); b[k] = (int64_t)vp_input("b", 64); }
	c_vor_s64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("long vector |", r[k] == (int64_t)(uint64_t)((uint64_t)a[k] | (uint64_t)b[k])); }
	{ uint64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint64_t)vp_input("a", 64); b[k] = (uint64_t)vp_input("b", 64); }
	c_vor_u64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ulong vector |", r[k] == (uint64_t)(uint64_t)((uint64_t)a[k] | (uint64_t)b[k])); }
	VP_REACH();
}
//@unit vec_xor fns=llvm_emit_binary off=signed-overflow cost=3 unwind=5
void vp_vec_xor(void)
{
	{ int8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int8_t)vp_input("a", 8); b[k] = (int8_t)vp_input("b", 8); }
	c_vxor_s8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector ^", r[k] == (int8_t)(uint8_t)((uint8_t)a[k] ^ (uint8_t)b[k])); }
	{ uint8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint8_t)vp_input("a", 8); b[k] = (uint8_t)vp_input("b", 8); }
	c_vxor_u8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector ^", r[k] == (uint8_t)(uint8_t)((uint8_t)a[k] ^ (uint8_t)b[k])); }
	{ int16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int16_t)vp_input("a", 16); b[k] = (int16_t)vp_input("b", 16); }
	c_vxor_s16(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector ^", r[k] == (int16_t)(uint16_t)((uint16_t)a[k] ^ (uint16_t)b[k])); }
	{ uint16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint16_t)vp_input("a", 16); b[k] = (uint16_t)vp_input("b", 16); }
	c_vxor_u16(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ushort vector ^", r[k] == (uint16_t)(uint16_t)((uint16_t)a[k] ^ (uint16_t)b[k])); }
	{ int32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int32_t)vp_input("a", 32); b[k] = (int32_t)vp_input("b", 32); }
	c_vxor_s32(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector ^", r[k] == (int32_t)(uint32_t)((uint32_t)a[k] ^ (uint32_t)b[k])); }
	{ uint32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint32_t)vp_input("a", 32); b[k] = (uint32_t)vp_input("b", 32); }
	c_vxor_u32(a, b, r); for (int k = 0; k < 3; k++) VP_ENSURES("uint vector ^", r[k] == (uint32_t)(uint32_t)((uint32_t)a[k] ^ (uint32_t)b[k])); }
	{ int64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int64_t)vp_input("a", 64); b[k] = (int64_t)vp_input("b", 64); }
	c_vxor_s64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("long vector ^", r[k] == (int64_t)(uint64_t)((uint64_t)a[k] ^ (uint64_t)b[k])); }
	{ uint64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint64_t)vp_input("a", 64); b[k] = (uint64_t)vp_input("b", 64); }
	c_vxor_u64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ulong vector ^", r[k] == (uint64_t)(uint64_t)((uint64_t)a[k] ^ (uint64_t)b[k])); }
	VP_REACH();
}
//@unit vec_shl fns=llvm_emit_binary off=signed-overflow cost=3 unwind=5
void vp_vec_shl(void)
{
	{ int8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int8_t)vp_input("a", 8); b[k] = (int8_t)VP_RANGE("b", 0, 7); }
	c_vshl_s8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector <<", r[k] == (int8_t)(uint8_t)((uint32_t)a[k] << b[k])); }
	{ uint8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint8_t)vp_input("a", 8); b[k] = (uint8_t)VP_RANGE("b", 0, 7); }
	c_vshl_u8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector <<", r[k] == (uint8_t)(uint8_t)((uint32_t)a[k] << b[k])); }
	{ int16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int16_t)vp_input("a", 16); b[k] = (int16_t)VP_RANGE("b", 0, 15); }
	c_vshl_s16(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector <<", r[k] == (int16_t)(uint16_t)((uint32_t)a[k] << b[k])); }
	{ uint16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint16_t)vp_input("a", 16); b[k] = (uint16_t)VP_RANGE("b", 0, 15); }
	c_vshl_u16(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ushort vector <<", r[k] == (uint16_t)(uint16_t)((uint32_t)a[k] << b[k])); }
	{ int32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int32_t)vp_input("a", 32); b[k] = (int32_t)VP_RANGE("b", 0, 31); }
	c_vshl_s32(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector <<", r[k] == (int32_t)(uint32_t)((uint32_t)a[k] << b[k])); }
	{ uint32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint32_t)vp_input("a", 32); b[k] = (uint32_t)VP_RANGE("b", 0, 31); }
	c_vshl_u32(a, b, r); for (int k = 0; k < 3; k++) VP_ENSURES("uint vector <<", r[k] == (uint32_t)(uint32_t)((uint32_t)a[k] << b[k])); }
	{ int64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int64_t)vp_input("a", 64); b[k] = (int64_t)VP_RANGE("b", 0, 63); }
	c_vshl_s64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("long vector <<", r[k] == (int64_t)(uint64_t)((uint64_t)a[k] << b[k])); }
	{ uint64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint64_t)vp_input("a", 64); b[k] = (uint64_t)VP_RANGE("b", 0, 63); }
	c_vshl_u64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ulong vector <<", r[k] == (uint64_t)(uint64_t)((uint64_t)a[k] << b[k])); }
	VP_REACH();
}
//@unit vec_shr fns=llvm_emit_binary off=signed-overflow cost=3 unwind=5
void vp_vec_shr(void)
{
	{ int8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int8_t)vp_input("a", 8); b[k] = (int8_t)VP_RANGE("b", 0, 7); }
	c_vshr_s8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector >>", r[k] == (int8_t)(a[k] >> b[k])); }
	{ uint8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint8_t)vp_input("a", 8); b[k] = (uint8_t)VP_RANGE("b", 0, 7); }
	c_vshr_u8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector >>", r[k] == (uint8_t)(a[k] >> b[k])); }
	{ int16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int16_t)vp_input("a", 16); b[k] = (int16_t)VP_RANGE("b", 0, 15); }
	c_vshr_s16(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector >>", r[k] == (int16_t)(a[k] >> b[k])); }
	{ uint16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint16_t)vp_input("a", 16); b[k] = (uint16_t)VP_RANGE("b", 0, 15); }
	c_vshr_u16(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ushort vector >>", r[k] == (uint16_t)(a[k] >> b[k])); }
	{ int32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int32_t)vp_input("a", 32); b[k] = (int32_t)VP_RANGE("b", 0, 31); }
	c_vshr_s32(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector >>", r[k] == (int32_t)(a[k] >> b[k])); }
	{ uint32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint32_t)vp_input("a", 32); b[k] = (uint32_t)VP_RANGE("b", 0, 31); }
	c_vshr_u32(a, b, r); for (int k = 0; k < 3; k++) VP_ENSURES("uint vector >>", r[k] == (uint32_t)(a[k] >> b[k])); }
	{ int64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int64_t)vp_input("a", 64); b[k] = (int64_t)VP_RANGE("b", 0, 63); }
	c_vshr_s64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("long vector >>", r[k] == (int64_t)(a[k] >> b[k])); }
	{ uint64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint64_t)vp_input("a", 64); b[k] = (uint64_t)VP_RANGE("b", 0, 63); }
	c_vshr_u64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ulong vector >>", r[k] == (uint64_t)(a[k] >> b[k])); }
	VP_REACH();
}
//@unit vec_mul fns=llvm_emit_binary off=signed-overflow cost=3 unwind=5
void vp_vec_mul(void)
{
	{ int8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int8_t)vp_input("a", 8); b[k] = (int8_t)vp_input("b", 8); }
	c_vmul_s8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector *", r[k] == (int8_t)vp_uf_mul_8((uint8_t)a[k], (uint8_t)b[k])); }
	{ uint8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint8_t)vp_input("a", 8); b[k] = (uint8_t)vp_input("b", 8); }
	c_vmul_u8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector *", r[k] == (uint8_t)vp_uf_mul_8((uint8_t)a[k], (uint8_t)b[k])); }
	{ int16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int16_t)vp_input("a", 16); b[k] = (int16_t)vp_input("b", 16); }
	c_vmul_s16(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector *", r[k] == (int16_t)vp_uf_mul_16((uint16_t)a[k], (uint16_t)b[k])); }
	{ uint16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint16_t)vp_input("a", 16); b[k] = (uint16_t)vp_input("b", 16); }
	c_vmul_u16(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ushort vector *", r[k] == (uint16_t)vp_uf_mul_16((uint16_t)a[k], (uint16_t)b[k])); }
	{ int32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int32_t)vp_input("a", 32); b[k] = (int32_t)vp_input("b", 32); }
	c_vmul_s32(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector *", r[k] == (int32_t)vp_uf_mul_32((uint32_t)a[k], (uint32_t)b[k])); }
	{ uint32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint32_t)vp_input("a", 32); b[k] = (uint32_t)vp_input("b", 32); }
	c_vmul_u32(a, b, r); for (int k = 0; k < 3; k++) VP_ENSURES("uint vector *", r[k] == (uint32_t)vp_uf_mul_32((uint32_t)a[k], (uint32_t)b[k])); }
	{ int64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int64_t)vp_input("a", 64); b[k] = (int64_t)vp_input("b", 64); }
	c_vmul_s64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("long vector *", r[k] == (int64_t)vp_uf_mul_64((uint64_t)a[k], (uint64_t)b[k])); }
	{ uint64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint64_t)vp_input("a", 64); b[k] = (uint64_t)vp_input("b", 64); }
	c_vmul_u64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ulong vector *", r[k] == (uint64_t)vp_uf_mul_64((uint64_t)a[k], (uint64_t)b[k])); }
	VP_REACH();
}
//@unit vec_div fns=llvm_emit_binary off=signed-overflow cost=3 unwind=5
void vp_vec_div(void)
{
	{ int8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int8_t)vp_input("a", 8); b[k] = (int8_t)(VP_RANGE("b", 1, 0xffULL)); }
	for (int k = 0; k < 4; k++) VP_REQUIRES(b[k] != -1);
	c_vdiv_s8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector /", r[k] == (int8_t)vp_uf_sdiv_8((uint8_t)a[k], (uint8_t)b[k])); }
	{ uint8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint8_t)vp_input("a", 8); b[k] = (uint8_t)(VP_RANGE("b", 1, 0xffULL)); }
	c_vdiv_u8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector /", r[k] == (uint8_t)vp_uf_udiv_8((uint8_t)a[k], (uint8_t)b[k])); }
	{ int16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int16_t)vp_input("a", 16); b[k] = (int16_t)(VP_RANGE("b", 1, 0xffffULL)); }
	for (int k = 0; k < 4; k++) VP_REQUIRES(b[k] != -1);
	c_vdiv_s16(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector /", r[k] == (int16_t)vp_uf_sdiv_16((uint16_t)a[k], (uint16_t)b[k])); }
	{ uint16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint16_t)vp_input("a", 16); b[k] = (uint16_t)(VP_RANGE("b", 1, 0xffffULL)); }
	c_vdiv_u16(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ushort vector /", r[k] == (uint16_t)vp_uf_udiv_16((uint16_t)a[k], (uint16_t)b[k])); }
	{ int32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int32_t)vp_input("a", 32); b[k] = (int32_t)(VP_RANGE("b", 1, 0xffffffffULL)); }
	for (int k = 0; k < 4; k++) VP_REQUIRES(b[k] != -1);
	c_vdiv_s32(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector /", r[k] == (int32_t)vp_uf_sdiv_32((uint32_t)a[k], (uint32_t)b[k])); }
	{ uint32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint32_t)vp_input("a", 32); b[k] = (uint32_t)(VP_RANGE("b", 1, 0xffffffffULL)); }
	c_vdiv_u32(a, b, r); for (int k = 0; k < 3; k++) VP_ENSURES("uint vector /", r[k] == (uint32_t)vp_uf_udiv_32((uint32_t)a[k], (uint32_t)b[k])); }
	{ int64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int64_t)vp_input("a", 64); b[k] = (int64_t)(VP_RANGE("b", 1, 0xffffffffffffffffULL)); }
	for (int k = 0; k < 4; k++) VP_REQUIRES(b[k] != -1);
	c_vdiv_s64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("long vector /", r[k] == (int64_t)vp_uf_sdiv_64((uint64_t)a[k], (uint64_t)b[k])); }
	{ uint64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint64_t)vp_input("a", 64); b[k] = (uint64_t)(VP_RANGE("b", 1, 0xffffffffffffffffULL)); }
	c_vdiv_u64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ulong vector /", r[k] == (uint64_t)vp_uf_udiv_64((uint64_t)a[k], (uint64_t)b[k])); }
	VP_REACH();
}
//@unit vec_rem fns=llvm_emit_binary off=signed-overflow cost=3 unwind=5
void vp_vec_rem(void)
{
	{ int8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int8_t)vp_input("a", 8); b[k] = (int8_t)(VP_RANGE("b", 1, 0xffULL)); }
	for (int k = 0; k < 4; k++) VP_REQUIRES(b[k] != -1);
	c_vrem_s8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector %", r[k] == (int8_t)vp_uf_srem_8((uint8_t)a[k], (uint8_t)b[k])); }
	{ uint8_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint8_t)vp_input("a", 8); b[k] = (uint8_t)(VP_RANGE("b", 1, 0xffULL)); }
	c_vrem_u8(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector %", r[k] == (uint8_t)vp_uf_urem_8((uint8_t)a[k], (uint8_t)b[k])); }
	{ int16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int16_t)vp_input("a", 16); b[k] = (int16_t)(VP_RANGE("b", 1, 0xffffULL)); }
	for (int k = 0; k < 4; k++) VP_REQUIRES(b[k] != -1);
	c_vrem_s16(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector %", r[k] == (int16_t)vp_uf_srem_16((uint16_t)a[k], (uint16_t)b[k])); }
	{ uint16_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint16_t)vp_input("a", 16); b[k] = (uint16_t)(VP_RANGE("b", 1, 0xffffULL)); }
	c_vrem_u16(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ushort vector %", r[k] == (uint16_t)vp_uf_urem_16((uint16_t)a[k], (uint16_t)b[k])); }
	{ int32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int32_t)vp_input("a", 32); b[k] = (int32_t)(VP_RANGE("b", 1, 0xffffffffULL)); }
	for (int k = 0; k < 4; k++) VP_REQUIRES(b[k] != -1);
	c_vrem_s32(a, b, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector %", r[k] == (int32_t)vp_uf_srem_32((uint32_t)a[k], (uint32_t)b[k])); }
	{ uint32_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint32_t)vp_input("a", 32); b[k] = (uint32_t)(VP_RANGE("b", 1, 0xffffffffULL)); }
	c_vrem_u32(a, b, r); for (int k = 0; k < 3; k++) VP_ENSURES("uint vector %", r[k] == (uint32_t)vp_uf_urem_32((uint32_t)a[k], (uint32_t)b[k])); }
	{ int64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (int64_t)vp_input("a", 64); b[k] = (int64_t)(VP_RANGE("b", 1, 0xffffffffffffffffULL)); }
	for (int k = 0; k < 4; k++) VP_REQUIRES(b[k] != -1);
	c_vrem_s64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("long vector %", r[k] == (int64_t)vp_uf_srem_64((uint64_t)a[k], (uint64_t)b[k])); }
	{ uint64_t a[4] __attribute__((aligned(32))), b[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) { a[k] = (uint64_t)vp_input("a", 64); b[k] = (uint64_t)(VP_RANGE("b", 1, 0xffffffffffffffffULL)); }
	c_vrem_u64(a, b, r); for (int k = 0; k < 2; k++) VP_ENSURES("ulong vector %", r[k] == (uint64_t)vp_uf_urem_64((uint64_t)a[k], (uint64_t)b[k])); }
	VP_REACH();
}
//@unit vec_unary fns=llvm_emit_unary_expr,llvm_emit_cast cost=3 unwind=5
void vp_vec_unary(void)
{
	{ int8_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int8_t)vp_input("a", 8); c_vneg_s8(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector neg", r[k] == (int8_t)(uint8_t)(0 - (uint8_t)a[k])); }
	{ int8_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int8_t)vp_input("a", 8); c_vnot_s8(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector not", r[k] == (int8_t)~a[k]); }
	{ uint8_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint8_t)vp_input("a", 8); c_vneg_u8(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector neg", r[k] == (uint8_t)(uint8_t)(0 - (uint8_t)a[k])); }
	{ uint8_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint8_t)vp_input("a", 8); c_vnot_u8(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector not", r[k] == (uint8_t)~a[k]); }
	{ int16_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int16_t)vp_input("a", 16); c_vneg_s16(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector neg", r[k] == (int16_t)(uint16_t)(0 - (uint16_t)a[k])); }
	{ int16_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int16_t)vp_input("a", 16); c_vnot_s16(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector not", r[k] == (int16_t)~a[k]); }
	{ uint16_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint16_t)vp_input("a", 16); c_vneg_u16(a, r); for (int k = 0; k < 2; k++) VP_ENSURES("ushort vector neg", r[k] == (uint16_t)(uint16_t)(0 - (uint16_t)a[k])); }
	{ uint16_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint16_t)vp_input("a", 16); c_vnot_u16(a, r); for (int k = 0; k < 2; k++) VP_ENSURES("ushort vector not", r[k] == (uint16_t)~a[k]); }
	{ int32_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int32_t)vp_input("a", 32); c_vneg_s32(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector neg", r[k] == (int32_t)(uint32_t)(0 - (uint32_t)a[k])); }
	{ int32_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int32_t)vp_input("a", 32); c_vnot_s32(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector not", r[k] == (int32_t)~a[k]); }
	{ uint32_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint32_t)vp_input("a", 32); c_vneg_u32(a, r); for (int k = 0; k < 3; k++) VP_ENSURES("uint vector neg", r[k] == (uint32_t)(uint32_t)(0 - (uint32_t)a[k])); }
	{ uint32_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint32_t)vp_input("a", 32); c_vnot_u32(a, r); for (int k = 0; k < 3; k++) VP_ENSURES("uint vector not", r[k] == (uint32_t)~a[k]); }
	{ int64_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int64_t)vp_input("a", 64); c_vneg_s64(a, r); for (int k = 0; k < 2; k++) VP_ENSURES("long vector neg", r[k] == (int64_t)(uint64_t)(0 - (uint64_t)a[k])); }
	{ int64_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int64_t)vp_input("a", 64); c_vnot_s64(a, r); for (int k = 0; k < 2; k++) VP_ENSURES("long vector not", r[k] == (int64_t)~a[k]); }
	{ uint64_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint64_t)vp_input("a", 64); c_vneg_u64(a, r); for (int k = 0; k < 2; k++) VP_ENSURES("ulong vector neg", r[k] == (uint64_t)(uint64_t)(0 - (uint64_t)a[k])); }
	{ uint64_t a[4] __attribute__((aligned(32))), r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint64_t)vp_input("a", 64); c_vnot_u64(a, r); for (int k = 0; k < 2; k++) VP_ENSURES("ulong vector not", r[k] == (uint64_t)~a[k]); }
	{ int8_t a[4] __attribute__((aligned(32))); uint8_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int8_t)vp_input("a", 8); c_vcv_s8_u8(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector to char", r[k] == (uint8_t)a[k]); }
	{ int8_t a[4] __attribute__((aligned(32))); int16_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int8_t)vp_input("a", 8); c_vcv_s8_s16(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector to short", r[k] == (int16_t)a[k]); }
	{ int8_t a[4] __attribute__((aligned(32))); int32_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int8_t)vp_input("a", 8); c_vcv_s8_s32(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector to int", r[k] == (int32_t)a[k]); }
	{ int8_t a[4] __attribute__((aligned(32))); uint64_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int8_t)vp_input("a", 8); c_vcv_s8_u64(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("ichar vector to ulong", r[k] == (uint64_t)a[k]); }
	{ uint8_t a[4] __attribute__((aligned(32))); int16_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint8_t)vp_input("a", 8); c_vcv_u8_s16(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector to short", r[k] == (int16_t)a[k]); }
	{ uint8_t a[4] __attribute__((aligned(32))); int32_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint8_t)vp_input("a", 8); c_vcv_u8_s32(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector to int", r[k] == (int32_t)a[k]); }
	{ uint8_t a[4] __attribute__((aligned(32))); uint64_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint8_t)vp_input("a", 8); c_vcv_u8_u64(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("char vector to ulong", r[k] == (uint64_t)a[k]); }
	{ int16_t a[4] __attribute__((aligned(32))); uint8_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int16_t)vp_input("a", 16); c_vcv_s16_u8(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector to char", r[k] == (uint8_t)a[k]); }
	{ int16_t a[4] __attribute__((aligned(32))); int32_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int16_t)vp_input("a", 16); c_vcv_s16_s32(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector to int", r[k] == (int32_t)a[k]); }
	{ int16_t a[4] __attribute__((aligned(32))); uint64_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int16_t)vp_input("a", 16); c_vcv_s16_u64(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("short vector to ulong", r[k] == (uint64_t)a[k]); }
	{ uint16_t a[4] __attribute__((aligned(32))); uint8_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint16_t)vp_input("a", 16); c_vcv_u16_u8(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("ushort vector to char", r[k] == (uint8_t)a[k]); }
	{ uint16_t a[4] __attribute__((aligned(32))); int16_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint16_t)vp_input("a", 16); c_vcv_u16_s16(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("ushort vector to short", r[k] == (int16_t)a[k]); }
	{ uint16_t a[4] __attribute__((aligned(32))); int32_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint16_t)vp_input("a", 16); c_vcv_u16_s32(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("ushort vector to int", r[k] == (int32_t)a[k]); }
	{ uint16_t a[4] __attribute__((aligned(32))); uint64_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint16_t)vp_input("a", 16); c_vcv_u16_u64(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("ushort vector to ulong", r[k] == (uint64_t)a[k]); }
	{ int32_t a[4] __attribute__((aligned(32))); uint8_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int32_t)vp_input("a", 32); c_vcv_s32_u8(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector to char", r[k] == (uint8_t)a[k]); }
	{ int32_t a[4] __attribute__((aligned(32))); int16_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int32_t)vp_input("a", 32); c_vcv_s32_s16(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector to short", r[k] == (int16_t)a[k]); }
	{ int32_t a[4] __attribute__((aligned(32))); uint64_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int32_t)vp_input("a", 32); c_vcv_s32_u64(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("int vector to ulong", r[k] == (uint64_t)a[k]); }
	{ uint32_t a[4] __attribute__((aligned(32))); uint8_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint32_t)vp_input("a", 32); c_vcv_u32_u8(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("uint vector to char", r[k] == (uint8_t)a[k]); }
	{ uint32_t a[4] __attribute__((aligned(32))); int16_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint32_t)vp_input("a", 32); c_vcv_u32_s16(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("uint vector to short", r[k] == (int16_t)a[k]); }
	{ uint32_t a[4] __attribute__((aligned(32))); int32_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint32_t)vp_input("a", 32); c_vcv_u32_s32(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("uint vector to int", r[k] == (int32_t)a[k]); }
	{ uint32_t a[4] __attribute__((aligned(32))); uint64_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint32_t)vp_input("a", 32); c_vcv_u32_u64(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("uint vector to ulong", r[k] == (uint64_t)a[k]); }
	{ int64_t a[4] __attribute__((aligned(32))); uint8_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int64_t)vp_input("a", 64); c_vcv_s64_u8(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("long vector to char", r[k] == (uint8_t)a[k]); }
	{ int64_t a[4] __attribute__((aligned(32))); int16_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int64_t)vp_input("a", 64); c_vcv_s64_s16(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("long vector to short", r[k] == (int16_t)a[k]); }
	{ int64_t a[4] __attribute__((aligned(32))); int32_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int64_t)vp_input("a", 64); c_vcv_s64_s32(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("long vector to int", r[k] == (int32_t)a[k]); }
	{ int64_t a[4] __attribute__((aligned(32))); uint64_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (int64_t)vp_input("a", 64); c_vcv_s64_u64(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("long vector to ulong", r[k] == (uint64_t)a[k]); }
	{ uint64_t a[4] __attribute__((aligned(32))); uint8_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint64_t)vp_input("a", 64); c_vcv_u64_u8(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("ulong vector to char", r[k] == (uint8_t)a[k]); }
	{ uint64_t a[4] __attribute__((aligned(32))); int16_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint64_t)vp_input("a", 64); c_vcv_u64_s16(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("ulong vector to short", r[k] == (int16_t)a[k]); }
	{ uint64_t a[4] __attribute__((aligned(32))); int32_t r[4] __attribute__((aligned(32))); for (int k = 0; k < 4; k++) a[k] = (uint64_t)vp_input("a", 64); c_vcv_u64_s32(a, r); for (int k = 0; k < 4; k++) VP_ENSURES("ulong vector to int", r[k] == (int32_t)a[k]); }
	VP_REACH();
}
