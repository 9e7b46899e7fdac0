// generated by tools/gen_c07.py: every member of every container kind, on every initial content
//@file lang=c3 probe=bits.c3 d.off=signed-overflow d.unwind=130 nosan=signed-integer-overflow d.fns=llvm_extract_bitvalue,llvm_extract_bitvalue_from_array,llvm_emit_bitstruct_value_update,llvm_emit_update_bitstruct_array,llvm_emit_bitassign_expr,llvm_emit_initialize_reference_bitstruct,llvm_emit_const_bitstruct
#include "bits.h"
uint8_t c_bchar_0_get(void *), c_bchar_0_val(void *); void c_bchar_0_set(void *, uint8_t), c_bchar_0_des(void *, uint8_t);
uint8_t c_bchar_1_get(void *), c_bchar_1_val(void *); void c_bchar_1_set(void *, uint8_t), c_bchar_1_des(void *, uint8_t);
void c_bchar_1_add(void *, uint8_t), c_bchar_1_xor(void *, uint8_t), c_bchar_1_inc(void *), c_bchar_1_dec(void *);
int8_t c_bchar_2_get(void *), c_bchar_2_val(void *); void c_bchar_2_set(void *, int8_t), c_bchar_2_des(void *, int8_t);
void c_bchar_2_add(void *, int8_t), c_bchar_2_xor(void *, int8_t), c_bchar_2_inc(void *), c_bchar_2_dec(void *);
uint8_t c_bchar_3_get(void *), c_bchar_3_val(void *); void c_bchar_3_set(void *, uint8_t), c_bchar_3_des(void *, uint8_t);
void c_bchar_init(void *, uint8_t, uint8_t, int8_t, uint8_t);
void c_bchar_const(void *), c_bchar_glob(void *);
void c_bchar_and(void *, void *), c_bchar_or(void *, void *), c_bchar_xor(void *, void *), c_bchar_not(void *), c_bchar_cast(void *, void *), c_bchar_back(void *, void *); uint8_t c_bchar_eq(void *, void *);
//@unit bits_bchar each=0..3
void vp_bits_bchar(uint64_t n)
{
	START(1)
	switch (n) {
	case 0: GETSET(bchar_0, uint8_t, mem(1, 0, 0, 0, 0, 0, 1, 1)) break;
	case 1: GETSET(bchar_1, uint8_t, mem(1, 1, 3, 0, 0, 0, 8, 0)) OPS(bchar_1, uint8_t, mem(1, 1, 3, 0, 0, 0, 8, 0)) break;
	case 2: GETSET(bchar_2, int8_t, mem(1, 4, 6, 1, 0, 0, 8, 0)) OPS(bchar_2, int8_t, mem(1, 4, 6, 1, 0, 0, 8, 0)) break;
	case 3: GETSET(bchar_3, uint8_t, mem(1, 7, 7, 0, 0, 0, 1, 1)) break;
	}
	VP_REACH();
}
//@unit bits_bchar_whole
void vp_bits_bchar_whole(void)
{
	START(1) BITWISE(bchar, 1)
	uint8_t w[16] = { 0 };
	uint8_t a0 = (uint8_t)VP_BITS("a0", 1); put(w, mem(1, 0, 0, 0, 0, 0, 1, 1), (uint64_t)a0);
	uint8_t a1 = (uint8_t)VP_BITS("a1", 8); put(w, mem(1, 1, 3, 0, 0, 0, 8, 0), (uint64_t)a1);
	int8_t a2 = (int8_t)VP_BITS("a2", 8); put(w, mem(1, 4, 6, 1, 0, 0, 8, 0), (uint64_t)a2);
	uint8_t a3 = (uint8_t)VP_BITS("a3", 1); put(w, mem(1, 7, 7, 0, 0, 0, 1, 1), (uint64_t)a3);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 1 ? x[i] : 0;
	c_bchar_init(v, a0, a1, a2, a3);
	ALL("an initializer sets the members and nothing else", v[i] == w[i])
	uint8_t k[16] = { 0 };
	put(k, mem(1, 0, 0, 0, 0, 0, 1, 1), 1ULL);
	put(k, mem(1, 1, 3, 0, 0, 0, 8, 0), 7ULL);
	put(k, mem(1, 4, 6, 1, 0, 0, 8, 0), 5ULL);
	put(k, mem(1, 7, 7, 0, 0, 0, 1, 1), 1ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 1 ? x[i] : 0;
	c_bchar_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_bchar_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
int8_t c_bush_0_get(void *), c_bush_0_val(void *); void c_bush_0_set(void *, int8_t), c_bush_0_des(void *, int8_t);
void c_bush_0_add(void *, int8_t), c_bush_0_xor(void *, int8_t), c_bush_0_inc(void *), c_bush_0_dec(void *);
uint8_t c_bush_1_get(void *), c_bush_1_val(void *); void c_bush_1_set(void *, uint8_t), c_bush_1_des(void *, uint8_t);
uint16_t c_bush_2_get(void *), c_bush_2_val(void *); void c_bush_2_set(void *, uint16_t), c_bush_2_des(void *, uint16_t);
void c_bush_2_add(void *, uint16_t), c_bush_2_xor(void *, uint16_t), c_bush_2_inc(void *), c_bush_2_dec(void *);
uint8_t c_bush_3_get(void *), c_bush_3_val(void *); void c_bush_3_set(void *, uint8_t), c_bush_3_des(void *, uint8_t);
void c_bush_init(void *, int8_t, uint8_t, uint16_t, uint8_t);
void c_bush_const(void *), c_bush_glob(void *);
void c_bush_and(void *, void *), c_bush_or(void *, void *), c_bush_xor(void *, void *), c_bush_not(void *), c_bush_cast(void *, void *), c_bush_back(void *, void *); uint8_t c_bush_eq(void *, void *);
//@unit bits_bush each=0..3
void vp_bits_bush(uint64_t n)
{
	START(2)
	switch (n) {
	case 0: GETSET(bush_0, int8_t, mem(2, 0, 4, 1, 0, 0, 8, 0)) OPS(bush_0, int8_t, mem(2, 0, 4, 1, 0, 0, 8, 0)) break;
	case 1: GETSET(bush_1, uint8_t, mem(2, 5, 5, 0, 0, 0, 1, 1)) break;
	case 2: GETSET(bush_2, uint16_t, mem(2, 6, 13, 0, 0, 0, 16, 0)) OPS(bush_2, uint16_t, mem(2, 6, 13, 0, 0, 0, 16, 0)) break;
	case 3: GETSET(bush_3, uint8_t, mem(2, 14, 15, 0, 0, 0, 8, 0)) break;
	}
	VP_REACH();
}
//@unit bits_bush_whole
void vp_bits_bush_whole(void)
{
	START(2) BITWISE(bush, 2)
	uint8_t w[16] = { 0 };
	int8_t a0 = (int8_t)VP_BITS("a0", 8); put(w, mem(2, 0, 4, 1, 0, 0, 8, 0), (uint64_t)a0);
	uint8_t a1 = (uint8_t)VP_BITS("a1", 1); put(w, mem(2, 5, 5, 0, 0, 0, 1, 1), (uint64_t)a1);
	uint16_t a2 = (uint16_t)VP_BITS("a2", 16); put(w, mem(2, 6, 13, 0, 0, 0, 16, 0), (uint64_t)a2);
	uint8_t a3 = (uint8_t)VP_BITS("a3", 2); put(w, mem(2, 14, 15, 0, 0, 0, 8, 0), a3);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 2 ? x[i] : 0;
	c_bush_init(v, a0, a1, a2, a3);
	ALL("an initializer sets the members and nothing else", v[i] == w[i])
	uint8_t k[16] = { 0 };
	put(k, mem(2, 0, 4, 1, 0, 0, 8, 0), 20ULL);
	put(k, mem(2, 5, 5, 0, 0, 0, 1, 1), 1ULL);
	put(k, mem(2, 6, 13, 0, 0, 0, 16, 0), 146ULL);
	put(k, mem(2, 14, 15, 0, 0, 0, 8, 0), 3ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 2 ? x[i] : 0;
	c_bush_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_bush_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
int32_t c_buint_0_get(void *), c_buint_0_val(void *); void c_buint_0_set(void *, int32_t), c_buint_0_des(void *, int32_t);
void c_buint_0_add(void *, int32_t), c_buint_0_xor(void *, int32_t), c_buint_0_inc(void *), c_buint_0_dec(void *);
uint8_t c_buint_1_get(void *), c_buint_1_val(void *); void c_buint_1_set(void *, uint8_t), c_buint_1_des(void *, uint8_t);
void c_buint_1_add(void *, uint8_t), c_buint_1_xor(void *, uint8_t), c_buint_1_inc(void *), c_buint_1_dec(void *);
int64_t c_buint_2_get(void *), c_buint_2_val(void *); void c_buint_2_set(void *, int64_t), c_buint_2_des(void *, int64_t);
void c_buint_2_add(void *, int64_t), c_buint_2_xor(void *, int64_t), c_buint_2_inc(void *), c_buint_2_dec(void *);
uint8_t c_buint_3_get(void *), c_buint_3_val(void *); void c_buint_3_set(void *, uint8_t), c_buint_3_des(void *, uint8_t);
void c_buint_init(void *, int32_t, uint8_t, int64_t, uint8_t);
void c_buint_const(void *), c_buint_glob(void *);
void c_buint_and(void *, void *), c_buint_or(void *, void *), c_buint_xor(void *, void *), c_buint_not(void *), c_buint_cast(void *, void *), c_buint_back(void *, void *); uint8_t c_buint_eq(void *, void *);
//@unit bits_buint each=0..3
void vp_bits_buint(uint64_t n)
{
	START(4)
	switch (n) {
	case 0: GETSET(buint_0, int32_t, mem(4, 0, 10, 1, 0, 0, 32, 0)) OPS(buint_0, int32_t, mem(4, 0, 10, 1, 0, 0, 32, 0)) break;
	case 1: GETSET(buint_1, uint8_t, mem(4, 11, 14, 0, 0, 0, 8, 0)) OPS(buint_1, uint8_t, mem(4, 11, 14, 0, 0, 0, 8, 0)) break;
	case 2: GETSET(buint_2, int64_t, mem(4, 15, 30, 1, 0, 0, 64, 0)) OPS(buint_2, int64_t, mem(4, 15, 30, 1, 0, 0, 64, 0)) break;
	case 3: GETSET(buint_3, uint8_t, mem(4, 31, 31, 0, 0, 0, 1, 1)) break;
	}
	VP_REACH();
}
//@unit bits_buint_whole
void vp_bits_buint_whole(void)
{
	START(4) BITWISE(buint, 4)
	uint8_t w[16] = { 0 };
	int32_t a0 = (int32_t)VP_BITS("a0", 32); put(w, mem(4, 0, 10, 1, 0, 0, 32, 0), (uint64_t)a0);
	uint8_t a1 = (uint8_t)VP_BITS("a1", 8); put(w, mem(4, 11, 14, 0, 0, 0, 8, 0), (uint64_t)a1);
	int64_t a2 = (int64_t)VP_BITS("a2", 64); put(w, mem(4, 15, 30, 1, 0, 0, 64, 0), (uint64_t)a2);
	uint8_t a3 = (uint8_t)VP_BITS("a3", 1); put(w, mem(4, 31, 31, 0, 0, 0, 1, 1), (uint64_t)a3);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 4 ? x[i] : 0;
	c_buint_init(v, a0, a1, a2, a3);
	ALL("an initializer sets the members and nothing else", v[i] == w[i])
	uint8_t k[16] = { 0 };
	put(k, mem(4, 0, 10, 1, 0, 0, 32, 0), 1097ULL);
	put(k, mem(4, 11, 14, 0, 0, 0, 8, 0), 9ULL);
	put(k, mem(4, 15, 30, 1, 0, 0, 64, 0), 56733ULL);
	put(k, mem(4, 31, 31, 0, 0, 0, 1, 1), 1ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 4 ? x[i] : 0;
	c_buint_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_buint_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
uint32_t c_bint_0_get(void *), c_bint_0_val(void *); void c_bint_0_set(void *, uint32_t), c_bint_0_des(void *, uint32_t);
void c_bint_0_add(void *, uint32_t), c_bint_0_xor(void *, uint32_t), c_bint_0_inc(void *), c_bint_0_dec(void *);
void c_bint_init(void *, uint32_t);
void c_bint_const(void *), c_bint_glob(void *);
void c_bint_and(void *, void *), c_bint_or(void *, void *), c_bint_xor(void *, void *), c_bint_not(void *), c_bint_cast(void *, void *), c_bint_back(void *, void *); uint8_t c_bint_eq(void *, void *);
//@unit bits_bint each=0..0
void vp_bits_bint(uint64_t n)
{
	START(4)
	switch (n) {
	case 0: GETSET(bint_0, uint32_t, mem(4, 0, 31, 0, 0, 0, 32, 0)) OPS(bint_0, uint32_t, mem(4, 0, 31, 0, 0, 0, 32, 0)) break;
	}
	VP_REACH();
}
//@unit bits_bint_whole
void vp_bits_bint_whole(void)
{
	START(4) BITWISE(bint, 4)
	uint8_t w[16] = { 0 };
	uint32_t a0 = (uint32_t)VP_BITS("a0", 32); put(w, mem(4, 0, 31, 0, 0, 0, 32, 0), (uint64_t)a0);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 4 ? x[i] : 0;
	c_bint_init(v, a0);
	ALL("an initializer sets the members and nothing else", v[i] == w[i])
	uint8_t k[16] = { 0 };
	put(k, mem(4, 0, 31, 0, 0, 0, 32, 0), 2396587125ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 4 ? x[i] : 0;
	c_bint_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_bint_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
uint8_t c_bulong_0_get(void *), c_bulong_0_val(void *); void c_bulong_0_set(void *, uint8_t), c_bulong_0_des(void *, uint8_t);
uint64_t c_bulong_1_get(void *), c_bulong_1_val(void *); void c_bulong_1_set(void *, uint64_t), c_bulong_1_des(void *, uint64_t);
void c_bulong_1_add(void *, uint64_t), c_bulong_1_xor(void *, uint64_t), c_bulong_1_inc(void *), c_bulong_1_dec(void *);
int32_t c_bulong_2_get(void *), c_bulong_2_val(void *); void c_bulong_2_set(void *, int32_t), c_bulong_2_des(void *, int32_t);
void c_bulong_2_add(void *, int32_t), c_bulong_2_xor(void *, int32_t), c_bulong_2_inc(void *), c_bulong_2_dec(void *);
uint8_t c_bulong_3_get(void *), c_bulong_3_val(void *); void c_bulong_3_set(void *, uint8_t), c_bulong_3_des(void *, uint8_t);
void c_bulong_3_add(void *, uint8_t), c_bulong_3_xor(void *, uint8_t), c_bulong_3_inc(void *), c_bulong_3_dec(void *);
void c_bulong_init(void *, uint8_t, uint64_t, int32_t, uint8_t);
void c_bulong_const(void *), c_bulong_glob(void *);
void c_bulong_and(void *, void *), c_bulong_or(void *, void *), c_bulong_xor(void *, void *), c_bulong_not(void *), c_bulong_cast(void *, void *), c_bulong_back(void *, void *); uint8_t c_bulong_eq(void *, void *);
//@unit bits_bulong each=0..3
void vp_bits_bulong(uint64_t n)
{
	START(8)
	switch (n) {
	case 0: GETSET(bulong_0, uint8_t, mem(8, 0, 0, 0, 0, 0, 1, 1)) break;
	case 1: GETSET(bulong_1, uint64_t, mem(8, 1, 40, 0, 0, 0, 64, 0)) OPS(bulong_1, uint64_t, mem(8, 1, 40, 0, 0, 0, 64, 0)) break;
	case 2: GETSET(bulong_2, int32_t, mem(8, 41, 61, 1, 0, 0, 32, 0)) OPS(bulong_2, int32_t, mem(8, 41, 61, 1, 0, 0, 32, 0)) break;
	case 3: GETSET(bulong_3, uint8_t, mem(8, 62, 63, 0, 0, 0, 8, 0)) OPS(bulong_3, uint8_t, mem(8, 62, 63, 0, 0, 0, 8, 0)) break;
	}
	VP_REACH();
}
//@unit bits_bulong_whole
void vp_bits_bulong_whole(void)
{
	START(8) BITWISE(bulong, 8)
	uint8_t w[16] = { 0 };
	uint8_t a0 = (uint8_t)VP_BITS("a0", 1); put(w, mem(8, 0, 0, 0, 0, 0, 1, 1), (uint64_t)a0);
	uint64_t a1 = (uint64_t)VP_BITS("a1", 64); put(w, mem(8, 1, 40, 0, 0, 0, 64, 0), (uint64_t)a1);
	int32_t a2 = (int32_t)VP_BITS("a2", 32); put(w, mem(8, 41, 61, 1, 0, 0, 32, 0), (uint64_t)a2);
	uint8_t a3 = (uint8_t)VP_BITS("a3", 8); put(w, mem(8, 62, 63, 0, 0, 0, 8, 0), (uint64_t)a3);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 8 ? x[i] : 0;
	c_bulong_init(v, a0, a1, a2, a3);
	ALL("an initializer sets the members and nothing else", v[i] == w[i])
	uint8_t k[16] = { 0 };
	put(k, mem(8, 0, 0, 0, 0, 0, 1, 1), 1ULL);
	put(k, mem(8, 1, 40, 0, 0, 0, 64, 0), 783863467765ULL);
	put(k, mem(8, 41, 61, 1, 0, 0, 32, 0), 1127210ULL);
	put(k, mem(8, 62, 63, 0, 0, 0, 8, 0), 2ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 8 ? x[i] : 0;
	c_bulong_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_bulong_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
uint8_t c_bwide_0_get(void *), c_bwide_0_val(void *); void c_bwide_0_set(void *, uint8_t), c_bwide_0_des(void *, uint8_t);
void c_bwide_0_add(void *, uint8_t), c_bwide_0_xor(void *, uint8_t), c_bwide_0_inc(void *), c_bwide_0_dec(void *);
uint64_t c_bwide_1_get(void *), c_bwide_1_val(void *); void c_bwide_1_set(void *, uint64_t), c_bwide_1_des(void *, uint64_t);
void c_bwide_1_add(void *, uint64_t), c_bwide_1_xor(void *, uint64_t), c_bwide_1_inc(void *), c_bwide_1_dec(void *);
uint8_t c_bwide_2_get(void *), c_bwide_2_val(void *); void c_bwide_2_set(void *, uint8_t), c_bwide_2_des(void *, uint8_t);
int64_t c_bwide_3_get(void *), c_bwide_3_val(void *); void c_bwide_3_set(void *, int64_t), c_bwide_3_des(void *, int64_t);
void c_bwide_3_add(void *, int64_t), c_bwide_3_xor(void *, int64_t), c_bwide_3_inc(void *), c_bwide_3_dec(void *);
void c_bwide_init(void *, uint8_t, uint64_t, uint8_t, int64_t);
void c_bwide_const(void *), c_bwide_glob(void *);
void c_bwide_and(void *, void *), c_bwide_or(void *, void *), c_bwide_xor(void *, void *), c_bwide_not(void *), c_bwide_cast(void *, void *), c_bwide_back(void *, void *); uint8_t c_bwide_eq(void *, void *);
//@unit bits_bwide each=0..3
void vp_bits_bwide(uint64_t n)
{
	START(16)
	switch (n) {
	case 0: GETSET(bwide_0, uint8_t, mem(16, 0, 2, 0, 0, 0, 8, 0)) OPS(bwide_0, uint8_t, mem(16, 0, 2, 0, 0, 0, 8, 0)) break;
	case 1: GETSET(bwide_1, uint64_t, mem(16, 3, 66, 0, 0, 0, 64, 0)) OPS(bwide_1, uint64_t, mem(16, 3, 66, 0, 0, 0, 64, 0)) break;
	case 2: GETSET(bwide_2, uint8_t, mem(16, 67, 67, 0, 0, 0, 1, 1)) break;
	case 3: GETSET(bwide_3, int64_t, mem(16, 70, 127, 1, 0, 0, 64, 0)) OPS(bwide_3, int64_t, mem(16, 70, 127, 1, 0, 0, 64, 0)) break;
	}
	VP_REACH();
}
//@unit bits_bwide_whole
void vp_bits_bwide_whole(void)
{
	START(16) BITWISE(bwide, 16)
	uint8_t w[16] = { 0 };
	uint8_t a0 = (uint8_t)VP_BITS("a0", 8); put(w, mem(16, 0, 2, 0, 0, 0, 8, 0), (uint64_t)a0);
	uint64_t a1 = (uint64_t)VP_BITS("a1", 64); put(w, mem(16, 3, 66, 0, 0, 0, 64, 0), (uint64_t)a1);
	uint8_t a2 = (uint8_t)VP_BITS("a2", 1); put(w, mem(16, 67, 67, 0, 0, 0, 1, 1), (uint64_t)a2);
	int64_t a3 = (int64_t)VP_BITS("a3", 64); put(w, mem(16, 70, 127, 1, 0, 0, 64, 0), (uint64_t)a3);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 16 ? x[i] : 0;
	c_bwide_init(v, a0, a1, a2, a3);
	ALL("an initializer sets the members and nothing else", v[i] == w[i])
	uint8_t k[16] = { 0 };
	put(k, mem(16, 0, 2, 0, 0, 0, 8, 0), 7ULL);
	put(k, mem(16, 3, 66, 0, 0, 0, 64, 0), 10511977190840423579ULL);
	put(k, mem(16, 67, 67, 0, 0, 0, 1, 1), 1ULL);
	put(k, mem(16, 70, 127, 1, 0, 0, 64, 0), 158828556715620313ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 16 ? x[i] : 0;
	c_bwide_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_bwide_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
int8_t c_bushbe_0_get(void *), c_bushbe_0_val(void *); void c_bushbe_0_set(void *, int8_t), c_bushbe_0_des(void *, int8_t);
void c_bushbe_0_add(void *, int8_t), c_bushbe_0_xor(void *, int8_t), c_bushbe_0_inc(void *), c_bushbe_0_dec(void *);
uint8_t c_bushbe_1_get(void *), c_bushbe_1_val(void *); void c_bushbe_1_set(void *, uint8_t), c_bushbe_1_des(void *, uint8_t);
uint16_t c_bushbe_2_get(void *), c_bushbe_2_val(void *); void c_bushbe_2_set(void *, uint16_t), c_bushbe_2_des(void *, uint16_t);
void c_bushbe_2_add(void *, uint16_t), c_bushbe_2_xor(void *, uint16_t), c_bushbe_2_inc(void *), c_bushbe_2_dec(void *);
void c_bushbe_init(void *, int8_t, uint8_t, uint16_t);
void c_bushbe_const(void *), c_bushbe_glob(void *);
void c_bushbe_and(void *, void *), c_bushbe_or(void *, void *), c_bushbe_xor(void *, void *), c_bushbe_not(void *), c_bushbe_cast(void *, void *), c_bushbe_back(void *, void *); uint8_t c_bushbe_eq(void *, void *);
//@unit bits_bushbe each=0..2
void vp_bits_bushbe(uint64_t n)
{
	START(2)
	switch (n) {
	case 0: GETSET(bushbe_0, int8_t, mem(2, 0, 4, 1, 0, 1, 8, 0)) OPS(bushbe_0, int8_t, mem(2, 0, 4, 1, 0, 1, 8, 0)) break;
	case 1: GETSET(bushbe_1, uint8_t, mem(2, 5, 5, 0, 0, 1, 1, 1)) break;
	case 2: GETSET(bushbe_2, uint16_t, mem(2, 6, 15, 0, 0, 1, 16, 0)) OPS(bushbe_2, uint16_t, mem(2, 6, 15, 0, 0, 1, 16, 0)) break;
	}
	VP_REACH();
}
//@unit bits_bushbe_whole
void vp_bits_bushbe_whole(void)
{
	START(2) BITWISE(bushbe, 2)
	uint8_t w[16] = { 0 };
	int8_t a0 = (int8_t)VP_BITS("a0", 8); put(w, mem(2, 0, 4, 1, 0, 1, 8, 0), (uint64_t)a0);
	uint8_t a1 = (uint8_t)VP_BITS("a1", 1); put(w, mem(2, 5, 5, 0, 0, 1, 1, 1), (uint64_t)a1);
	uint16_t a2 = (uint16_t)VP_BITS("a2", 16); put(w, mem(2, 6, 15, 0, 0, 1, 16, 0), (uint64_t)a2);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 2 ? x[i] : 0;
	c_bushbe_init(v, a0, a1, a2);
	ALL("an initializer sets the members and nothing else", v[i] == w[i])
	uint8_t k[16] = { 0 };
	put(k, mem(2, 0, 4, 1, 0, 1, 8, 0), 29ULL);
	put(k, mem(2, 5, 5, 0, 0, 1, 1, 1), 1ULL);
	put(k, mem(2, 6, 15, 0, 0, 1, 16, 0), 846ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 2 ? x[i] : 0;
	c_bushbe_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_bushbe_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
int32_t c_buintbe_0_get(void *), c_buintbe_0_val(void *); void c_buintbe_0_set(void *, int32_t), c_buintbe_0_des(void *, int32_t);
void c_buintbe_0_add(void *, int32_t), c_buintbe_0_xor(void *, int32_t), c_buintbe_0_inc(void *), c_buintbe_0_dec(void *);
uint8_t c_buintbe_1_get(void *), c_buintbe_1_val(void *); void c_buintbe_1_set(void *, uint8_t), c_buintbe_1_des(void *, uint8_t);
void c_buintbe_1_add(void *, uint8_t), c_buintbe_1_xor(void *, uint8_t), c_buintbe_1_inc(void *), c_buintbe_1_dec(void *);
int64_t c_buintbe_2_get(void *), c_buintbe_2_val(void *); void c_buintbe_2_set(void *, int64_t), c_buintbe_2_des(void *, int64_t);
void c_buintbe_2_add(void *, int64_t), c_buintbe_2_xor(void *, int64_t), c_buintbe_2_inc(void *), c_buintbe_2_dec(void *);
uint8_t c_buintbe_3_get(void *), c_buintbe_3_val(void *); void c_buintbe_3_set(void *, uint8_t), c_buintbe_3_des(void *, uint8_t);
void c_buintbe_init(void *, int32_t, uint8_t, int64_t, uint8_t);
void c_buintbe_const(void *), c_buintbe_glob(void *);
void c_buintbe_and(void *, void *), c_buintbe_or(void *, void *), c_buintbe_xor(void *, void *), c_buintbe_not(void *), c_buintbe_cast(void *, void *), c_buintbe_back(void *, void *); uint8_t c_buintbe_eq(void *, void *);
//@unit bits_buintbe each=0..3
void vp_bits_buintbe(uint64_t n)
{
	START(4)
	switch (n) {
	case 0: GETSET(buintbe_0, int32_t, mem(4, 0, 10, 1, 0, 1, 32, 0)) OPS(buintbe_0, int32_t, mem(4, 0, 10, 1, 0, 1, 32, 0)) break;
	case 1: GETSET(buintbe_1, uint8_t, mem(4, 11, 14, 0, 0, 1, 8, 0)) OPS(buintbe_1, uint8_t, mem(4, 11, 14, 0, 0, 1, 8, 0)) break;
	case 2: GETSET(buintbe_2, int64_t, mem(4, 15, 30, 1, 0, 1, 64, 0)) OPS(buintbe_2, int64_t, mem(4, 15, 30, 1, 0, 1, 64, 0)) break;
	case 3: GETSET(buintbe_3, uint8_t, mem(4, 31, 31, 0, 0, 1, 1, 1)) break;
	}
	VP_REACH();
}
//@unit bits_buintbe_whole
void vp_bits_buintbe_whole(void)
{
	START(4) BITWISE(buintbe, 4)
	uint8_t w[16] = { 0 };
	int32_t a0 = (int32_t)VP_BITS("a0", 32); put(w, mem(4, 0, 10, 1, 0, 1, 32, 0), (uint64_t)a0);
	uint8_t a1 = (uint8_t)VP_BITS("a1", 8); put(w, mem(4, 11, 14, 0, 0, 1, 8, 0), (uint64_t)a1);
	int64_t a2 = (int64_t)VP_BITS("a2", 64); put(w, mem(4, 15, 30, 1, 0, 1, 64, 0), (uint64_t)a2);
	uint8_t a3 = (uint8_t)VP_BITS("a3", 1); put(w, mem(4, 31, 31, 0, 0, 1, 1, 1), (uint64_t)a3);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 4 ? x[i] : 0;
	c_buintbe_init(v, a0, a1, a2, a3);
	ALL("an initializer sets the members and nothing else", v[i] == w[i])
	uint8_t k[16] = { 0 };
	put(k, mem(4, 0, 10, 1, 0, 1, 32, 0), 1158ULL);
	put(k, mem(4, 11, 14, 0, 0, 1, 8, 0), 9ULL);
	put(k, mem(4, 15, 30, 1, 0, 1, 64, 0), 62092ULL);
	put(k, mem(4, 31, 31, 0, 0, 1, 1, 1), 1ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 4 ? x[i] : 0;
	c_buintbe_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_buintbe_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
uint8_t c_bulongbe_0_get(void *), c_bulongbe_0_val(void *); void c_bulongbe_0_set(void *, uint8_t), c_bulongbe_0_des(void *, uint8_t);
uint64_t c_bulongbe_1_get(void *), c_bulongbe_1_val(void *); void c_bulongbe_1_set(void *, uint64_t), c_bulongbe_1_des(void *, uint64_t);
void c_bulongbe_1_add(void *, uint64_t), c_bulongbe_1_xor(void *, uint64_t), c_bulongbe_1_inc(void *), c_bulongbe_1_dec(void *);
int32_t c_bulongbe_2_get(void *), c_bulongbe_2_val(void *); void c_bulongbe_2_set(void *, int32_t), c_bulongbe_2_des(void *, int32_t);
void c_bulongbe_2_add(void *, int32_t), c_bulongbe_2_xor(void *, int32_t), c_bulongbe_2_inc(void *), c_bulongbe_2_dec(void *);
uint8_t c_bulongbe_3_get(void *), c_bulongbe_3_val(void *); void c_bulongbe_3_set(void *, uint8_t), c_bulongbe_3_des(void *, uint8_t);
void c_bulongbe_3_add(void *, uint8_t), c_bulongbe_3_xor(void *, uint8_t), c_bulongbe_3_inc(void *), c_bulongbe_3_dec(void *);
void c_bulongbe_init(void *, uint8_t, uint64_t, int32_t, uint8_t);
void c_bulongbe_const(void *), c_bulongbe_glob(void *);
void c_bulongbe_and(void *, void *), c_bulongbe_or(void *, void *), c_bulongbe_xor(void *, void *), c_bulongbe_not(void *), c_bulongbe_cast(void *, void *), c_bulongbe_back(void *, void *); uint8_t c_bulongbe_eq(void *, void *);
//@unit bits_bulongbe each=0..3
void vp_bits_bulongbe(uint64_t n)
{
	START(8)
	switch (n) {
	case 0: GETSET(bulongbe_0, uint8_t, mem(8, 0, 0, 0, 0, 1, 1, 1)) break;
	case 1: GETSET(bulongbe_1, uint64_t, mem(8, 1, 40, 0, 0, 1, 64, 0)) OPS(bulongbe_1, uint64_t, mem(8, 1, 40, 0, 0, 1, 64, 0)) break;
	case 2: GETSET(bulongbe_2, int32_t, mem(8, 41, 61, 1, 0, 1, 32, 0)) OPS(bulongbe_2, int32_t, mem(8, 41, 61, 1, 0, 1, 32, 0)) break;
	case 3: GETSET(bulongbe_3, uint8_t, mem(8, 62, 63, 0, 0, 1, 8, 0)) OPS(bulongbe_3, uint8_t, mem(8, 62, 63, 0, 0, 1, 8, 0)) break;
	}
	VP_REACH();
}
//@unit bits_bulongbe_whole
void vp_bits_bulongbe_whole(void)
{
	START(8) BITWISE(bulongbe, 8)
	uint8_t w[16] = { 0 };
	uint8_t a0 = (uint8_t)VP_BITS("a0", 1); put(w, mem(8, 0, 0, 0, 0, 1, 1, 1), (uint64_t)a0);
	uint64_t a1 = (uint64_t)VP_BITS("a1", 64); put(w, mem(8, 1, 40, 0, 0, 1, 64, 0), (uint64_t)a1);
	int32_t a2 = (int32_t)VP_BITS("a2", 32); put(w, mem(8, 41, 61, 1, 0, 1, 32, 0), (uint64_t)a2);
	uint8_t a3 = (uint8_t)VP_BITS("a3", 8); put(w, mem(8, 62, 63, 0, 0, 1, 8, 0), (uint64_t)a3);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 8 ? x[i] : 0;
	c_bulongbe_init(v, a0, a1, a2, a3);
	ALL("an initializer sets the members and nothing else", v[i] == w[i])
	uint8_t k[16] = { 0 };
	put(k, mem(8, 0, 0, 0, 0, 1, 1, 1), 1ULL);
	put(k, mem(8, 1, 40, 0, 0, 1, 64, 0), 642644932277ULL);
	put(k, mem(8, 41, 61, 1, 0, 1, 32, 0), 1987489ULL);
	put(k, mem(8, 62, 63, 0, 0, 1, 8, 0), 2ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 8 ? x[i] : 0;
	c_bulongbe_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_bulongbe_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
uint16_t c_buintle_0_get(void *), c_buintle_0_val(void *); void c_buintle_0_set(void *, uint16_t), c_buintle_0_des(void *, uint16_t);
void c_buintle_0_add(void *, uint16_t), c_buintle_0_xor(void *, uint16_t), c_buintle_0_inc(void *), c_buintle_0_dec(void *);
int16_t c_buintle_1_get(void *), c_buintle_1_val(void *); void c_buintle_1_set(void *, int16_t), c_buintle_1_des(void *, int16_t);
void c_buintle_1_add(void *, int16_t), c_buintle_1_xor(void *, int16_t), c_buintle_1_inc(void *), c_buintle_1_dec(void *);
void c_buintle_init(void *, uint16_t, int16_t);
void c_buintle_const(void *), c_buintle_glob(void *);
void c_buintle_and(void *, void *), c_buintle_or(void *, void *), c_buintle_xor(void *, void *), c_buintle_not(void *), c_buintle_cast(void *, void *), c_buintle_back(void *, void *); uint8_t c_buintle_eq(void *, void *);
//@unit bits_buintle each=0..1
void vp_bits_buintle(uint64_t n)
{
	START(4)
	switch (n) {
	case 0: GETSET(buintle_0, uint16_t, mem(4, 0, 15, 0, 0, 0, 16, 0)) OPS(buintle_0, uint16_t, mem(4, 0, 15, 0, 0, 0, 16, 0)) break;
	case 1: GETSET(buintle_1, int16_t, mem(4, 16, 31, 1, 0, 0, 16, 0)) OPS(buintle_1, int16_t, mem(4, 16, 31, 1, 0, 0, 16, 0)) break;
	}
	VP_REACH();
}
//@unit bits_buintle_whole
void vp_bits_buintle_whole(void)
{
	START(4) BITWISE(buintle, 4)
	uint8_t w[16] = { 0 };
	uint16_t a0 = (uint16_t)VP_BITS("a0", 16); put(w, mem(4, 0, 15, 0, 0, 0, 16, 0), (uint64_t)a0);
	int16_t a1 = (int16_t)VP_BITS("a1", 16); put(w, mem(4, 16, 31, 1, 0, 0, 16, 0), (uint64_t)a1);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 4 ? x[i] : 0;
	c_buintle_init(v, a0, a1);
	ALL("an initializer sets the members and nothing else", v[i] == w[i])
	uint8_t k[16] = { 0 };
	put(k, mem(4, 0, 15, 0, 0, 0, 16, 0), 37821ULL);
	put(k, mem(4, 16, 31, 1, 0, 0, 16, 0), 38374ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 4 ? x[i] : 0;
	c_buintle_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_buintle_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
uint32_t c_bover_0_get(void *), c_bover_0_val(void *); void c_bover_0_set(void *, uint32_t), c_bover_0_des(void *, uint32_t);
void c_bover_0_add(void *, uint32_t), c_bover_0_xor(void *, uint32_t), c_bover_0_inc(void *), c_bover_0_dec(void *);
uint16_t c_bover_1_get(void *), c_bover_1_val(void *); void c_bover_1_set(void *, uint16_t), c_bover_1_des(void *, uint16_t);
void c_bover_1_add(void *, uint16_t), c_bover_1_xor(void *, uint16_t), c_bover_1_inc(void *), c_bover_1_dec(void *);
int16_t c_bover_2_get(void *), c_bover_2_val(void *); void c_bover_2_set(void *, int16_t), c_bover_2_des(void *, int16_t);
void c_bover_2_add(void *, int16_t), c_bover_2_xor(void *, int16_t), c_bover_2_inc(void *), c_bover_2_dec(void *);
uint8_t c_bover_3_get(void *), c_bover_3_val(void *); void c_bover_3_set(void *, uint8_t), c_bover_3_des(void *, uint8_t);
void c_bover_and(void *, void *), c_bover_or(void *, void *), c_bover_xor(void *, void *), c_bover_not(void *), c_bover_cast(void *, void *), c_bover_back(void *, void *); uint8_t c_bover_eq(void *, void *);
//@unit bits_bover each=0..3
void vp_bits_bover(uint64_t n)
{
	START(4)
	switch (n) {
	case 0: GETSET(bover_0, uint32_t, mem(4, 0, 31, 0, 0, 0, 32, 0)) OPS(bover_0, uint32_t, mem(4, 0, 31, 0, 0, 0, 32, 0)) break;
	case 1: GETSET(bover_1, uint16_t, mem(4, 0, 15, 0, 0, 0, 16, 0)) OPS(bover_1, uint16_t, mem(4, 0, 15, 0, 0, 0, 16, 0)) break;
	case 2: GETSET(bover_2, int16_t, mem(4, 8, 23, 1, 0, 0, 16, 0)) OPS(bover_2, int16_t, mem(4, 8, 23, 1, 0, 0, 16, 0)) break;
	case 3: GETSET(bover_3, uint8_t, mem(4, 12, 12, 0, 0, 0, 1, 1)) break;
	}
	VP_REACH();
}
//@unit bits_bover_whole
void vp_bits_bover_whole(void)
{
	START(4) BITWISE(bover, 4)
	VP_REACH();
}
int32_t c_barr_0_get(void *), c_barr_0_val(void *); void c_barr_0_set(void *, int32_t), c_barr_0_des(void *, int32_t);
void c_barr_0_add(void *, int32_t), c_barr_0_xor(void *, int32_t), c_barr_0_inc(void *), c_barr_0_dec(void *);
uint8_t c_barr_1_get(void *), c_barr_1_val(void *); void c_barr_1_set(void *, uint8_t), c_barr_1_des(void *, uint8_t);
void c_barr_1_add(void *, uint8_t), c_barr_1_xor(void *, uint8_t), c_barr_1_inc(void *), c_barr_1_dec(void *);
uint8_t c_barr_2_get(void *), c_barr_2_val(void *); void c_barr_2_set(void *, uint8_t), c_barr_2_des(void *, uint8_t);
uint16_t c_barr_3_get(void *), c_barr_3_val(void *); void c_barr_3_set(void *, uint16_t), c_barr_3_des(void *, uint16_t);
void c_barr_3_add(void *, uint16_t), c_barr_3_xor(void *, uint16_t), c_barr_3_inc(void *), c_barr_3_dec(void *);
void c_barr_init(void *, int32_t, uint8_t, uint8_t, uint16_t);
void c_barr_const(void *), c_barr_glob(void *);
void c_barr_and(void *, void *), c_barr_or(void *, void *), c_barr_xor(void *, void *), c_barr_not(void *), c_barr_cast(void *, void *), c_barr_back(void *, void *); uint8_t c_barr_eq(void *, void *);
//@unit bits_barr each=0..3
void vp_bits_barr(uint64_t n)
{
	START(3)
	switch (n) {
	case 0: KNOWN_GETSET(barr_0, int32_t, mem(3, 0, 2, 1, 1, 0, 32, 0)) KNOWN_OPS(barr_0, int32_t, mem(3, 0, 2, 1, 1, 0, 32, 0)) break;
	case 1: GETSET(barr_1, uint8_t, mem(3, 3, 6, 0, 1, 0, 8, 0)) OPS(barr_1, uint8_t, mem(3, 3, 6, 0, 1, 0, 8, 0)) break;
	case 2: GETSET(barr_2, uint8_t, mem(3, 7, 7, 0, 1, 0, 1, 1)) break;
	case 3: GETSET(barr_3, uint16_t, mem(3, 8, 23, 0, 1, 0, 16, 0)) OPS(barr_3, uint16_t, mem(3, 8, 23, 0, 1, 0, 16, 0)) break;
	}
	VP_REACH();
}
//@unit bits_barr_lost each=0..0 known=bits-partial-last-byte
void vp_bits_barr_lost(uint64_t n)
{
	START(3)
	switch (n) {
	case 0: GETSET(barr_0, int32_t, mem(3, 0, 2, 1, 1, 0, 32, 0)) OPS(barr_0, int32_t, mem(3, 0, 2, 1, 1, 0, 32, 0)) break;
	}
	VP_REACH();
}
//@unit bits_barr_whole
void vp_bits_barr_whole(void)
{
	START(3) BITWISE(barr, 3)
	uint8_t w[16] = { 0 };
	int32_t a0 = (int32_t)VP_BITS("a0", 32); put_known(w, mem(3, 0, 2, 1, 1, 0, 32, 0), (uint64_t)a0);
	uint8_t a1 = (uint8_t)VP_BITS("a1", 8); put(w, mem(3, 3, 6, 0, 1, 0, 8, 0), (uint64_t)a1);
	uint8_t a2 = (uint8_t)VP_BITS("a2", 1); put(w, mem(3, 7, 7, 0, 1, 0, 1, 1), (uint64_t)a2);
	uint16_t a3 = (uint16_t)VP_BITS("a3", 16); put(w, mem(3, 8, 23, 0, 1, 0, 16, 0), (uint64_t)a3);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 3 ? x[i] : 0;
	c_barr_init(v, a0, a1, a2, a3);
	for (int i = 0; i < 3; i++) VP_ENSURES("an initializer sets the members and nothing else", v[i] == w[i]);
	uint8_t k[16] = { 0 };
	put(k, mem(3, 0, 2, 1, 1, 0, 32, 0), 7ULL);
	put(k, mem(3, 3, 6, 0, 1, 0, 8, 0), 8ULL);
	put(k, mem(3, 7, 7, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(3, 8, 23, 0, 1, 0, 16, 0), 47256ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 3 ? x[i] : 0;
	c_barr_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_barr_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
uint32_t c_bfill_0_get(void *), c_bfill_0_val(void *); void c_bfill_0_set(void *, uint32_t), c_bfill_0_des(void *, uint32_t);
void c_bfill_0_add(void *, uint32_t), c_bfill_0_xor(void *, uint32_t), c_bfill_0_inc(void *), c_bfill_0_dec(void *);
int16_t c_bfill_1_get(void *), c_bfill_1_val(void *); void c_bfill_1_set(void *, int16_t), c_bfill_1_des(void *, int16_t);
void c_bfill_1_add(void *, int16_t), c_bfill_1_xor(void *, int16_t), c_bfill_1_inc(void *), c_bfill_1_dec(void *);
uint8_t c_bfill_2_get(void *), c_bfill_2_val(void *); void c_bfill_2_set(void *, uint8_t), c_bfill_2_des(void *, uint8_t);
void c_bfill_2_add(void *, uint8_t), c_bfill_2_xor(void *, uint8_t), c_bfill_2_inc(void *), c_bfill_2_dec(void *);
int8_t c_bfill_3_get(void *), c_bfill_3_val(void *); void c_bfill_3_set(void *, int8_t), c_bfill_3_des(void *, int8_t);
void c_bfill_3_add(void *, int8_t), c_bfill_3_xor(void *, int8_t), c_bfill_3_inc(void *), c_bfill_3_dec(void *);
uint8_t c_bfill_4_get(void *), c_bfill_4_val(void *); void c_bfill_4_set(void *, uint8_t), c_bfill_4_des(void *, uint8_t);
uint16_t c_bfill_5_get(void *), c_bfill_5_val(void *); void c_bfill_5_set(void *, uint16_t), c_bfill_5_des(void *, uint16_t);
void c_bfill_5_add(void *, uint16_t), c_bfill_5_xor(void *, uint16_t), c_bfill_5_inc(void *), c_bfill_5_dec(void *);
void c_bfill_init(void *, uint32_t, int16_t, uint8_t, int8_t, uint8_t, uint16_t);
void c_bfill_const(void *), c_bfill_glob(void *);
void c_bfill_and(void *, void *), c_bfill_or(void *, void *), c_bfill_xor(void *, void *), c_bfill_not(void *), c_bfill_cast(void *, void *), c_bfill_back(void *, void *); uint8_t c_bfill_eq(void *, void *);
//@unit bits_bfill each=0..5
void vp_bits_bfill(uint64_t n)
{
	START(6)
	switch (n) {
	case 0: GETSET(bfill_0, uint32_t, mem(6, 0, 7, 0, 1, 0, 32, 0)) OPS(bfill_0, uint32_t, mem(6, 0, 7, 0, 1, 0, 32, 0)) break;
	case 1: GETSET(bfill_1, int16_t, mem(6, 8, 23, 1, 1, 0, 16, 0)) OPS(bfill_1, int16_t, mem(6, 8, 23, 1, 1, 0, 16, 0)) break;
	case 2: KNOWN_GETSET(bfill_2, uint8_t, mem(6, 24, 27, 0, 1, 0, 8, 0)) KNOWN_OPS(bfill_2, uint8_t, mem(6, 24, 27, 0, 1, 0, 8, 0)) break;
	case 3: GETSET(bfill_3, int8_t, mem(6, 28, 30, 1, 1, 0, 8, 0)) OPS(bfill_3, int8_t, mem(6, 28, 30, 1, 1, 0, 8, 0)) break;
	case 4: GETSET(bfill_4, uint8_t, mem(6, 31, 31, 0, 1, 0, 1, 1)) break;
	case 5: GETSET(bfill_5, uint16_t, mem(6, 32, 47, 0, 1, 0, 16, 0)) OPS(bfill_5, uint16_t, mem(6, 32, 47, 0, 1, 0, 16, 0)) break;
	}
	VP_REACH();
}
//@unit bits_bfill_lost each=0..0 known=bits-partial-last-byte
void vp_bits_bfill_lost(uint64_t n)
{
	START(6)
	switch (n) {
	case 0: GETSET(bfill_2, uint8_t, mem(6, 24, 27, 0, 1, 0, 8, 0)) OPS(bfill_2, uint8_t, mem(6, 24, 27, 0, 1, 0, 8, 0)) break;
	}
	VP_REACH();
}
//@unit bits_bfill_whole
void vp_bits_bfill_whole(void)
{
	START(6) BITWISE(bfill, 6)
	uint8_t w[16] = { 0 };
	uint32_t a0 = (uint32_t)VP_BITS("a0", 32); put(w, mem(6, 0, 7, 0, 1, 0, 32, 0), (uint64_t)a0);
	int16_t a1 = (int16_t)VP_BITS("a1", 16); put(w, mem(6, 8, 23, 1, 1, 0, 16, 0), (uint64_t)a1);
	uint8_t a2 = (uint8_t)VP_BITS("a2", 8); put_known(w, mem(6, 24, 27, 0, 1, 0, 8, 0), (uint64_t)a2);
	int8_t a3 = (int8_t)VP_BITS("a3", 8); put(w, mem(6, 28, 30, 1, 1, 0, 8, 0), (uint64_t)a3);
	uint8_t a4 = (uint8_t)VP_BITS("a4", 1); put(w, mem(6, 31, 31, 0, 1, 0, 1, 1), (uint64_t)a4);
	uint16_t a5 = (uint16_t)VP_BITS("a5", 16); put(w, mem(6, 32, 47, 0, 1, 0, 16, 0), (uint64_t)a5);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 6 ? x[i] : 0;
	c_bfill_init(v, a0, a1, a2, a3, a4, a5);
	for (int i = 0; i < 6; i++) VP_ENSURES("an initializer sets the members and nothing else", v[i] == w[i]);
	uint8_t k[16] = { 0 };
	put(k, mem(6, 0, 7, 0, 1, 0, 32, 0), 139ULL);
	put(k, mem(6, 8, 23, 1, 1, 0, 16, 0), 36481ULL);
	put(k, mem(6, 24, 27, 0, 1, 0, 8, 0), 13ULL);
	put(k, mem(6, 28, 30, 1, 1, 0, 8, 0), 5ULL);
	put(k, mem(6, 31, 31, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(6, 32, 47, 0, 1, 0, 16, 0), 60236ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 6 ? x[i] : 0;
	c_bfill_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_bfill_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
uint8_t c_bcross_0_get(void *), c_bcross_0_val(void *); void c_bcross_0_set(void *, uint8_t), c_bcross_0_des(void *, uint8_t);
uint32_t c_bcross_1_get(void *), c_bcross_1_val(void *); void c_bcross_1_set(void *, uint32_t), c_bcross_1_des(void *, uint32_t);
void c_bcross_1_add(void *, uint32_t), c_bcross_1_xor(void *, uint32_t), c_bcross_1_inc(void *), c_bcross_1_dec(void *);
uint8_t c_bcross_2_get(void *), c_bcross_2_val(void *); void c_bcross_2_set(void *, uint8_t), c_bcross_2_des(void *, uint8_t);
void c_bcross_2_add(void *, uint8_t), c_bcross_2_xor(void *, uint8_t), c_bcross_2_inc(void *), c_bcross_2_dec(void *);
int32_t c_bcross_3_get(void *), c_bcross_3_val(void *); void c_bcross_3_set(void *, int32_t), c_bcross_3_des(void *, int32_t);
void c_bcross_3_add(void *, int32_t), c_bcross_3_xor(void *, int32_t), c_bcross_3_inc(void *), c_bcross_3_dec(void *);
uint8_t c_bcross_4_get(void *), c_bcross_4_val(void *); void c_bcross_4_set(void *, uint8_t), c_bcross_4_des(void *, uint8_t);
uint8_t c_bcross_5_get(void *), c_bcross_5_val(void *); void c_bcross_5_set(void *, uint8_t), c_bcross_5_des(void *, uint8_t);
void c_bcross_5_add(void *, uint8_t), c_bcross_5_xor(void *, uint8_t), c_bcross_5_inc(void *), c_bcross_5_dec(void *);
uint8_t c_bcross_6_get(void *), c_bcross_6_val(void *); void c_bcross_6_set(void *, uint8_t), c_bcross_6_des(void *, uint8_t);
void c_bcross_init(void *, uint8_t, uint32_t, uint8_t, int32_t, uint8_t, uint8_t, uint8_t);
void c_bcross_const(void *), c_bcross_glob(void *);
void c_bcross_and(void *, void *), c_bcross_or(void *, void *), c_bcross_xor(void *, void *), c_bcross_not(void *), c_bcross_cast(void *, void *), c_bcross_back(void *, void *); uint8_t c_bcross_eq(void *, void *);
//@unit bits_bcross each=0..6
void vp_bits_bcross(uint64_t n)
{
	START(6)
	switch (n) {
	case 0: GETSET(bcross_0, uint8_t, mem(6, 0, 0, 0, 1, 0, 1, 1)) break;
	case 1: GETSET(bcross_1, uint32_t, mem(6, 1, 15, 0, 1, 0, 32, 0)) OPS(bcross_1, uint32_t, mem(6, 1, 15, 0, 1, 0, 32, 0)) break;
	case 2: KNOWN_GETSET(bcross_2, uint8_t, mem(6, 16, 18, 0, 1, 0, 8, 0)) KNOWN_OPS(bcross_2, uint8_t, mem(6, 16, 18, 0, 1, 0, 8, 0)) break;
	case 3: GETSET(bcross_3, int32_t, mem(6, 19, 39, 1, 1, 0, 32, 0)) OPS(bcross_3, int32_t, mem(6, 19, 39, 1, 1, 0, 32, 0)) break;
	case 4: GETSET(bcross_4, uint8_t, mem(6, 43, 43, 0, 1, 0, 1, 1)) break;
	case 5: GETSET(bcross_5, uint8_t, mem(6, 44, 46, 0, 1, 0, 8, 0)) OPS(bcross_5, uint8_t, mem(6, 44, 46, 0, 1, 0, 8, 0)) break;
	case 6: GETSET(bcross_6, uint8_t, mem(6, 47, 47, 0, 1, 0, 1, 1)) break;
	}
	VP_REACH();
}
//@unit bits_bcross_lost each=0..0 known=bits-partial-last-byte
void vp_bits_bcross_lost(uint64_t n)
{
	START(6)
	switch (n) {
	case 0: GETSET(bcross_2, uint8_t, mem(6, 16, 18, 0, 1, 0, 8, 0)) OPS(bcross_2, uint8_t, mem(6, 16, 18, 0, 1, 0, 8, 0)) break;
	}
	VP_REACH();
}
//@unit bits_bcross_whole
void vp_bits_bcross_whole(void)
{
	START(6) BITWISE(bcross, 6)
	uint8_t w[16] = { 0 };
	uint8_t a0 = (uint8_t)VP_BITS("a0", 1); put(w, mem(6, 0, 0, 0, 1, 0, 1, 1), (uint64_t)a0);
	uint32_t a1 = (uint32_t)VP_BITS("a1", 32); put(w, mem(6, 1, 15, 0, 1, 0, 32, 0), (uint64_t)a1);
	uint8_t a2 = (uint8_t)VP_BITS("a2", 8); put_known(w, mem(6, 16, 18, 0, 1, 0, 8, 0), (uint64_t)a2);
	int32_t a3 = (int32_t)VP_BITS("a3", 32); put(w, mem(6, 19, 39, 1, 1, 0, 32, 0), (uint64_t)a3);
	uint8_t a4 = (uint8_t)VP_BITS("a4", 1); put(w, mem(6, 43, 43, 0, 1, 0, 1, 1), (uint64_t)a4);
	uint8_t a5 = (uint8_t)VP_BITS("a5", 8); put(w, mem(6, 44, 46, 0, 1, 0, 8, 0), (uint64_t)a5);
	uint8_t a6 = (uint8_t)VP_BITS("a6", 1); put(w, mem(6, 47, 47, 0, 1, 0, 1, 1), (uint64_t)a6);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 6 ? x[i] : 0;
	c_bcross_init(v, a0, a1, a2, a3, a4, a5, a6);
	for (int i = 0; i < 6; i++) VP_ENSURES("an initializer sets the members and nothing else", v[i] == w[i]);
	uint8_t k[16] = { 0 };
	put(k, mem(6, 0, 0, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(6, 1, 15, 0, 1, 0, 32, 0), 17717ULL);
	put(k, mem(6, 16, 18, 0, 1, 0, 8, 0), 4ULL);
	put(k, mem(6, 19, 39, 1, 1, 0, 32, 0), 1197292ULL);
	put(k, mem(6, 43, 43, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(6, 44, 46, 0, 1, 0, 8, 0), 4ULL);
	put(k, mem(6, 47, 47, 0, 1, 0, 1, 1), 1ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 6 ? x[i] : 0;
	c_bcross_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_bcross_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
uint8_t c_bpart_0_get(void *), c_bpart_0_val(void *); void c_bpart_0_set(void *, uint8_t), c_bpart_0_des(void *, uint8_t);
void c_bpart_0_add(void *, uint8_t), c_bpart_0_xor(void *, uint8_t), c_bpart_0_inc(void *), c_bpart_0_dec(void *);
uint32_t c_bpart_1_get(void *), c_bpart_1_val(void *); void c_bpart_1_set(void *, uint32_t), c_bpart_1_des(void *, uint32_t);
void c_bpart_1_add(void *, uint32_t), c_bpart_1_xor(void *, uint32_t), c_bpart_1_inc(void *), c_bpart_1_dec(void *);
int32_t c_bpart_2_get(void *), c_bpart_2_val(void *); void c_bpart_2_set(void *, int32_t), c_bpart_2_des(void *, int32_t);
void c_bpart_2_add(void *, int32_t), c_bpart_2_xor(void *, int32_t), c_bpart_2_inc(void *), c_bpart_2_dec(void *);
uint64_t c_bpart_3_get(void *), c_bpart_3_val(void *); void c_bpart_3_set(void *, uint64_t), c_bpart_3_des(void *, uint64_t);
void c_bpart_3_add(void *, uint64_t), c_bpart_3_xor(void *, uint64_t), c_bpart_3_inc(void *), c_bpart_3_dec(void *);
uint8_t c_bpart_4_get(void *), c_bpart_4_val(void *); void c_bpart_4_set(void *, uint8_t), c_bpart_4_des(void *, uint8_t);
void c_bpart_init(void *, uint8_t, uint32_t, int32_t, uint64_t, uint8_t);
void c_bpart_const(void *), c_bpart_glob(void *);
void c_bpart_and(void *, void *), c_bpart_or(void *, void *), c_bpart_xor(void *, void *), c_bpart_not(void *), c_bpart_cast(void *, void *), c_bpart_back(void *, void *); uint8_t c_bpart_eq(void *, void *);
//@unit bits_bpart each=0..4
void vp_bits_bpart(uint64_t n)
{
	START(8)
	switch (n) {
	case 0: KNOWN_GETSET(bpart_0, uint8_t, mem(8, 0, 2, 0, 1, 0, 8, 0)) KNOWN_OPS(bpart_0, uint8_t, mem(8, 0, 2, 0, 1, 0, 8, 0)) break;
	case 1: KNOWN_GETSET(bpart_1, uint32_t, mem(8, 3, 12, 0, 1, 0, 32, 0)) KNOWN_OPS(bpart_1, uint32_t, mem(8, 3, 12, 0, 1, 0, 32, 0)) break;
	case 2: KNOWN_GETSET(bpart_2, int32_t, mem(8, 13, 35, 1, 1, 0, 32, 0)) KNOWN_OPS(bpart_2, int32_t, mem(8, 13, 35, 1, 1, 0, 32, 0)) break;
	case 3: KNOWN_GETSET(bpart_3, uint64_t, mem(8, 36, 61, 0, 1, 0, 64, 0)) KNOWN_OPS(bpart_3, uint64_t, mem(8, 36, 61, 0, 1, 0, 64, 0)) break;
	case 4: GETSET(bpart_4, uint8_t, mem(8, 62, 62, 0, 1, 0, 1, 1)) break;
	}
	VP_REACH();
}
//@unit bits_bpart_lost each=0..3 known=bits-partial-last-byte
void vp_bits_bpart_lost(uint64_t n)
{
	START(8)
	switch (n) {
	case 0: GETSET(bpart_0, uint8_t, mem(8, 0, 2, 0, 1, 0, 8, 0)) OPS(bpart_0, uint8_t, mem(8, 0, 2, 0, 1, 0, 8, 0)) break;
	case 1: GETSET(bpart_1, uint32_t, mem(8, 3, 12, 0, 1, 0, 32, 0)) OPS(bpart_1, uint32_t, mem(8, 3, 12, 0, 1, 0, 32, 0)) break;
	case 2: GETSET(bpart_2, int32_t, mem(8, 13, 35, 1, 1, 0, 32, 0)) OPS(bpart_2, int32_t, mem(8, 13, 35, 1, 1, 0, 32, 0)) break;
	case 3: GETSET(bpart_3, uint64_t, mem(8, 36, 61, 0, 1, 0, 64, 0)) OPS(bpart_3, uint64_t, mem(8, 36, 61, 0, 1, 0, 64, 0)) break;
	}
	VP_REACH();
}
//@unit bits_bpart_whole
void vp_bits_bpart_whole(void)
{
	START(8) BITWISE(bpart, 8)
	uint8_t w[16] = { 0 };
	uint8_t a0 = (uint8_t)VP_BITS("a0", 8); put_known(w, mem(8, 0, 2, 0, 1, 0, 8, 0), (uint64_t)a0);
	uint32_t a1 = (uint32_t)VP_BITS("a1", 32); put_known(w, mem(8, 3, 12, 0, 1, 0, 32, 0), (uint64_t)a1);
	int32_t a2 = (int32_t)VP_BITS("a2", 32); put_known(w, mem(8, 13, 35, 1, 1, 0, 32, 0), (uint64_t)a2);
	uint64_t a3 = (uint64_t)VP_BITS("a3", 64); put_known(w, mem(8, 36, 61, 0, 1, 0, 64, 0), (uint64_t)a3);
	uint8_t a4 = (uint8_t)VP_BITS("a4", 1); put(w, mem(8, 62, 62, 0, 1, 0, 1, 1), (uint64_t)a4);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 8 ? x[i] : 0;
	c_bpart_init(v, a0, a1, a2, a3, a4);
	for (int i = 0; i < 8; i++) VP_ENSURES("an initializer sets the members and nothing else", v[i] == w[i]);
	uint8_t k[16] = { 0 };
	put(k, mem(8, 0, 2, 0, 1, 0, 8, 0), 5ULL);
	put(k, mem(8, 3, 12, 0, 1, 0, 32, 0), 697ULL);
	put(k, mem(8, 13, 35, 1, 1, 0, 32, 0), 5058797ULL);
	put(k, mem(8, 36, 61, 0, 1, 0, 64, 0), 39030526ULL);
	put(k, mem(8, 62, 62, 0, 1, 0, 1, 1), 1ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 8 ? x[i] : 0;
	c_bpart_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_bpart_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
uint64_t c_blong_0_get(void *), c_blong_0_val(void *); void c_blong_0_set(void *, uint64_t), c_blong_0_des(void *, uint64_t);
void c_blong_0_add(void *, uint64_t), c_blong_0_xor(void *, uint64_t), c_blong_0_inc(void *), c_blong_0_dec(void *);
uint8_t c_blong_1_get(void *), c_blong_1_val(void *); void c_blong_1_set(void *, uint8_t), c_blong_1_des(void *, uint8_t);
uint8_t c_blong_2_get(void *), c_blong_2_val(void *); void c_blong_2_set(void *, uint8_t), c_blong_2_des(void *, uint8_t);
void c_blong_2_add(void *, uint8_t), c_blong_2_xor(void *, uint8_t), c_blong_2_inc(void *), c_blong_2_dec(void *);
int8_t c_blong_3_get(void *), c_blong_3_val(void *); void c_blong_3_set(void *, int8_t), c_blong_3_des(void *, int8_t);
void c_blong_3_add(void *, int8_t), c_blong_3_xor(void *, int8_t), c_blong_3_inc(void *), c_blong_3_dec(void *);
uint32_t c_blong_4_get(void *), c_blong_4_val(void *); void c_blong_4_set(void *, uint32_t), c_blong_4_des(void *, uint32_t);
void c_blong_4_add(void *, uint32_t), c_blong_4_xor(void *, uint32_t), c_blong_4_inc(void *), c_blong_4_dec(void *);
void c_blong_init(void *, uint64_t, uint8_t, uint8_t, int8_t, uint32_t);
void c_blong_const(void *), c_blong_glob(void *);
void c_blong_and(void *, void *), c_blong_or(void *, void *), c_blong_xor(void *, void *), c_blong_not(void *), c_blong_cast(void *, void *), c_blong_back(void *, void *); uint8_t c_blong_eq(void *, void *);
//@unit bits_blong each=0..4
void vp_bits_blong(uint64_t n)
{
	START(12)
	switch (n) {
	case 0: GETSET(blong_0, uint64_t, mem(12, 0, 63, 0, 1, 0, 64, 0)) OPS(blong_0, uint64_t, mem(12, 0, 63, 0, 1, 0, 64, 0)) break;
	case 1: GETSET(blong_1, uint8_t, mem(12, 64, 64, 0, 1, 0, 1, 1)) break;
	case 2: GETSET(blong_2, uint8_t, mem(12, 65, 68, 0, 1, 0, 8, 0)) OPS(blong_2, uint8_t, mem(12, 65, 68, 0, 1, 0, 8, 0)) break;
	case 3: GETSET(blong_3, int8_t, mem(12, 69, 71, 1, 1, 0, 8, 0)) OPS(blong_3, int8_t, mem(12, 69, 71, 1, 1, 0, 8, 0)) break;
	case 4: GETSET(blong_4, uint32_t, mem(12, 72, 95, 0, 1, 0, 32, 0)) OPS(blong_4, uint32_t, mem(12, 72, 95, 0, 1, 0, 32, 0)) break;
	}
	VP_REACH();
}
//@unit bits_blong_whole
void vp_bits_blong_whole(void)
{
	START(12) BITWISE(blong, 12)
	uint8_t w[16] = { 0 };
	uint64_t a0 = (uint64_t)VP_BITS("a0", 64); put(w, mem(12, 0, 63, 0, 1, 0, 64, 0), (uint64_t)a0);
	uint8_t a1 = (uint8_t)VP_BITS("a1", 1); put(w, mem(12, 64, 64, 0, 1, 0, 1, 1), (uint64_t)a1);
	uint8_t a2 = (uint8_t)VP_BITS("a2", 8); put(w, mem(12, 65, 68, 0, 1, 0, 8, 0), (uint64_t)a2);
	int8_t a3 = (int8_t)VP_BITS("a3", 8); put(w, mem(12, 69, 71, 1, 1, 0, 8, 0), (uint64_t)a3);
	uint32_t a4 = (uint32_t)VP_BITS("a4", 32); put(w, mem(12, 72, 95, 0, 1, 0, 32, 0), (uint64_t)a4);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 12 ? x[i] : 0;
	c_blong_init(v, a0, a1, a2, a3, a4);
	ALL("an initializer sets the members and nothing else", v[i] == w[i])
	uint8_t k[16] = { 0 };
	put(k, mem(12, 0, 63, 0, 1, 0, 64, 0), 12688980759899264327ULL);
	put(k, mem(12, 64, 64, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(12, 65, 68, 0, 1, 0, 8, 0), 9ULL);
	put(k, mem(12, 69, 71, 1, 1, 0, 8, 0), 4ULL);
	put(k, mem(12, 72, 95, 0, 1, 0, 32, 0), 11947236ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 12 ? x[i] : 0;
	c_blong_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_blong_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
uint8_t c_bbool_0_get(void *), c_bbool_0_val(void *); void c_bbool_0_set(void *, uint8_t), c_bbool_0_des(void *, uint8_t);
uint8_t c_bbool_1_get(void *), c_bbool_1_val(void *); void c_bbool_1_set(void *, uint8_t), c_bbool_1_des(void *, uint8_t);
uint8_t c_bbool_2_get(void *), c_bbool_2_val(void *); void c_bbool_2_set(void *, uint8_t), c_bbool_2_des(void *, uint8_t);
uint8_t c_bbool_3_get(void *), c_bbool_3_val(void *); void c_bbool_3_set(void *, uint8_t), c_bbool_3_des(void *, uint8_t);
uint8_t c_bbool_4_get(void *), c_bbool_4_val(void *); void c_bbool_4_set(void *, uint8_t), c_bbool_4_des(void *, uint8_t);
uint8_t c_bbool_5_get(void *), c_bbool_5_val(void *); void c_bbool_5_set(void *, uint8_t), c_bbool_5_des(void *, uint8_t);
uint8_t c_bbool_6_get(void *), c_bbool_6_val(void *); void c_bbool_6_set(void *, uint8_t), c_bbool_6_des(void *, uint8_t);
uint8_t c_bbool_7_get(void *), c_bbool_7_val(void *); void c_bbool_7_set(void *, uint8_t), c_bbool_7_des(void *, uint8_t);
uint8_t c_bbool_8_get(void *), c_bbool_8_val(void *); void c_bbool_8_set(void *, uint8_t), c_bbool_8_des(void *, uint8_t);
uint8_t c_bbool_9_get(void *), c_bbool_9_val(void *); void c_bbool_9_set(void *, uint8_t), c_bbool_9_des(void *, uint8_t);
uint8_t c_bbool_10_get(void *), c_bbool_10_val(void *); void c_bbool_10_set(void *, uint8_t), c_bbool_10_des(void *, uint8_t);
uint8_t c_bbool_11_get(void *), c_bbool_11_val(void *); void c_bbool_11_set(void *, uint8_t), c_bbool_11_des(void *, uint8_t);
uint8_t c_bbool_12_get(void *), c_bbool_12_val(void *); void c_bbool_12_set(void *, uint8_t), c_bbool_12_des(void *, uint8_t);
uint8_t c_bbool_13_get(void *), c_bbool_13_val(void *); void c_bbool_13_set(void *, uint8_t), c_bbool_13_des(void *, uint8_t);
uint8_t c_bbool_14_get(void *), c_bbool_14_val(void *); void c_bbool_14_set(void *, uint8_t), c_bbool_14_des(void *, uint8_t);
uint8_t c_bbool_15_get(void *), c_bbool_15_val(void *); void c_bbool_15_set(void *, uint8_t), c_bbool_15_des(void *, uint8_t);
void c_bbool_init(void *, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t);
void c_bbool_const(void *), c_bbool_glob(void *);
void c_bbool_and(void *, void *), c_bbool_or(void *, void *), c_bbool_xor(void *, void *), c_bbool_not(void *), c_bbool_cast(void *, void *), c_bbool_back(void *, void *); uint8_t c_bbool_eq(void *, void *);
//@unit bits_bbool each=0..15
void vp_bits_bbool(uint64_t n)
{
	START(2)
	switch (n) {
	case 0: GETSET(bbool_0, uint8_t, mem(2, 0, 0, 0, 1, 0, 1, 1)) break;
	case 1: GETSET(bbool_1, uint8_t, mem(2, 1, 1, 0, 1, 0, 1, 1)) break;
	case 2: GETSET(bbool_2, uint8_t, mem(2, 2, 2, 0, 1, 0, 1, 1)) break;
	case 3: GETSET(bbool_3, uint8_t, mem(2, 3, 3, 0, 1, 0, 1, 1)) break;
	case 4: GETSET(bbool_4, uint8_t, mem(2, 4, 4, 0, 1, 0, 1, 1)) break;
	case 5: GETSET(bbool_5, uint8_t, mem(2, 5, 5, 0, 1, 0, 1, 1)) break;
	case 6: GETSET(bbool_6, uint8_t, mem(2, 6, 6, 0, 1, 0, 1, 1)) break;
	case 7: GETSET(bbool_7, uint8_t, mem(2, 7, 7, 0, 1, 0, 1, 1)) break;
	case 8: GETSET(bbool_8, uint8_t, mem(2, 8, 8, 0, 1, 0, 1, 1)) break;
	case 9: GETSET(bbool_9, uint8_t, mem(2, 9, 9, 0, 1, 0, 1, 1)) break;
	case 10: GETSET(bbool_10, uint8_t, mem(2, 10, 10, 0, 1, 0, 1, 1)) break;
	case 11: GETSET(bbool_11, uint8_t, mem(2, 11, 11, 0, 1, 0, 1, 1)) break;
	case 12: GETSET(bbool_12, uint8_t, mem(2, 12, 12, 0, 1, 0, 1, 1)) break;
	case 13: GETSET(bbool_13, uint8_t, mem(2, 13, 13, 0, 1, 0, 1, 1)) break;
	case 14: GETSET(bbool_14, uint8_t, mem(2, 14, 14, 0, 1, 0, 1, 1)) break;
	case 15: GETSET(bbool_15, uint8_t, mem(2, 15, 15, 0, 1, 0, 1, 1)) break;
	}
	VP_REACH();
}
//@unit bits_bbool_whole
void vp_bits_bbool_whole(void)
{
	START(2) BITWISE(bbool, 2)
	uint8_t w[16] = { 0 };
	uint8_t a0 = (uint8_t)VP_BITS("a0", 1); put(w, mem(2, 0, 0, 0, 1, 0, 1, 1), (uint64_t)a0);
	uint8_t a1 = (uint8_t)VP_BITS("a1", 1); put(w, mem(2, 1, 1, 0, 1, 0, 1, 1), (uint64_t)a1);
	uint8_t a2 = (uint8_t)VP_BITS("a2", 1); put(w, mem(2, 2, 2, 0, 1, 0, 1, 1), (uint64_t)a2);
	uint8_t a3 = (uint8_t)VP_BITS("a3", 1); put(w, mem(2, 3, 3, 0, 1, 0, 1, 1), (uint64_t)a3);
	uint8_t a4 = (uint8_t)VP_BITS("a4", 1); put(w, mem(2, 4, 4, 0, 1, 0, 1, 1), (uint64_t)a4);
	uint8_t a5 = (uint8_t)VP_BITS("a5", 1); put(w, mem(2, 5, 5, 0, 1, 0, 1, 1), (uint64_t)a5);
	uint8_t a6 = (uint8_t)VP_BITS("a6", 1); put(w, mem(2, 6, 6, 0, 1, 0, 1, 1), (uint64_t)a6);
	uint8_t a7 = (uint8_t)VP_BITS("a7", 1); put(w, mem(2, 7, 7, 0, 1, 0, 1, 1), (uint64_t)a7);
	uint8_t a8 = (uint8_t)VP_BITS("a8", 1); put(w, mem(2, 8, 8, 0, 1, 0, 1, 1), (uint64_t)a8);
	uint8_t a9 = (uint8_t)VP_BITS("a9", 1); put(w, mem(2, 9, 9, 0, 1, 0, 1, 1), (uint64_t)a9);
	uint8_t a10 = (uint8_t)VP_BITS("a10", 1); put(w, mem(2, 10, 10, 0, 1, 0, 1, 1), (uint64_t)a10);
	uint8_t a11 = (uint8_t)VP_BITS("a11", 1); put(w, mem(2, 11, 11, 0, 1, 0, 1, 1), (uint64_t)a11);
	uint8_t a12 = (uint8_t)VP_BITS("a12", 1); put(w, mem(2, 12, 12, 0, 1, 0, 1, 1), (uint64_t)a12);
	uint8_t a13 = (uint8_t)VP_BITS("a13", 1); put(w, mem(2, 13, 13, 0, 1, 0, 1, 1), (uint64_t)a13);
	uint8_t a14 = (uint8_t)VP_BITS("a14", 1); put(w, mem(2, 14, 14, 0, 1, 0, 1, 1), (uint64_t)a14);
	uint8_t a15 = (uint8_t)VP_BITS("a15", 1); put(w, mem(2, 15, 15, 0, 1, 0, 1, 1), (uint64_t)a15);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 2 ? x[i] : 0;
	c_bbool_init(v, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15);
	ALL("an initializer sets the members and nothing else", v[i] == w[i])
	uint8_t k[16] = { 0 };
	put(k, mem(2, 0, 0, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 1, 1, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 2, 2, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 3, 3, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 4, 4, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 5, 5, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 6, 6, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 7, 7, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 8, 8, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 9, 9, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 10, 10, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 11, 11, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 12, 12, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 13, 13, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 14, 14, 0, 1, 0, 1, 1), 1ULL);
	put(k, mem(2, 15, 15, 0, 1, 0, 1, 1), 1ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 2 ? x[i] : 0;
	c_bbool_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_bbool_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
uint16_t c_barrbe_0_get(void *), c_barrbe_0_val(void *); void c_barrbe_0_set(void *, uint16_t), c_barrbe_0_des(void *, uint16_t);
void c_barrbe_0_add(void *, uint16_t), c_barrbe_0_xor(void *, uint16_t), c_barrbe_0_inc(void *), c_barrbe_0_dec(void *);
uint32_t c_barrbe_1_get(void *), c_barrbe_1_val(void *); void c_barrbe_1_set(void *, uint32_t), c_barrbe_1_des(void *, uint32_t);
void c_barrbe_1_add(void *, uint32_t), c_barrbe_1_xor(void *, uint32_t), c_barrbe_1_inc(void *), c_barrbe_1_dec(void *);
uint8_t c_barrbe_2_get(void *), c_barrbe_2_val(void *); void c_barrbe_2_set(void *, uint8_t), c_barrbe_2_des(void *, uint8_t);
void c_barrbe_2_add(void *, uint8_t), c_barrbe_2_xor(void *, uint8_t), c_barrbe_2_inc(void *), c_barrbe_2_dec(void *);
int8_t c_barrbe_3_get(void *), c_barrbe_3_val(void *); void c_barrbe_3_set(void *, int8_t), c_barrbe_3_des(void *, int8_t);
void c_barrbe_3_add(void *, int8_t), c_barrbe_3_xor(void *, int8_t), c_barrbe_3_inc(void *), c_barrbe_3_dec(void *);
uint8_t c_barrbe_4_get(void *), c_barrbe_4_val(void *); void c_barrbe_4_set(void *, uint8_t), c_barrbe_4_des(void *, uint8_t);
uint8_t c_barrbe_5_get(void *), c_barrbe_5_val(void *); void c_barrbe_5_set(void *, uint8_t), c_barrbe_5_des(void *, uint8_t);
void c_barrbe_5_add(void *, uint8_t), c_barrbe_5_xor(void *, uint8_t), c_barrbe_5_inc(void *), c_barrbe_5_dec(void *);
void c_barrbe_init(void *, uint16_t, uint32_t, uint8_t, int8_t, uint8_t, uint8_t);
void c_barrbe_const(void *), c_barrbe_glob(void *);
void c_barrbe_and(void *, void *), c_barrbe_or(void *, void *), c_barrbe_xor(void *, void *), c_barrbe_not(void *), c_barrbe_cast(void *, void *), c_barrbe_back(void *, void *); uint8_t c_barrbe_eq(void *, void *);
//@unit bits_barrbe each=0..5
void vp_bits_barrbe(uint64_t n)
{
	START(8)
	switch (n) {
	case 0: GETSET(barrbe_0, uint16_t, mem(8, 0, 15, 0, 1, 1, 16, 0)) OPS(barrbe_0, uint16_t, mem(8, 0, 15, 0, 1, 1, 16, 0)) break;
	case 1: GETSET(barrbe_1, uint32_t, mem(8, 16, 47, 0, 1, 1, 32, 0)) OPS(barrbe_1, uint32_t, mem(8, 16, 47, 0, 1, 1, 32, 0)) break;
	case 2: KNOWN_GETSET(barrbe_2, uint8_t, mem(8, 48, 51, 0, 1, 1, 8, 0)) KNOWN_OPS(barrbe_2, uint8_t, mem(8, 48, 51, 0, 1, 1, 8, 0)) break;
	case 3: GETSET(barrbe_3, int8_t, mem(8, 52, 54, 1, 1, 1, 8, 0)) OPS(barrbe_3, int8_t, mem(8, 52, 54, 1, 1, 1, 8, 0)) break;
	case 4: GETSET(barrbe_4, uint8_t, mem(8, 55, 55, 0, 1, 1, 1, 1)) break;
	case 5: GETSET(barrbe_5, uint8_t, mem(8, 56, 63, 0, 1, 1, 8, 0)) OPS(barrbe_5, uint8_t, mem(8, 56, 63, 0, 1, 1, 8, 0)) break;
	}
	VP_REACH();
}
//@unit bits_barrbe_lost each=0..0 known=bits-partial-last-byte
void vp_bits_barrbe_lost(uint64_t n)
{
	START(8)
	switch (n) {
	case 0: GETSET(barrbe_2, uint8_t, mem(8, 48, 51, 0, 1, 1, 8, 0)) OPS(barrbe_2, uint8_t, mem(8, 48, 51, 0, 1, 1, 8, 0)) break;
	}
	VP_REACH();
}
//@unit bits_barrbe_whole
void vp_bits_barrbe_whole(void)
{
	START(8) BITWISE(barrbe, 8)
	uint8_t w[16] = { 0 };
	uint16_t a0 = (uint16_t)VP_BITS("a0", 16); put(w, mem(8, 0, 15, 0, 1, 1, 16, 0), (uint64_t)a0);
	uint32_t a1 = (uint32_t)VP_BITS("a1", 32); put(w, mem(8, 16, 47, 0, 1, 1, 32, 0), (uint64_t)a1);
	uint8_t a2 = (uint8_t)VP_BITS("a2", 8); put_known(w, mem(8, 48, 51, 0, 1, 1, 8, 0), (uint64_t)a2);
	int8_t a3 = (int8_t)VP_BITS("a3", 8); put(w, mem(8, 52, 54, 1, 1, 1, 8, 0), (uint64_t)a3);
	uint8_t a4 = (uint8_t)VP_BITS("a4", 1); put(w, mem(8, 55, 55, 0, 1, 1, 1, 1), (uint64_t)a4);
	uint8_t a5 = (uint8_t)VP_BITS("a5", 8); put(w, mem(8, 56, 63, 0, 1, 1, 8, 0), (uint64_t)a5);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 8 ? x[i] : 0;
	c_barrbe_init(v, a0, a1, a2, a3, a4, a5);
	for (int i = 0; i < 8; i++) VP_ENSURES("an initializer sets the members and nothing else", v[i] == w[i]);
	uint8_t k[16] = { 0 };
	put(k, mem(8, 0, 15, 0, 1, 1, 16, 0), 52413ULL);
	put(k, mem(8, 16, 47, 0, 1, 1, 32, 0), 3214467703ULL);
	put(k, mem(8, 48, 51, 0, 1, 1, 8, 0), 12ULL);
	put(k, mem(8, 52, 54, 1, 1, 1, 8, 0), 5ULL);
	put(k, mem(8, 55, 55, 0, 1, 1, 1, 1), 1ULL);
	put(k, mem(8, 56, 63, 0, 1, 1, 8, 0), 199ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 8 ? x[i] : 0;
	c_barrbe_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_barrbe_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
uint8_t c_boffbe_0_get(void *), c_boffbe_0_val(void *); void c_boffbe_0_set(void *, uint8_t), c_boffbe_0_des(void *, uint8_t);
uint8_t c_boffbe_1_get(void *), c_boffbe_1_val(void *); void c_boffbe_1_set(void *, uint8_t), c_boffbe_1_des(void *, uint8_t);
void c_boffbe_1_add(void *, uint8_t), c_boffbe_1_xor(void *, uint8_t), c_boffbe_1_inc(void *), c_boffbe_1_dec(void *);
uint16_t c_boffbe_2_get(void *), c_boffbe_2_val(void *); void c_boffbe_2_set(void *, uint16_t), c_boffbe_2_des(void *, uint16_t);
void c_boffbe_2_add(void *, uint16_t), c_boffbe_2_xor(void *, uint16_t), c_boffbe_2_inc(void *), c_boffbe_2_dec(void *);
uint8_t c_boffbe_3_get(void *), c_boffbe_3_val(void *); void c_boffbe_3_set(void *, uint8_t), c_boffbe_3_des(void *, uint8_t);
int32_t c_boffbe_4_get(void *), c_boffbe_4_val(void *); void c_boffbe_4_set(void *, int32_t), c_boffbe_4_des(void *, int32_t);
void c_boffbe_4_add(void *, int32_t), c_boffbe_4_xor(void *, int32_t), c_boffbe_4_inc(void *), c_boffbe_4_dec(void *);
void c_boffbe_init(void *, uint8_t, uint8_t, uint16_t, uint8_t, int32_t);
void c_boffbe_const(void *), c_boffbe_glob(void *);
void c_boffbe_and(void *, void *), c_boffbe_or(void *, void *), c_boffbe_xor(void *, void *), c_boffbe_not(void *), c_boffbe_cast(void *, void *), c_boffbe_back(void *, void *); uint8_t c_boffbe_eq(void *, void *);
//@unit bits_boffbe each=0..4
void vp_bits_boffbe(uint64_t n)
{
	START(8)
	switch (n) {
	case 0: GETSET(boffbe_0, uint8_t, mem(8, 0, 0, 0, 1, 1, 1, 1)) break;
	case 1: GETSET(boffbe_1, uint8_t, mem(8, 1, 3, 0, 1, 1, 8, 0)) OPS(boffbe_1, uint8_t, mem(8, 1, 3, 0, 1, 1, 8, 0)) break;
	case 2: KNOWN_GETSET(boffbe_2, uint16_t, mem(8, 4, 19, 0, 1, 1, 16, 0)) KNOWN_OPS(boffbe_2, uint16_t, mem(8, 4, 19, 0, 1, 1, 16, 0)) break;
	case 3: GETSET(boffbe_3, uint8_t, mem(8, 20, 20, 0, 1, 1, 1, 1)) break;
	case 4: GETSET(boffbe_4, int32_t, mem(8, 24, 55, 1, 1, 1, 32, 0)) OPS(boffbe_4, int32_t, mem(8, 24, 55, 1, 1, 1, 32, 0)) break;
	}
	VP_REACH();
}
//@unit bits_boffbe_lost each=0..0 known=bits-partial-last-byte
void vp_bits_boffbe_lost(uint64_t n)
{
	START(8)
	switch (n) {
	case 0: GETSET(boffbe_2, uint16_t, mem(8, 4, 19, 0, 1, 1, 16, 0)) OPS(boffbe_2, uint16_t, mem(8, 4, 19, 0, 1, 1, 16, 0)) break;
	}
	VP_REACH();
}
//@unit bits_boffbe_whole
void vp_bits_boffbe_whole(void)
{
	START(8) BITWISE(boffbe, 8)
	uint8_t w[16] = { 0 };
	uint8_t a0 = (uint8_t)VP_BITS("a0", 1); put(w, mem(8, 0, 0, 0, 1, 1, 1, 1), (uint64_t)a0);
	uint8_t a1 = (uint8_t)VP_BITS("a1", 8); put(w, mem(8, 1, 3, 0, 1, 1, 8, 0), (uint64_t)a1);
	uint16_t a2 = (uint16_t)VP_BITS("a2", 16); put_known(w, mem(8, 4, 19, 0, 1, 1, 16, 0), (uint64_t)a2);
	uint8_t a3 = (uint8_t)VP_BITS("a3", 1); put(w, mem(8, 20, 20, 0, 1, 1, 1, 1), (uint64_t)a3);
	int32_t a4 = (int32_t)VP_BITS("a4", 32); put(w, mem(8, 24, 55, 1, 1, 1, 32, 0), (uint64_t)a4);
	uint8_t v[16]; for (int i = 0; i < 16; i++) v[i] = i < 8 ? x[i] : 0;
	c_boffbe_init(v, a0, a1, a2, a3, a4);
	for (int i = 0; i < 8; i++) VP_ENSURES("an initializer sets the members and nothing else", v[i] == w[i]);
	uint8_t k[16] = { 0 };
	put(k, mem(8, 0, 0, 0, 1, 1, 1, 1), 1ULL);
	put(k, mem(8, 1, 3, 0, 1, 1, 8, 0), 4ULL);
	put(k, mem(8, 4, 19, 0, 1, 1, 16, 0), 37645ULL);
	put(k, mem(8, 20, 20, 0, 1, 1, 1, 1), 1ULL);
	put(k, mem(8, 24, 55, 1, 1, 1, 32, 0), 2255701793ULL);
	for (int i = 0; i < 16; i++) v[i] = i < 8 ? x[i] : 0;
	c_boffbe_const(v);
	ALL("a constant initializer sets the members and nothing else", v[i] == k[i])
	c_boffbe_glob(v);
	ALL("a constant global has the members it was given", v[i] == k[i])
	VP_REACH();
}
