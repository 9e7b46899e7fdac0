//@file lang=c3 probe=checks.c3 uf=sdiv,udiv,srem,urem d.unwind=16
#define VP_UF
#include "vp.h"
typedef struct { int32_t before, a[7], after; } Arr;
typedef struct { int32_t before, a[5][3], after; } Nested;
#define G(name, T) int32_t c_##name(Arr *, T);
G(arr_get_i, int32_t) G(arr_get_u, uint32_t) G(arr_get_l, int64_t) G(arr_get_ul, uint64_t) G(arr_get_c, uint8_t) G(arr_get_ic, int8_t)
G(arr_get_us, uint16_t) G(arr_get_s, int16_t) G(arr_end_i, int32_t) G(arr_end_u, uint32_t) G(vec_get, int32_t)
void c_arr_set_i(Arr *, int32_t, int32_t); void c_arr_add_l(Arr *, int64_t, int32_t); int32_t *c_arr_ref_i(Arr *, int32_t);
int32_t c_nest_get(Nested *, int32_t, int32_t); int32_t c_local_get(int32_t, int32_t, int32_t, int32_t); int32_t c_const_get(int32_t);
int32_t c_sl_get_i(int32_t *, uint64_t, int32_t), c_sl_get_ul(int32_t *, uint64_t, uint64_t), c_sl_get_c(int32_t *, uint64_t, uint8_t), c_sl_get_ic(int32_t *, uint64_t, int8_t);
void c_sl_set_l(int32_t *, uint64_t, int64_t, int32_t); int32_t c_sl_end_i(int32_t *, uint64_t, int32_t), c_sl_inc_i(int32_t *, uint64_t, int32_t);
uint8_t c_str_get(uint8_t *, uint64_t, int32_t);
void c_sl_range(int32_t *, uint64_t, int64_t, int64_t, int32_t **, uint64_t *), c_sl_from(int32_t *, uint64_t, int64_t, int32_t **, uint64_t *), c_sl_to(int32_t *, uint64_t, int64_t, int32_t **, uint64_t *),
	c_sl_count(int32_t *, uint64_t, int64_t, int64_t, int32_t **, uint64_t *), c_sl_ucount(int32_t *, uint64_t, uint64_t, uint64_t, int32_t **, uint64_t *), c_sl_backs(int32_t *, uint64_t, int64_t, int64_t, int32_t **, uint64_t *);
void c_arr_range(Arr *, int32_t, int32_t, int32_t **, uint64_t *), c_arr_count(Arr *, int32_t, int32_t, int32_t **, uint64_t *), c_arr_from(Arr *, int32_t, int32_t **, uint64_t *), c_ptr_range(int32_t *, int64_t, int64_t, int32_t **, uint64_t *);
void c_sl_assign(int32_t *, uint64_t, int32_t *, uint64_t), c_sl_fill(int32_t *, uint64_t, int64_t, int64_t, int32_t);
int32_t c_null_get(int32_t *); void c_null_set(int32_t *, int32_t);
static void fill(Arr *x) { x->before = VP_I32("x"); x->after = VP_I32("x"); for (int i = 0; i < 7; i++) x->a[i] = VP_I32("x"); }
#define RD(T, inp, name) { T i = (T)inp; VP_TRAPS_IFF(!(i >= 0 && i < 7)); int32_t r = c_##name(&x, i); VP_RETURNED(); VP_ENSURES("element i is read (" #name ")", r == x.a[i]); }
//@unit array_read fns=llvm_emit_subscript,llvm_emit_array_bounds_check
void vp_array_read(void)
{
	Arr x; fill(&x);
	switch (VP_BITS("which", 4))
	{
		case 0: RD(int32_t, VP_I32("i"), arr_get_i) break;
		case 1: RD(uint32_t, VP_U32("i"), arr_get_u) break;
		case 2: RD(int64_t, VP_I64("i"), arr_get_l) break;
		case 3: RD(uint64_t, VP_U64("i"), arr_get_ul) break;
		case 4: RD(uint8_t, VP_U8("i"), arr_get_c) break;
		case 5: RD(int8_t, VP_U8("i"), arr_get_ic) break;
		case 6: RD(uint16_t, VP_U16("i"), arr_get_us) break;
		case 7: RD(int16_t, VP_U16("i"), arr_get_s) break;
		case 8: { int32_t i = VP_I32("i"); VP_TRAPS_IFF(!(i >= 1 && i <= 7)); int32_t r = c_arr_end_i(&x, i); VP_RETURNED(); VP_ENSURES("element ^i", r == x.a[7 - i]); break; }
		case 9: { uint32_t i = VP_U32("i"); VP_TRAPS_IFF(!(i >= 1 && i <= 7)); int32_t r = c_arr_end_u(&x, i); VP_RETURNED(); VP_ENSURES("element ^i", r == x.a[7 - i]); break; }
		case 10: { int32_t i = VP_I32("i"); VP_TRAPS_IFF(!(i >= 0 && i < 4)); int32_t r = c_vec_get(&x, i); VP_RETURNED(); VP_ENSURES("vector element", r == x.a[i]); break; }
		case 11: { int32_t i = VP_I32("i"); VP_TRAPS_IFF(!(i >= 0 && i < 3)); int32_t r = c_local_get(x.a[0], x.a[1], x.a[2], i); VP_RETURNED(); VP_ENSURES("local array element", r == x.a[i]); break; }
		case 12: { int32_t i = VP_I32("i"); VP_TRAPS_IFF(!(i >= 0 && i < 5)); int32_t r = c_const_get(i); VP_RETURNED(); VP_ENSURES("constant array element", r == 10 + i); break; }
		default: VP_REQUIRES(0);
	}
	VP_REACH();
}
//@unit array_write fns=llvm_emit_subscript,llvm_emit_array_bounds_check
void vp_array_write(void)
{
	Arr x; fill(&x);
	Arr y = x;
	int32_t v = VP_I32("v"), k = (int32_t)VP_RANGE("k", 0, 6);
	int64_t i;
	switch (VP_BITS("which", 2))
	{
		case 0: i = VP_I32("i"); VP_TRAPS_IFF(!(i >= 0 && i < 7)); c_arr_set_i(&y, (int32_t)i, v); VP_RETURNED(); VP_ENSURES("written", y.a[i] == v); break;
		case 1: i = VP_I64("i"); VP_TRAPS_IFF(!(i >= 0 && i < 7)); c_arr_add_l(&y, i, v); VP_RETURNED(); VP_ENSURES("updated", y.a[i] == (int32_t)((uint32_t)x.a[i] + (uint32_t)v)); break;
		default: i = VP_I32("i"); VP_TRAPS_IFF(!(i >= 0 && i < 7)); int32_t *p = c_arr_ref_i(&y, (int32_t)i); VP_RETURNED(); VP_ENSURES("address of element", p == &y.a[i]); break;
	}
	VP_ENSURES("nothing else changes", (k == i || y.a[k] == x.a[k]) && y.before == x.before && y.after == x.after);
	VP_REACH();
}
void c_vec_set(int32_t *, int32_t, int32_t), c_vec_set_end(int32_t *, int32_t, int32_t), c_vec_add(int32_t *, int32_t, int32_t), c_vec_nest(int32_t *, int32_t, int32_t, int32_t); int32_t c_vec_inc(int32_t *, int32_t); G(vec_end, int32_t)
//@unit vectors fns=llvm_emit_vector_index,llvm_emit_vector_assign_expr,llvm_emit_pre_post_inc_dec_vector
void vp_vectors(void)
{
	int32_t a[4], o[4];
	for (int k = 0; k < 4; k++) o[k] = a[k] = VP_I32("x");
	int32_t i = VP_I32("i"), j = i, v = VP_I32("v"), k = (int32_t)VP_RANGE("k", 0, 3), at = i, want = v;
	switch (VP_BITS("which", 3))
	{
		case 0: VP_TRAPS_IFF(i < 0 || i > 3); c_vec_set(a, i, v); VP_RETURNED(); break;
		case 1: VP_TRAPS_IFF(i < 1 || i > 4); c_vec_set_end(a, i, v); VP_RETURNED(); at = j = 4 - i; break;
		case 2: VP_TRAPS_IFF(i < 0 || i > 3); c_vec_add(a, i, v); VP_RETURNED(); want = (int32_t)((uint32_t)o[i] + (uint32_t)v); break;
		case 3: VP_TRAPS_IFF(i < 0 || i > 3); { int32_t r = c_vec_inc(a, i); VP_RETURNED(); VP_ENSURES("old value", r == o[i]); } want = (int32_t)((uint32_t)o[i] + 1); break;
		case 4: j = VP_I32("j"); VP_REQUIRES(i == j); /* see known-findings.json */ VP_TRAPS_IFF(i < 0 || i > 3); c_vec_nest(a, i, j, v); VP_RETURNED(); break;
		case 5: { Arr x; fill(&x); VP_TRAPS_IFF(i < 1 || i > 4); int32_t r = c_vec_end(&x, i); VP_RETURNED(); VP_ENSURES("element ^i", r == x.a[4 - i]); return; }
		default: VP_REQUIRES(0);
	}
	VP_ENSURES("the elements written, and no others, change", a[k] == (k == at || k == j ? want : o[k]));
	VP_REACH();
}
//@unit nested fns=llvm_emit_array_bounds_check
void vp_nested(void)
{
	Nested n;
	for (int i = 0; i < 15; i++) n.a[i / 3][i % 3] = VP_I32("x");
	int32_t i = VP_I32("i"), j = VP_I32("j");
	VP_TRAPS_IFF(i < 0 || i >= 5 || j < 0 || j >= 3);
	int32_t r = c_nest_get(&n, i, j);
	VP_RETURNED();
	VP_ENSURES("row i, column j", r == n.a[i][j]);
	VP_REACH();
}
//@unit slice_access fns=llvm_emit_subscript
void vp_slice_access(void)
{
	int32_t b[9]; for (int i = 0; i < 9; i++) b[i] = VP_I32("x");
	int32_t *p = b + 1;
	uint64_t len = VP_RANGE("len", 0, 7);
	int64_t i; int32_t r, v = VP_I32("v");
	switch (VP_BITS("which", 3))
	{
		case 0: i = VP_I32("i"); VP_TRAPS_IFF(i < 0 || i >= (int64_t)len); r = c_sl_get_i(p, len, (int32_t)i); VP_RETURNED(); VP_ENSURES("element", r == p[i]); break;
		case 1: { uint64_t u = VP_U64("i"); VP_TRAPS_IFF(u >= len); r = c_sl_get_ul(p, len, u); VP_RETURNED(); VP_ENSURES("element", r == p[u]); break; }
		case 2: i = VP_U8("i"); VP_TRAPS_IFF(i >= (int64_t)len); r = c_sl_get_c(p, len, (uint8_t)i); VP_RETURNED(); VP_ENSURES("element", r == p[i]); break;
		case 3: i = (int8_t)VP_U8("i"); VP_TRAPS_IFF(i < 0 || i >= (int64_t)len); r = c_sl_get_ic(p, len, (int8_t)i); VP_RETURNED(); VP_ENSURES("element", r == p[i]); break;
		case 4: i = VP_I64("i"); VP_TRAPS_IFF(i < 0 || i >= (int64_t)len); c_sl_set_l(p, len, i, v); VP_RETURNED(); VP_ENSURES("written", p[i] == v); break;
		case 5: i = VP_I32("i"); VP_TRAPS_IFF(i < 1 || i > (int64_t)len); r = c_sl_end_i(p, len, (int32_t)i); VP_RETURNED(); VP_ENSURES("element ^i", r == p[len - (uint64_t)i]); break;
		case 6: i = VP_I32("i"); VP_TRAPS_IFF(i < 0 || i >= (int64_t)len); r = c_sl_inc_i(p, len, (int32_t)i); VP_RETURNED(); VP_ENSURES("incremented once", p[i] == (int32_t)((uint32_t)r + 1)); break;
		default: i = VP_I32("i"); VP_TRAPS_IFF(i < 0 || i >= (int64_t)len); r = c_str_get((uint8_t *)p, len, (int32_t)i); VP_RETURNED(); VP_ENSURES("char", r == ((uint8_t *)p)[i]); break;
	}
	VP_REACH();
}
//@unit slicing fns=llvm_emit_slice_values
void vp_slicing(void)
{
	int32_t b[9];
	int32_t *p = b + 1, *q = 0;
	uint64_t len = VP_RANGE("len", 0, 7), n = 99;
	int64_t x = VP_I64("a"), y = VP_I64("b");
	vp_i128 L = (vp_i128)len, X = x, Y = y, from = x, count = 0;
	switch (VP_BITS("which", 3))
	{
		case 0: count = Y - X + 1; VP_TRAPS_IFF(X < 0 || X > L || Y < X || Y >= L); c_sl_range(p, len, x, y, &q, &n); break;
		case 1: count = L - X; VP_TRAPS_IFF(X < 0 || X > L); c_sl_from(p, len, x, &q, &n); break;
		case 2: from = 0; count = Y + 1; VP_TRAPS_IFF(Y < 0 || Y >= L); c_sl_to(p, len, y, &q, &n); break;
		case 3: count = Y; VP_TRAPS_IFF(X < 0 || X > L || Y < 0 || Y > L - X); c_sl_count(p, len, x, y, &q, &n); break;
		case 4: count = Y; VP_TRAPS_IFF((uint64_t)x > len || (uint64_t)y > len - (uint64_t)x); c_sl_ucount(p, len, (uint64_t)x, (uint64_t)y, &q, &n); break;
		case 5: from = L - X; count = X - Y + 1; VP_TRAPS_IFF(X < 0 || X > L || Y < 1 || Y > X); c_sl_backs(p, len, x, y, &q, &n); break;
		default: VP_REQUIRES(0);
	}
	VP_RETURNED();
	VP_ENSURES("slice starts at the element", q == p + (int64_t)from);
	VP_ENSURES("slice length", n == (uint64_t)count);
	VP_REACH();
}
//@unit array_slicing fns=llvm_emit_slice_values
void vp_array_slicing(void)
{
	Arr x; int32_t *q = 0; uint64_t n = 99;
	int32_t a = VP_I32("a"), b = VP_I32("b");
	int64_t count = 0;
	switch (VP_BITS("which", 2))
	{
		case 0: count = (int64_t)b - a + 1; VP_TRAPS_IFF(a < 0 || a > 7 || b < a || b >= 7); c_arr_range(&x, a, b, &q, &n); break;
		case 1: count = b; VP_TRAPS_IFF(a < 0 || a > 7 || b < 0 || b > 7 - a); c_arr_count(&x, a, b, &q, &n); break;
		case 2: VP_REQUIRES(a != 7); count = (int64_t)7 - a; VP_TRAPS_IFF(a < 0 || a > 7); c_arr_from(&x, a, &q, &n); break;
		default: VP_REQUIRES(0);
	}
	VP_RETURNED();
	VP_ENSURES("slice starts at the element", q == x.a + a);
	VP_ENSURES("slice length", n == (uint64_t)count);
	VP_REACH();
}
//@unit slice_assign fns=llvm_emit_slice_assign,llvm_emit_slice_copy
void vp_slice_assign(void)
{
	int32_t a[5], b[5], o[5];
	for (int i = 0; i < 5; i++) { o[i] = a[i] = VP_I32("x"); b[i] = VP_I32("y"); }
	uint64_t n = VP_RANGE("n", 0, 5), m = VP_RANGE("m", 0, 5), k = VP_RANGE("k", 0, 4);
	VP_TRAPS_IFF(n != m);
	c_sl_assign(a, n, b, m);
	VP_RETURNED();
	VP_ENSURES("copied inside, untouched outside", a[k] == (k < n ? b[k] : o[k]));
	VP_REACH();
}
//@unit slice_fill fns=llvm_emit_slice_assign
void vp_slice_fill(void)
{
	int32_t a[5], o[5], v = VP_I32("v");
	for (int i = 0; i < 5; i++) { o[i] = a[i] = VP_I32("x"); }
	int64_t f = VP_I64("from"), t = VP_I64("to");
	uint64_t n = VP_RANGE("n", 0, 5), k = VP_RANGE("k", 0, 4);
	VP_TRAPS_IFF(f < 0 || f > (int64_t)n || t < f || t >= (int64_t)n);
	c_sl_fill(a, n, f, t, v);
	VP_RETURNED();
	VP_ENSURES("filled inside, untouched outside", a[k] == ((int64_t)k >= f && (int64_t)k <= t ? v : o[k]));
	VP_REACH();
}
//@unit null fns=llvm_emit_load,llvm_emit_panic_on_true
void vp_null(void)
{
	int32_t x = VP_I32("x"), v = VP_I32("v"), *p = VP_BOOL("null") ? 0 : &x;
	VP_TRAPS_IFF(!p);
	switch (VP_BITS("which", 2))
	{
		case 0: { int32_t r = c_null_get(p); VP_RETURNED(); VP_ENSURES("loaded", r == x); break; }
		case 1: c_null_set(p, v); VP_RETURNED(); VP_ENSURES("stored", x == v); break;
		default: VP_REQUIRES(0);
	}
	VP_REACH();
}
int32_t c_div_i(int32_t, int32_t), c_rem_i(int32_t, int32_t); uint64_t c_div_ul(uint64_t, uint64_t), c_rem_ul(uint64_t, uint64_t); int64_t c_div_l(int64_t, int64_t);
uint8_t c_div_c(uint8_t, uint8_t); int16_t c_rem_s(int16_t, int16_t); void c_div_as(int32_t *, int32_t), c_rem_as(uint32_t *, uint32_t);
#define DIV(CT, W, op, U, call) { CT a = (CT)VP_U64("a"), b = (CT)VP_U64("b"); VP_REQUIRES(!(U && b == (CT)-1)); VP_TRAPS_IFF(b == 0); CT r = call(a, b); VP_RETURNED(); VP_ENSURES(#call, r == (CT)vp_uf_##op##_##W(a, b)); break; }
//@unit division fns=llvm_emit_trap_zero
void vp_division(void)
{
	switch (VP_BITS("which", 4))
	{
		case 0: DIV(int32_t, 32, sdiv, 1, c_div_i)
		case 1: DIV(int32_t, 32, srem, 1, c_rem_i)
		case 2: DIV(uint64_t, 64, udiv, 0, c_div_ul)
		case 3: DIV(uint64_t, 64, urem, 0, c_rem_ul)
		case 4: DIV(int64_t, 64, sdiv, 1, c_div_l)
		case 5: { uint8_t a = VP_U8("a"), b = VP_U8("b"); VP_TRAPS_IFF(b == 0); c_div_c(a, b); VP_RETURNED(); break; }
		case 6: { int16_t a = (int16_t)VP_U16("a"), b = (int16_t)VP_U16("b"); VP_TRAPS_IFF(b == 0); c_rem_s(a, b); VP_RETURNED(); break; }
		case 7: { int32_t a = VP_I32("a"), b = VP_I32("b"), o = a; VP_REQUIRES(b != -1); VP_TRAPS_IFF(b == 0); c_div_as(&a, b); VP_RETURNED(); VP_ENSURES("/=", a == (int32_t)vp_uf_sdiv_32((uint32_t)o, (uint32_t)b)); break; }
		case 8: { uint32_t a = VP_U32("a"), b = VP_U32("b"), o = a; VP_TRAPS_IFF(b == 0); c_rem_as(&a, b); VP_RETURNED(); VP_ENSURES("%=", a == vp_uf_urem_32(o, b)); break; }
		default: VP_REQUIRES(0);
	}
	VP_REACH();
}
int32_t c_shl_i(int32_t, int32_t), c_shr_i(int32_t, int32_t); uint32_t c_shl_u(uint32_t, uint32_t), c_shr_u(uint32_t, uint8_t), c_shl_ul(uint32_t, uint64_t); int64_t c_shl_l(int64_t, int64_t); uint64_t c_shr_ul(uint64_t, int8_t);
uint8_t c_shl_c(uint8_t, uint8_t); int16_t c_shr_s(int16_t, int16_t);
//@unit shifts fns=llvm_emit_trap_invalid_shift off=signed-overflow
void vp_shifts(void)
{
	switch (VP_BITS("which", 4))
	{
#define SH(T, S, W, call, expr) { T a = (T)VP_U64("a"); S b = (S)VP_U64("b"); VP_TRAPS_IFF(b < 0 || b >= W); T r = call(a, b); VP_RETURNED(); VP_ENSURES(#call, r == (T)(expr)); break; }
		case 0: SH(int32_t, int32_t, 32, c_shl_i, (uint32_t)a << b)
		case 1: SH(int32_t, int32_t, 32, c_shr_i, a >> b)
		case 2: SH(uint32_t, uint32_t, 32, c_shl_u, a << b)
		case 3: SH(uint32_t, uint8_t, 32, c_shr_u, a >> b)
		case 4: SH(int64_t, int64_t, 64, c_shl_l, (uint64_t)a << b)
		case 5: SH(uint64_t, int8_t, 64, c_shr_ul, a >> b)
		case 6: SH(uint8_t, uint8_t, 8, c_shl_c, a << b)
		case 7: SH(int16_t, int16_t, 16, c_shr_s, a >> b)
		case 8: SH(uint32_t, uint64_t, 32, c_shl_ul, a << b)
		default: VP_REQUIRES(0);
	}
	VP_REACH();
}
int32_t c_assert(int32_t), c_contract(int32_t, int32_t), c_unreach(int32_t), c_force(int32_t), c_enum_from(int32_t); uint8_t c_any_is(int32_t);
//@unit asserts fns=llvm_emit_assert_stmt,llvm_emit_force_unwrap_expr
void vp_asserts(void)
{
	int32_t a = VP_I32("a"), b = VP_I32("b"), r;
	switch (VP_BITS("which", 3))
	{
		case 0: VP_TRAPS_IFF(!(a > 5)); r = c_assert(a); VP_RETURNED(); VP_ENSURES("value", r == a); break;
		case 1: r = (int32_t)((uint32_t)b - (uint32_t)a); VP_TRAPS_IFF(!(a < b) || r <= 0); VP_ENSURES("value", c_contract(a, b) == r); VP_RETURNED(); break;
		case 2: VP_TRAPS_IFF(a != 1 && a != 2); r = c_unreach(a); VP_RETURNED(); VP_ENSURES("value", r == a * 10); break;
		case 3: VP_TRAPS_IFF(a < 0); r = c_force(a); VP_RETURNED(); VP_ENSURES("value", r == a); break;
		case 4: VP_REQUIRES(a >= 0 && a < 256); VP_TRAPS_IFF(a > 2); r = c_enum_from(a); VP_RETURNED(); VP_ENSURES("ordinal", r == a); break;
		case 5: VP_TRAPS_IFF(0); VP_ENSURES("anycast yields the value", c_any_is(a)); break;
		default: VP_REQUIRES(0);
	}
	VP_REACH();
}
void c_v_shl_i(int32_t *, int32_t *), c_v_shr_i(int32_t *, int32_t *), c_v_shl_u(uint32_t *, uint32_t *), c_v_shr_u(uint32_t *, uint32_t *), c_v_shl_c(int8_t *, int8_t *), c_v_shr_b(uint8_t *, uint8_t *), c_v_shl_l(uint64_t *, uint64_t *);
void c_v_div_i(int32_t *, int32_t *), c_v_rem_i(int32_t *, int32_t *), c_v_div_u(uint32_t *, uint32_t *), c_v_rem_l(uint64_t *, uint64_t *);
#define VEC(T, N, FN, req, bad, expr) { T a[N] __attribute__((aligned(16))), b[N] __attribute__((aligned(16))), o[N]; bool t = false; \
	for (int k = 0; k < N; k++) { o[k] = a[k] = (T)VP_U64("a"); b[k] = (T)VP_U64("b"); T x = b[k]; VP_REQUIRES(req); t = t || (bad); } \
	VP_TRAPS_IFF(t); FN(a, b); VP_RETURNED(); int k = (int)VP_RANGE("k", 0, N - 1); T x = b[k], y = o[k]; VP_ENSURES(#FN, a[k] == (T)(expr)); }
//@unit vector_shift each=0..6 fns=llvm_emit_trap_invalid_shift,llvm_emit_shift_amount off=signed-overflow
void vp_vector_shift(uint64_t n)
{
	switch (n)
	{
		case 0: VEC(int32_t, 4, c_v_shl_i, 1, x < 0 || x >= 32, (uint32_t)y << x) break;
		case 1: VEC(int32_t, 4, c_v_shr_i, 1, x < 0 || x >= 32, y >> x) break;
		case 2: VEC(uint32_t, 4, c_v_shl_u, 1, x >= 32, y << x) break;
		case 3: VEC(uint32_t, 4, c_v_shr_u, 1, x >= 32, y >> x) break;
		case 4: VEC(int8_t, 4, c_v_shl_c, 1, x < 0 || x >= 8, (uint32_t)y << x) break;
		case 5: VEC(uint8_t, 4, c_v_shr_b, 1, x >= 8, y >> x) break;
		case 6: VEC(uint64_t, 2, c_v_shl_l, 1, x >= 64, y << x) break;
	}
	VP_REACH();
}
//@unit vector_division each=0..3 fns=llvm_emit_trap_zero
void vp_vector_division(uint64_t n)
{
	switch (n)
	{
		case 0: VEC(int32_t, 4, c_v_div_i, x != -1, x == 0, vp_uf_sdiv_32((uint32_t)y, (uint32_t)x)) break;
		case 1: VEC(int32_t, 4, c_v_rem_i, x != -1, x == 0, vp_uf_srem_32((uint32_t)y, (uint32_t)x)) break;
		case 2: VEC(uint32_t, 4, c_v_div_u, 1, x == 0, vp_uf_udiv_32(y, x)) break;
		case 3: VEC(uint64_t, 2, c_v_rem_l, 1, x == 0, vp_uf_urem_64(y, x)) break;
	}
	VP_REACH();
}
void c_shl_w(vp_i128 *, vp_i128 *), c_shr_w(vp_u128 *, uint32_t), c_div_w(vp_u128 *, vp_u128 *); uint8_t c_shl_cl(uint8_t, int64_t); int16_t c_shr_sw(int16_t, uint32_t);
//@unit wide_and_narrow fns=llvm_emit_shift_amount,llvm_emit_trap_zero off=signed-overflow
void vp_wide_and_narrow(void)
{
	switch (VP_BITS("which", 3))
	{
		case 0: { vp_i128 a = (vp_i128)VP_U128("a"), b = (vp_i128)VP_U128("b"), o = a; VP_TRAPS_IFF(b < 0 || b >= 128); c_shl_w(&a, &b); VP_RETURNED(); VP_ENSURES("128 bit <<", (vp_u128)a == (vp_u128)o << (int)b); break; }
		case 1: { vp_u128 a = VP_U128("a"), o = a; uint32_t b = VP_U32("b"); VP_TRAPS_IFF(b >= 128); c_shr_w(&a, b); VP_RETURNED(); VP_ENSURES("128 bit >>", a == o >> b); break; }
		case 2: { vp_u128 a = VP_U128("a"), b = VP_U128("b"), o = a; VP_TRAPS_IFF(b == 0); c_div_w(&a, &b); VP_RETURNED(); VP_ENSURES("128 bit /", a == vp_uf_udiv_128(o, b)); break; }
		case 3: { uint8_t a = VP_U8("a"); int64_t b = VP_I64("b"); VP_TRAPS_IFF(b < 0 || b >= 8); uint8_t r = c_shl_cl(a, b); VP_RETURNED(); VP_ENSURES("char <<= long", r == (uint8_t)(a << b)); break; }
		case 4: { int16_t a = (int16_t)VP_U16("a"); uint32_t b = VP_U32("b"); VP_TRAPS_IFF(b >= 32); int16_t r = c_shr_sw(a, b); VP_RETURNED(); VP_ENSURES("short >> uint", r == (int16_t)((int32_t)a >> b)); break; }
		default: VP_REQUIRES(0);
	}
	VP_REACH();
}
int32_t c_enum_byte(uint8_t), c_enum_byte_wide(int32_t), c_enum_short(int64_t), c_enum_long(int64_t), c_enum_ulong(uint64_t), c_enum_step(int32_t), c_any_cast(int32_t, uint8_t), c_dyn_call(int32_t, uint8_t), c_opt_else(int32_t), c_ensure_opt(int32_t);
//@unit enum_conversion fns=llvm_emit_enum_from_ordinal
void vp_enum_conversion(void)
{
	int64_t a = VP_I64("a"); int32_t r;
	switch (VP_BITS("which", 3))
	{
		case 0: a = (uint8_t)a; VP_TRAPS_IFF(a > 4); r = c_enum_byte((uint8_t)a); break;
		case 1: a = (int32_t)a; VP_TRAPS_IFF(a < 0 || a > 4); r = c_enum_byte_wide((int32_t)a); break;
		case 2: VP_TRAPS_IFF(a < 0 || a > 2); r = c_enum_short(a); break;
		case 3: VP_TRAPS_IFF(a < 0 || a > 3); r = c_enum_long(a); break;
		case 4: VP_TRAPS_IFF((uint64_t)a > 3); r = c_enum_ulong((uint64_t)a); break;
		default: VP_REQUIRES(0);
	}
	VP_RETURNED();
	VP_ENSURES("ordinal kept", r == a);
	VP_REACH();
}
//@unit dynamic fns=llvm_emit_force_unwrap_expr,llvm_emit_dynamic_method_addr
void vp_dynamic(void)
{
	int32_t a = VP_I32("a"), r; bool b = VP_BOOL("b");
	switch (VP_BITS("which", 3))
	{
		case 0: VP_TRAPS_IFF(!b); r = c_any_cast(a, b); VP_RETURNED(); VP_ENSURES("value of the type asked for", r == a); break;
		case 1: VP_TRAPS_IFF(!b); r = c_dyn_call(a, b); VP_RETURNED(); VP_ENSURES("method of the dynamic type", r == a); break;
		case 2: VP_TRAPS_IFF(0); r = c_opt_else(a); VP_RETURNED(); VP_ENSURES("value or else", r == (a < 0 ? -7 : a)); break;
		case 3: VP_TRAPS_IFF(a < 0 || a == 9 || a == 10); r = c_ensure_opt(a); VP_RETURNED(); VP_ENSURES("value", (int64_t)r == (int32_t)(a + 1LL)); break;
		default: VP_REQUIRES(0);
	}
	VP_REACH();
}
