//@file lang=c3 probe=aggr.c3 d.off=signed-overflow d.unwind=100 nosan=signed-integer-overflow d.fns=llvm_emit_access_addr,llvm_emit_member_addr,llvm_emit_initialize_reference,llvm_emit_initialize_designated_element,llvm_emit_const_initializer,llvm_emit_call_expr,llvm_emit_parameter,llvm_expand_type_to_args,llvm_store,llvm_emit_struct_member,sema_analyse_struct_members,type_size,type_abi_alignment,llvm_emit_swizzle,llvm_emit_cast
// Struct, union, array, vector, slice: layout equals the C layout of the same declaration, each access touches its member
// only, copies, parameters and returns carry every byte.
#include "vp.h"
#include <string.h>
typedef struct { uint8_t a; int32_t b; int16_t c; int64_t d; uint8_t e; } Mixed;
typedef struct __attribute__((packed)) { uint8_t a; int32_t b; int16_t c; int64_t d; uint8_t e; } Packed;
typedef struct { int16_t x; uint8_t y; } Inner;
typedef struct { uint8_t a; Inner in; int32_t arr[3]; struct { uint8_t p; int64_t q; } sub; union { int32_t i; float f; uint8_t c[8]; } u; uint8_t z; } Outer;
typedef struct __attribute__((aligned(16))) { int32_t a; uint8_t b __attribute__((aligned(8))); } Aligned;
typedef struct { Inner base; int64_t more; } Derived;
typedef struct { uint8_t a, b, c; } Small;
typedef struct { uint64_t v[5]; } Wide;
typedef struct { int32_t v[4] __attribute__((aligned(16))); uint8_t c; int32_t f[2] __attribute__((aligned(8))); } Vecs;
typedef struct { uint8_t tag; int32_t *s; uint64_t len; void *p; } Slices;
typedef struct { int32_t a, b, c; } Twelve;
typedef struct { uint32_t x, y; uint64_t z; } Floats;
typedef union { uint64_t l; uint32_t i[2]; uint8_t c[8]; uint16_t s; } Pun;
typedef struct Chain { struct Chain *next; int32_t v; } Chain;
#define SAME(x, y, N) { int same_ = 1; for (unsigned i_ = 0; i_ < N; i_++) same_ &= ((uint8_t *)(x))[i_] == ((uint8_t *)(y))[i_]; VP_ENSURES("every byte", same_); }
#define BYTES(T, v) T v; { uint8_t *b_ = (uint8_t *)&v; for (unsigned i_ = 0; i_ < sizeof(T); i_++) b_[i_] = VP_U8(#v); }
#define COPY(T, w, v) T w = v;
#define INT(n) int32_t n = (int32_t)VP_U32(#n);
#define LONG(n) int64_t n = (int64_t)VP_U64(#n);
#define INDEX(n, lim) int32_t n = (int32_t)VP_RANGE(#n, 0, (lim) - 1);
/* two copies of equal bytes */
#define PAIR(T, x, w) T x, w; { uint8_t *b_ = (uint8_t *)&x, *c_ = (uint8_t *)&w; for (unsigned i_ = 0; i_ < sizeof(T); i_++) b_[i_] = c_[i_] = VP_U8(#x); }

#define FIVE(T, name) \
void c_##name##_put(T *, int, int64_t); int64_t c_##name##_get(T *, int); void c_##name##_lit(T *, uint8_t, int32_t, int16_t, int64_t, uint8_t); void c_##name##_self(T *), c_##name##_glob(T *); \
void vp_##name(void) \
{ \
	PAIR(T, x, w) LONG(v) INDEX(n, 5) \
	c_##name##_put(&x, n, v); \
	switch (n) { case 0: w.a = (uint8_t)v; break; case 1: w.b = (int32_t)v; break; case 2: w.c = (int16_t)v; break; case 3: w.d = v; break; default: w.e = (uint8_t)v; } \
	SAME(&x, &w, sizeof(T)) \
	int64_t r = c_##name##_get(&x, n); \
	VP_ENSURES("reading a member", r == (n == 0 ? w.a : n == 1 ? w.b : n == 2 ? w.c : n == 3 ? w.d : w.e)); \
	VP_REACH(); \
} \
void vp_##name##_values(void) \
{ \
	BYTES(T, x) BYTES(T, f) T w = f; \
	c_##name##_lit(&x, f.a, f.b, f.c, f.d, f.e); \
	VP_ENSURES("initializer list", x.a == f.a && x.b == f.b && x.c == f.c && x.d == f.d && x.e == f.e); \
	c_##name##_self(&w); \
	T s = f; int packed = sizeof(T) == 16; \
	VP_ENSURES("initializer from itself", w.a == f.e && w.b == (packed ? (int32_t)f.d : (int32_t)((uint32_t)f.b + 1)) && w.c == (packed ? f.c : f.a) && w.d == f.b && w.e == f.a); \
	c_##name##_glob(&s); \
	VP_ENSURES("constant global", s.a == 1 && s.b == -2 && s.c == 3 && s.d == -4 && s.e == 5); \
	VP_REACH(); \
}
//@unit mixed
//@unit mixed_values
FIVE(Mixed, mixed)
//@unit packed
//@unit packed_values
FIVE(Packed, packed)

void c_mixed_des(Mixed *, int32_t, uint8_t), c_mixed_const(Mixed *); int64_t c_mixed_const_d(void);
//@unit mixed_parts
void vp_mixed_parts(void)
{
	BYTES(Mixed, x) INT(b) uint8_t e = VP_U8("e");
	c_mixed_des(&x, b, e);
	VP_ENSURES("designated initializer clears the others", x.a == 0 && x.b == b && x.c == 0 && x.d == 0 && x.e == e);
	c_mixed_const(&x);
	VP_ENSURES("constant", x.a == 0 && x.b == 0 && x.c == -1 && x.d == INT64_MIN && x.e == 0 && c_mixed_const_d() == INT64_MIN);
	VP_REACH();
}

void c_outer_put(Outer *, int, int, int64_t); int64_t c_outer_get(Outer *, int, int);
//@unit outer
void vp_outer(void)
{
	PAIR(Outer, x, w) LONG(v) INDEX(n, 9) INDEX(i, 8)
	VP_REQUIRES(n != 3 || i < 3);
	c_outer_put(&x, n, i, v);
	switch (n) { case 0: w.a = (uint8_t)v; break; case 1: w.in.x = (int16_t)v; break; case 2: w.in.y = (uint8_t)v; break; case 3: w.arr[i] = (int32_t)v; break;
	case 4: w.sub.p = (uint8_t)v; break; case 5: w.sub.q = v; break; case 6: w.u.i = (int32_t)v; break; case 7: w.u.c[i] = (uint8_t)v; break; default: w.z = (uint8_t)v; }
	SAME(&x, &w, sizeof(Outer))
	int64_t r = c_outer_get(&x, n, i), q = 0;
	switch (n) { case 0: q = w.a; break; case 1: q = w.in.x; break; case 2: q = w.in.y; break; case 3: q = w.arr[i]; break;
	case 4: q = w.sub.p; break; case 5: q = w.sub.q; break; case 6: q = w.u.i; break; case 7: q = w.u.c[i]; break; default: q = w.z; }
	VP_ENSURES("reading a member", r == q);
	VP_REACH();
}
void c_outer_copy(Outer *, Outer *), c_outer_inner(Outer *, Inner *), c_outer_arr(Outer *, int32_t *), c_outer_lit(Outer *, uint8_t, int16_t, uint8_t, int32_t, int64_t, int32_t, uint8_t), c_outer_nest(Outer *, int16_t, int32_t), c_outer_zero(Outer *);
int c_outer_size(void), c_aligned_size(void); void c_aligned_put(Aligned *, int32_t, uint8_t);
//@unit outer_copies
void vp_outer_copies(void)
{
	PAIR(Outer, x, w) BYTES(Outer, y)
	Outer c = x; c_outer_copy(&c, &y); SAME(&c, &y, sizeof(Outer))
	BYTES(Inner, in) c_outer_inner(&x, &in); memcpy(&w.in, &in, sizeof in); SAME(&x, &w, sizeof(Outer))
	INT(p) INT(q) INT(r) int32_t arr[3] = { p, q, r }; c_outer_arr(&x, arr); memcpy(w.arr, arr, sizeof arr); SAME(&x, &w, sizeof(Outer))
	VP_REACH();
}
//@unit outer_literals
void vp_outer_literals(void)
{
	BYTES(Outer, x) BYTES(Outer, f)
	c_outer_lit(&x, f.a, f.in.x, f.in.y, f.arr[1], f.sub.q, f.u.i, f.z);
	VP_ENSURES("nested initializer", x.a == f.a && x.in.x == f.in.x && x.in.y == f.in.y && x.arr[0] == 0 && x.arr[1] == f.arr[1] && x.arr[2] == 0 && x.sub.p == 0 && x.sub.q == f.sub.q && x.u.i == f.u.i && x.z == f.z);
	c_outer_nest(&x, f.in.x, f.arr[0]);
	VP_ENSURES("nested designators", x.a == 0 && x.in.x == f.in.x && x.in.y == 0 && x.arr[0] == f.arr[0] && x.arr[1] == f.arr[0] && x.arr[2] == 7 && x.sub.p == 0 && x.sub.q == 0 && x.u.i == 0 && x.z == 0);
	c_outer_zero(&x);
	int zero = 1; for (unsigned i = 0; i < sizeof(Outer); i++) zero &= !((uint8_t *)&x)[i];
	VP_ENSURES("empty initializer", zero);
	VP_ENSURES("size and alignment", c_outer_size() == sizeof(Outer) * 100 + _Alignof(Outer) && c_aligned_size() == 16 * 100 + 16);
	PAIR(Aligned, g, h) INT(a) uint8_t b = VP_U8("b");
	c_aligned_put(&g, a, b); memcpy(&h, &a, 4); ((uint8_t *)&h)[8] = b;
	SAME(&g, &h, 16)
	VP_REACH();
}
void c_derived_put(Derived *, int16_t, uint8_t, int64_t), c_derived_up(Derived *, Inner *), c_derived_lit(Derived *, int16_t, uint8_t, int64_t); int64_t c_derived_get(Derived *, int);
//@unit derived
void vp_derived(void)
{
	PAIR(Derived, x, w) BYTES(Derived, f) INDEX(n, 3) BYTES(Inner, q)
	c_derived_put(&x, f.base.x, f.base.y, f.more); w.base.x = f.base.x; w.base.y = f.base.y; w.more = f.more;
	SAME(&x, &w, sizeof(Derived))
	VP_ENSURES("inherited members", c_derived_get(&x, n) == (n == 0 ? f.base.x : n == 1 ? f.base.y : f.more));
	c_derived_up(&x, &q);
	VP_ENSURES("the base", q.x == f.base.x && q.y == f.base.y);
	w.base.y++;
	SAME(&x, &w, sizeof(Derived))
	c_derived_lit(&x, f.base.y, (uint8_t)f.base.x, f.more + 1);
	VP_ENSURES("initializer of inherited members", x.base.x == f.base.y && x.base.y == (uint8_t)f.base.x && x.more == (int64_t)((uint64_t)f.more + 1));
	VP_REACH();
}
void c_call_small(Small *, Small *, uint8_t), c_call_mixed(Mixed *, Mixed *, uint8_t), c_call_packed(Packed *, Packed *, uint8_t), c_call_wide(Wide *, Wide *, uint64_t, int), c_call_twelve(Twelve *, Twelve *, Twelve *), c_call_floats(Floats *, Floats *, Floats *), c_call_tiny(uint8_t *, uint8_t *), c_call_vecs(Vecs *, Vecs *, uint8_t), c_call_outer(Outer *, Outer *, int, int), c_call_pun(Pun *, Pun *, uint32_t), c_call_arr(int32_t *, int32_t *, int, int32_t), c_call_vec(int32_t *, int32_t *, int, int32_t), c_call_vec3(uint8_t *, uint8_t *, int, uint8_t), c_call_or(Wide *, Wide *, uint8_t), c_call_pointer(Mixed *, Mixed *, uint8_t), c_call_default(Mixed *), c_call_byvalue(Wide *);
uint8_t c_call_try_small(Small *, Small *, uint8_t), c_call_try_wide(Wide *, Wide *, uint8_t); int64_t c_call_variadic(Small *, Small *);
//@unit call_small
void vp_call_small(void)
{
	PAIR(Small, x, w) BYTES(Small, q) uint8_t k = VP_U8("k"), t, u;
	c_call_small(&x, &q, k); SAME(&x, &w, 3) w.b = k; SAME(&q, &w, 3)
	t = k; c_call_tiny(&t, &u); VP_ENSURES("one byte", t == k && u == (uint8_t)(k ^ 255));
	uint8_t v3[4] = { w.a, w.b, w.c, k }, r3[4] = { 1, 2, 3, 4 }; INDEX(i, 3)
	c_call_vec3(v3, r3, i, k);
	VP_ENSURES("vector of three", r3[0] == (i == 0 ? k : w.a) && r3[1] == (i == 1 ? k : w.b) && r3[2] == (i == 2 ? k : w.c));
	BYTES(Small, o)
	int64_t s = c_call_variadic(&w, &o);
	VP_ENSURES("variadic", s == (int64_t)((uint64_t)w.a | (uint64_t)w.b << 8 | (uint64_t)w.c << 16 | (uint64_t)o.a << 24 | (uint64_t)o.b << 32 | (uint64_t)o.c << 40));
	uint8_t fail = VP_BOOL("fail"); Small z = { 9, 8, 7 };
	VP_ENSURES("optional", c_call_try_small(&w, &z, fail) == !fail);
	VP_ENSURES("optional value", fail ? z.a == 9 && z.b == 8 && z.c == 7 : z.a == w.a && z.b == w.b && z.c == w.c);
	VP_REACH();
}
//@unit call_mixed
void vp_call_mixed(void)
{
	PAIR(Mixed, x, w) BYTES(Mixed, q) uint8_t k = VP_U8("k"); int ptr = VP_BOOL("ptr");
	if (ptr) c_call_pointer(&x, &q, k); else c_call_mixed(&x, &q, k);
	VP_ENSURES("parameter and result", q.a == w.a && q.b == w.b && q.c == w.c && q.d == w.d && q.e == k);
	SAME(&x, &w, sizeof(Mixed))
	PAIR(Packed, y, v) BYTES(Packed, p)
	c_call_packed(&y, &p, k); SAME(&y, &v, sizeof(Packed)) v.e = k; SAME(&p, &v, sizeof(Packed))
	c_call_default(&q);
	VP_ENSURES("default argument", q.a == 1 && q.b == 2 && q.c == 3 && q.d == 4 && q.e == 5);
	VP_REACH();
}
//@unit call_wide
void vp_call_wide(void)
{
	PAIR(Wide, x, w) BYTES(Wide, q) LONG(k) INDEX(i, 5) uint8_t fail = VP_BOOL("fail");
	c_call_byvalue(&x); SAME(&x, &w, 40)
	c_call_wide(&x, &q, k, i); SAME(&x, &w, 40) w.v[i] = k; SAME(&q, &w, 40)
	Wide o = q;
	VP_ENSURES("optional", c_call_try_wide(&x, &q, fail) == !fail);
	if (fail) SAME(&q, &o, 40) else SAME(&q, &x, 40)
	c_call_or(&x, &q, fail);
	Wide z = { { 0, 0, 9, 0, 0 } };
	if (fail) SAME(&q, &z, 40) else SAME(&q, &x, 40)
	VP_REACH();
}
//@unit call_others
void vp_call_others(void)
{
	BYTES(Twelve, a) BYTES(Twelve, b) BYTES(Twelve, r)
	c_call_twelve(&a, &b, &r); VP_ENSURES("twelve bytes", r.a == a.a && r.b == b.b && r.c == a.c);
	BYTES(Floats, f) BYTES(Floats, g) BYTES(Floats, h)
	c_call_floats(&f, &g, &h); VP_ENSURES("float members", h.x == g.x && h.y == f.y && h.z == g.z);
	PAIR(Pun, p, pw) BYTES(Pun, pq) uint32_t k = VP_U32("k");
	c_call_pun(&p, &pq, k); pw.i[1] = k; VP_ENSURES("union", pq.l == pw.l);
	INT(u0) INT(u1) INT(u2) INT(u3) INT(v) INDEX(i, 3)
	int32_t x[4] __attribute__((aligned(16))) = { u0, u1, u2, u3 }, y[4] __attribute__((aligned(16))) = { 0 };
	c_call_arr(x, y, i, v); VP_ENSURES("array", y[0] == (i == 0 ? v : u0) && y[1] == (i == 1 ? v : u1) && y[2] == (i == 2 ? v : u2) && x[i] == (i == 0 ? u0 : i == 1 ? u1 : u2));
	c_call_vec(x, y, i, v); VP_ENSURES("vector", y[0] == (i == 0 ? v : u0) && y[1] == (i == 1 ? v : u1) && y[2] == (i == 2 ? v : u2) && y[3] == u3 && x[i] == (i == 0 ? u0 : i == 1 ? u1 : u2));
	VP_REACH();
}
//@unit call_outer
void vp_call_outer(void)
{
	PAIR(Outer, x, w) BYTES(Outer, q) INDEX(i, 3) INT(k)
	c_call_outer(&x, &q, i, k); SAME(&x, &w, sizeof(Outer)) w.arr[i] = k; SAME(&q, &w, sizeof(Outer))
	PAIR(Vecs, v, vw) BYTES(Vecs, r) uint8_t c = VP_U8("c");
	c_call_vecs(&v, &r, c);
	VP_ENSURES("vector members", r.v[0] == vw.v[0] && r.v[1] == vw.v[1] && r.v[2] == vw.v[2] && r.v[3] == vw.v[3] && r.c == c && r.f[0] == vw.f[0] && r.f[1] == vw.f[1]);
	VP_REACH();
}
uint64_t c_pun_get(Pun *, int, int); void c_pun_put(Pun *, int, int, uint64_t), c_pun_lit(Pun *, uint16_t), c_pun_arr(Pun *, uint32_t);
//@unit pun
void vp_pun(void)
{
	PAIR(Pun, x, w) INDEX(n, 4) INDEX(i, 8) LONG(v)
	VP_REQUIRES(n != 1 || i < 2);
	c_pun_put(&x, n, i, v);
	switch (n) { case 0: w.l = v; break; case 1: w.i[i] = (uint32_t)v; break; case 2: w.c[i] = (uint8_t)v; break; default: w.s = (uint16_t)v; }
	VP_ENSURES("writing a union member", x.l == w.l);
	VP_ENSURES("reading a union member", c_pun_get(&x, n, i) == (n == 0 ? w.l : n == 1 ? w.i[i] : n == 2 ? w.c[i] : w.s));
	c_pun_lit(&x, (uint16_t)v); VP_ENSURES("union initializer", x.s == (uint16_t)v);
	c_pun_arr(&x, (uint32_t)v); VP_ENSURES("union initializer", x.i[0] == (uint32_t)v && x.i[1] == 3);
	VP_REACH();
}
void c_slice_of(Slices *, int32_t *, uint64_t, uint8_t), c_slice_part(Slices *, uint64_t, uint64_t), c_slice_write(Slices *, uint64_t, int32_t), c_slice_all(int32_t *, int32_t), c_slice_copy(int32_t *, int32_t *); int32_t c_slice_read(Slices *, uint64_t); uint8_t c_slice_eq(int32_t *, int32_t *, uint64_t), c_array_eq(int32_t *, int32_t *);
//@unit slices
void vp_slices(void)
{
	int32_t m[5], w[5]; for (int i = 0; i < 5; i++) m[i] = w[i] = (int32_t)VP_U32("m");
	INDEX(n, 6) INDEX(a, 6) INDEX(l, 6) INDEX(i, 5) INT(v) uint8_t tag = VP_U8("tag");
	Slices s = { .p = m };
	VP_REQUIRES(a + l <= n && i < l);
	c_slice_of(&s, m, n, tag);
	VP_ENSURES("slice", s.s == m && s.len == n && s.tag == tag && s.p == m);
	c_slice_part(&s, a, l);
	VP_ENSURES("part of a slice", s.s == m + a && s.len == l && s.tag == tag && s.p == m);
	VP_ENSURES("element", c_slice_read(&s, i) == m[a + i]);
	c_slice_write(&s, i, v); w[a + i] = v; SAME(m, w, 20)
	VP_REACH();
}
//@unit slice_ops
void vp_slice_ops(void)
{
	int32_t m[5], w[5], k[5]; for (int i = 0; i < 5; i++) { m[i] = w[i] = (int32_t)VP_U32("m"); k[i] = (int32_t)VP_U32("k"); }
	INT(v) INDEX(n, 6)
	int eq = 1; for (int i = 0; i < n; i++) eq &= m[i] == k[i];
	VP_ENSURES("slice equality", c_slice_eq(m, k, n) == eq);
	VP_ENSURES("array equality", c_array_eq(m, k) == (m[0] == k[0] && m[1] == k[1] && m[2] == k[2]));
	c_slice_all(m, v); w[1] = w[2] = w[3] = v; SAME(m, w, 20)
	c_slice_copy(m, k); w[1] = k[0]; w[2] = k[1]; w[3] = k[2]; SAME(m, w, 20)
	VP_REACH();
}
void c_array_lit(int32_t *, int32_t, int32_t), c_array_list(int32_t *, int32_t, int32_t, int32_t), c_array_self(int32_t *), c_array_2d_put(int32_t *, int, int, int32_t), c_array_row(int32_t *, int, int32_t *), c_struct_at(Mixed *, int, int16_t), c_struct_ref(Mixed *, int, int16_t); int32_t c_array_2d(int32_t *, int, int);
//@unit arrays
void vp_arrays(void)
{
	int32_t m[6], w[6]; for (int i = 0; i < 6; i++) m[i] = w[i] = (int32_t)VP_U32("m");
	INDEX(i, 2) INDEX(j, 3) INT(v) INT(u) INT(t)
	VP_ENSURES("row major", c_array_2d(m, i, j) == m[3 * i + j]);
	c_array_2d_put(m, i, j, v); w[3 * i + j] = v; SAME(m, w, 24)
	int32_t row[3] = { v, u, t }; c_array_row(m, i, row); for (int k = 0; k < 3; k++) w[3 * i + k] = row[k]; SAME(m, w, 24)
	c_array_self(row); VP_ENSURES("initializer from itself", row[0] == t && row[1] == v && row[2] == u);
	c_array_list(row, u, v, t); VP_ENSURES("initializer list", row[0] == u && row[1] == v && row[2] == t);
	c_array_lit(m, u, v); VP_ENSURES("designated elements", m[0] == 0 && m[1] == u && m[2] == 0 && m[3] == v && m[4] == v && m[5] == w[5]);
	VP_REACH();
}
//@unit struct_array
void vp_struct_array(void)
{
	PAIR(Mixed, m0, w0) PAIR(Mixed, m1, w1) PAIR(Mixed, m2, w2) Mixed m[3] = { m0, m1, m2 }, w[3] = { w0, w1, w2 }; memcpy(m, &m0, 24); memcpy(m + 1, &m1, 24); memcpy(m + 2, &m2, 24); memcpy(w, &m0, 24); memcpy(w + 1, &m1, 24); memcpy(w + 2, &m2, 24);
	INDEX(i, 3) INT(v) int slice = VP_BOOL("slice");
	if (slice) c_struct_at(m, i, (int16_t)v); else c_struct_ref(m, i, (int16_t)v);
	w[i].c = (int16_t)v;
	SAME(m, w, sizeof m)
	VP_REACH();
}
void c_vec_swizzle(int32_t *, int32_t *), c_vec_part(int32_t *, int32_t *), c_vec_from(int32_t *, int32_t *), c_vec_to(int32_t *, int32_t *), c_vec_widen(uint8_t *, int32_t *), c_vec_narrow(uint8_t *, int32_t *), c_vec_bool(uint8_t *, int32_t *), c_vec_splat(int32_t *, int32_t), c_vec_lit(int32_t *, int32_t, int32_t), c_vec3_put(uint8_t *, int, uint8_t), c_vecs_put(Vecs *, int, int32_t, uint8_t); uint8_t c_vec3_get(uint8_t *, int); int32_t c_vecs_get(Vecs *, int);
#define VEC __attribute__((aligned(16)))
//@unit vectors
void vp_vectors(void)
{
	int32_t p[4] VEC, q[4] VEC = { 0 }, o[4] VEC, h[2] VEC; uint8_t b[4] VEC, c[4] VEC;
	for (int i = 0; i < 4; i++) { p[i] = o[i] = (int32_t)VP_U32("p"); b[i] = c[i] = VP_U8("b"); }
	h[0] = (int32_t)VP_U32("h"); h[1] = (int32_t)VP_U32("h");
	c_vec_swizzle(p, q); for (int i = 0; i < 4; i++) VP_ENSURES("swizzle", q[i] == p[3 - i]);
	c_vec_from(p, q); for (int i = 0; i < 4; i++) VP_ENSURES("array to vector", q[i] == p[i]);
	c_vec_narrow(c, p); for (int i = 0; i < 4; i++) VP_ENSURES("narrowing", c[i] == (uint8_t)p[i]);
	c_vec_bool(c, p); for (int i = 0; i < 4; i++) VP_ENSURES("to bool", c[i] == (p[i] != 0 ? 255 : 0));
	c_vec_widen(b, q); for (int i = 0; i < 4; i++) VP_ENSURES("widening", q[i] == b[i]);
	c_vec_to(o, q); for (int i = 0; i < 4; i++) VP_ENSURES("vector to array", o[i] == q[i]);
	c_vec_part(p, h); for (int i = 0; i < 4; i++) o[i] = p[i]; VP_ENSURES("assigning to a swizzle", p[1] == h[0] && p[3] == h[1]);
	c_vec_lit(q, h[0], h[1]); VP_ENSURES("initializer list", q[0] == h[0] && q[1] == 1 && q[2] == h[1] && q[3] == h[0]);
	c_vec_splat(q, h[1]); for (int i = 0; i < 4; i++) VP_ENSURES("splat", q[i] == h[1]);
	VP_REACH();
}
//@unit vector_parts
void vp_vector_parts(void)
{
	uint8_t b[4] VEC, c[4] VEC; for (int i = 0; i < 4; i++) b[i] = c[i] = VP_U8("b");
	INDEX(i, 3) uint8_t v = VP_U8("v");
	VP_ENSURES("element", c_vec3_get(b, i) == b[i]);
	c_vec3_put(b, i, v); c[i] = v; VP_ENSURES("elements", b[0] == c[0] && b[1] == c[1] && b[2] == c[2]);
	PAIR(Vecs, x, w) INT(k) INDEX(j, 4)
	c_vecs_put(&x, j, k, v); w.v[j] = k; w.c = v; SAME(&x, &w, sizeof(Vecs))
	VP_ENSURES("element of a member", c_vecs_get(&x, j) == k);
	VP_REACH();
}
void c_swap(Mixed *, Mixed *), c_ternary(Mixed *, Mixed *, Mixed *, uint8_t), c_chain_put(Chain *, int32_t), c_pack_fields(Packed *, Packed *), c_two_results(Twelve *, int32_t, int32_t); int32_t c_chain(Chain *);
int64_t *c_address(Packed *);
//@unit copies
void vp_copies(void)
{
	PAIR(Mixed, x, xw) PAIR(Mixed, y, yw) BYTES(Mixed, r) uint8_t c = VP_BOOL("c");
	c_swap(&x, &y); SAME(&x, &yw, sizeof(Mixed)) SAME(&y, &xw, sizeof(Mixed))
	c_ternary(&x, &y, &r, c); if (c) SAME(&r, &x, sizeof(Mixed)) else SAME(&r, &y, sizeof(Mixed))
	INT(v) INT(u) Chain k3 = { 0, v }, k2 = { &k3, 2 }, k1 = { &k2, 1 };
	VP_ENSURES("through pointers", c_chain(&k1) == v);
	c_chain_put(&k1, u); VP_ENSURES("through pointers", k3.v == u && k2.v == 2 && k1.v == 1 && k1.next == &k2 && k2.next == &k3 && !k3.next);
	BYTES(Packed, p) BYTES(Packed, q)
	VP_ENSURES("address of a member", (uint8_t *)c_address(&p) == (uint8_t *)&p + 7);
	c_pack_fields(&p, &q); VP_ENSURES("members", p.a == q.e && p.b == q.b && p.c == q.c && p.d == q.d && p.e == q.a);
	Twelve t = { 1, 2, 3 }; c_two_results(&t, v, u); VP_ENSURES("copies are separate", t.a == v && t.b == v && t.c == u);
	VP_REACH();
}
int32_t c_any_int(int32_t); int64_t c_any_small(Small *); void c_bitcast_f(float, uint32_t *), c_bitcast_s(uint64_t, uint8_t *), c_bitcast_v(int32_t *, uint64_t *);
int c_shape_sides(int), c_shape_size(int); uint8_t c_shape_name(int, int);
//@unit views
void vp_views(void)
{
	INT(v) LONG(l) BYTES(Small, s)
	VP_ENSURES("any", c_any_int(v) == (int32_t)((uint32_t)v + 1) && c_any_small(&s) == s.c);
	union { float f; uint32_t u; } k; k.u = (uint32_t)v; VP_REQUIRES(k.f == k.f);
	uint32_t u; c_bitcast_f(k.f, &u); VP_ENSURES("bitcast of float", u == k.u);
	uint8_t c[8]; c_bitcast_s(l, c); for (int i = 0; i < 8; i++) VP_ENSURES("bitcast to bytes", c[i] == (uint8_t)((uint64_t)l >> 8 * i));
	int32_t x[4] VEC = { v, (int32_t)l, 3, (int32_t)(l >> 32) }; uint64_t y[2];
	c_bitcast_v(x, y); VP_ENSURES("bitcast of vector", y[0] == ((uint64_t)(uint32_t)x[1] << 32 | (uint32_t)v) && y[1] == ((uint64_t)(uint32_t)x[3] << 32 | 3));
	INDEX(e, 3) INDEX(j, 3)
	VP_ENSURES("associated values", c_shape_sides(e) == (e == 0 ? 1 : e == 1 ? 3 : 4) && c_shape_size(e) == 123 + 333 * e && c_shape_name(e, j) == (uint8_t)("dottribox"[3 * e + j]));
	VP_REACH();
}

/* vectors of bool: an element in memory is false (0) or true (1 or, for the result of a vector operation, 255) */
typedef struct { uint8_t a; uint8_t v[4] __attribute__((aligned(4))); } Bv;
void c_bv_arr(void *, void *), c_bv_vec(void *, void *), c_bv_lit(void *, uint8_t), c_bv_des(void *, uint8_t), c_bv_put(void *, int, uint8_t), c_bv_splat(void *, uint8_t), c_bv_widen(void *, int32_t *), c_bv_not(void *, void *), c_bv_bnot(void *, void *), c_bv_mem(Bv *, void *), c_bv_kons(void *), c_bv_sw(void *), c_bv_sw2(void *, uint8_t), c_bv_sw3(void *, void *), c_bv_call(void *, uint8_t), c_bv_callm(Bv *, void *, uint8_t);
uint8_t c_bv_get(void *, int), c_bv_eq(void *, void *), c_bv_konst(int);
#define BOOLS(v) uint8_t v[4] __attribute__((aligned(4))), t_##v[4]; for (int i = 0; i < 4; i++) { uint8_t k_ = VP_U8(#v); VP_REQUIRES(k_ == 0 || k_ == 1 || k_ == 255); v[i] = k_; t_##v[i] = k_ & 1; }
#define TRUTH(name, v, e0, e1, e2, e3) VP_ENSURES(name, is(v[0], e0) && is(v[1], e1) && is(v[2], e2) && is(v[3], e3));
static int is(uint8_t m, int truth) { return truth ? m == 1 || m == 255 : m == 0; }
//@unit bools
void vp_bools(void)
{
	BOOLS(a) BOOLS(b) uint8_t x = VP_BOOL("x"); INDEX(i, 4)
	uint8_t r[4] __attribute__((aligned(4))) = { 0 };
	c_bv_arr(a, r); VP_ENSURES("to an array", r[0] == t_a[0] && r[1] == t_a[1] && r[2] == t_a[2] && r[3] == t_a[3]);
	c_bv_vec(r, t_b); TRUTH("from an array", r, t_b[0], t_b[1], t_b[2], t_b[3])
	c_bv_lit(r, x); TRUTH("initializer list", r, x, 1, 0, x)
	c_bv_des(r, x); TRUTH("designated elements", r, 0, x, x, 0)
	c_bv_splat(r, x); TRUTH("splat", r, x, x, x, x)
	c_bv_call(r, x); TRUTH("returned", r, x, 1, 0, x)
	c_bv_not(r, b); TRUTH("!", r, !t_b[0], !t_b[1], !t_b[2], !t_b[3])
	c_bv_kons(r); TRUTH("constant", r, 1, 0, 1, 1)
	VP_ENSURES("element", c_bv_get(a, i) == t_a[i] && c_bv_konst(i) == (i != 1));
	VP_ENSURES("==", c_bv_eq(a, b) == (t_a[0] == t_b[0] && t_a[1] == t_b[1] && t_a[2] == t_b[2] && t_a[3] == t_b[3]));
	int32_t w[4] VEC; c_bv_widen(a, w); for (int k = 0; k < 4; k++) VP_ENSURES("as integers", w[k] == -(int)t_a[k]);
	VP_REACH();
}
//@unit bool_parts
void vp_bool_parts(void)
{
	BOOLS(a) BOOLS(b) uint8_t x = VP_BOOL("x"); INDEX(i, 4)
	Bv m = { 9, { 1, 2, 3, 4 } };
	c_bv_mem(&m, b); VP_ENSURES("member", m.a == 1); TRUTH("member", m.v, t_b[0], t_b[1], t_b[2], t_b[3])
	c_bv_callm(&m, b, x); VP_ENSURES("returned member", m.a == 0); TRUTH("returned member", m.v, x, x, 1, x)
	uint8_t s[4] __attribute__((aligned(4)));
	for (int k = 0; k < 4; k++) s[k] = a[k];
	c_bv_put(s, i, x); TRUTH("writing an element", s, i == 0 ? x : t_a[0], i == 1 ? x : t_a[1], i == 2 ? x : t_a[2], i == 3 ? x : t_a[3])
	for (int k = 0; k < 4; k++) s[k] = a[k];
	c_bv_sw(s); TRUTH("swizzle", s, t_a[3], t_a[2], t_a[1], t_a[0])
	c_bv_sw2(a, x); TRUTH("element by name", a, t_a[0], x, t_a[2], t_a[3])
	c_bv_sw3(a, b); TRUTH("assigning to a swizzle", a, t_b[1], t_b[0], t_a[2], t_a[3])
	c_bv_bnot(a, b); TRUTH("& ~", a, t_b[0] && !t_b[1], t_b[1] && !t_b[0], t_b[2] && !t_a[2], t_b[3] && !t_a[3])
	VP_REACH();
}
