// Each template function is compared with what the language defines for it: result and order of effects, for all arguments.
//@file lang=c3 probe=flow.c3 d.off=signed-overflow nosan=signed-integer-overflow d.unwind=10 d.timeout=120
#include "vp.h"
#ifdef VP_NATIVE
#define VPX(n) n
#else
#define VPX(n) vpx_##n
#endif
#define CAP 48
static int32_t did[CAP], must[CAP];
static unsigned n_did, n_must;
void VPX(vp_ev)(int32_t x) { if (n_did < CAP) did[n_did] = x; n_did++; }
int32_t VPX(vp_iv)(int32_t x) { VPX(vp_ev)(x); return x; }
static void E(int32_t x) { if (n_must < CAP) must[n_must] = x; n_must++; }
static int32_t V(int32_t x) { E(x); return x; }
static void start(void) { n_did = n_must = 0; }
static void same(int32_t got, int32_t want)
{
	VP_ENSURES("the value the language defines", got == want);
	VP_ENSURES("as many effects as the language defines", n_did == n_must && n_must <= CAP);
	unsigned k = (unsigned)VP_RANGE("k", 0, CAP - 1);
	VP_ENSURES("the effects in the order the language defines", k >= n_must || did[k] == must[k]);
	VP_REACH();
}
#define SHL(x, n) ((int32_t)((uint32_t)(x) << (n)))
#define FA 1
#define FB 2
#define FC 3
typedef struct { int32_t v; int f; } O;     /* an optional: value, or fault */
#define OK(x) ((O){ x, 0 })
#define FAULT(x) ((O){ 0, x })
static O may(int32_t a) { E(1000); return a == 1 ? FAULT(FA) : a == 2 ? FAULT(FB) : OK(a + 10); }
static int32_t code(int f) { return -1000 - f; }
static int32_t res(O o) { return o.f ? code(o.f) : o.v; }
// ---- switch
static int32_t s_int(int32_t a)
{
	if (a == 0) { E(0); return 10; }
	if (a >= -5 && a <= -2) { E(1); return 11; }
	if (a == 3 || a == 4) { E(2); E(3); return 12; }
	if (a >= 7 && a <= 9) { E(3); return 12; }
	if (a == INT32_MAX) { E(4); E(0); return 10; }
	if (a <= -1000) { E(5); E(6); return 13; }
	if (a == 20) { E(7); E(8); return 14; }
	if (a == 21) { E(3); return 12; }
	E(6); return 13;
}
static int32_t s_char(uint8_t a)
{
	if (a >= 'a' && a <= 'z') { E(1); return a - 'a'; }
	if (a >= 'A' && a <= 'Z') { E(2); E(1); return a - 'a'; }
	return a == 0 ? -1 : a >= 128 ? 1000 : a >= '0' && a <= '9' ? 500 : -2;
}
static int32_t s_ulong(uint64_t a) { return a <= 9 ? 1 : a >= 0x8000000000000000ULL && a <= 0x8000000000000010ULL ? 2 : a == UINT64_MAX ? 3 : a == 0x100000000ULL ? 4 : 5; }
static int32_t s_long(int64_t a) { return a == INT64_MIN ? 1 : a >= -1 && a <= 1 ? 2 : a >= 0x7fffffffffffff00LL ? 3 : 4; }
static int32_t s_enum(int32_t i)
{
	switch (i & 3) { case 0: E(2); return 5; case 1: E(1); E(4); return 6; case 2: E(3); return 7; default: E(4); return 6; }
}
static int32_t s_bool(int32_t a, int32_t b)
{
	if (a < 0) { E(1); return 1; }
	if (a > 10) { E(b); if (b > 3) { E(2); E(3); return 2; } }
	if (b == 7) { E(3); return 2; }
	if (a == b) { E(4); return 4; }
	E(5); return 3;
}
static int32_t s_jump(int32_t a)
{
	switch (a) { case 0: E(0); return 100; case 1: E(1); E(3); return 103; case 2: E(2); return 102; case 3: E(3); return 103; case 4: return 104; case 6: E(6); return 107; case 7: return 107; default: return -1; }
}
static int32_t s_jump_chain(int32_t a, int32_t b)
{
	int32_t x = b, n = 0, at = a;
	for (int k = 0; k < 4; k++)
		switch (at) {
			case 0: if (++n > 2) return n + 100; at = ++x; break;
			case 1: if (++n > 2) return n + 200; at = x += 2; break;
			case 2: E(x); return n;
			case 3: if (++n > 2) return n + 300; at = --x; break;
			default: return x;
		}
	return 0;
}
static int32_t s_dyn(int32_t a, int32_t b, int32_t c)
{
	int32_t n = 0, at = a;
	for (int k = 0; k < 4; k++) {
		if (at == 1) { E(1); if (n++) return 50; at = b; continue; }
		if (at == 2) { E(2); if (n++ > 1) return 51; at = c; continue; }
		if (at >= 3 && at <= 6) { E(3); return 52 + n; }
		E(4); return 60 + n;
	}
	return 0;
}
static int32_t s_nested(int32_t a, int32_t b)
{
	if (a == 1) {
		int32_t r = 0;
		if (b == 1) { E(1); E(6); return 20; }
		if (b == 2) { E(2); return 0; }
		if (b == 3) E(3);
		else if (b == 4) { E(4); E(7); return 300; }
		else r = 9;
		E(5); return r + 1;
	}
	if (a == 3) { E(6); return 20; }
	E(7); return 300;
}
static bool is(const uint8_t *p, uint64_t n, const char *s, uint64_t m) { if (n != m) return false; for (uint64_t i = 0; i < 3; i++) if (i < n && p[i] != (uint8_t)s[i]) return false; return true; }
static int32_t s_string(const uint8_t *p, uint64_t n)
{
	if (is(p, n, "", 0)) return 1;
	if (is(p, n, "ab", 2)) return 2;
	if (is(p, n, "abc", 3)) return 3;
	if (is(p, n, "abd", 3)) { E(1); return 2; }
	return is(p, n, "b\0", 2) ? 4 : 5;
}
static int32_t s_continue(int32_t n, int32_t a)
{
	int32_t r = 0;
	for (int32_t i = 0; i < (n & 3); i++) {
		if (a + i == 1) { E(1); continue; }
		if (a + i == 2) E(2);
		else if (a + i == 3) { E(3); E(30); if (n & 8) continue; r += 7; }
		else r += 100;
		r += 1000;
	}
	return r;
}
static int32_t s_typeid(int32_t w) { if ((w & 3) == 3) E(1); return (w & 3) == 0 ? 1 : (w & 3) == 1 ? 2 : 3; }
int32_t c_s_int(int32_t), c_s_char(uint8_t), c_s_ulong(uint64_t), c_s_long(int64_t), c_s_enum(int32_t), c_s_bool(int32_t, int32_t), c_s_jump(int32_t), c_s_jump_chain(int32_t, int32_t), c_s_dyn(int32_t, int32_t, int32_t),
	c_s_nested(int32_t, int32_t), c_s_string(uint8_t *, uint64_t), c_s_continue(int32_t, int32_t), c_s_typeid(int32_t), c_s_const(int32_t);
#define A int32_t a = VP_I32("a")
#define AB A, b = VP_I32("b")
#define ABC AB, c = VP_I32("c")
#define CMP(f, spec) { start(); int32_t got = f; int32_t want = spec; same(got, want); }
//@unit switch_int fns=llvm_emit_switch_body,sema_analyse_switch_stmt
void vp_switch_int(void) { A; CMP(c_s_int(a), s_int(a)) }
//@unit switch_char fns=llvm_emit_switch_body
void vp_switch_char(void) { uint8_t a = VP_U8("a"); CMP(c_s_char(a), s_char(a)) }
//@unit switch_ulong fns=llvm_emit_switch_body
void vp_switch_ulong(void) { uint64_t a = VP_U64("a"); CMP(c_s_ulong(a), s_ulong(a)) }
//@unit switch_long fns=llvm_emit_switch_body
void vp_switch_long(void) { int64_t a = VP_I64("a"); CMP(c_s_long(a), s_long(a)) }
//@unit switch_enum fns=llvm_emit_switch_body
void vp_switch_enum(void) { A; CMP(c_s_enum(a), s_enum(a)) }
//@unit switch_bool fns=llvm_emit_if_switch_body
void vp_switch_bool(void) { AB; CMP(c_s_bool(a, b), s_bool(a, b)) }
//@unit switch_jump fns=llvm_emit_switch_jump_stmt
void vp_switch_jump(void) { A; CMP(c_s_jump(a), s_jump(a)) }
//@unit switch_jump_chain each=0..4 unwind=5 fns=llvm_emit_switch_jump_stmt,llvm_emit_nextcase
void vp_switch_jump_chain(uint64_t n) { AB; if (n < 4) a = (int32_t)n; else VP_REQUIRES(a < 0 || a > 3); CMP(c_s_jump_chain(a, b), s_jump_chain(a, b)) }
//@unit switch_dynamic_next fns=llvm_emit_nextcase
void vp_switch_dynamic_next(void) { ABC; CMP(c_s_dyn(a, b, c), s_dyn(a, b, c)) }
//@unit switch_nested fns=llvm_emit_nextcase,sema_analyse_nextcase_stmt
void vp_switch_nested(void) { AB; CMP(c_s_nested(a, b), s_nested(a, b)) }
//@unit switch_string fns=llvm_emit_if_switch_body
void vp_switch_string(void) { uint8_t p[3]; for (int i = 0; i < 3; i++) p[i] = VP_U8("p"); uint64_t n = VP_RANGE("n", 0, 3); CMP(c_s_string(p, n), s_string(p, n)) }
//@unit switch_continue fns=llvm_emit_continue,llvm_emit_break
void vp_switch_continue(void) { AB; CMP(c_s_continue(a, b), s_continue(a, b)) }
//@unit switch_typeid fns=llvm_emit_if_switch_body
void vp_switch_typeid(void) { A; CMP(c_s_typeid(a), s_typeid(a)) }
//@unit switch_const fns=llvm_emit_switch
void vp_switch_const(void) { A; CMP(c_s_const(a), a + 10) }
// ---- loops
static int32_t l_for(int32_t n, int32_t a)
{
	int32_t r = 0;
	for (int32_t i = 0, j = a; i < (n & 7); i++, j += 2) { if (i == 2) continue; if (j == 9) break; E(i); r = SHL(r, 1) ^ j; }
	return r;
}
static int32_t l_while(int32_t n, int32_t a)
{
	int32_t i = n & 7, r = 0;
	for (;;) { int32_t t = i; i = i - 1; if (!(t > 0)) break; if (i == a) continue; if (i == a + 2) { E(99); break; } E(i); r += i; }
	return r * 10 + i;
}
static int32_t l_do(int32_t n, int32_t a)
{
	int32_t i = n & 3;
	for (;;) { E(i); if (i != a) { if (i == a + 1) break; E(50 + i); } if (!(i++ < 2)) break; }
	return i;
}
static int32_t l_donc(int32_t a) { E(1); if (!(a > 3)) E(2); E(3); if (!(a < 0)) E(4); return a; }
static int32_t l_labels(int32_t n, int32_t a, int32_t b)
{
	int32_t r = 0;
	for (int32_t i = 0; i < (n & 3); i++) {
		int32_t k = 0; int out = 0;     /* 1: next i, 2: end of the outer loop, 3: end of the inner, 4: return */
		while (!out && k++ < 2) {
			if (k == a) out = 1;
			else if (k == b) out = 2;
			else if (k == a + 1) { }
			else if (i == 1 && k == b + 1) out = 3;
			else if (i == 2 && k == 2) out = 4;
			else r = r ^ SHL(i, 2) ^ k;
			E(200); E(k);
		}
		if (out == 0 || out == 3) E(300);
		E(100 + i);
		if (out == 2) return r;
		if (out == 4) return r + 10000;
	}
	return r;
}
static int32_t l_foreach(int32_t n, int32_t a, int32_t b, int32_t c, int32_t d)
{
	int32_t x[4] = { a, b, c, d }, r = 0;
	for (int i = 0; i < 4; i++) { if (i >= (n & 3)) break; if (x[i] == 5) continue; E(i); r += x[i]; }
	for (int i = 0; i < 3; i++) { x[i] += 1; E(x[i]); }
	for (int i = 3; i >= 0; i--) { if (x[i] == 6) break; E(i); r ^= x[i]; }
	x[1] = x[2] = 9;
	for (int i = 0; i < 4; i++) E(x[i]);
	for (int i = 0; i < 4; i++) if ((n & 3) + i < 4) E(i * 16 + (x[(n & 3) + i] & 15));
	return r;
}
static int32_t l_once(int32_t a)
{
	int32_t r = a;
	if (!(r > 5)) { r = 6; E(6); }
	E(1); E(r);
	if (a > 1) { if (!(a > 2)) E(8); } else E(9);
	E(11); E(13); E(12);
	return r;
}
int32_t c_l_for(int32_t, int32_t), c_l_while(int32_t, int32_t), c_l_do(int32_t, int32_t), c_l_donc(int32_t), c_l_labels(int32_t, int32_t, int32_t), c_l_foreach(int32_t, int32_t, int32_t, int32_t, int32_t), c_l_once(int32_t);
static int32_t s_jump_ichar(int8_t a) { if (a == -100) return 1; if (a == 100) return 2; if (a >= 0 && a <= 50) { E(a); return 3; } return a >= 60 && a <= 99 ? 5 : 4; }
static int32_t s_jump_char(uint8_t a) { if (a <= 100) return 1; if (a == 200) { E(2); return 5; } if (a >= 250) { E(3); return 5; } return 4; }
static int32_t s_jump_short(int16_t a) { if (a == -200) return 1; if (a == 200) { E(7); return 1; } return a >= -3 && a <= 50 ? 3 : 6; }
static int32_t s_jump_mid(int32_t a) { if (a == 0) return 1; E(a); return 2; }
static int32_t s_jump_tail(int32_t a) { return a == 0 ? 1 : 2; }
static int32_t s_jump_to_default(int32_t a) { if (a == 0) return 1; E(a); return 2; }
static int32_t s_jump_next_tail(int32_t a, int32_t b) { if (a == 0) { E(1); a = (b & 3) | 1; } if (a == 1) E(2); if (a == 2) E(4); return 2; }
static int32_t s_chain_mid(int32_t a, int32_t b) { if (a == b) return 1; E(a); return 2; }
static int32_t s_chain_tail(int32_t a, int32_t b) { if (a == b) return 1; if ((uint32_t)a != (uint32_t)b + 1 && a == 7) return 2; E(1); return 2; }
static int32_t s_wide(int32_t a) { return a < 0 ? 1 : a == 0 ? 2 : a >= 5 ? 3 : 4; }
int32_t c_s_jump_ichar(int8_t), c_s_jump_char(uint8_t), c_s_jump_short(int16_t), c_s_jump_mid(int32_t), c_s_jump_tail(int32_t), c_s_jump_to_default(int32_t), c_s_jump_next_tail(int32_t, int32_t),
	c_s_chain_mid(int32_t, int32_t), c_s_chain_tail(int32_t, int32_t), c_s_wide(int32_t), c_s_wide_ichar(int8_t);
//@unit switch_jump_ichar fns=llvm_emit_switch_jump_stmt,llvm_emit_switch_jump_table
void vp_switch_jump_ichar(void) { A; CMP(c_s_jump_ichar((int8_t)a), s_jump_ichar((int8_t)a)) }
//@unit switch_jump_char fns=llvm_emit_switch_jump_stmt,llvm_emit_switch_jump_table
void vp_switch_jump_char(void) { A; CMP(c_s_jump_char((uint8_t)a), s_jump_char((uint8_t)a)) }
//@unit switch_jump_short fns=llvm_emit_switch_jump_stmt,llvm_emit_switch_jump_table
void vp_switch_jump_short(void) { A; CMP(c_s_jump_short((int16_t)a), s_jump_short((int16_t)a)) }
//@unit switch_jump_mid_default fns=llvm_emit_switch_jump_table
void vp_switch_jump_mid_default(void) { A; CMP(c_s_jump_mid(a), s_jump_mid(a)) }
//@unit switch_jump_empty_tail fns=llvm_emit_switch_jump_table
void vp_switch_jump_empty_tail(void) { A; CMP(c_s_jump_tail(a), s_jump_tail(a)) }
//@unit switch_jump_to_default fns=llvm_emit_switch_jump_table
void vp_switch_jump_to_default(void) { A; CMP(c_s_jump_to_default(a), s_jump_to_default(a)) }
//@unit switch_jump_next_tail fns=llvm_emit_switch_jump_table,llvm_emit_nextcase
void vp_switch_jump_next_tail(void) { AB; CMP(c_s_jump_next_tail(a, b), s_jump_next_tail(a, b)) }
//@unit switch_chain_mid_default fns=llvm_emit_switch_body_if_chain
void vp_switch_chain_mid_default(void) { AB; CMP(c_s_chain_mid(a, b), s_chain_mid(a, b)) }
//@unit switch_chain_empty_tail fns=llvm_emit_switch_body_if_chain
void vp_switch_chain_empty_tail(void) { AB; CMP(c_s_chain_tail(a, b), s_chain_tail(a, b)) }
//@unit switch_wide_range fns=llvm_emit_switch_body_if_chain,sema_check_value_case
void vp_switch_wide_range(void) { A; CMP(c_s_wide(a), s_wide(a)) }
//@unit switch_wide_ichar fns=llvm_emit_switch_body,sema_check_value_case
void vp_switch_wide_ichar(void) { A; CMP(c_s_wide_ichar((int8_t)a), s_wide((int8_t)a)) }
static int32_t s_next_defer(int32_t a, int32_t b)
{
	int32_t x = b;
	if (a == 0) { E(1); a = b; x = 2; if (a == 0) { E(1); x = 2; a = 2; } }
	E(a == 1 ? 2 : a == 2 ? 3 : 4);
	return x;
}
int32_t c_s_jump_defer(int32_t, int32_t), c_s_next_defer(int32_t, int32_t);
//@unit switch_jump_defer fns=gencontext_emit_next_stmt
void vp_switch_jump_defer(void) { AB; CMP(c_s_jump_defer(a, b), s_next_defer(a, b)) }
//@unit switch_next_defer fns=gencontext_emit_next_stmt
void vp_switch_next_defer(void) { AB; CMP(c_s_next_defer(a, b), s_next_defer(a, b)) }
//@unit loop_for fns=llvm_emit_for_stmt
void vp_loop_for(void) { AB; CMP(c_l_for(a, b), l_for(a, b)) }
//@unit loop_while fns=llvm_emit_for_stmt
void vp_loop_while(void) { AB; CMP(c_l_while(a, b), l_while(a, b)) }
//@unit loop_do fns=llvm_emit_for_stmt
void vp_loop_do(void) { AB; CMP(c_l_do(a, b), l_do(a, b)) }
//@unit loop_do_nocond fns=llvm_emit_for_stmt,llvm_emit_break
void vp_loop_do_nocond(void) { A; CMP(c_l_donc(a), l_donc(a)) }
//@unit loop_labels each=0..3 unwind=5 fns=llvm_emit_for_stmt,llvm_emit_continue,llvm_emit_break,llvm_emit_statement_chain
void vp_loop_labels(uint64_t n) { int32_t b = VP_I32("b"), c = VP_I32("c"); CMP(c_l_labels((int32_t)n, b, c), l_labels((int32_t)n, b, c)) }
//@unit loop_foreach fns=sema_analyse_foreach_stmt,llvm_emit_for_stmt
void vp_loop_foreach(void) { ABC; int32_t d = VP_I32("d"), e = VP_I32("e"); CMP(c_l_foreach(a, b, c, d, e), l_foreach(a, b, c, d, e)) }
//@unit loop_once fns=llvm_emit_for_stmt,llvm_emit_if
void vp_loop_once(void) { A; CMP(c_l_once(a), l_once(a)) }
// ---- defer
static int32_t d_order(int32_t a)
{
	if (a == 1) { E(5); E(4); E(3); E(2); E(1); return 5; }
	E(6); E(4); E(3); E(2);
	if (a == 2) { E(1); return 7; }
	if (a > 5) { E(10); E(9); E(1); return 10; }
	E(12); E(11); if (a == 3) E(8); E(1); return 12;
}
static O d_try(int32_t a, int32_t b)
{
	O r, x = may(a); int fault;
	if (x.f) { r = x; fault = 1; goto first; }
	if (b == 3) { r = FAULT(FC); fault = 1; E(6); goto first; }
	if (b == 4) { r = OK(x.v); fault = 0; E(5); goto first; }
	r = OK(x.v + 1); fault = 0;
	if (b == 5) { r = may(x.v - 10 + 1); fault = r.f; }
	else if (b == 6) { r = may(a + 1); fault = r.f; }
	if (fault) E(8); else E(9);
	E(7);
	if (fault) E(6); else E(5);
first:
	if (fault) { E(r.f == FA ? 41 : r.f == FB ? 42 : 43); E(3); } else E(2);
	E(1);
	return r;
}
static int32_t d_void(int32_t a)
{
	if (a == 1) { E(1); return code(FA); }
	if (a == 2) { E(2); return 7; }
	O o = may(a - 10);
	if (o.f) { E(1); return code(o.f); }
	E(2); return 7;
}
static int32_t d_loop(int32_t n, int32_t a)
{
	int32_t r = 0;
	for (int32_t i = 0; i < (n & 3); i++) {
		if (i == a) { E(i); r++; continue; }
		if (i == a + 1) { E(10 + i); E(i); r++; break; }
		E(20);
		if (a == 7) { E(10 + i); E(i); return r; }
		r += 10; E(10 + i); E(i); r++;
	}
	return r;
}
static int32_t d_switch(int32_t a)
{
	if (a == 1) { E(1); E(20); E(2); return V(50); }
	if (a == 2) { E(2); E(30); E(3); return 30; }
	if (a == 3) { E(30); E(3); return 30; }
	if (a != 9) E(40);
	E(4); return V(50);
}
static int32_t mret(int32_t a) { if (a > 3) { E(60); return a * 2; } E(61); E(60); return 1; }
static int32_t d_macro(int32_t a)
{
	int32_t r = a + 1;
	if (a + 1 == 4) E(77);
	E(5); E(2);
	r += a + 2;
	if (a + 2 == 4) E(77);
	E(5); E(1);
	int32_t m = mret(a); m += mret(a + 1);
	return r * 100 + 30 + m;
}
static int32_t d_macro_ret(int32_t a)
{
	if (a + 1 == 4) { E(1); E(9); return 1234; }
	E(2);
	if (a + 2 == 4) { E(1); E(9); return 1234; }
	E(1); E(9); return 5;
}
static O d_tonly(int32_t a) { O r = may(a); if (!r.f) E(2); return r; }
static O d_conly(int32_t a) { O r = may(a); if (r.f) E(2); return r; }
static O d_two(int32_t a, int32_t b, int catch)
{
	if (b != 1 && b != 2 && !catch) E(4);       /* leaving the block in the ordinary way */
	O r = may(a);
	if (b == 1) E(3);
	else if (b == 2) { if (!r.f == !catch) E(4); }
	else if (!r.f) r.v++;
	if (!r.f == !catch) E(2);
	return r;
}
static O d_rethrow(int32_t a, int32_t b)
{
	O r;
	if (b == 1) { r = may(a); if (r.f) { E(3); return r; } E(4); }
	r = may((int32_t)((uint32_t)a + (uint32_t)b)); if (r.f) { E(5); return r; }
	O q = may((int32_t)((uint32_t)a - (uint32_t)b)); if (q.f) { E(5); return q; }
	r.v = (int32_t)((uint32_t)r.v + (uint32_t)q.v);
	E(5); E(2); return r;
}
static O d_mtry(int32_t a) { O r = may(a); E(3); if (!r.f) E(2); return r; }
static O d_mcatch(int32_t a) { O r; if (a > 3) { r = may(a - 4); E(4); } else r = may(a); if (r.f) E(2); return r; }
static int32_t d_mres(O o) { int32_t r = res(o); E(9); return r; }
static int32_t d_mbody(int32_t a, int32_t b)
{
	for (int i = 0; i < 2; i++) {
		if (a > 0) {
			if (a == b) { E(8); E(a); E(2); E(1); E(9); return i; }
			E(7); E(a); E(3); E(2);
		}
		if (b == 0) { E(8); E(0); E(1); E(9); return i; }
		E(7); E(0); E(1);
	}
	E(9); return 5;
}
static int32_t d_next(int32_t a, int32_t b, int32_t c)
{
	int32_t t = a;
	if (t == 0) {
		if (b > 0) { E(3); t = b; }
		else if (b == -1) { E(4); t = 2; }
		else if (b == -2) { E(5); t = 99; }
		else { E(6); t = 1; }
		E(2);
	}
	if (t == 1) {
		E(10);
		if (b == 0) { E(12); E(11); t = c; }        /* not 0 or 1: the template would not end */
		else if (b == 1) { E(13); E(11); t = 2; }
		else {
			if (b == 2) { if (c == 1) { E(14); E(11); E(1); return a; } E(15); E(14); }
			else E(16);
			E(17); E(11); E(1); return a;
		}
	}
	if (t == 2) E(20); else E(30);
	E(1);
	return a;
}
int32_t c_d_order(int32_t), c_d_value(int32_t), c_d_ptr(int32_t *), c_d_try(int32_t, int32_t), c_d_void(int32_t), c_d_loop(int32_t, int32_t), c_d_switch(int32_t), c_d_macro(int32_t), c_d_macro_ret(int32_t);
//@unit defer_order fns=llvm_emit_statement_chain,llvm_emit_return
void vp_defer_order(void) { A; CMP(c_d_order(a), d_order(a)) }
//@unit defer_value fns=llvm_emit_return
void vp_defer_value(void) { A; CMP(c_d_value(a), V(a + 1)) }
//@unit defer_pointer fns=llvm_emit_return
void vp_defer_pointer(void) { A, x = a; int32_t r = c_d_ptr(&x); VP_ENSURES("value before the defer, effect after it", r == a && x == a + 1); VP_REACH(); }
int32_t c_d_tonly(int32_t), c_d_conly(int32_t), c_d_tonly2(int32_t, int32_t), c_d_conly2(int32_t, int32_t), c_d_rethrow(int32_t, int32_t), c_d_mtry(int32_t), c_d_mcatch(int32_t), c_d_mbody(int32_t, int32_t),
	c_d_next(int32_t, int32_t, int32_t), c_d_next_jump(int32_t, int32_t, int32_t);
//@unit defer_try_only fns=sema_inline_return_defers,llvm_emit_return
void vp_defer_try_only(void) { A; CMP(c_d_tonly(a), res(d_tonly(a))) }
//@unit defer_catch_only fns=sema_inline_return_defers,llvm_emit_return
void vp_defer_catch_only(void) { A; CMP(c_d_conly(a), res(d_conly(a))) }
//@unit defer_try_nested fns=sema_inline_return_defers,llvm_emit_return
void vp_defer_try_nested(void) { AB; CMP(c_d_tonly2(a, b), res(d_two(a, b, 0))) }
//@unit defer_catch_nested fns=sema_inline_return_defers,llvm_emit_return
void vp_defer_catch_nested(void) { AB; CMP(c_d_conly2(a, b), res(d_two(a, b, 1))) }
//@unit defer_rethrow fns=llvm_emit_rethrow_expr,context_get_defers
void vp_defer_rethrow(void) { AB; CMP(c_d_rethrow(a, b), res(d_rethrow(a, b))) }
//@unit defer_macro_try fns=sema_inline_return_defers,llvm_emit_block_exit_return
void vp_defer_macro_try(void) { A; CMP(c_d_mtry(a), d_mres(d_mtry(a))) }
//@unit defer_macro_catch fns=sema_inline_return_defers,llvm_emit_block_exit_return
void vp_defer_macro_catch(void) { A; CMP(c_d_mcatch(a), d_mres(d_mcatch(a))) }
//@unit defer_macro_body fns=llvm_emit_return,context_get_defers
void vp_defer_macro_body(void) { AB; CMP(c_d_mbody(a, b), d_mbody(a, b)) }
//@unit defer_nextcase fns=sema_analyse_nextcase_stmt,gencontext_emit_next_stmt
void vp_defer_nextcase(void) { ABC; VP_REQUIRES(b != 0 || (c != 0 && c != 1)); CMP(c_d_next(a, b, c), d_next(a, b, c)) }
//@unit defer_nextcase_jump fns=sema_analyse_nextcase_stmt,gencontext_emit_next_stmt
void vp_defer_nextcase_jump(void) { ABC; VP_REQUIRES(b != 0 || (c != 0 && c != 1)); CMP(c_d_next_jump(a, b, c), d_next(a, b, c)) }
//@unit defer_try_catch fns=llvm_emit_return,llvm_emit_rethrow_expr
void vp_defer_try_catch(void) { AB; CMP(c_d_try(a, b), res(d_try(a, b))) }
//@unit defer_void fns=llvm_emit_return
void vp_defer_void(void) { A; CMP(c_d_void(a), d_void(a)) }
//@unit defer_loop fns=llvm_emit_for_stmt,llvm_emit_break,llvm_emit_continue
void vp_defer_loop(void) { AB; CMP(c_d_loop(a, b), d_loop(a, b)) }
//@unit defer_switch fns=llvm_emit_nextcase,llvm_emit_switch_body
void vp_defer_switch(void) { A; CMP(c_d_switch(a), d_switch(a)) }
//@unit defer_macro fns=llvm_emit_macro_block,llvm_emit_block_exit_return
void vp_defer_macro(void) { A; CMP(c_d_macro(a), d_macro(a)) }
//@unit defer_macro_return fns=llvm_emit_macro_block,llvm_emit_return
void vp_defer_macro_return(void) { A; CMP(c_d_macro_ret(a), d_macro_ret(a)) }
// ---- optionals
static int32_t o_else(int32_t a, int32_t b) { O x = may(a); if (!x.f) return x.v; x = may(b); return x.f ? V(-1) : x.v; }
static int32_t o_sum(int32_t a, int32_t b) { O x = may(a); if (x.f) return -5; O y = may(b); return y.f ? -5 : x.v + y.v; }
static int32_t o_args(int32_t a, int32_t b) { O x = may(a); if (x.f) return code(x.f); O y = may(b); if (y.f) return code(y.f); E(2000); return x.v * 16 + y.v; }
static int32_t o_try(int32_t a, int32_t b) { O x = may(a); if (!x.f && x.v > 12) { O y = may(b); if (!y.f) { E(1); return x.v * 1000 + y.v; } } E(2); return -1; }
static int32_t o_catch(int32_t a, int32_t b) { O x = may(a); if (!x.f) return x.v; E(1); O y = may(b); if (!y.f) return y.v; E(2); return code(x.f) * 10 + code(y.f); }
static int32_t o_catch_list(int32_t a, int32_t b) { O x = may(a), y = may(b); if (x.f || y.f) { E(1); return 1; } return x.v + y.v; }
static int32_t o_prop(int32_t a, int32_t b) { O x = may(a); if (x.f) return code(x.f); E(1); O y = may(b); return y.f ? code(y.f) : x.v + y.v; }
static int32_t o_assign(int32_t a, int32_t b) { O y = may(a); O z = may(b); int32_t x = z.f ? 5 : z.v; if (!y.f) E(y.v); return x + code(FC); }
static int32_t o_skip(int32_t a, int32_t b) { O x = may(a); if (x.f) return 500; O y = may(b); if (y.f) return 500; return ((x.v - 10) & 1 ? 2 : 1) + V(y.v); }
static int32_t o_bool(int32_t a, int32_t b)
{
	int32_t r = 0; O x = may(a), y;
	if (!x.f && x.v > 12) { y = may(b); if (!y.f && y.v > 12) r += 1; }
	x = may(a);
	if (x.f) r += 2; else if (x.v > 12) r += 2; else { y = may(b); if (y.f || y.v > 12) r += 2; }
	if (!may(a).f) r += 4;
	if (may(b).f == FB) r += 8;
	return r;
}
static int32_t o_tern(int32_t a, int32_t b) { O x = a > 5 ? may(b) : a == 3 ? FAULT(FC) : may(a); return x.f ? -9 : x.v; }
static O mkop(int32_t a) { E(3000); return a == 4 ? FAULT(FC) : OK(a); }
static int32_t o_method(int32_t a, int32_t b)
{
	O x = mkop(a); if (x.f) return code(x.f);
	O y = may(b); if (y.f) return code(y.f);
	E(4000);
	O z = mkop(b);
	return x.v * 2 + y.v + (z.f ? 3 : z.v);
}
static int32_t o_while(int32_t n, int32_t a)
{
	int32_t i = 0, r = 0;
	for (;;) { O v = may(i == a ? 1 : 20 + i); if (v.f) break; r += v.v; if (++i > (n & 3)) break; E(i); }
	return r;
}
static int32_t o_void(int32_t a, int32_t b)
{
	E(5000); if (a == 1) E(1);
	E(5000); if (b != 1) E(2);
	E(5000); E(5000);
	return b == 1 ? code(FA) : a != 1;
}
static int32_t o_ret(int32_t a) { O r = may(a); return r.f ? 3 : r.v; }
int32_t c_o_else(int32_t, int32_t), c_o_sum(int32_t, int32_t), c_o_args(int32_t, int32_t), c_o_try(int32_t, int32_t), c_o_catch(int32_t, int32_t), c_o_catch_list(int32_t, int32_t), c_o_prop(int32_t, int32_t), c_o_assign(int32_t, int32_t), c_o_skip(int32_t, int32_t),
	c_o_bool(int32_t, int32_t), c_o_tern(int32_t, int32_t), c_o_method(int32_t, int32_t), c_o_while(int32_t, int32_t), c_o_void(int32_t, int32_t), c_o_unwrap(int32_t), c_o_ret(int32_t), c_o_wide(int32_t), c_o_struct(int32_t);
//@unit optional_else fns=llvm_emit_or_error
void vp_optional_else(void) { AB; CMP(c_o_else(a, b), o_else(a, b)) }
//@unit optional_sum fns=llvm_emit_binary
void vp_optional_sum(void) { AB; CMP(c_o_sum(a, b), o_sum(a, b)) }
//@unit optional_args fns=llvm_emit_call_expr
void vp_optional_args(void) { AB; CMP(c_o_args(a, b), o_args(a, b)) }
//@unit optional_try fns=llvm_emit_try_unwrap_chain,llvm_emit_try_unwrap
void vp_optional_try(void) { AB; CMP(c_o_try(a, b), o_try(a, b)) }
//@unit optional_catch fns=llvm_emit_catch_unwrap
void vp_optional_catch(void) { AB; CMP(c_o_catch(a, b), o_catch(a, b)) }
//@unit optional_catch_list fns=llvm_emit_catch_unwrap
void vp_optional_catch_list(void) { AB; CMP(c_o_catch_list(a, b), o_catch_list(a, b)) }
//@unit optional_rethrow fns=llvm_emit_rethrow_expr
void vp_optional_rethrow(void) { AB; CMP(c_o_prop(a, b), o_prop(a, b)) }
//@unit optional_assign fns=llvm_emit_assign_expr
void vp_optional_assign(void) { AB; CMP(c_o_assign(a, b), o_assign(a, b)) }
//@unit optional_skip fns=llvm_emit_subscript,llvm_emit_call_expr
void vp_optional_skip(void) { AB; CMP(c_o_skip(a, b), o_skip(a, b)) }
//@unit optional_bool fns=llvm_emit_logical_and_or
void vp_optional_bool(void) { AB; CMP(c_o_bool(a, b), o_bool(a, b)) }
//@unit optional_ternary fns=gencontext_emit_ternary_expr
void vp_optional_ternary(void) { AB; CMP(c_o_tern(a, b), o_tern(a, b)) }
//@unit optional_method fns=llvm_emit_call_expr
void vp_optional_method(void) { AB; CMP(c_o_method(a, b), o_method(a, b)) }
//@unit optional_while fns=llvm_emit_for_stmt,llvm_emit_try_unwrap
void vp_optional_while(void) { AB; CMP(c_o_while(a, b), o_while(a, b)) }
//@unit optional_void fns=llvm_emit_catch_unwrap,llvm_emit_try_unwrap
void vp_optional_void(void) { AB; CMP(c_o_void(a, b), o_void(a, b)) }
//@unit optional_unwrap fns=llvm_emit_force_unwrap_expr
void vp_optional_unwrap(void) { A; VP_TRAPS_IFF(a == 1 || a == 2); int32_t r = c_o_unwrap(a); VP_RETURNED(); VP_ENSURES("the value", r == a + 10); VP_REACH(); }
//@unit optional_call fns=llvm_emit_call_expr
void vp_optional_call(void) { A; CMP(c_o_ret(a), o_ret(a)) }
//@unit optional_wide fns=llvm_emit_call_expr
void vp_optional_wide(void) { A; VP_REQUIRES(a < INT32_MAX - 10); CMP(c_o_wide(a), res(may(a))) }
//@unit optional_struct fns=llvm_emit_or_error
void vp_optional_struct(void) { A; CMP(c_o_struct(a), (mkop(a).f ? 77 : a)) }
// ---- order of evaluation
static int32_t e_short(int32_t a, int32_t b, int32_t c) { bool x; E(a); if (a > 0) { E(b); x = b > 0; } else x = false; if (!x) { E(c); x = c > 0; } return V(x ? 7 : 8); }
static int32_t e_short2(int32_t a, int32_t b, int32_t c)
{
	bool x; E(a); if (a > 0) x = true; else { E(b); x = b > 0; } x = !x; if (x) { E(c); x = c > 0; }
	if (!x) return 5;
	E(1); return a == 1 ? 5 : 6;
}
static int32_t e_elvis(int32_t a, int32_t b) { E(a); if (a) return a; E(b); if (b) return b; return V(3); }
static int32_t e_args(int32_t a) { E(a + 2); E(6000); return a + (a + 1) * 2 + (a + 2) * 4 + a + 2; }
static int32_t e_named(int32_t a) { E(a); E(1); E(55); return a + 110 + 4; }
static int32_t dflt(int32_t a, int32_t b, int32_t c) { return SHL(a, 1) ^ SHL(b, 8) ^ SHL(c, 16); }
static int32_t e_default(int32_t a) { return dflt(a, 7, 9) ^ SHL(dflt(a, a, 9), 1) ^ SHL(dflt(a, 7, a), 2); }
static int32_t e_assign(int32_t a, int32_t b)
{
	int32_t x[4] = { 1, 2, 3, 4 }, y;
	E(a); E(b); x[a & 3] += b;
	E(b); E(a); x[b & 3] = x[a & 3];
	y = x[0] = x[1];
	E(0); x[0]++;
	return x[0] ^ SHL(x[1], 3) ^ SHL(x[2], 5) ^ SHL(x[3], 7) ^ SHL(y, 9);
}
static int32_t va(int32_t base, const int32_t *x, int n) { int32_t r = base; for (int i = 0; i < n; i++) { E(x[i]); r = SHL(r, 1) ^ x[i]; } return r; }
static int32_t e_varargs(int32_t a, int32_t b)
{
	int32_t q[3] = { a, a, b }, p[2] = { a, b };
	int32_t r = va(1, 0, 0); r ^= va(a, &b, 1); r ^= va(b, p, 2); r ^= va(2, q, 3); return r;
}
static int32_t e_ternary(int32_t a, int32_t b) { if (a > b) return a > 5 ? 1 : 2; return b > 5 ? 3 : 4; }
static int32_t e_recurse(int32_t a) { int32_t n = a & 3, r = 0; for (; n > 0; n--) { E(n); r += n; } return r; }
static int32_t e_fnptr(int32_t a, int32_t b) { if (a > b) { E(2000); return a * 16 + b; } return a - b; }
static int32_t e_lambda(int32_t a) { E(a); E(a + 1); return a + 1 + a + 2; }
int32_t c_e_short(int32_t, int32_t, int32_t), c_e_short2(int32_t, int32_t, int32_t), c_e_elvis(int32_t, int32_t), c_e_args(int32_t), c_e_named(int32_t), c_e_default(int32_t), c_e_assign(int32_t, int32_t), c_e_varargs(int32_t, int32_t),
	c_e_ternary(int32_t, int32_t), c_e_recurse(int32_t), c_e_fnptr(int32_t, int32_t), c_e_lambda(int32_t);
//@unit short_circuit fns=llvm_emit_logical_and_or
void vp_short_circuit(void) { ABC; CMP(c_e_short(a, b, c), e_short(a, b, c)) }
//@unit short_circuit_not fns=llvm_emit_logical_and_or
void vp_short_circuit_not(void) { ABC; CMP(c_e_short2(a, b, c), e_short2(a, b, c)) }
//@unit elvis fns=gencontext_emit_ternary_expr
void vp_elvis(void) { AB; CMP(c_e_elvis(a, b), e_elvis(a, b)) }
//@unit arguments fns=llvm_emit_call_expr
void vp_arguments(void) { A; CMP(c_e_args(a), e_args(a)) }
//@unit named_arguments fns=sema_call_evaluate_arguments
void vp_named_arguments(void) { A; CMP(c_e_named(a), e_named(a)) }
//@unit default_arguments fns=sema_call_evaluate_arguments
void vp_default_arguments(void) { A; CMP(c_e_default(a), e_default(a)) }
//@unit assignment fns=llvm_emit_assign_expr,llvm_emit_binary_expr
void vp_assignment(void) { AB; CMP(c_e_assign(a, b), e_assign(a, b)) }
//@unit varargs fns=llvm_emit_vararg_parameter
void vp_varargs(void) { AB; CMP(c_e_varargs(a, b), e_varargs(a, b)) }
//@unit ternary fns=gencontext_emit_ternary_expr
void vp_ternary(void) { AB; CMP(c_e_ternary(a, b), e_ternary(a, b)) }
//@unit recursion fns=llvm_emit_call_expr
void vp_recursion(void) { A; CMP(c_e_recurse(a), e_recurse(a)) }
//@unit fn_pointer fns=llvm_emit_call_expr
void vp_fn_pointer(void) { AB; CMP(c_e_fnptr(a, b), e_fnptr(a, b)) }
//@unit lambda fns=sema_analyse_lambda
void vp_lambda(void) { A; CMP(c_e_lambda(a), e_lambda(a)) }
