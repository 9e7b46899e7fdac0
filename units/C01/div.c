// Contract of the 128-bit division loop, proved with a loop invariant at the VERIFY_LOOP annotation point.
//@file lang=c d.unwind=4 d.cost=50 d.defs=C3_VERIFY
//@assume loop frame of i128_udivrem: the loop modifies only op1, op2, *div, shift (all havoced at the annotation point)
#include "vp.h"
struct Int128_;
void verify_loop_i128_udivrem(struct Int128_ *op1, struct Int128_ *op2, struct Int128_ *div, int32_t *shift);
#include "src/compiler/bigint.c"
#include "vp_c3c.h"
static vp_u128 val(Int128 x) { return ((vp_u128)x.high << 64) | x.low; }
static Int128 mk(vp_u128 v) { return (Int128){ (uint64_t)(v >> 64), (uint64_t)v }; }

static int stage;
static vp_u128 N, D, P, q_s;
static int32_t s_s;
#ifdef VP_NATIVE
void verify_loop_i128_udivrem(Int128 *op1, Int128 *op2, Int128 *div, int32_t *shift) { }
#else
uint64_t nondet_u64(void);
static vp_u128 any128(void) { return ((vp_u128)nondet_u64() << 64) | nondet_u64(); }
// Ghost P is the shift-add product of the quotient bits found so far (bits above s) and D.
static _Bool inv(vp_u128 op1, vp_u128 op2, vp_u128 q, int32_t s, vp_u128 p)
{
	if (s < 0 || s > 127) return 0;
	if (op2 != D << s || op2 >> s != D) return 0;            // divisor aligned at bit s, nothing lost
	if (op1 > N || N - op1 != p) return 0;                   // dividend = rest + P
	if (!(op2 >> 127) && op1 >= op2 << 1) return 0;          // rest below the next partial divisor
	if (s < 127 && (q >> (127 - s)) != 0) return 0;          // quotient bits so far fit above bit s
	if (s == 127 && q != 0) return 0;
	return 1;
}
void verify_loop_i128_udivrem(Int128 *op1, Int128 *op2, Int128 *div, int32_t *shift)
{
	if (stage == 0)
	{
		stage = 1;
		P = 0;
		__CPROVER_assert(inv(val(*op1), val(*op2), val(*div), *shift, 0) && val(*div) == 0, "VP:loop invariant holds on entry");
		*op1 = mk(any128()); *op2 = mk(any128()); *div = mk(any128()); *shift = (int32_t)nondet_u64(); P = any128();
		__CPROVER_assume(inv(val(*op1), val(*op2), val(*div), *shift, P));
		q_s = val(*div); s_s = *shift;
		return;
	}
	vp_u128 q = val(*div);
	vp_u128 p = P + ((q & 1) ? D << s_s : 0);
	__CPROVER_assert(q >> 1 == q_s, "VP:one quotient bit appended per iteration");
	__CPROVER_assert(*shift == s_s - 1, "VP:bit position decreases");
	__CPROVER_assert(inv(val(*op1), val(*op2), q, *shift, p), "VP:loop invariant is preserved");
	__CPROVER_assume(0);
}
#endif
//@unit udivrem fns=i128_udivrem,i128_clz,i128_sub,i128_shl64,i128_lshr64,i128_ucomp timeout=200
void vp_udivrem(void)
{
	N = VP_U128("n"); D = VP_U128("d");
	VP_REQUIRES(D != 0);
	stage = 0;
	Int128 q, r;
	i128_udivrem(mk(N), mk(D), &q, &r);
#ifdef VP_NATIVE
	VP_ENSURES("quotient", val(q) == N / D);
	VP_ENSURES("remainder", val(r) == N % D);
#else
	if (stage == 0)
	{
		VP_ENSURES("small dividend", val(q) == 0 && val(r) == N);
	}
	else
	{
		VP_ENSURES("last bit", s_s == 0 && val(q) >> 1 == q_s);
		vp_u128 p = P + ((val(q) & 1) ? D : 0);
		VP_ENSURES("dividend = quotient * divisor + remainder", val(r) <= N && N - val(r) == p);
	}
	VP_ENSURES("remainder below divisor", val(r) < D);
#endif
	VP_REACH();
}
