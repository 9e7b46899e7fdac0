// 128-bit division of the run-time library, by a loop invariant at the head of its only loop.
//@file lang=c3 probe=math.c3 cut=__udivti3#0:cut_div:q,r,sr,carry;__umodti3#0:cut_div:q,r,sr,carry uf=udiv,urem d.unwind=7 d.cost=40
//@assume the loop of @__udivmodti4 writes only q, r, sr, carry and s (havoced at its head)
#define VP_UF
#include "vp.h"
void c_udiv(vp_u128 *, vp_u128 *, vp_u128 *), c_umod(vp_u128 *, vp_u128 *, vp_u128 *);
static int stage;
static vp_u128 N, D, P, QV;
static uint32_t T, S;
#ifdef VP_NATIVE
void cut_div(uint8_t *q, uint8_t *r, uint8_t *sr, uint8_t *carry) { }
#else
uint64_t nondet_u64(void);
static vp_u128 any128(void) { return ((vp_u128)nondet_u64() << 64) | nondet_u64(); }
/* p = (quotient bits qv found so far) * D as a shift-add sum, s bits still to come */
static _Bool inv(vp_u128 q, vp_u128 r, uint32_t s, uint32_t carry, vp_u128 p, vp_u128 qv)
{
	if (s > T || T > 127 || T == 0) return 0;
	if (r >= D) return 0;
	if (D >> 127 && !(T == 1 && N >> 127)) return 0;         /* differences keep their sign */
	if (qv == 0 && p != 0) return 0;
	if (p > N >> s || (N >> s) - p != r) return 0;          /* the bits consumed so far = p + rest */
	if (qv >> (T - s) != 0 || carry != (uint32_t)(qv & 1)) return 0;
	return q == ((s ? N << (128 - s) : 0) | qv >> 1);        /* bits to come above the quotient bits */
}
void cut_div(uint8_t *q_, uint8_t *r_, uint8_t *sr_, uint8_t *carry_)
{
	vp_u128 *q = (vp_u128 *)q_, *r = (vp_u128 *)r_; uint32_t *sr = (uint32_t *)sr_, *carry = (uint32_t *)carry_;
	if (stage == 0)
	{
		stage = 1; T = *sr; P = 0; QV = 0;
		__CPROVER_assert(T >= 1 && T <= 127 && inv(*q, *r, *sr, *carry, 0, 0), "VP:loop invariant holds on entry");
		*q = any128(); *r = any128(); *sr = (uint32_t)nondet_u64(); *carry = (uint32_t)nondet_u64(); P = any128(); QV = any128();
		__CPROVER_assume(inv(*q, *r, *sr, *carry, P, QV));
		S = *sr;
		return;
	}
	__CPROVER_assert(*sr == S - 1, "VP:one bit per iteration");
	__CPROVER_assert(*carry <= 1, "VP:the new bit");
	__CPROVER_assert(P >> 127 == 0, "VP:the sum does not overflow");
	vp_u128 p = (P << 1) + (*carry ? D : 0);
	__CPROVER_assert(!*carry || p >= D, "VP:the sum does not overflow");
	__CPROVER_assert(inv(*q, *r, *sr, *carry, p, QV << 1 | *carry), "VP:loop invariant is preserved");
	__CPROVER_assume(0);
}
#endif
static uint64_t hi(vp_u128 x) { return (uint64_t)(x >> 64); }
static uint64_t lo(vp_u128 x) { return (uint64_t)x; }
static unsigned lg(uint64_t x) { unsigned n = 0; for (int k = 5; k >= 0; k--) if (x >> (1u << k)) { x >>= 1u << k; n += 1u << k; } return n; }
/* the quotient or remainder when the loop is not entered, case by case (each equals N / D or N % D in the integers) */
static void direct(bool rem, vp_u128 res)
{
	uint64_t nh = hi(N), nl = lo(N), dh = hi(D), dl = lo(D);
	unsigned k = dh ? 64 + lg(dh) : lg(dl);
	bool words = nh == 0 && dh == 0 && res == (rem ? vp_uf_urem_64(nl, dl) : vp_uf_udiv_64(nl, dl));
	bool less = N < D && res == (rem ? N : 0);
	bool pot = (D & (D - 1)) == 0 && res == (rem ? N & (D - 1) : N >> k);
	bool high = nl == 0 && dl == 0 && res == (rem ? (vp_u128)vp_uf_urem_64(nh, dh) << 64 : vp_uf_udiv_64(nh, dh));
	VP_ENSURES("divided directly", words || less || pot || high);
}
//@unit udivti3 fns=__udivti3 timeout=300
void vp_udivti3(void)
{
	N = VP_U128("n"); D = VP_U128("d"); VP_REQUIRES(D != 0); stage = 0;
	vp_u128 q; c_udiv(&N, &D, &q);
#ifdef VP_NATIVE
	VP_ENSURES("quotient", q == N / D);
#else
	if (stage == 0) direct(false, q);
	else { VP_ENSURES("the bits found are the quotient", q == QV && S == 0); VP_ENSURES("dividend = quotient * divisor + rest", P <= N && N - P < D); }
#endif
	VP_REACH();
}
//@unit umodti3 fns=__umodti3 timeout=300
void vp_umodti3(void)
{
	N = VP_U128("n"); D = VP_U128("d"); VP_REQUIRES(D != 0); stage = 0;
	vp_u128 r; c_umod(&N, &D, &r);
#ifdef VP_NATIVE
	VP_ENSURES("remainder", r == N % D);
#else
	if (stage == 0) direct(true, r);
	else { VP_ENSURES("remainder", S == 0 && r < D && P <= N && r == N - P); }
#endif
	VP_REACH();
}
