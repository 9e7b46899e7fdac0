/* Contract harness vocabulary.
 *
 * A unit is an `extern void vp_<unit>(void)` function that states ONE contract of real code from /repo:
 *     inputs        VP_U64("name") ...         universally quantified (nondet under CBMC, replayed/searched natively)
 *     precondition  VP_REQUIRES(cond)
 *     call          the real function
 *     postcondition VP_ENSURES("clause", cond)
 *     reachability  VP_REACH()                 must be reachable: guards against a vacuous precondition
 * Under CBMC the clauses are proof obligations.  Compiled natively (VP_NATIVE) the same text replays a counterexample
 * against the real code.
 */
#ifndef VP_H
#define VP_H
#ifndef VP_NO_STDINT
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#endif

typedef unsigned __int128 vp_u128;
typedef __int128 vp_i128;

#ifdef VP_NATIVE
uint64_t vp_input(const char *name, int bits);
void vp_reject(void);
void vp_violation(const char *clause, const char *text);
void vp_reach(void);
#define VP_REQUIRES(c) do { if (!(c)) vp_reject(); } while (0)
#define VP_ENSURES(name, c) do { if (!(c)) vp_violation(name, #c); } while (0)
#define VP_REACH() vp_reach()
#define VP_PREFER(c) do { } while (0)
#else
void __CPROVER_assume(_Bool);
void __CPROVER_assert(_Bool, const char *);
void __CPROVER_input(const char *, ...);
uint64_t nondet_vp_u64(void);
#define VP_REQUIRES(c) __CPROVER_assume(c)
#define VP_ENSURES(name, c) __CPROVER_assert((c), "VP:" name)
#define VP_REACH() __CPROVER_assert(0, "VP_REACH")
static inline uint64_t vp_input(const char *name, int bits)
{
	uint64_t vp_in = nondet_vp_u64();
	if (bits < 64) __CPROVER_assume(vp_in < ((uint64_t)1 << bits));
	__CPROVER_input("vp_in", vp_in);
	return vp_in;
}
#endif

/* the following call must stop the program exactly if c */
extern int vp_trap_expected;
#define VP_TRAPS_IFF(c) (vp_trap_expected = !!(c))
#define VP_RETURNED() do { VP_ENSURES("an erroneous operation stops the program", !vp_trap_expected); vp_trap_expected = 0; } while (0)

#define VP_U8(n)   ((uint8_t)vp_input(n, 8))
#define VP_U16(n)  ((uint16_t)vp_input(n, 16))
#define VP_U32(n)  ((uint32_t)vp_input(n, 32))
#define VP_U64(n)  (vp_input(n, 64))
#define VP_I32(n)  ((int32_t)vp_input(n, 32))
#define VP_I64(n)  ((int64_t)vp_input(n, 64))
#define VP_BOOL(n) ((bool)vp_input(n, 1))
#define VP_BITS(n, b) (vp_input(n, b))
/* value in [lo, hi] */
static inline uint64_t vp_range(const char *n, uint64_t lo, uint64_t hi)
{
	uint64_t v = vp_input(n, 64);
#ifdef VP_NATIVE
	/* keeps native search productive; a replayed value is already in range */
	if (v < lo || v > hi) v = (hi - lo == UINT64_MAX) ? v : lo + v % (hi - lo + 1);
#endif
	VP_REQUIRES(v >= lo && v <= hi);
	return v;
}
#define VP_RANGE(n, lo, hi) vp_range(n, lo, hi)
static inline vp_u128 vp_u128_in(const char *n)
{
	uint64_t hi = vp_input(n, 64), lo = vp_input(n, 64);
	return ((vp_u128)hi << 64) | lo;
}
#define VP_U128(n) vp_u128_in(n)
/* operators that files with uf=... leave uninterpreted in the extracted code: the specification must use these */
#define VP_UF_DECL(op, N, t, s, expr) VP_UF_DECL_(op, N, t, s, expr)
#ifdef VP_NATIVE
#define VP_UF_DECL_(op, N, t, s, expr) static inline t vp_uf_##op##_##N(t a, t b) { return expr; }
#else
#define VP_UF_DECL_(op, N, t, s, expr) t __CPROVER_uninterpreted_##op##_##N(t, t); \
	static inline t vp_uf_##op##_##N(t a, t b) { return __CPROVER_uninterpreted_##op##_##N(a, b); }
#endif
#define VP_UF_ALL(N, t, s) VP_UF_DECL(mul, N, t, s, (t)((vp_u128)a * b)) VP_UF_DECL(udiv, N, t, s, (t)(a / b)) VP_UF_DECL(urem, N, t, s, (t)(a % b)) \
	VP_UF_DECL(sdiv, N, t, s, (t)((s)b == -1 ? 0 - (vp_u128)a : (s)a / (s)b)) VP_UF_DECL(srem, N, t, s, (t)((s)b == -1 ? 0 : (s)a % (s)b))
#ifdef VP_UF
VP_UF_ALL(8, uint8_t, int8_t) VP_UF_ALL(16, uint16_t, int16_t) VP_UF_ALL(32, uint32_t, int32_t) VP_UF_ALL(64, uint64_t, int64_t) VP_UF_ALL(128, vp_u128, vp_i128)
#endif
/* fills p[0..len) with free bytes */
static inline void vp_fill(void *p, uint64_t len)
{
	for (uint64_t vp_i = 0; vp_i < len; vp_i++) ((uint8_t *)p)[vp_i] = (uint8_t)vp_input("byte", 8);
}
#endif
