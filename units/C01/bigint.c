// Contracts for the compile-time integer arithmetic (src/compiler/bigint.c).
// Spec: mathematical integers, modelled by the verifier's own 128-bit vectors (exact for the operations used).
//@file lang=c d.unwind=4 d.cost=1
//@trust INT128 spec arithmetic: CBMC's native __int128 semantics
#include "src/compiler/bigint.c"
#include "vp_c3c.h"

static vp_u128 val(Int128 x) { return ((vp_u128)x.high << 64) | x.low; }
static Int128 mk(vp_u128 v) { return (Int128){ (uint64_t)(v >> 64), (uint64_t)v }; }
#define IN(x) vp_u128 x##v = VP_U128(#x); Int128 x = mk(x##v)
#define SB(v) ((vp_i128)(v))

static TypeKind kind_in(void)
{
	TypeKind k = (TypeKind)VP_RANGE("kind", TYPE_INTEGER_FIRST, TYPE_INTEGER_LAST);
	return k;
}
static int bits_of(TypeKind k)
{
	switch (k)
	{
		case TYPE_I8: case TYPE_U8: return 8;
		case TYPE_I16: case TYPE_U16: return 16;
		case TYPE_I32: case TYPE_U32: return 32;
		case TYPE_I64: case TYPE_U64: return 64;
		default: return 128;
	}
}
static bool sgn(TypeKind k) { return k >= TYPE_INT_FIRST && k <= TYPE_INT_LAST; }
// The value of kind k congruent to v modulo 2^bits.
static vp_u128 wrap(vp_u128 v, TypeKind k)
{
	switch (k)
	{
		case TYPE_I8: return (vp_u128)(vp_i128)(int8_t)v;
		case TYPE_U8: return (uint8_t)v;
		case TYPE_I16: return (vp_u128)(vp_i128)(int16_t)v;
		case TYPE_U16: return (uint16_t)v;
		case TYPE_I32: return (vp_u128)(vp_i128)(int32_t)v;
		case TYPE_U32: return (uint32_t)v;
		case TYPE_I64: return (vp_u128)(vp_i128)(int64_t)v;
		case TYPE_U64: return (uint64_t)v;
		default: return v;
	}
}
static bool canon(vp_u128 v, TypeKind k) { return wrap(v, k) == v; }
// An Int as the semantic analyser keeps it: canonical for its kind.
#define IN_INT(x, k) vp_u128 x##v = VP_U128(#x); VP_REQUIRES(canon(x##v, k)); Int x = { mk(x##v), k }
#define OUT_INT(r, k, spec) do { VP_ENSURES("result has the operand kind", (r).type == (k)); VP_ENSURES("result value", val((r).i) == (spec)); } while (0)

//@unit i128_add fns=i128_add
void vp_i128_add(void) { IN(a); IN(b); VP_ENSURES("sum", val(i128_add(a, b)) == av + bv); VP_REACH(); }
//@unit i128_add64 fns=i128_add64
void vp_i128_add64(void) { IN(a); uint64_t b = VP_U64("b"); VP_ENSURES("sum", val(i128_add64(a, b)) == av + b); VP_REACH(); }
//@unit i128_sub fns=i128_sub
void vp_i128_sub(void) { IN(a); IN(b); VP_ENSURES("difference", val(i128_sub(a, b)) == av - bv); VP_REACH(); }
//@unit i128_sub64 fns=i128_sub64
void vp_i128_sub64(void) { IN(a); uint64_t b = VP_U64("b"); VP_ENSURES("difference", val(i128_sub64(a, b)) == av - b); VP_REACH(); }
//@unit i128_neg fns=i128_neg,i128_not
void vp_i128_neg(void) { IN(a); VP_ENSURES("negation", val(i128_neg(a)) == 0 - av); VP_ENSURES("complement", val(i128_not(a)) == ~av); VP_REACH(); }
//@unit i128_bitops fns=i128_and,i128_or,i128_xor,i128_is_zero,i128_is_neg
void vp_i128_bitops(void)
{
	IN(a); IN(b);
	VP_ENSURES("and", val(i128_and(a, b)) == (av & bv));
	VP_ENSURES("or", val(i128_or(a, b)) == (av | bv));
	VP_ENSURES("xor", val(i128_xor(a, b)) == (av ^ bv));
	VP_ENSURES("is_zero", i128_is_zero(a) == (av == 0));
	VP_ENSURES("is_neg", i128_is_neg(a) == (SB(av) < 0));
	VP_REACH();
}
static vp_u128 sp_shl(vp_u128 v, vp_u128 n) { return n > 127 ? 0 : v << (unsigned)n; }
static vp_u128 sp_lshr(vp_u128 v, vp_u128 n) { return n > 127 ? 0 : v >> (unsigned)n; }
static vp_u128 sp_ashr(vp_u128 v, vp_u128 n)
{
	if (n > 127) return SB(v) < 0 ? ~(vp_u128)0 : 0;
	vp_u128 r = v >> (unsigned)n;
	if (SB(v) < 0 && n > 0) r |= ~(vp_u128)0 << (unsigned)(128 - n);
	return r;
}
//@unit i128_shl fns=i128_shl,i128_shl64
void vp_i128_shl(void)
{
	IN(a); IN(b);
	VP_ENSURES("shl", val(i128_shl(a, b)) == sp_shl(av, bv));
	VP_ENSURES("shl64", val(i128_shl64(a, b.low)) == sp_shl(av, b.low));
	VP_REACH();
}
//@unit i128_lshr fns=i128_lshr,i128_lshr64
void vp_i128_lshr(void)
{
	IN(a); IN(b);
	VP_ENSURES("lshr", val(i128_lshr(a, b)) == sp_lshr(av, bv));
	VP_ENSURES("lshr64", val(i128_lshr64(a, b.low)) == sp_lshr(av, b.low));
	VP_REACH();
}
//@unit i128_ashr fns=i128_ashr,i128_ashr64 cost=5
void vp_i128_ashr(void)
{
	IN(a); IN(b);
	VP_ENSURES("ashr", val(i128_ashr(a, b)) == sp_ashr(av, bv));
	VP_ENSURES("ashr64", val(i128_ashr64(a, b.low)) == sp_ashr(av, b.low));
	VP_REACH();
}
//@unit i128_extend fns=i128_extend cost=5
void vp_i128_extend(void)
{
	TypeKind k = kind_in(); IN(a);
	VP_ENSURES("wraps to the kind", val(i128_extend(a, k)) == wrap(av, k));
	VP_REACH();
}
static CmpRes sp_scmp(vp_i128 a, vp_i128 b) { return a < b ? CMP_LT : a > b ? CMP_GT : CMP_EQ; }
static CmpRes sp_ucmp(vp_u128 a, vp_u128 b) { return a < b ? CMP_LT : a > b ? CMP_GT : CMP_EQ; }
//@unit i128_cmp fns=i128_scomp,i128_ucomp,int128_ucomp64,i128_from_signed,i128_from_unsigned,i128_from_int
void vp_i128_cmp(void)
{
	IN(a); IN(b);
	VP_ENSURES("scomp", i128_scomp(a, b) == sp_scmp(SB(av), SB(bv)));
	VP_ENSURES("ucomp", i128_ucomp(a, b) == sp_ucmp(av, bv));
	VP_ENSURES("ucomp64", int128_ucomp64(a, b.low) == sp_ucmp(av, b.low));
	VP_ENSURES("from_signed", SB(val(i128_from_signed((int64_t)b.low))) == (int64_t)b.low);
	VP_ENSURES("from_unsigned", val(i128_from_unsigned(b.low)) == b.low && val(i128_from_int(b.low)) == b.low);
	VP_REACH();
}
static unsigned sp_clz(vp_u128 v) { unsigned n = 0; for (int i = 127; i >= 0; i--) { if ((v >> i) & 1) return n; n++; } return n; }
//@unit i128_clz fns=i128_clz,i128_msb unwind=130 cost=10
void vp_i128_clz(void)
{
	IN(a);
	VP_ENSURES("clz", i128_clz(&a) == sp_clz(av));
	VP_REACH();
}
//@unit i128_ctz fns=i128_ctz,i128_lsb unwind=130 cost=10
void vp_i128_ctz(void)
{
	IN(a);
	unsigned ctz = 0;
	for (int i = 0; i < 128; i++) { if ((av >> i) & 1) break; ctz++; }
	VP_ENSURES("ctz", i128_ctz(&a) == ctz);
	VP_REACH();
}

// ---- int_*: the folding entry points used by the semantic analyser
//@unit int_add fns=int_add cost=10
void vp_int_add(void)
{
	TypeKind k = kind_in(); IN_INT(a, k); IN_INT(b, k);
	OUT_INT(int_add(a, b), k, wrap(av + bv, k));
	VP_REACH();
}
//@unit int_sub fns=int_sub cost=10
void vp_int_sub(void)
{
	TypeKind k = kind_in(); IN_INT(a, k); IN_INT(b, k);
	OUT_INT(int_sub(a, b), k, wrap(av - bv, k));
	VP_REACH();
}
//@unit int_neg fns=int_neg cost=10
void vp_int_neg(void)
{
	TypeKind k = kind_in(); IN_INT(a, k);
	OUT_INT(int_neg(a), k, wrap(0 - av, k));
	VP_REACH();
}
//@unit int_add64 fns=int_add64,int_sub64 cost=10
void vp_int_add64(void)
{
	TypeKind k = kind_in(); IN_INT(a, k); uint64_t c = VP_U64("c");
	OUT_INT(int_add64(a, c), k, wrap(av + c, k));
	OUT_INT(int_sub64(a, c), k, wrap(av - c, k));
	VP_REACH();
}
//@unit int_bitops fns=int_and,int_or,int_xor,int_not cost=5
void vp_int_bitops(void)
{
	TypeKind k = kind_in(); IN_INT(a, k); IN_INT(b, k);
	OUT_INT(int_and(a, b), k, av & bv);
	OUT_INT(int_or(a, b), k, av | bv);
	OUT_INT(int_xor(a, b), k, av ^ bv);
	OUT_INT(int_not(a), k, wrap(~av, k));
	VP_ENSURES("canonical", canon(av & bv, k) && canon(av | bv, k) && canon(av ^ bv, k));
	VP_REACH();
}
//@unit int_shl fns=int_shl64 cost=10
void vp_int_shl(void)
{
	TypeKind k = kind_in(); IN_INT(a, k); uint64_t c = VP_U64("c");
	VP_REQUIRES(c < (unsigned)bits_of(k));
	OUT_INT(int_shl64(a, c), k, wrap(sp_shl(av, c), k));
	VP_REACH();
}
//@unit int_shr fns=int_shr64 cost=10
void vp_int_shr(void)
{
	TypeKind k = kind_in(); IN_INT(a, k); uint64_t c = VP_U64("c");
	VP_REQUIRES(c < (unsigned)bits_of(k));
	OUT_INT(int_shr64(a, c), k, sgn(k) ? sp_ashr(av, c) : sp_lshr(av, c));
	VP_REACH();
}
//@unit int_conv fns=int_conv cost=5
void vp_int_conv(void)
{
	TypeKind k = kind_in(), to = kind_in(); IN_INT(a, k);
	OUT_INT(int_conv(a, to), to, wrap(av, to));
	VP_REACH();
}
// a op b on mathematical integers: -1, 0, 1
static int sp_cmp(vp_u128 a, bool as, vp_u128 b, bool bs)
{
	bool an = as && SB(a) < 0, bn = bs && SB(b) < 0;
	if (an != bn) return an ? -1 : 1;
	return a < b ? -1 : a > b ? 1 : 0;
}
static bool sp_holds(int c, BinaryOp op)
{
	return op == BINARYOP_GT ? c > 0 : op == BINARYOP_GE ? c >= 0 : op == BINARYOP_LT ? c < 0 : op == BINARYOP_LE ? c <= 0 : op == BINARYOP_NE ? c != 0 : c == 0;
}
static BinaryOp cmp_in(void)
{
	switch (VP_RANGE("cmp", 0, 5))
	{
		case 0: return BINARYOP_GT;
		case 1: return BINARYOP_GE;
		case 2: return BINARYOP_LT;
		case 3: return BINARYOP_LE;
		case 4: return BINARYOP_NE;
		default: return BINARYOP_EQ;
	}
}
//@unit int_comp fns=int_comp,int_icomp,int_ucomp,binary_op_matches_res cost=5
void vp_int_comp(void)
{
	TypeKind k = kind_in(), k2 = kind_in(); IN_INT(a, k); IN_INT(b, k2); BinaryOp op = cmp_in();
	VP_ENSURES("comp", int_comp(a, b, op) == sp_holds(sp_cmp(av, sgn(k), bv, sgn(k2)), op));
	int64_t c = (int64_t)b.i.low;
	VP_ENSURES("icomp", int_icomp(a, c, op) == sp_holds(sp_cmp(av, sgn(k), (vp_u128)(vp_i128)c, true), op));
	VP_ENSURES("ucomp", int_ucomp(a, b.i.low, op) == sp_holds(sp_cmp(av, sgn(k), b.i.low, false), op));
	VP_REACH();
}
//@unit int_fits fns=int_fits,int_is_zero,int_is_neg cost=5
void vp_int_fits(void)
{
	TypeKind k = kind_in(), to = kind_in(); IN_INT(a, k);
	bool neg = sgn(k) && SB(av) < 0;
	// v fits iff converting keeps the mathematical value
	vp_u128 w = wrap(av, to);
	bool wneg = sgn(to) && SB(w) < 0;
	VP_ENSURES("fits iff value preserved", int_fits(a, to) == (w == av && wneg == neg));
	VP_ENSURES("is_zero", int_is_zero(a) == (av == 0));
	VP_ENSURES("is_neg", int_is_neg(a) == neg);
	VP_ENSURES("to_u64", int_to_u64(a) == (uint64_t)av && int_to_i64(a) == (int64_t)(uint64_t)av);
	VP_REACH();
}
//@unit int_bits_needed fns=int_bits_needed unwind=130 cost=10
void vp_int_bits_needed(void)
{
	TypeKind k = kind_in(); IN_INT(a, k);
	unsigned n = int_bits_needed(a);
	vp_u128 mag = sgn(k) && SB(av) < 0 ? ~av : av;
	VP_ENSURES("smallest width holding the value", n == (sgn(k) ? 1 : 0) + 128 - sp_clz(mag));
	VP_REACH();
}

// ---- multiplication
// Specification by schoolbook sums; lemma mul64.smt2 / mul128.smt2 show over the integers that these sums are the product.
#ifdef VP_NATIVE
static vp_u128 M(uint64_t u, uint64_t v) { return (vp_u128)u * v; }
#else
vp_u128 __CPROVER_uninterpreted_M(uint64_t, uint64_t);
#define M __CPROVER_uninterpreted_M
#endif
// contract of int64_mult: the full product
Int128 vp_c_int64_mult(uint64_t u, uint64_t v) { return mk(M(u, v)); }
//@unit int64_mult fns=int64_mult solver=cvc5 cost=20
void vp_int64_mult(void)
{
	uint64_t u = VP_U64("u"), v = VP_U64("v");
	uint64_t u0 = u & 0xffffffff, u1 = u >> 32, v0 = v & 0xffffffff, v1 = v >> 32;
	// 32x32 bit products are exact in 64 bits
	vp_u128 sum = (vp_u128)(u0 * v0) + ((vp_u128)(u1 * v0) << 32) + ((vp_u128)(u0 * v1) << 32) + ((vp_u128)(u1 * v1) << 64);
	VP_ENSURES("full product", val(int64_mult(u, v)) == sum);
	VP_REACH();
}
//@unit mul64_lemma smt=mul64.smt2 solver=cvc5
//@unit mul128_lemma smt=mul128.smt2 solver=cvc5
//@unit i128_mult fns=i128_mult solver=cvc5,cadical replace=int64_mult:vp_c_int64_mult cost=20
void vp_i128_mult(void)
{
	IN(a); IN(b);
	VP_ENSURES("product", val(i128_mult(a, b)) == M(a.low, b.low) + ((vp_u128)(a.high * b.low + a.low * b.high) << 64));
	VP_REACH();
}
//@unit i128_mult64 fns=i128_mult64 solver=cvc5,cadical replace=int64_mult:vp_c_int64_mult cost=20
void vp_i128_mult64(void)
{
	IN(a); uint64_t b = VP_U64("b");
	VP_ENSURES("product", val(i128_mult64(a, b)) == M(a.low, b) + ((vp_u128)(a.high * b) << 64));
	VP_REACH();
}
#ifdef VP_NATIVE
static vp_u128 MM(Int128 a, Int128 b) { return val(a) * val(b); }
#else
vp_u128 __CPROVER_uninterpreted_MM(uint64_t, uint64_t, uint64_t, uint64_t);
#define MM(a, b) __CPROVER_uninterpreted_MM((a).high, (a).low, (b).high, (b).low)
#endif
Int128 vp_c_i128_mult(Int128 a, Int128 b) { return mk(MM(a, b)); }
//@unit int_mul fns=int_mul replace=i128_mult:vp_c_i128_mult cost=10
void vp_int_mul(void)
{
	TypeKind k = kind_in(); IN_INT(a, k); IN_INT(b, k);
	OUT_INT(int_mul(a, b), k, wrap(MM(a.i, b.i), k));
	VP_REACH();
}

// ---- division: callers of i128_udivrem (its own contract is proved in div.c)
#ifdef VP_NATIVE
#define UQ(n, d) ((n) / (d))
#define UR(n, d) ((n) % (d))
#else
vp_u128 __CPROVER_uninterpreted_UQ(vp_u128, vp_u128);
vp_u128 __CPROVER_uninterpreted_UR(vp_u128, vp_u128);
#define UQ __CPROVER_uninterpreted_UQ
#define UR __CPROVER_uninterpreted_UR
#endif
void vp_c_udivrem(Int128 n, Int128 d, Int128 *q, Int128 *r)
{
	VP_ENSURES("divisor is not zero", val(d) != 0);
	*q = mk(UQ(val(n), val(d))); *r = mk(UR(val(n), val(d)));
}
static vp_u128 mag(vp_u128 v) { return SB(v) < 0 ? 0 - v : v; }
static vp_u128 sp_sdiv(vp_u128 a, vp_u128 b) { vp_u128 q = UQ(mag(a), mag(b)); return (SB(a) < 0) != (SB(b) < 0) ? 0 - q : q; }
// the remainder has the sign of the dividend, so that a == (a / b) * b + a % b
static vp_u128 sp_srem(vp_u128 a, vp_u128 b) { vp_u128 r = UR(mag(a), mag(b)); return SB(a) < 0 ? 0 - r : r; }
//@unit i128_div fns=i128_udiv,i128_urem,i128_sdiv,i128_srem replace=i128_udivrem:vp_c_udivrem
void vp_i128_div(void)
{
	IN(a); IN(b); VP_REQUIRES(bv != 0);
	VP_ENSURES("udiv", val(i128_udiv(a, b)) == UQ(av, bv));
	VP_ENSURES("urem", val(i128_urem(a, b)) == UR(av, bv));
	VP_ENSURES("sdiv truncates", val(i128_sdiv(a, b)) == sp_sdiv(av, bv));
	VP_ENSURES("srem has the sign of the dividend", val(i128_srem(a, b)) == sp_srem(av, bv));
	VP_REACH();
}
//@unit int_div fns=int_div,int_rem replace=i128_udivrem:vp_c_udivrem
void vp_int_div(void)
{
	TypeKind k = kind_in(); IN_INT(a, k); IN_INT(b, k); VP_REQUIRES(bv != 0);
	OUT_INT(int_div(a, b), k, sgn(k) ? sp_sdiv(av, bv) : UQ(av, bv));
	OUT_INT(int_rem(a, b), k, sgn(k) ? sp_srem(av, bv) : UR(av, bv));
	VP_REACH();
}
// ---- conversion to and from floating point
#ifndef VP_NATIVE
// libm contract: multiplication by a power of two
double ldexp(double x, int n)
{
	__CPROVER_assert(n == 64 || n == -64 || n == 127 || n == 128, "VP:ldexp exponent covered by the contract");
	return n == 64 ? x * 0x1p64 : n == -64 ? x * 0x1p-64 : n == 127 ? x * 0x1p127 : x * 0x1p128;
}
#endif
//@unit int_to_real fns=int_to_real,i128_to_float,i128_to_float_signed cost=20
void vp_int_to_real(void)
{
	TypeKind k = kind_in(); IN_INT(a, k);
	bool neg = sgn(k) && SB(av) < 0;
	vp_u128 m = neg ? 0 - av : av;
	// exact for every value with at most 53 significant bits
	unsigned sh = (unsigned)VP_RANGE("sh", 0, 127);
	VP_REQUIRES((m >> sh) < ((vp_u128)1 << 53) && ((m >> sh) << sh) == m);
	double d = (double)m;
	VP_ENSURES("exact", int_to_real(a) == (neg ? -d : d));
	VP_REACH();
}
//@unit int_to_real64 fns=int_to_real cost=20
void vp_int_to_real64(void)
{
	TypeKind k = kind_in(); IN_INT(a, k);
	VP_REQUIRES(bits_of(k) <= 64);
	double d = sgn(k) ? (double)(int64_t)(uint64_t)av : (double)(uint64_t)av;
	VP_ENSURES("correctly rounded", int_to_real(a) == d);
	VP_REACH();
}
//@unit int_from_real fns=int_from_real,i128_from_double_unsigned,i128_from_double_signed cost=20 timeout=200
void vp_int_from_real(void)
{
	TypeKind k = kind_in(); uint64_t bits = VP_U64("d");
	union { uint64_t u; double d; } x = { bits };
	VP_REQUIRES(x.d == x.d);
	VP_REQUIRES(sgn(k) ? x.d > -0x1p127 && x.d < 0x1p127 : x.d > -1.0 && x.d < 0x1p128);
	Int r = int_from_real(x.d, k);
	VP_ENSURES("kind", r.type == k);
	vp_u128 t = sgn(k) ? (vp_u128)(vp_i128)x.d : (vp_u128)x.d;
	VP_ENSURES("truncates toward zero", val(r.i) == t);
	VP_REACH();
}
