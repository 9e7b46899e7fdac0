//@file lang=c3 probe=bits.c3 with=vp_alloc.c3 d.unwind=20
#define VP_ALLOC_MAX 64
#include "vp_alloc.h"
#define SETS(X) X(small, 5, 8) X(mid, 40, 8) X(wide, 70, 16) X(big, 130, 17)
#define D(l, n, bytes) int32_t c_set_##l(int32_t, uint32_t), c_t_##l(int32_t, uint32_t); uint8_t *c_raw_##l(int32_t);
SETS(D)
/* Set algebra, observed through `has` for an arbitrary member w, for arbitrary contents of both sets. */
#define STEP(l, count, bytes) { \
	uint8_t *a = c_raw_##l(0), *b = c_raw_##l(1); for (int k = 0; k < bytes; k++) { if (k < (count + 7) / 8) { a[k] = VP_U8("s"); b[k] = VP_U8("t"); } } \
	uint32_t i = (uint32_t)VP_RANGE("i", 0, count - 1), w = (uint32_t)VP_RANGE("w", 0, count - 1); \
	bool s = c_set_##l(2, w) != 0, si = c_set_##l(2, i) != 0, t = c_t_##l(2, w) != 0; \
	int r = c_set_##l((int32_t)op, i); bool now = c_set_##l(2, w) != 0, want = s; \
	switch (op) { case 0: want = s || w == i; break; case 1: want = s && w != i; VP_ENSURES("tells whether it was a member", (r != 0) == si); break; \
		case 2: VP_ENSURES("membership", (r != 0) == si); break; case 3: want = false; break; case 4: case 8: want = s || t; break; case 5: case 7: want = s && t; break; \
		case 6: case 9: want = s && !t; break; default: want = s != t; } \
	VP_ENSURES("set algebra", now == want); VP_ENSURES("the other set stays", (c_t_##l(2, w) != 0) == t); VP_REACH(); }
//@unit enumset_small each=0..10 fns=EnumSet.add,EnumSet.remove,EnumSet.has,EnumSet.add_all
void vp_enumset_small(uint64_t op) STEP(small, 5, 1)
//@unit enumset_mid each=0..10 fns=EnumSet.add,EnumSet.remove,EnumSet.has
void vp_enumset_mid(uint64_t op) STEP(mid, 40, 8)
//@unit enumset_wide each=0..10 fns=EnumSet.add,EnumSet.remove,EnumSet.has
void vp_enumset_wide(uint64_t op) STEP(wide, 70, 16)
//@unit enumset_big each=0..10 fns=EnumSet.add,EnumSet.remove,EnumSet.has,EnumSet.xor_of
void vp_enumset_big(uint64_t op) STEP(big, 130, 17)
/* adding to an empty set makes that element the only member */
#define ONLY(l, count) { c_set_##l(3, 0); uint32_t i = (uint32_t)VP_RANGE("i", 0, count - 1), w = (uint32_t)VP_RANGE("w", 0, count - 1); c_set_##l(0, i); VP_ENSURES("exactly the added element", (c_set_##l(2, w) != 0) == (w == i)); }
//@unit enumset_add fns=EnumSet.add,EnumSet.clear,EnumSet.has
void vp_enumset_add(void) { ONLY(small, 5) ONLY(mid, 40) ONLY(wide, 70) ONLY(big, 130) VP_REACH(); }
uint64_t c_bs_card(uint32_t *), c_bs_len(uint32_t *);
void c_bs_set(uint32_t *, uint64_t), c_bs_unset(uint32_t *, uint64_t), c_bs_set_bool(uint32_t *, uint64_t, int32_t), c_bs_op(int32_t, uint32_t *, uint32_t *, uint32_t *);
int32_t c_bs_get(uint32_t *, uint64_t);
static unsigned pop(const uint32_t *p, int n) { unsigned k = 0; for (int i = 0; i < n; i++) { uint32_t v = p[i]; v -= v >> 1 & 0x55555555u; v = (v & 0x33333333u) + (v >> 2 & 0x33333333u); v = (v + (v >> 4)) & 0x0f0f0f0fu; k += v * 0x01010101u >> 24; } return k; }
//@unit bitset each=0..6 fns=BitSet.set,BitSet.unset,BitSet.get,BitSet.set_bool,BitSet.cardinality,BitSet.len
void vp_bitset(uint64_t op)
{
	uint32_t a[3]; for (int k = 0; k < 3; k++) a[k] = VP_U32("word");
	uint64_t i = VP_RANGE("i", 0, 69), w = VP_RANGE("w", 0, 69); bool before = c_bs_get(a, w) != 0, bi = c_bs_get(a, i) != 0, want = before;
	unsigned n = pop(a, 3);
	switch (op) {
		case 0: c_bs_set(a, i); want = before || w == i; n += !bi; break;
		case 1: c_bs_unset(a, i); want = before && w != i; n -= bi; break;
		case 2: c_bs_set_bool(a, i, 1); want = before || w == i; n += !bi; break;
		case 3: c_bs_set_bool(a, i, 0); want = before && w != i; n -= bi; break;
		case 4: VP_ENSURES("a bit of the data", bi == (a[i / 32] >> i % 32 & 1)); break;
		case 5: VP_ENSURES("number of members", c_bs_card(a) == n); break;
		default: VP_ENSURES("capacity in bits", c_bs_len(a) >= 70);
	}
	VP_ENSURES("only that bit changes", (c_bs_get(a, w) != 0) == want); VP_ENSURES("the count follows", pop(a, 3) == n);
	VP_REACH();
}
//@unit bitset_algebra each=0..5 fns=BitSet.xor,BitSet.or,BitSet.and,BitSet.xor_self,BitSet.or_self,BitSet.and_self
void vp_bitset_algebra(uint64_t op)
{
	uint32_t a[3], b[3], o[3], b0[3]; for (int k = 0; k < 3; k++) { a[k] = VP_U32("a"); b0[k] = b[k] = VP_U32("b"); o[k] = VP_U32("o"); }
	uint64_t w = VP_RANGE("w", 0, 69); bool x = c_bs_get(a, w) != 0, y = c_bs_get(b, w) != 0;
	c_bs_op((int32_t)op, a, b, o);
	VP_ENSURES("set algebra", (c_bs_get(o, w) != 0) == (op % 3 == 0 ? x != y : op % 3 == 1 ? x || y : x && y));
	for (int k = 0; k < 3; k++) VP_ENSURES("the argument stays", b[k] == b0[k]);
	VP_REACH();
}
void c_gsetup(uint32_t *, uint64_t); int32_t c_gop(int32_t, uint64_t), c_gchar(uint8_t *, uint64_t, int32_t, uint64_t); uint64_t c_gsize(void); uint32_t c_gword(uint64_t);
//@unit growable each=0..6 kind=bounded bound="at most 3 words (growing: 2), bits below 128" unwind=10 fnunwind=BitSet_set:3 fns=GrowableBitSet.set,GrowableBitSet.unset,GrowableBitSet.get,GrowableBitSet.cardinality,GrowableBitSet.len
void vp_growable(uint64_t op)
{
	uint32_t a[3]; for (int k = 0; k < 3; k++) a[k] = VP_U32("word");
	uint64_t n = VP_RANGE("words", 0, op % 5 ? 3 : 2), i = VP_RANGE("i", 0, op % 5 ? 127 : 63), w = VP_RANGE("w", 0, 127);
	c_gsetup(a, n);
	bool before = w / 32 < n && (a[w / 32] >> w % 32 & 1), bi = i / 32 < n && (a[i / 32] >> i % 32 & 1), want = before;
	int r = c_gop((int32_t)op, i);
	switch (op) {
		case 0: case 5: want = before || w == i; break;
		case 1: case 6: want = before && w != i; break;
		case 2: VP_ENSURES("membership", (r != 0) == bi); break;
		case 3: VP_ENSURES("number of members", (unsigned)r == pop(a, (int)n)); break;
		default: if (n && a[n - 1]) VP_ENSURES("one more than the highest member", a[(r - 1) / 32] >> (r - 1) % 32 == 1 && (uint64_t)(r - 1) / 32 == n - 1); else if (!n) VP_ENSURES("empty", r == 0);
	}
	VP_ENSURES("only that bit changes", (c_gop(2, w) != 0) == want);
	VP_ENSURES("words are never lost", c_gsize() >= n);
	VP_REACH();
}
//@unit growable_char each=1..3 kind=bounded bound="at most 3 bytes" unwind=10 fns=GrowableBitSet.unset,GrowableBitSet.get,GrowableBitSet.cardinality
void vp_growable_char(uint64_t op)
{
	uint8_t a[3], b[3]; for (int k = 0; k < 3; k++) b[k] = a[k] = VP_U8("byte");
	uint64_t n = VP_RANGE("bytes", 0, 3), i = VP_RANGE("i", 0, 30), w = VP_RANGE("w", 0, 23);
	int r = c_gchar(a, n, (int32_t)op, i);
	if (op == 2) VP_ENSURES("membership", (r != 0) == (i / 8 < n && (b[i / 8] >> i % 8 & 1)));
	if (op == 3) { int k = 0; for (uint64_t j = 0; j < 3; j++) for (int t = 0; t < 8; t++) if (j < n) k += b[j] >> t & 1; VP_ENSURES("number of members", r == k); }
	VP_ENSURES("only that bit changes", (a[w / 8] >> w % 8 & 1) == ((b[w / 8] >> w % 8 & 1) && !(op == 1 && w == i && i / 8 < n)));
	VP_REACH();
}
/* bit order */
#define ORDERS(X) X(short, be, 2) X(short, le, 2) X(ushort, be, 2) X(ushort, le, 2) X(int, be, 4) X(int, le, 4) X(uint, be, 4) X(uint, le, 4) X(long, be, 8) X(long, le, 8) X(ulong, be, 8) X(ulong, le, 8) \
	X(int128, be, 16) X(int128, le, 16) X(uint128, be, 16) X(uint128, le, 16)
#define D2(t, e, n) void c_rd_##t##e(uint8_t *, uint64_t, void *), c_wr_##t##e(uint8_t *, uint64_t, void *);
ORDERS(D2)
#define IS_be 1
#define IS_le 0
#define RW(t, e, n) { uint8_t p[n + 2], q[n + 2], v[n] __attribute__((aligned(16))); vp_fill(p, n + 2); vp_fill(v, n); for (int k = 0; k < n + 2; k++) q[k] = p[k]; \
	uint8_t o[n] __attribute__((aligned(16))); c_rd_##t##e(p, n + 1, o); for (int k = 0; k < n; k++) VP_ENSURES("reads each byte in its place", o[k] == p[IS_##e ? n - 1 - k : k]); \
	c_wr_##t##e(q, n + 1, v); for (int k = 0; k < n; k++) VP_ENSURES("writes each byte in its place", q[IS_##e ? n - 1 - k : k] == v[k]); \
	VP_ENSURES("writes nothing else", q[n] == p[n] && q[n + 1] == p[n + 1]); }
//@unit bitorder fns=bitorder.read,bitorder.write nosan=alignment
void vp_bitorder(void) { ORDERS(RW) VP_REACH(); }
/* bit operations */
#define BITTY(X) X(char, uint8_t, 8) X(ushort, uint16_t, 16) X(uint, uint32_t, 32) X(ulong, uint64_t, 64) X(uint128, unsigned __int128, 128) X(ichar, uint8_t, 8) X(short, uint16_t, 16) X(int, uint32_t, 32) X(long, uint64_t, 64) X(int128, unsigned __int128, 128)
#define D3(t, c, n) void c_b_##t(int32_t, c *, c *, c *, c *);
BITTY(D3)
#define BIT(x, i) (unsigned)((x) >> (i) & 1)
#define RUN(t, c, n) { c a = (c)VP_U128("a"), b = (c)VP_U128("b"), s = (c)VP_U128("s"), o = 0; unsigned w = (unsigned)VP_RANGE("bit", 0, n - 1); unsigned k = (unsigned)(s & (n - 1)); \
	c_b_##t((int32_t)op, &a, &b, &s, &o); unsigned cnt = 0, lead = n, trail = n; \
	for (unsigned i = 0; i < n; i++) { cnt += BIT(a, i); if (BIT(a, i)) lead = n - 1 - i; if (BIT(a, n - 1 - i)) trail = n - 1 - i; } \
	if (op == 0) VP_ENSURES("number of ones", o == cnt); if (op == 1) VP_ENSURES("trailing zeros", o == trail); if (op == 2) VP_ENSURES("leading zeros", o == lead); \
	if (op == 3 || op == 5) VP_ENSURES("funnel shift left", BIT(o, w) == (w >= k ? BIT(a, w - k) : BIT((op == 5 ? a : b), n + w - k))); \
	if (op == 4 || op == 6) VP_ENSURES("funnel shift right", BIT(o, w) == (w + k < n ? BIT((op == 6 ? a : b), w + k) : BIT(a, w + k - n))); \
	if (op == 7) VP_ENSURES("bit reversal", BIT(o, w) == BIT(a, n - 1 - w)); \
	if (op == 8 && n > 8) VP_ENSURES("byte reversal", BIT(o, w) == BIT(a, (n / 8 - 1 - w / 8) * 8 + w % 8)); }
//@unit bitops each=0..8 unwind=130 fns=popcount,ctz,clz,fshl,fshr,rotl,rotr,reverse,bswap
void vp_bitops(uint64_t op) { BITTY(RUN) VP_REACH(); }
