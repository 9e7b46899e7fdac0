#include "vp.h"
#include <string.h>
/* a member: container bytes, first and last bit, signed, byte array container, big endian, bits of the type, bool */
typedef struct { int n, lo, hi, sg, arr, be, w, boolean; } M;
static M mem(int n, int lo, int hi, int sg, int arr, int be, int w, int boolean) { M m = { n, lo, hi, sg, arr, be, w, boolean }; return m; }
static int byteof(M m, int bit) { return m.be && !m.arr ? m.n - 1 - bit / 8 : bit / 8; }
static uint64_t raw(const uint8_t *x, M m)
{
	uint64_t v = 0;
	for (int j = 0; j <= m.hi - m.lo; j++) v |= (uint64_t)(x[byteof(m, m.lo + j)] >> ((m.lo + j) % 8) & 1) << j;
	return v;
}
static uint64_t swapped(uint64_t v, M m)
{
	int bits = m.hi - m.lo + 1;
	if (!(m.be && m.arr) || bits <= 8) return v;
	uint64_t r = 0;
	for (int k = 0; k < bits / 8; k++) r |= (v >> (8 * k) & 255) << (bits - 8 - 8 * k);
	return r;
}
static uint64_t low(uint64_t v, int bits) { return bits >= 64 ? v : v & (((uint64_t)1 << bits) - 1); }
static uint64_t get(const uint8_t *x, M m)
{
	uint64_t v = swapped(raw(x, m), m);
	int bits = m.hi - m.lo + 1;
	if (m.sg && (v >> (bits - 1) & 1)) v |= ~low(~(uint64_t)0, bits);
	return low(v, m.w);
}
static void put(uint8_t *x, M m, uint64_t v)
{
	v = swapped(low(v, m.hi - m.lo + 1), m);
	for (int j = 0; j <= m.hi - m.lo; j++) {
		int b = byteof(m, m.lo + j), s = (m.lo + j) % 8;
		x[b] = (uint8_t)((x[b] & ~(1 << s)) | (int)(v >> j & 1) << s);
	}
}
/* known finding bits-partial-last-byte: the bits of a member in its last, partial byte are stored as 0 */
static void put_known(uint8_t *x, M m, uint64_t v)
{
	put(x, m, v);
	x[m.hi / 8] &= (uint8_t)~((1 << (m.hi % 8 + 1)) - 1);
}
#define START(N) uint8_t x[16]; for (int i = 0; i < 16; i++) x[i] = i < N ? VP_U8("x") : 0;
#define ALL(name, c) for (int i = 0; i < 16; i++) VP_ENSURES(name, c);
#define CP(y) uint8_t y[16]; for (int i = 0; i < 16; i++) y[i] = x[i];
#define PUT(f, T, m, PUTFN) { \
	T v = (T)VP_BITS("v", 64); if (m.boolean) v &= 1; if (m.w == 8 && m.hi - m.lo == 1 && !m.sg) v &= 3; \
	CP(y) CP(w) PUTFN(w, m, (uint64_t)v); c_##f##_set(y, v); ALL("writing a member changes its bits and no others", y[i] == w[i]) \
	uint8_t z[16] = { 0 }; CP(q) PUTFN(z, m, (uint64_t)v); c_##f##_des(q, v); ALL("a designated initializer sets the member and clears the rest", q[i] == z[i]) }
#define GET(f, T, m) { CP(y) VP_ENSURES("reading a member gives the value of its bits", c_##f##_get(y) == (T)get(x, m)); VP_ENSURES("reading a copy", c_##f##_val(y) == (T)get(x, m)); ALL("reading changes nothing", y[i] == x[i]) }
#define GETSET(f, T, M_) { M m = M_; GET(f, T, m) PUT(f, T, m, put) }
#define KNOWN_GETSET(f, T, M_) { M m = M_; GET(f, T, m) PUT(f, T, m, put_known) }
#define OPS_(f, T, M_, PUTFN) { M m = M_; T v = (T)VP_BITS("v", 64); uint64_t old = get(x, m); \
	{ CP(y) CP(w) PUTFN(w, m, old + (uint64_t)v); c_##f##_add(y, v); ALL("+= of a member", y[i] == w[i]) } \
	{ CP(y) CP(w) PUTFN(w, m, old ^ (uint64_t)v); c_##f##_xor(y, v); ALL("^= of a member", y[i] == w[i]) } \
	{ CP(y) CP(w) PUTFN(w, m, old + 1); c_##f##_inc(y); ALL("++ of a member", y[i] == w[i]) } \
	{ CP(y) CP(w) PUTFN(w, m, old - 1); c_##f##_dec(y); ALL("-- of a member", y[i] == w[i]) } }
#define OPS(f, T, M_) OPS_(f, T, M_, put)
#define KNOWN_OPS(f, T, M_) OPS_(f, T, M_, put_known)
#define BITWISE(f, N) { \
	uint8_t z[16]; for (int i = 0; i < 16; i++) z[i] = i < N ? VP_U8("z") : 0; \
	{ CP(y) c_##f##_and(y, z); ALL("& of bitstructs", y[i] == (x[i] & z[i])) } { CP(y) c_##f##_or(y, z); ALL("|= of bitstructs", y[i] == (x[i] | z[i])) } \
	{ CP(y) c_##f##_xor(y, z); ALL("^ of bitstructs", y[i] == (x[i] ^ z[i])) } { CP(y) c_##f##_not(y); ALL("~ of a bitstruct", y[i] == (uint8_t)(i < N ? ~x[i] : 0)) } \
	{ CP(y) int same = 1; for (int i = 0; i < N; i++) same &= x[i] == z[i]; VP_ENSURES("== of bitstructs", c_##f##_eq(y, z) == same); } \
	{ CP(y) CP(q) for (int i = 0; i < 16; i++) q[i] = 0; c_##f##_cast(y, q); ALL("cast to the container", q[i] == x[i]) c_##f##_back(q, z); ALL("cast from the container", q[i] == z[i]) } }
