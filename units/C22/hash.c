//@file lang=c3 probe=hash.c3 d.unwind=10
#include "vp.h"
uint32_t c_crc32_step(uint32_t, uint8_t), c_crc32(uint8_t *, uint64_t, uint64_t, uint32_t), c_crc32_whole(uint8_t *, uint64_t), c_adler(uint8_t *, uint64_t, uint64_t), c_adler_whole(uint8_t *, uint64_t),
	c_fnv32(uint8_t *, uint64_t, uint64_t), c_fnv32_whole(uint8_t *, uint64_t);
uint64_t c_crc64_step(uint64_t, uint8_t), c_crc64(uint8_t *, uint64_t, uint64_t, uint32_t), c_crc64_whole(uint8_t *, uint64_t), c_fnv64(uint8_t *, uint64_t, uint64_t), c_fnv64_whole(uint8_t *, uint64_t);
void c_adler_step(uint32_t *, uint32_t *, uint8_t), c_sha256(uint8_t *, uint64_t, uint64_t, uint8_t *), c_sha1(uint8_t *, uint64_t, uint64_t, uint8_t *), c_md5(uint8_t *, uint64_t, uint64_t, uint8_t *),
	c_whole(int32_t, uint8_t *, uint64_t, uint8_t *);
static uint32_t s_crc32(uint32_t s, uint8_t c) { s ^= c; for (int i = 0; i < 8; i++) s = s & 1 ? s >> 1 ^ 0xEDB88320u : s >> 1; return s; }
static uint64_t s_crc64(uint64_t s, uint8_t c) { s ^= (uint64_t)c << 56; for (int i = 0; i < 8; i++) s = s >> 63 ? s << 1 ^ 0x42F0E1EBA9EA3693ull : s << 1; return s; }
//@unit crc32_step fns=Crc32.updatec
void vp_crc32_step(void) { uint32_t s = VP_U32("s"); uint8_t c = VP_U8("c"); VP_ENSURES("one byte of CRC-32", c_crc32_step(s, c) == s_crc32(s, c)); VP_REACH(); }
//@unit crc64_step fns=Crc64.updatec
void vp_crc64_step(void) { uint64_t s = VP_U64("s"); uint8_t c = VP_U8("c"); VP_ENSURES("one byte of CRC-64", c_crc64_step(s, c) == s_crc64(s, c)); VP_REACH(); }
//@unit adler_step fns=Adler32.updatec
void vp_adler_step(void)
{
	uint32_t a = (uint32_t)VP_RANGE("a", 0, 65520), b = (uint32_t)VP_RANGE("b", 0, 65520), a2 = a, b2 = b; uint8_t c = VP_U8("c");
	c_adler_step(&a2, &b2, c);
	uint32_t x = a + c >= 65521 ? a + c - 65521 : a + c, y = b + x >= 65521 ? b + x - 65521 : b + x;
	VP_ENSURES("one byte of Adler-32", a2 == x && b2 == y);
	VP_REACH();
}
#include "digests.h"
#define MSG(N) uint8_t m[N]; vp_fill(m, N); uint64_t n = VP_RANGE("n", 0, N), k = VP_RANGE("split", 0, N); VP_REQUIRES(k <= n); uint8_t *p = m + (N - n)
//@unit crc32 each=0..4 kind=bounded bound="at most 4 bytes, any split" solver=z3 fns=Crc32.init,Crc32.update,Crc32.final,crc32::hash
void vp_crc32(uint64_t n)
{
	uint8_t p[4]; vp_fill(p, 4); uint32_t seed = VP_U32("seed"), s = ~seed, w = ~0u;
	for (uint64_t i = 0; i < n; i++) { s = c_crc32_step(s, p[i]); w = c_crc32_step(w, p[i]); }
	for (uint64_t k = 0; k <= n; k++) VP_ENSURES("in pieces", c_crc32(p, n, k, seed) == (uint32_t)~s);
	VP_ENSURES("at once", c_crc32_whole(p, n) == (uint32_t)~w);
	VP_REACH();
}
//@unit crc64 each=0..4 kind=bounded bound="at most 4 bytes, any split" solver=z3 fns=Crc64.init,Crc64.update,Crc64.final,crc64::hash
void vp_crc64(uint64_t n)
{
	uint8_t p[4]; vp_fill(p, 4); uint32_t seed = VP_U32("seed"); uint64_t s = seed, w = 0;
	for (uint64_t i = 0; i < n; i++) { s = c_crc64_step(s, p[i]); w = c_crc64_step(w, p[i]); }
	for (uint64_t k = 0; k <= n; k++) VP_ENSURES("in pieces", c_crc64(p, n, k, seed) == s);
	VP_ENSURES("at once", c_crc64_whole(p, n) == w);
	VP_REACH();
}
//@unit adler32 kind=bounded bound="at most 3 bytes, any split" fns=Adler32.init,Adler32.update,Adler32.final,adler32::hash
void vp_adler32(void)
{
	MSG(3); uint32_t a = 1, b = 0;
	for (int i = 0; i < 3; i++) if ((uint64_t)i < n) { a = a + p[i]; b = b + a; }
	VP_ENSURES("in pieces", c_adler(p, n, k) == (b << 16 | a));
	VP_ENSURES("at once", c_adler_whole(p, n) == (b << 16 | a));
	VP_REACH();
}
//@unit fnv32 each=0..3 kind=bounded bound="at most 3 bytes, any split" solver=z3 fns=Fnv32a.update,fnv32a::hash
void vp_fnv32(uint64_t n)
{
	uint8_t p[3]; vp_fill(p, 3);
	uint32_t h = 0x811c9dc5u;
	for (uint64_t i = 0; i < n; i++) h = (h ^ p[i]) * 16777619u;
	for (uint64_t k = 0; k <= n; k++) VP_ENSURES("in pieces", c_fnv32(p, n, k) == h);
	VP_ENSURES("at once", c_fnv32_whole(p, n) == h);
	VP_REACH();
}
//@unit fnv64 each=0..3 kind=bounded bound="at most 3 bytes, any split" solver=z3 fns=Fnv64a.update,fnv64a::hash
void vp_fnv64(uint64_t n)
{
	uint8_t p[3]; vp_fill(p, 3);
	uint64_t h = 0xcbf29ce484222325ull;
	for (uint64_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull;
	for (uint64_t k = 0; k <= n; k++) VP_ENSURES("in pieces", c_fnv64(p, n, k) == h);
	VP_ENSURES("at once", c_fnv64_whole(p, n) == h);
	VP_REACH();
}
void c_block256(uint32_t *, uint8_t *), c_block1(uint32_t *, uint8_t *), c_block5(uint32_t *, uint8_t *);
//@unit block each=0..2 kind=proof solver=cvc5 unwind=132 opts="--max-field-sensitivity-array-size 132" fns=sha256_transform,sha1_transform,body
void vp_block(uint64_t kind)
{
	uint32_t s[8], t[8]; uint8_t m[64];
	for (int i = 0; i < 64; i++) m[i] = VP_U8("m");
	for (int i = 0; i < 8; i++) s[i] = t[i] = VP_U32("s");
	if (kind == 0) c_block256(s, m); else if (kind == 1) c_block1(s, m); else c_block5(s, m);
	s_block((int)kind, t, m);
	for (int i = 0; i < (kind == 0 ? 8 : kind == 1 ? 5 : 4); i++) VP_ENSURES("one block", s[i] == t[i]);
	VP_REACH();
}
//@unit forms kind=proof
void vp_forms(void)
{
	uint32_t x = VP_U32("x"), y = VP_U32("y"), z = VP_U32("z"); uint8_t p[4]; vp_fill(p, 4);
	VP_ENSURES("Ch", mux(x, y, z) == ((x & y) ^ (~x & z)) && mux(x, y, z) == ((x & y) | (~x & z)));
	VP_ENSURES("Maj", major(x, y, z) == ((x & y) ^ (x & z) ^ (y & z)));
	VP_ENSURES("little endian word", le(p) == ((uint32_t)p[3] << 24 | (uint32_t)p[2] << 16 | (uint32_t)p[1] << 8 | p[0]));
	VP_ENSURES("big endian word", be(p) == ((uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]));
	VP_REACH();
}
