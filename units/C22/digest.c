//@file lang=c3 probe=hash.c3 stubs=std.hash.sha256.sha256_transform,std.hash.sha1.sha1_transform,std.hash.md5.body
#include "vp.h"
void c_sha256(uint8_t *, uint64_t, uint64_t, uint8_t *), c_sha1(uint8_t *, uint64_t, uint64_t, uint8_t *), c_md5(uint8_t *, uint64_t, uint64_t, uint8_t *),
	c_whole(int32_t, uint8_t *, uint64_t, uint8_t *);
#ifdef VP_NATIVE
#include "digests.h"
#define SPEC_BLOCK s_block
#else
/* callers of the block functions are checked against their contract (unit `block` of hash.c): the new state is a function of
 * the old state and the 64 bytes */
#define W8(s) s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]
#define B8(p, i) p[i], p[i+1], p[i+2], p[i+3], p[i+4], p[i+5], p[i+6], p[i+7]
#define B64(p) B8(p, 0), B8(p, 8), B8(p, 16), B8(p, 24), B8(p, 32), B8(p, 40), B8(p, 48), B8(p, 56)
#define T8 uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t
#define T4 uint32_t, uint32_t, uint32_t, uint32_t
#define UFB(k, i) uint32_t __CPROVER_uninterpreted_b##k##i(T4, T4, T8, T8, T8, T8, T8, T8, T8, T8);
#define APPLY(k, i, t, p) __CPROVER_uninterpreted_b##k##i(W8(t), B64(p))
UFB(0, 0) UFB(0, 1) UFB(0, 2) UFB(0, 3) UFB(0, 4) UFB(0, 5) UFB(0, 6) UFB(0, 7) UFB(1, 0) UFB(1, 1) UFB(1, 2) UFB(1, 3) UFB(1, 4) UFB(2, 0) UFB(2, 1) UFB(2, 2) UFB(2, 3)
static void SPEC_BLOCK(int kind, uint32_t *s, const uint8_t *p)
{
	uint32_t t[8] = { 0 };
	for (int i = 0; i < (kind == 0 ? 8 : kind == 1 ? 5 : 4); i++) t[i] = s[i];
	if (kind == 0) { s[0] = APPLY(0, 0, t, p); s[1] = APPLY(0, 1, t, p); s[2] = APPLY(0, 2, t, p); s[3] = APPLY(0, 3, t, p); s[4] = APPLY(0, 4, t, p); s[5] = APPLY(0, 5, t, p); s[6] = APPLY(0, 6, t, p); s[7] = APPLY(0, 7, t, p); }
	else if (kind == 1) { s[0] = APPLY(1, 0, t, p); s[1] = APPLY(1, 1, t, p); s[2] = APPLY(1, 2, t, p); s[3] = APPLY(1, 3, t, p); s[4] = APPLY(1, 4, t, p); }
	else { s[0] = APPLY(2, 0, t, p); s[1] = APPLY(2, 1, t, p); s[2] = APPLY(2, 2, t, p); s[3] = APPLY(2, 3, t, p); }
}
void f_std_hash_sha256_sha256_transform(uint8_t *state, uint8_t *p) { SPEC_BLOCK(0, (uint32_t *)state, p); }
void f_std_hash_sha1_sha1_transform(uint8_t *state, uint8_t *p) { SPEC_BLOCK(1, (uint32_t *)state, p); }
uint8_t *f_std_hash_md5_body(uint8_t *ctx, uint8_t *p, uint64_t n) { do { SPEC_BLOCK(2, (uint32_t *)(ctx + 8), p); p += 64; } while (n -= 64); return p; }
#endif
static void s_digest(int kind, const uint8_t *m, uint64_t n, uint8_t *out)
{
	static const uint32_t i256[8] = { 0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19 }, i1[5] = { 0x67452301,0xEFCDAB89,0x98BADCFE,0x10325476,0xC3D2E1F0 };
	uint32_t s[8]; uint8_t b[64];
	int words = kind == 0 ? 8 : kind == 1 ? 5 : 4;
	for (int i = 0; i < words; i++) s[i] = kind == 0 ? i256[i] : i1[i];
	uint64_t total = (n + 9 + 63) / 64 * 64;
	for (uint64_t at = 0; at < total; at += 64)
	{
		for (uint64_t i = 0; i < 64; i++)
			b[i] = at + i < n ? m[at + i] : at + i == n ? 0x80 : at + i >= total - 8 ? (uint8_t)(n * 8 >> (kind == 2 ? 8 * (at + i - (total - 8)) : 8 * (total - 1 - at - i))) : 0;
		SPEC_BLOCK(kind, s, b);
	}
	for (int i = 0; i < words * 4; i++) out[i] = (uint8_t)(s[i / 4] >> (kind == 2 ? 8 * (i % 4) : 24 - 8 * (i % 4)));
}
static void digest(int kind, uint64_t n, uint64_t k)
{
	uint8_t m[130], got[32], whole[32], want[32];
	for (uint64_t i = 0; i < n; i++) m[i] = VP_U8("m");
	if (kind == 0) c_sha256(m, n, k, got); else if (kind == 1) c_sha1(m, n, k, got); else c_md5(m, n, k, got);
	c_whole(kind, m, n, whole);
	s_digest(kind, m, n, want);
	for (int i = 0; i < (kind == 0 ? 32 : kind == 1 ? 20 : 16); i++)
	{
		VP_ENSURES("digest of the message in two pieces", got[i] == want[i]);
		VP_ENSURES("digest of the message at once", whole[i] == want[i]);
	}
	VP_REACH();
}
//@unit sha256 each=0,1,55,56,63,64,119,120 kind=bounded bound="0, 1, 55, 56, 63, 64, 119, 120 bytes" solver=cadical opts="--max-field-sensitivity-array-size 132" unwind=132 fns=Sha256.init,Sha256.update,Sha256.final,sha256_transform
void vp_sha256(uint64_t n) { digest(0, n, n / 3); }
//@unit sha1 each=0,1,55,56,63,64,119,120 kind=bounded bound="0, 1, 55, 56, 63, 64, 119, 120 bytes" solver=cadical opts="--max-field-sensitivity-array-size 132" unwind=132 fns=Sha1.init,Sha1.update,Sha1.final,sha1_transform
void vp_sha1(uint64_t n) { digest(1, n, n / 3); }
//@unit md5 each=0,1,55,56,63,64,119,120 kind=bounded bound="0, 1, 55, 56, 63, 64, 119, 120 bytes" solver=cadical opts="--max-field-sensitivity-array-size 132" unwind=132 fns=Md5.init,Md5.update,Md5.final,body
void vp_md5(uint64_t n) { digest(2, n, n / 3); }
void c_hmac(int32_t, uint8_t *, uint64_t, uint8_t *, uint64_t, uint64_t, uint8_t *), c_pbkdf(int32_t, uint8_t *, uint64_t, uint8_t *, uint64_t, uint32_t, uint8_t *, uint64_t);
static void s_hmac(int kind, const uint8_t *key, uint64_t kn, const uint8_t *m, uint64_t n, uint8_t *out)
{
	uint64_t w = kind == 0 ? 32 : kind == 1 ? 20 : 16;
	uint8_t k0[64] = { 0 }, b[64 + 64];
	if (kn > 64) s_digest(kind, key, kn, k0); else for (uint64_t i = 0; i < kn; i++) k0[i] = key[i];
	for (uint64_t i = 0; i < 64; i++) b[i] = k0[i] ^ 0x36;
	for (uint64_t i = 0; i < n; i++) b[64 + i] = m[i];
	uint8_t in[32];
	s_digest(kind, b, 64 + n, in);
	for (uint64_t i = 0; i < 64; i++) b[i] = k0[i] ^ 0x5c;
	for (uint64_t i = 0; i < w; i++) b[64 + i] = in[i];
	s_digest(kind, b, 64 + w, out);
}
static void hmac(int kind, uint64_t kn)
{
	uint8_t key[65], m[3], out[32], want[32];
	for (uint64_t i = 0; i < kn; i++) key[i] = VP_U8("k");
	for (int i = 0; i < 3; i++) m[i] = VP_U8("m");
	c_hmac(kind, key, kn, m, 3, 1, out);
	s_hmac(kind, key, kn, m, 3, want);
	for (int i = 0; i < (kind == 0 ? 32 : kind == 1 ? 20 : 16); i++) VP_ENSURES("HMAC", out[i] == want[i]);
	VP_REACH();
}
//@unit hmac256 each=0,5,64,65 kind=bounded bound="keys of 0, 5, 64, 65 bytes, messages of 3 bytes" unwind=132 opts="--max-field-sensitivity-array-size 132" fns=Hmac.init,Hmac.update,Hmac.final
void vp_hmac256(uint64_t kn) { hmac(0, kn); }
//@unit hmac1 each=5,65 kind=bounded bound="keys of 5, 65 bytes, messages of 3 bytes" unwind=132 opts="--max-field-sensitivity-array-size 132" fns=hmac::hash
void vp_hmac1(uint64_t kn) { hmac(1, kn); }
//@unit hmac5 each=5,65 kind=bounded bound="keys of 5, 65 bytes, messages of 3 bytes" unwind=132 opts="--max-field-sensitivity-array-size 132" fns=hmac::hash
void vp_hmac5(uint64_t kn) { hmac(2, kn); }
//@unit pbkdf2 each=0..5 kind=bounded bound="password 2 bytes, salt 2 bytes; 1 iteration and 1 more byte than a digest, or 2 iterations and 1 byte less" unwind=132 opts="--max-field-sensitivity-array-size 132" fns=hmac::pbkdf2
void vp_pbkdf2(uint64_t c)
{
	uint64_t kind = c % 3, iter = c / 3 + 1;
	uint8_t pw[2], salt[6] = { 0 }, out[40], u[32], t[32];
	uint64_t w = kind == 0 ? 32 : kind == 1 ? 20 : 16;
	for (int i = 0; i < 2; i++) { pw[i] = VP_U8("pw"); salt[i] = VP_U8("salt"); }
	c_pbkdf((int)kind, pw, 2, salt, 2, (uint32_t)iter, out, iter == 1 ? w + 1 : w - 1);
	for (uint64_t blk = 0; blk < (iter == 1 ? 2 : 1); blk++)
	{
		salt[5] = (uint8_t)(blk + 1);
		s_hmac((int)kind, pw, 2, salt, 6, u);
		for (uint64_t i = 0; i < w; i++) t[i] = u[i];
		if (iter == 1) for (uint64_t i = 0; i < w; i++) u[i] = 0;
		else s_hmac((int)kind, pw, 2, u, w, u);
		for (uint64_t i = 0; i < w; i++) if (iter == 1 ? blk == 0 || i < 1 : i < w - 1) VP_ENSURES("PBKDF2", out[blk * w + i] == (uint8_t)(t[i] ^ u[i]));
	}
	VP_REACH();
}
