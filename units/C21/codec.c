//@file lang=c3 probe=codec.c3 with=vp_alloc.c3 d.unwind=18
#define VP_ALLOC_MAX 24
#include "vp_alloc.h"
int64_t c_b64enc(uint8_t *, uint64_t, uint8_t *, uint64_t, uint8_t, int32_t), c_b64dec(uint8_t *, uint64_t, uint8_t *, uint64_t, uint8_t, int32_t),
	c_b32enc(uint8_t *, uint64_t, uint8_t *, uint64_t, uint8_t, int32_t), c_b32dec(uint8_t *, uint64_t, uint8_t *, uint64_t, uint8_t, int32_t),
	c_hexenc(uint8_t *, uint64_t, uint8_t *, uint64_t), c_hexdec(uint8_t *, uint64_t, uint8_t *, uint64_t), c_b64dlen(uint64_t, uint8_t);
uint64_t c_b64elen(uint64_t, uint8_t), c_b32elen(uint64_t, uint8_t), c_b32dlen(uint64_t, uint8_t);
uint8_t *c_alloc_enc(int32_t, uint8_t *, uint64_t, uint64_t *), *c_alloc_dec(int32_t, uint8_t *, uint64_t, uint64_t *);
/* RFC 4648, written over bit positions: character number i of the encoding holds bits i*k .. i*k+k-1 of the message */
static unsigned bit(const uint8_t *p, uint64_t n, uint64_t i) { return i / 8 < n ? p[i / 8] >> (7 - i % 8) & 1 : 0; }
static uint8_t digit(unsigned v, int k, int alpha)
{
	if (k == 4) return (uint8_t)(v < 10 ? '0' + v : 'a' + v - 10);
	if (k == 5) return (uint8_t)(alpha ? (v < 10 ? '0' + v : 'A' + v - 10) : v < 26 ? 'A' + v : '2' + v - 26);
	return (uint8_t)(v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? (alpha ? '-' : '+') : (alpha ? '_' : '/'));
}
/* -1 if not a digit */
static int value(uint8_t c, int k, int alpha)
{
	if (k == 4) return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
	if (k == 5 && alpha) return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'V' ? c - 'A' + 10 : -1;
	if (k == 5) return c >= 'A' && c <= 'Z' ? c - 'A' : c >= '2' && c <= '7' ? c - '2' + 26 : -1;
	return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == (alpha ? '-' : '+') ? 62 : c == (alpha ? '_' : '/') ? 63 : -1;
}
static uint64_t digits(uint64_t n, int k) { return (n * 8 + (unsigned)k - 1) / (unsigned)k; }
static void check_enc(const uint8_t *in, uint64_t n, const uint8_t *out, uint64_t len, int k, int group, uint8_t pad, int alpha, uint64_t max)
{
	uint64_t d = digits(n, k), total = pad ? (d + (unsigned)group - 1) / (unsigned)group * (unsigned)group : d;
	VP_ENSURES("encoded length", len == total);
	for (uint64_t i = 0; i < max; i++)
	{
		unsigned v = 0;
		for (int b = 0; b < k; b++) v = v << 1 | bit(in, n, i * (unsigned)k + (unsigned)b);
		if (i < total) VP_ENSURES("every character of the encoding", out[i] == (i < d ? digit(v, k, alpha) : pad));
	}
}
/* digits before the padding, -1 if the text is malformed */
static int64_t wellformed(const uint8_t *t, uint64_t n, int k, int group, uint8_t pad, int alpha, uint64_t max)
{
	uint64_t d = n;
	if (pad)
	{
		if (n % (unsigned)group) return -1;
		for (int i = 0; i < group - 1; i++) if (d && t[d - 1] == pad) d--;
		if (n && n - d >= (unsigned)group) return -1;
	}
	if (digits(d * (unsigned)k / 8, k) != d) return -1;
	for (uint64_t i = 0; i < max; i++) if (i < d && value(t[i], k, alpha) < 0) return -1;
	return (int64_t)d;
}
static void check_dec(const uint8_t *t, uint64_t n, const uint8_t *out, int64_t r, int k, int group, uint8_t pad, int alpha, uint64_t max)
{
	int64_t d = wellformed(t, n, k, group, pad, alpha, max);
	VP_ENSURES("decodes exactly the well formed texts", (r >= 0) == (d >= 0));
	if (r < 0) return;
	VP_ENSURES("decoded length", r == d * k / 8);
	for (uint64_t i = 0; i < max; i++)
	{
		unsigned v = 0;
		for (uint64_t b = i * 8; b < i * 8 + 8; b++) v = v << 1 | (b / (unsigned)k < (uint64_t)d ? (unsigned)value(t[b / (unsigned)k], k, alpha) >> ((unsigned)k - 1 - b % (unsigned)k) & 1 : 0);
		if (i < (uint64_t)r) VP_ENSURES("every decoded byte", out[i] == v);
	}
}
static uint8_t padding(void) { uint8_t pads[3] = { 0, '=', '*' }; return pads[VP_RANGE("pad", 0, 2)]; }
#define ENC(N, C, k, group, elen, enc) { \
	uint8_t in[N], out[C + 1]; vp_fill(in, N); uint8_t g = out[C] = VP_U8("guard"); uint64_t n = VP_RANGE("n", 0, N); uint8_t pad = padding(); int alpha = VP_BOOL("alphabet"); \
	uint64_t cap = elen(n, pad); VP_ENSURES("length function", cap <= C); \
	int64_t r = enc(in, n, out + (C - cap), cap, pad, alpha); VP_ENSURES("announced length", r == (int64_t)cap); \
	check_enc(in, n, out + (C - cap), (uint64_t)r, k, group, pad, alpha, C); VP_ENSURES("writes inside the buffer", out[C] == g); }
//@unit base64_encode outer=4 kind=bounded bound="at most 7 bytes" fns=encode_buffer,encode_len
void vp_base64_encode(void) { ENC(7, 12, 6, 4, c_b64elen, c_b64enc) VP_REACH(); }
//@unit base32_encode outer=3 kind=bounded bound="at most 7 bytes" fns=encode_buffer,encode_len
void vp_base32_encode(void) { ENC(7, 16, 5, 8, c_b32elen, c_b32enc) VP_REACH(); }
//@unit base64_decode outer=4 kind=bounded bound="at most 9 characters" fns=decode_buffer,decode_len
void vp_base64_decode(void)
{
	uint8_t in[9], out[9]; vp_fill(in, 9);
	uint64_t n = VP_RANGE("n", 0, 9); uint8_t pad = padding(); int alpha = VP_BOOL("alphabet");
	int64_t cap = c_b64dlen(n, pad);
	uint64_t room = cap < 0 ? 0 : (uint64_t)cap;
	VP_ENSURES("length function", room <= 9);
	check_dec(in + (9 - n), n, out + (9 - room), c_b64dec(in + (9 - n), n, out + (9 - room), room, pad, alpha), 6, 4, pad, alpha, 9);
	VP_REACH();
}
//@unit base32_decode each=0..3,7,8,9,16 kind=bounded bound="0..3, 7..9, 16 characters" outer=4 fns=decode_buffer,decode_len
void vp_base32_decode(uint64_t n)
{
	uint8_t in[16], out[24]; for (uint64_t i = 0; i < n; i++) in[i] = VP_U8("c");
	uint8_t pad = padding(); int alpha = VP_BOOL("alphabet");
	uint64_t room = c_b32dlen(n, pad);
	VP_ENSURES("length function", room <= 10);
	if (VP_BOOL("larger buffer")) room = 20;
	check_dec(in, n, out + (24 - room), c_b32dec(in, n, out + (24 - room), room, pad, alpha), 5, 8, pad, alpha, n);
	VP_REACH();
}
//@unit lengths kind=bounded bound="sizes below 2^24" fns=encode_len,decode_len
void vp_lengths(void)
{
	uint64_t n = VP_U64("n"), pad = VP_U8("pad");
	VP_REQUIRES(n < (uint64_t)1 << 24 && pad < 0xff);
	VP_ENSURES("base64 encoded", c_b64elen(n, (uint8_t)pad) == (pad ? (n + 2) / 3 * 4 : (n * 4 + 2) / 3));
	VP_ENSURES("base32 encoded", c_b32elen(n, (uint8_t)pad) == (pad ? (n + 4) / 5 * 8 : n / 5 * 8 + (n % 5 * 8 + 4) / 5));
	VP_ENSURES("base64 decoded", c_b64dlen(n, (uint8_t)pad) == (pad ? (n % 4 ? -1 : (int64_t)(n / 4 * 3)) : n % 4 == 1 ? -1 : (int64_t)(n / 4 * 3 + n % 4 * 3 / 4)));
	VP_ENSURES("base32 decoded", c_b32dlen(n, (uint8_t)pad) == (pad ? n / 8 * 5 : n / 8 * 5 + n % 8 * 5 / 8));
	VP_REACH();
}
//@unit hex kind=bounded bound="at most 6 bytes or 8 characters" fns=encode_bytes,decode_bytes
void vp_hex(void)
{
	uint8_t in[8], out[13]; vp_fill(in, 8);
	if (VP_BOOL("encode"))
	{
		uint64_t n = VP_RANGE("n", 0, 6);
		check_enc(in, n, out + (12 - 2 * n), (uint64_t)c_hexenc(in, n, out + (12 - 2 * n), 2 * n), 4, 2, 0, 0, 12);
	}
	else
	{
		uint64_t n = 2 * VP_RANGE("n", 0, 4);
		check_dec(in + (8 - n), n, out + (4 - n / 2), c_hexdec(in + (8 - n), n, out + (4 - n / 2), n / 2), 4, 2, 0, 0, 8);
	}
	VP_REACH();
}
//@unit roundtrip each=1,4,5 kind=bounded bound="1, 4 or 5 bytes" outer=4 fns=encode,decode
void vp_roundtrip(uint64_t n)
{
	uint8_t in[6]; vp_fill(in, 6);
	uint64_t len = 99, back = 99;
	int kind = (int)VP_RANGE("kind", 0, 2);
	uint8_t *t = c_alloc_enc(kind, in, n, &len);
	uint64_t d = digits(n, kind == 0 ? 6 : kind == 1 ? 5 : 4);
	VP_ENSURES("length", len == (kind == 0 ? (d + 3) / 4 * 4 : kind == 1 ? (d + 7) / 8 * 8 : d));
	if (n == 0) return;
	uint8_t *b = c_alloc_dec(kind, t, len, &back);
	VP_ENSURES("decodes", b != 0 && back == n);
	for (uint64_t i = 0; i < 6; i++) if (i < n) VP_ENSURES("to the original bytes", b[i] == in[i]);
	VP_REACH();
}
