//@file lang=c3 probe=utf.c3 with=vp_alloc.c3 d.unwind=14
#include "vp_alloc.h"
int vp_c32to8(uint32_t c, uint8_t *out, uint64_t len, uint64_t *n);
int vp_8to32(uint8_t *p, uint64_t *size, uint32_t *out);
void c_32to16u(uint32_t, uint16_t **); uint64_t c_32to8u(uint32_t, uint8_t **); int c_16to8u(uint16_t *, uint64_t *, uint8_t **);
uint64_t c_len8for32(uint32_t *, uint64_t), c_len16for32(uint32_t *, uint64_t), c_len8for16(uint16_t *, uint64_t), c_len16for8(uint8_t *, uint64_t), c_codepoints(uint8_t *, uint64_t);
int64_t c_conv32to8(uint32_t *, uint64_t, uint8_t *, uint64_t), c_conv8to32(uint8_t *, uint64_t, uint32_t *, uint64_t), c_iterate(uint8_t *, uint64_t, uint32_t *);
uint8_t *c_from16(uint16_t *, uint64_t, uint64_t *), *c_fromw(uint16_t *, uint64_t *), *c_from32(uint32_t *, uint64_t, uint64_t *);
uint16_t *c_to16(uint8_t *, uint64_t, uint64_t *); uint32_t *c_to32(uint8_t *, uint64_t, uint64_t *);
/* specification of the encodings */
static unsigned enc_len(uint32_t c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x110000 ? 4 : 0; }
static unsigned s_enc8(uint32_t c, uint8_t *o)
{
	unsigned n = enc_len(c);
	for (unsigned i = n - 1; i > 0; i--) { o[i] = (uint8_t)(0x80 | (c & 0x3f)); c >>= 6; }
	o[0] = (uint8_t)(n == 1 ? c : (0xff00u >> n) | c);
	return n;
}
static bool s_surr(uint32_t c) { return c >= 0xd800 && c <= 0xdfff; }
/* width of the code point at p, 0 if malformed */
static unsigned s_dec8(const uint8_t *p, uint64_t n, uint32_t *c)
{
	if (!n) return 0;
	unsigned w = p[0] < 0x80 ? 1 : p[0] >= 0xc2 && p[0] < 0xe0 ? 2 : p[0] >= 0xe0 && p[0] < 0xf0 ? 3 : p[0] >= 0xf0 && p[0] < 0xf5 ? 4 : 0;
	if (!w || w > n) return 0;
	uint32_t v = w == 1 ? p[0] : p[0] & (0x7fu >> w);
	for (unsigned i = 1; i < w; i++) { if ((p[i] & 0xc0) != 0x80) return 0; v = v << 6 | (p[i] & 0x3f); }
	if (enc_len(v) != w) return 0;
	*c = v;
	return w;
}
static unsigned s_enc16(uint32_t c, uint16_t *o)
{
	if (c < 0x10000) { o[0] = (uint16_t)c; return 1; }
	o[0] = (uint16_t)(0xd800 + ((c - 0x10000) >> 10)); o[1] = (uint16_t)(0xdc00 + ((c - 0x10000) & 0x3ff));
	return 2;
}
static unsigned s_dec16(const uint16_t *p, uint64_t n, uint32_t *c)
{
	if (!s_surr(p[0])) { *c = p[0]; return 1; }
	if (p[0] >= 0xdc00 || n < 2 || p[1] < 0xdc00 || p[1] > 0xdfff) return 0;
	*c = 0x10000 + ((uint32_t)(p[0] & 0x3ff) << 10) + (p[1] & 0x3ff);
	return 2;
}
//@unit encode fns=char32_to_utf8
void vp_encode(void)
{
	uint32_t c = VP_U32("c");
	uint64_t len = VP_RANGE("len", 0, 4), n = 0;
	uint8_t out[5] = { 0x55, 0x55, 0x55, 0x55, 0x55 }, want[4];
	int ok = vp_c32to8(c, out, len, &n);
	unsigned need = enc_len(c);
	VP_ENSURES("encodes exactly the representable code points that fit", ok == (need && need <= len));
	if (ok)
	{
		VP_ENSURES("length", n == need);
		s_enc8(c, want);
		for (unsigned i = 0; i < 5; i++) VP_ENSURES("bytes", out[i] == (i < need ? want[i] : 0x55));
	}
	VP_REACH();
}
//@unit encode_unsafe fns=char32_to_utf8_unsafe,char32_to_utf16_unsafe
void vp_encode_unsafe(void)
{
	uint32_t c = VP_U32("c");
	VP_REQUIRES(c <= 0x10ffff);
	uint8_t out[5] = { 0x55, 0x55, 0x55, 0x55, 0x55 }, want[4], *p = out;
	unsigned need = s_enc8(c, want);
	VP_ENSURES("length", c_32to8u(c, &p) == need && p == out + need);
	for (unsigned i = 0; i < 5; i++) VP_ENSURES("bytes", out[i] == (i < need ? want[i] : 0x55));
	uint16_t o16[3] = { 0x55, 0x55, 0x55 }, w16[2], *q = o16;
	need = s_enc16(c, w16);
	c_32to16u(c, &q);
	VP_ENSURES("UTF-16 length", q == o16 + need);
	for (unsigned i = 0; i < 3; i++) VP_ENSURES("UTF-16 units", o16[i] == (i < need ? w16[i] : 0x55));
	VP_REACH();
}
//@unit decode fns=utf8_to_char32
void vp_decode(void)
{
	uint8_t b[4]; vp_fill(b, 4);
	uint64_t n = VP_RANGE("n", 0, 4), w = n;
	uint8_t *p = b + 4 - n;
	uint32_t c = 0, want = 0;
	int ok = vp_8to32(p, &w, &c);
	unsigned width = s_dec8(p, n, &want);
	VP_REQUIRES(!(width && s_surr(want))); /* surrogates: unspecified */
	VP_ENSURES("decodes exactly the well formed sequences", ok == (width != 0));
	if (ok) VP_ENSURES("width and value", w == width && c == want);
	VP_REACH();
}
//@unit decode16 fns=char16_to_utf8_unsafe
void vp_decode16(void)
{
	uint16_t in[2] = { VP_U16("a"), VP_U16("b") };
	uint64_t n = VP_RANGE("n", 1, 2), used = n;
	uint16_t *p = in + 2 - n;
	uint8_t out[5] = { 0x55, 0x55, 0x55, 0x55, 0x55 }, want[4], *q = out;
	uint32_t c = 0;
	unsigned w = s_dec16(p, n, &c);
	int ok = c_16to8u(p, &used, &q);
	VP_ENSURES("converts exactly the well formed units", ok == (w != 0));
	if (ok)
	{
		unsigned need = s_enc8(c, want);
		VP_ENSURES("units used, bytes written", used == w && q == out + need);
		for (unsigned i = 0; i < 5; i++) VP_ENSURES("bytes", out[i] == (i < need ? want[i] : 0x55));
	}
	VP_REACH();
}
//@unit lengths kind=bounded bound="sequences of at most 5 units" fns=utf8len_for_utf32,utf16len_for_utf32,utf8len_for_utf16
void vp_lengths(void)
{
	uint32_t c[5]; uint16_t u[5]; uint64_t n = VP_RANGE("n", 0, 5), l8 = 0, l16 = 0, l816 = 0;
	for (int i = 0; i < 5; i++) { c[i] = VP_U32("c"); VP_REQUIRES(c[i] <= 0x10ffff); u[i] = VP_U16("u"); }
	bool wf = true;
	for (uint64_t i = 0; i < n; i++) { l8 += enc_len(c[i]); l16 += c[i] > 0xffff ? 2 : 1; }
	for (uint64_t i = 0; i < n && wf;) { uint32_t x = 0; unsigned w = s_dec16(u + i, n - i, &x); if (!w) { wf = false; break; } l816 += enc_len(x); i += w; }
	VP_ENSURES("UTF-8 length of UTF-32", c_len8for32(c, n) == l8);
	VP_ENSURES("UTF-16 length of UTF-32", c_len16for32(c, n) == l16);
	uint64_t r = c_len8for16(u, n);
	if (wf) VP_ENSURES("UTF-8 length of UTF-16", r == l816);
	VP_REACH();
}
//@unit lengths8 kind=bounded bound="texts of at most 6 bytes" fns=utf16len_for_utf8,utf8_codepoints,String.utf8_codepoints
void vp_lengths8(void)
{
	uint8_t b[6]; vp_fill(b, 6);
	uint64_t n = VP_RANGE("n", 0, 6), l16 = 0, count = 0;
	uint8_t *p = b + 6 - n;
	bool wf = true;
	for (uint64_t i = 0; i < n;) { uint32_t x = 0; unsigned w = s_dec8(p + i, n - i, &x); if (!w) { wf = false; break; } count++; l16 += x > 0xffff ? 2 : 1; i += w; }
	uint64_t r16 = c_len16for8(p, n), rc = c_codepoints(p, n);
	if (wf) { VP_ENSURES("UTF-16 length of UTF-8", r16 == l16); VP_ENSURES("number of code points", rc == count); }
	VP_REACH();
}
//@unit to8 kind=bounded bound="at most 3 code points" fns=utf32to8
void vp_to8(void)
{
	uint32_t c[3]; uint64_t n = VP_RANGE("n", 0, 3), cap = VP_RANGE("cap", 0, 12), need = 0;
	uint8_t out[13], want[13]; vp_fill(out, 13);
	uint8_t guard = out[cap];
	bool valid = true;
	for (int i = 0; i < 3; i++) c[i] = VP_U32("c");
	for (uint64_t i = 0; i < n; i++) { if (c[i] > 0x10ffff) { valid = false; break; } need += s_enc8(c[i], want + need); }
	int64_t r = c_conv32to8(c, n, out, cap);
	VP_ENSURES("converts exactly if valid and it fits", (r >= 0) == (valid && need <= cap));
	VP_ENSURES("stays inside the buffer", out[cap] == guard);
	if (r >= 0)
	{
		VP_ENSURES("length", (uint64_t)r == need);
		for (uint64_t i = 0; i < 12; i++) if (i < need) VP_ENSURES("bytes", out[i] == want[i]);
		if (need < cap) VP_ENSURES("zero terminated if it fits", out[need] == 0);
	}
	VP_REACH();
}
//@unit to32 kind=bounded bound="texts of at most 6 bytes" fns=utf8to32,utf8_to_char32
void vp_to32(void)
{
	uint8_t b[6]; vp_fill(b, 6);
	uint64_t n = VP_RANGE("n", 0, 6), cap = VP_RANGE("cap", 0, 6), count = 0;
	uint8_t *p = b + 6 - n;
	uint32_t out[7], want[6], guard;
	for (int i = 0; i < 7; i++) out[i] = VP_U32("o");
	guard = out[cap];
	bool wf = true;
	for (uint64_t i = 0; i < n;) { uint32_t x = 0; unsigned w = s_dec8(p + i, n - i, &x); if (!w) { wf = false; break; } VP_REQUIRES(!s_surr(x)); want[count++] = x; i += w; }
	int64_t r = c_conv8to32(p, n, out, cap);
	VP_ENSURES("converts exactly if well formed and it fits", (r >= 0) == (wf && count <= cap));
	VP_ENSURES("stays inside the buffer", out[cap] == guard);
	if (r >= 0)
	{
		VP_ENSURES("number of code points", (uint64_t)r == count);
		for (uint64_t i = 0; i < 6; i++) if (i < count) VP_ENSURES("code points", out[i] == want[i]);
	}
	VP_REACH();
}
//@unit iterator kind=bounded bound="texts of at most 5 bytes" fns=StringIterator.next,StringIterator.peek,StringIterator.has_next
void vp_iterator(void)
{
	uint8_t b[5]; vp_fill(b, 5);
	uint64_t n = VP_RANGE("n", 0, 5), count = 0;
	uint8_t *p = b + 5 - n;
	uint32_t out[5], want[5];
	bool wf = true;
	for (uint64_t i = 0; i < n;) { uint32_t x = 0; unsigned w = s_dec8(p + i, n - i, &x); if (!w) { wf = false; break; } VP_REQUIRES(!s_surr(x)); want[count++] = x; i += w; }
	int64_t r = c_iterate(p, n, out);
	VP_ENSURES("yields the code points, then ends or faults", r == (wf ? (int64_t)count : -1 - (int64_t)count));
	for (uint64_t i = 0; i < 5; i++) if (i < count) VP_ENSURES("code points", out[i] == want[i]);
	VP_REACH();
}
//@unit string_from16 kind=bounded bound="texts of at most 3 units" unwind=10 objbits=12 fns=from_utf16,from_wstring,utf16to8_unsafe
void vp_string_from16(void)
{
	uint16_t u[4]; uint64_t n = VP_RANGE("n", 0, 3), need = 0, len = 99;
	uint8_t want[12];
	for (int i = 0; i < 3; i++) u[i] = VP_U16("u");
	bool wf = true, zero = VP_BOOL("wstring");
	for (uint64_t i = 0; i < n;) { uint32_t x = 0; if (zero) VP_REQUIRES(u[i] != 0); unsigned w = s_dec16(u + i, n - i, &x); if (!w) { wf = false; break; } need += s_enc8(x, want + need); i += w; }
	u[n] = zero ? 0 : u[n];
	uint8_t *s = zero ? c_fromw(u, &len) : c_from16(u, n, &len);
	VP_ENSURES("converts exactly the well formed texts", (s != 0) == wf);
	VP_ENSURES("nothing is leaked", vp_live == (s != 0));
	if (s)
	{
		VP_ENSURES("length", len == need);
		for (uint64_t i = 0; i < 9; i++) if (i < need) VP_ENSURES("bytes", s[i] == want[i]);
		VP_ENSURES("terminated", s[len] == 0);
	}
	VP_REACH();
}
//@unit string_from32 kind=bounded bound="texts of at most 3 code points" fns=from_utf32,utf32to8_unsafe
void vp_string_from32(void)
{
	uint32_t u[3]; uint64_t n = VP_RANGE("n", 0, 3), need = 0, len = 99;
	uint8_t want[12];
	for (int i = 0; i < 3; i++) { u[i] = VP_U32("u"); VP_REQUIRES(u[i] <= 0x10ffff); }
	for (uint64_t i = 0; i < n; i++) need += s_enc8(u[i], want + need);
	uint8_t *s = c_from32(u, n, &len);
	VP_ENSURES("converts", s != 0 && vp_live == 1);
	VP_ENSURES("length", len == need);
	for (uint64_t i = 0; i < 12; i++) if (i < need) VP_ENSURES("bytes", s[i] == want[i]);
	VP_ENSURES("terminated", s[len] == 0);
	VP_REACH();
}
//@unit string_to kind=bounded bound="texts of at most 4 bytes" unwind=8 fns=String.to_utf16,String.to_utf32,utf8to16_unsafe,utf8to32_unsafe
void vp_string_to(void)
{
	uint8_t b[4]; vp_fill(b, 4);
	uint64_t n = VP_RANGE("n", 0, 4), count = 0, n16 = 0, len = 99;
	uint8_t *p = b + 4 - n;
	uint32_t want[5]; uint16_t w16[10];
	bool wf = true;
	for (uint64_t i = 0; i < n;) { uint32_t x = 0; unsigned w = s_dec8(p + i, n - i, &x); if (!w) { wf = false; break; } VP_REQUIRES(!s_surr(x)); want[count++] = x; n16 += s_enc16(x, w16 + n16); i += w; }
	if (VP_BOOL("utf16"))
	{
		uint16_t *s = c_to16(p, n, &len);
		VP_ENSURES("converts exactly the well formed texts", (s != 0) == wf);
		VP_ENSURES("nothing is leaked", vp_live == (s != 0));
		if (s)
		{
			VP_ENSURES("length", len == n16);
			for (uint64_t i = 0; i < 5; i++) if (i < n16) VP_ENSURES("units", s[i] == w16[i]);
			VP_ENSURES("terminated", s[len] == 0);
		}
	}
	else
	{
		uint32_t *s = c_to32(p, n, &len);
		VP_ENSURES("converts exactly the well formed texts", (s != 0) == wf);
		VP_ENSURES("nothing is leaked", vp_live == (s != 0));
		if (s)
		{
			VP_ENSURES("length", len == count);
			for (uint64_t i = 0; i < 5; i++) if (i < count) VP_ENSURES("code points", s[i] == want[i]);
			VP_ENSURES("terminated", s[len] == 0);
		}
	}
	VP_REACH();
}
