// Integer literals (parse_integer): value, type or rejection of every token the lexer lets through.
// The digit loops are proved by induction at the VERIFY_LOOP annotation points: the state is any state reached by a prefix
// (value v, whether it exceeded 128 bits, digits so far), one more character is read, the rest of the token is arbitrary.
//@file lang=c link=src/compiler/bigint.c d.unwind=20 d.unwindset=read_num_type.0:8 d.defs=C3_VERIFY d.cost=20 d.fns=parse_integer,read_int_suffix,read_num_type,int_fits
//@assume the digit loops of parse_integer modify only loc, i, wrapped and the digit counter (all havoced at the annotation point)
//@assume the lexer delivers an integer token of the form scan_dec/scan_hex/scan_oct/scan_binary accept (digits of the base, single underscores inside, one suffix)
#include "vp.h"
struct Int128_;
void verify_loop_parse_integer(int base, __SIZE_TYPE__ *loc, struct Int128_ *i, _Bool *wrapped, int *count);
#define i128_to_string vp_i128_to_string // only the text of an error message
#include "src/compiler/parse_expr.c"
#include "vp_c3c.h"
#define LEN 16
static vp_u128 val(Int128 x) { return ((vp_u128)x.high << 64) | x.low; }
static Int128 mk(vp_u128 v) { return (Int128){ (uint64_t)(v >> 64), (uint64_t)v }; }
static char text[LEN + 3];
static size_t start, split, len;
static int base_, stage;
// the prefix read so far
static vp_u128 g_v; static bool g_over; static int g_n; static size_t g_loc;
static int digit(char c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void step(char c)
{
	if (c == '_') return;
	int d = digit(c);
	if (base_ == 10)
	{
		vp_u128 q = ((vp_u128)0x1999999999999999 << 64) | 0x9999999999999999;
		if (g_v > q || (g_v == q && d > 5)) g_over = true;
		g_v = (g_v << 3) + (g_v << 1) + d;
	}
	else
	{
		int s = base_ == 16 ? 4 : base_ == 8 ? 3 : 1;
		if (g_v >> (128 - s)) g_over = true;
		g_v = (g_v << s) + d;
	}
	g_n++;
}
#ifdef VP_NATIVE
void verify_loop_parse_integer(int base, size_t *loc, Int128 *i, bool *wrapped, int *count) { }
#else
uint64_t nondet_u64(void);
void verify_loop_parse_integer(int base, size_t *loc, Int128 *i, bool *wrapped, int *count)
{
	if (stage == 0)
	{
		stage = 1;
		__CPROVER_assert(base == base_ && *loc == start && !*wrapped && val(*i) == 0 && (!count || *count == 0), "VP:loop invariant holds on entry");
		g_v = ((vp_u128)nondet_u64() << 64) | nondet_u64();
		g_over = nondet_u64() & 1;
		g_n = (int)nondet_u64();
		__CPROVER_assume(g_n >= 0 && g_n < 100000);
		*loc = nondet_u64();
		__CPROVER_assume(*loc >= start && *loc < len && *loc <= split);
		__CPROVER_assume(*loc > start || (g_v == 0 && !g_over && g_n == 0));
		__CPROVER_assume(*loc == start || g_n > 0); // a token does not start with _
		g_loc = *loc;
		*i = mk(g_v); *wrapped = g_over;
		if (count) *count = g_n;
		return;
	}
	step(text[g_loc]);
	__CPROVER_assert(*loc == g_loc + 1, "VP:one character per iteration");
	__CPROVER_assert(*wrapped == g_over, "VP:a value over 128 bits is noticed");
	__CPROVER_assert(val(*i) == g_v, "VP:the value of the digits read");
	__CPROVER_assert(!count || *count == g_n, "VP:the number of digits read");
	__CPROVER_assume(0);
}
#endif

#define T(k) { .type_kind = k }
static Type s8 = T(TYPE_I8), s16 = T(TYPE_I16), s32 = T(TYPE_I32), s64 = T(TYPE_I64), s128 = T(TYPE_I128);
static Type u8 = T(TYPE_U8), u16 = T(TYPE_U16), u32 = T(TYPE_U32), u64 = T(TYPE_U64), u128 = T(TYPE_U128);
static Type *by_bits(bool u, int bits)
{
	switch (bits)
	{
		case 8: return u ? &u8 : &s8; case 16: return u ? &u16 : &s16; case 32: return u ? &u32 : &s32;
		case 64: return u ? &u64 : &s64; case 128: return u ? &u128 : &s128;
	}
	VP_ENSURES("only existing integer types are asked for", 0);
	return &s32;
}
Type *type_int_signed_by_bitsize(BitSize bits) { return by_bits(false, (int)bits); }
Type *type_int_unsigned_by_bitsize(BitSize bits) { return by_bits(true, (int)bits); }
int type_kind_bitsize(TypeKind k) { return 8 << (k - (k >= TYPE_U8 ? TYPE_U8 : TYPE_I8)); }
TypeSize type_size(Type *t) { return (TypeSize)type_kind_bitsize(t->type_kind) / 8; }
char *vp_i128_to_string(Int128 op, uint64_t base, bool is_signed, bool use_prefix) { return ""; }
static Expr made, poison;
static int errors, advanced;
Expr *expr_new(ExprKind kind, SourceSpan loc) { made = (Expr) { .expr_kind = kind }; return &made; }
void print_error_at(SourceSpan loc, const char *message, ...) { errors++; }
void advance(ParseContext *c) { advanced++; }

static bool fits(vp_u128 v, bool uns, int bits)
{
	return bits == 128 ? uns || !(v >> 127) : !(v >> (uns ? bits : bits - 1));
}
static ParseContext ctx;
//@stub scratch
static void check(int base)
{
	base_ = base;
	start = base == 10 ? 0 : 2;
	split = VP_RANGE("split", (int)start + 1, LEN - 7);
	int suffix = (int)VP_RANGE("suffix", 0, 5), nd = (int)VP_RANGE("nd", 0, 5);
	bool up = VP_BOOL("up");
	for (size_t k = 0; k < LEN + 2; k++) text[k] = (char)VP_U8("t");
	if (base != 10) { text[0] = '0'; text[1] = (char)((base == 16 ? 'x' : base == 8 ? 'o' : 'b') - (up ? 32 : 0)); }
	for (size_t k = start; k < split; k++)
	{
		char c = text[k];
		bool ok = base == 16 ? (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'f') : c >= '0' && c < '0' + base;
		VP_REQUIRES(ok || (c == '_' && k > start && k + 1 < split));
	}
	len = split;
	int bits = 0, uns = base != 10, bad = 0;
	if (suffix == 1 || suffix == 2 || suffix == 4) { text[len++] = up ? 'U' : 'u'; uns = 1; }
	if (suffix == 5) { text[len++] = up ? 'I' : 'i'; uns = 0; }
	if (suffix == 2 || suffix == 3) { text[len++] = up ? 'L' : 'l'; bits = 64; if (suffix == 3) uns = 0; }
	if (suffix >= 4)
	{
		for (int k = 0; k < nd; k++) { VP_REQUIRES(text[len] >= '0' && text[len] <= '9'); bits = bits * 10 + text[len] - '0'; if (k == 0 && text[len] == '0') bad = 1; len++; }
		if (nd && bits != 8 && bits != 16 && bits != 32 && bits != 64 && bits != 128) bad = 1;
	}
	VP_REQUIRES((uint8_t)text[len] < '0');
	VP_REQUIRES(base == 10 || len > 2);
	ctx.data = (TokenData) { .lex_len = len, .lex_start = text, .string = text };
	stage = 0; errors = advanced = 0;
	poisoned_expr = &poison;
	type_cint = &s32; type_cuint = &u32;
	g_v = 0; g_over = false; g_n = 0;
	Expr *e = parse_integer(&ctx, NULL);
#ifdef VP_NATIVE
	for (size_t k = start; k < split; k++) step(text[k]);
#else
	// the loop ended at the suffix (g_loc == split) or after the last character
	__CPROVER_assert(stage == 1, "VP:the digits are read");
	if (g_loc < split) { __CPROVER_assert(g_loc == split - 1 && split == len, "VP:all digits are read"); step(text[g_loc]); }
#endif
	bool reject = g_over || bad;
	if (!bad && !bits)
	{
		if (base != 10)
		{
			long need = (long)g_n * (base == 16 ? 4 : base == 8 ? 3 : 1);
			if (need > 128) reject = true;
			bits = need <= 8 ? 8 : need <= 16 ? 16 : need <= 32 ? 32 : need <= 64 ? 64 : 128;
		}
		else
		{
			bits = 32;
			while (bits < 128 && !fits(g_v, uns, bits)) bits *= 2;
		}
	}
	if (!reject && !fits(g_v, uns, bits)) reject = true;
	VP_ENSURES("a literal is rejected, with an error, exactly if it has no value", (e == &poison) == reject && (errors > 0) == reject && (reject || advanced == 1));
	if (!reject)
	{
		Type *t = by_bits(uns, bits);
		VP_ENSURES("the literal's type", e->type == t && e->const_expr.ixx.type == t->type_kind && e->const_expr.const_kind == CONST_INTEGER);
		VP_ENSURES("the literal's value", val(e->const_expr.ixx.i) == g_v);
	}
	VP_REACH();
}
//@unit int_decimal
void vp_int_decimal(void) { check(10); }
//@unit int_hex
void vp_int_hex(void) { check(16); }
//@unit int_octal
void vp_int_octal(void) { check(8); }
//@unit int_binary
void vp_int_binary(void) { check(2); }
