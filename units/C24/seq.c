//@file lang=c3 probe=seq.c3 with=vp_alloc.c3 d.unwind=12 d.kind=bounded d.outer=5 d.timeout=200
#define VP_ALLOC_MAX 64
#include "vp_alloc.h"
void c_lsetup(int32_t *, uint64_t, uint64_t), c_fsetup(int32_t *, uint64_t), c_ksetup(int32_t *, uint64_t), c_rsetup(int32_t *, uint64_t, uint64_t);
int32_t c_lop(int32_t, uint64_t, uint64_t, int32_t, int32_t *, uint64_t, int32_t *), c_fop(int32_t, uint64_t, uint64_t, int32_t, int32_t *, uint64_t, int32_t *),
	c_lop2(int32_t, int32_t *, uint64_t, int32_t *), c_fop2(int32_t, int32_t *, uint64_t, int32_t *), c_lat(uint64_t), c_fat(uint64_t), c_rat(uint64_t),
	c_kop(int32_t, uint64_t, int32_t, int32_t *), c_rop(int32_t, uint64_t, int32_t, int32_t *, uint64_t, int32_t *);
uint64_t c_lsize(void), c_fsize(void), c_rsize(void), c_rhead(void);
int64_t c_kread(int32_t *, int32_t *, uint64_t);
#define N 4
#define X 2
/* the model: a sequence */
typedef struct { int32_t v[2 * N + X]; uint64_t n; } Seq;
static void ins(Seq *s, uint64_t at, int32_t x) { for (int i = 2 * N + X - 1; i > 0; i--) if ((uint64_t)i > at) s->v[i] = s->v[i - 1]; s->v[at] = x; s->n++; }
static void del(Seq *s, uint64_t at) { for (int i = 0; i < 2 * N + X - 1; i++) if ((uint64_t)i >= at) s->v[i] = s->v[i + 1]; s->n--; }
static int64_t find(const Seq *s, int32_t x, bool last) { int64_t r = -1; for (int i = 0; i < N; i++) if ((uint64_t)i < s->n && s->v[i] == x && (last || r < 0)) r = i; return r; }
static int keep(Seq *s, bool (*pred)(int32_t, int32_t), int32_t x, bool want) { Seq r = { .n = 0 }; for (int i = 0; i < N; i++) if ((uint64_t)i < s->n && pred(s->v[i], x) == want) r.v[r.n++] = s->v[i]; int d = (int)(s->n - r.n); *s = r; return d; }
static bool is_odd(int32_t v, int32_t x) { (void)x; return v & 1; }
static bool is_above(int32_t v, int32_t x) { return v > x; }
static bool is_equal(int32_t v, int32_t x) { return v == x; }
static Seq any_seq(uint64_t max) { Seq s; for (int i = 0; i < 2 * N + X; i++) s.v[i] = i < N ? VP_I32("element") : 0; s.n = VP_RANGE("size", 0, max); return s; }
static int32_t xs[N], xs0[N];
/* what the operation has to do: 1 done, 0 fault, *out its result (*has: it has one) */
static int model(int op, Seq *s, uint64_t i, uint64_t j, int32_t x, uint64_t xn, int32_t *out, bool *has)
{
	int64_t p; *has = false;
#define GIVES(v) do { *out = (int32_t)(v); *has = true; } while (0)
	switch (op) {
		case 0: ins(s, s->n, x); return 1;
		case 1: if (!s->n) return 0; GIVES(s->v[s->n - 1]); del(s, s->n - 1); return 1;
		case 2: if (!s->n) return 0; GIVES(s->v[0]); del(s, 0); return 1;
		case 3: del(s, i); return 1;
		case 4: for (int k = 0; k < X; k++) if ((uint64_t)k < xn) ins(s, s->n, xs0[k]); return 1;
		case 5: ins(s, i, x); return 1;
		case 6: ins(s, 0, x); return 1;
		case 7: { Seq r = *s; for (int k = 0; k < N; k++) if ((uint64_t)k < s->n) s->v[k] = r.v[s->n - 1 - (uint64_t)k]; return 1; }
		case 8: if (!s->n) return 0; del(s, s->n - 1); return 1;
		case 9: if (!s->n) return 0; del(s, 0); return 1;
		case 10: case 29: s->v[i] = x; return 1;
		case 11: GIVES(s->v[i]); return 1;
		case 12: { int32_t t = s->v[i]; s->v[i] = s->v[j]; s->v[j] = t; return 1; }
		case 13: if (!s->n) return 0; GIVES(s->v[0]); return 1;
		case 14: if (!s->n) return 0; GIVES(s->v[s->n - 1]); return 1;
		case 15: s->n = 0; return 1;
		case 16: GIVES(keep(s, is_odd, 0, false)); return 1;
		case 17: GIVES(keep(s, is_odd, 0, true)); return 1;
		case 18: case 19: p = find(s, x, op == 19); if (p < 0) return 0; GIVES(p); return 1;
		case 20: GIVES(find(s, x, false) >= 0); return 1;
		case 21: GIVES(keep(s, is_equal, x, false)); return 1;
		case 22: case 23: p = find(s, x, op == 23); GIVES(p >= 0); if (p >= 0) del(s, (uint64_t)p); return 1;
		case 24: GIVES(keep(s, is_above, x, false)); return 1;
		case 25: GIVES(keep(s, is_above, x, true)); return 1;
		case 26: GIVES((s->n == 0) * 100 + (int)s->n * 10 + 1); return 1;
		case 27: case 30: GIVES(s->n); return 1;
		default: GIVES(s->v[i]); s->v[i] = x; return 1;
	}
}
static bool indexed(int op) { return op == 3 || (op >= 10 && op <= 12) || op == 28 || op == 29; }
#define OPERANDS Seq s0 = s; int32_t out = 0, want = 0, x = VP_I32("x"); uint64_t i = VP_RANGE("i", 0, N), j = VP_RANGE("j", 0, N), xn = op == 27 || op == 30 ? N : VP_RANGE("xn", 0, X); \
	for (int k = 0; k < N; k++) xs[k] = xs0[k] = k < X ? VP_I32("xs") : 0; bool has; \
	if (indexed(op)) VP_REQUIRES(i < s.n && j < s.n); if (op == 5) VP_REQUIRES(i <= s.n)
#define CHECK(size, at, max) \
	VP_ENSURES("the documented length", size == s.n); for (uint64_t k = 0; k < max; k++) if (k < s.n) VP_ENSURES("every element in its place", at(k) == s.v[k])
//@unit list each=0..15,18..20,22,23,26..30 bound="one operation on any list of at most 4 elements and any capacity up to 4" fns=List.push,List.pop,List.insert_at,List.remove_at,List.add_array,List.reserve,List.ensure_capacity,list_remove_if,list_reverse
static void list(uint64_t op_, uint64_t max)
{
	int op = (int)op_; Seq s = any_seq(max); OPERANDS;
	uint64_t cap = op == 0 || op == 4 || op == 5 || op == 6 ? VP_RANGE("capacity", 0, N) : N; VP_REQUIRES(cap >= s.n);
	c_lsetup(s.v, s.n, cap);
	int live = vp_live;
	int r = c_lop(op, i, j, x, xs, xn, &out);
	VP_ENSURES("fault exactly if there is no such element", r == model(op, &s, i, j, x, xn, &want, &has));
	if (r && has) VP_ENSURES("the documented result", out == want);
	CHECK(c_lsize(), c_lat, N + X);
	VP_ENSURES("no block is lost", vp_live <= (live ? live : 1));
	if (op == 27 || op == 30) for (int k = 0; k < N; k++) VP_ENSURES("the elements handed out", xs[k] == ((uint64_t)k < s0.n ? s0.v[k] : xs0[k]));
	else for (int k = 0; k < N; k++) VP_ENSURES("arguments are not written", xs[k] == xs0[k]);
	VP_REACH();
}
void vp_list(uint64_t op) { list(op, N); }
//@unit list_filter each=16,17,21,24,25 entry=list_filter fnunwind=remove_:3:4,retain_:3:4 bound="one operation on any list of at most 3 elements" fns=List.remove_if,List.retain_if,List.remove_item,List.remove_using_test,List.retain_using_test
void vp_list_filter(uint64_t op) { list(op, 3); }
//@unit list_pair each=0,2..5 bound="lists of at most 4 elements" fns=List.add_all,List.remove_all_from,List.equals,List.free,List.init_with_array
static void list_pair(uint64_t op)
{
	Seq s = any_seq(op == 1 ? 2 : N), o = any_seq(X); int32_t out = 0; bool same = s.n == o.n;
	for (int k = 0; k < N; k++) if ((uint64_t)k < s.n && (uint64_t)k < o.n && s.v[k] != o.v[k]) same = false;
	uint64_t cap = VP_RANGE("capacity", 0, N); VP_REQUIRES(cap >= s.n);
	if (op == 5) VP_REQUIRES(s.n == 0 && cap == 0);
	c_lsetup(s.v, s.n, cap);
	Seq o0 = o;
	VP_ENSURES("done", c_lop2((int32_t)op, o.v, o.n, &out));
	if (op == 0 || op == 5) for (int k = 0; k < X; k++) if ((uint64_t)k < o.n) ins(&s, s.n, o.v[k]);
	if (op == 1) for (int k = 0; k < X; k++) if ((uint64_t)k < o.n) keep(&s, is_equal, o.v[k], false);
	if (op == 2) VP_ENSURES("equal exactly if all elements are", (out != 0) == same);
	if (op == 3) { s.n = 0; VP_ENSURES("everything is released", vp_live == 0); }
	CHECK(c_lsize(), c_lat, N + X);
	for (int k = 0; k < N; k++) VP_ENSURES("the other list is not written", o.v[k] == o0.v[k]);
	VP_REACH();
}
void vp_list_pair(uint64_t op) { list_pair(op); }
//@unit list_minus fnunwind=remove_:3:3 bound="lists of at most 2 elements" fns=List.remove_all_from
void vp_list_minus(void) { list_pair(1); }
//@unit elastic each=0..15,18..20,22,23,26..30 bound="one operation on any array of at most 4 elements" fns=ElasticArray.push,ElasticArray.pop,ElasticArray.insert_at,ElasticArray.remove_at,ElasticArray.add_array
static void elastic(uint64_t op_, uint64_t max)
{
	int op = (int)op_; Seq s = any_seq(max); OPERANDS;
	if (op == 0 || op == 5 || op == 6) VP_REQUIRES(s.n < N);
	if (op == 2) VP_REQUIRES(s.n > 0);
	if (op == 4) VP_REQUIRES(s.n + xn <= N);
	c_fsetup(s.v, s.n);
	int r = c_fop(op, i, j, x, xs, xn, &out);
	VP_ENSURES("fault exactly if there is no such element", r == model(op, &s, i, j, x, xn, &want, &has));
	if (r && has) VP_ENSURES("the documented result", out == want);
	CHECK(c_fsize(), c_fat, N);
	if (op == 27 || op == 30) for (int k = 0; k < N; k++) VP_ENSURES("the elements handed out", xs[k] == ((uint64_t)k < s0.n ? s0.v[k] : xs0[k]));
	VP_REACH();
}
void vp_elastic(uint64_t op) { elastic(op, N); }
//@unit elastic_filter each=16,17,21,24,25 entry=elastic_filter fnunwind=remove_:3:4,retain_:3:4 bound="one operation on any array of at most 3 elements" fns=ElasticArray.remove_if,ElasticArray.retain_if,ElasticArray.remove_item,ElasticArray.remove_using_test,ElasticArray.retain_using_test
void vp_elastic_filter(uint64_t op) { elastic(op, 3); }
//@unit elastic_pair each=0,2..7 bound="arrays of at most 4 elements" fns=ElasticArray.add_all,ElasticArray.add_all_to_limit,ElasticArray.add_array_to_limit,ElasticArray.push_try,ElasticArray.push_front_try,ElasticArray.insert_at_try
static void elastic_pair(uint64_t op)
{
	Seq s = any_seq(op == 1 ? 2 : N), o = any_seq(op == 3 || op == 4 ? 3 : X); int32_t out = 0; bool same = s.n == o.n;
	for (int k = 0; k < N; k++) if ((uint64_t)k < s.n && (uint64_t)k < o.n && s.v[k] != o.v[k]) same = false;
	if (op == 0) VP_REQUIRES(s.n + o.n <= N);
	if (op == 6) VP_REQUIRES(s.n < N);
	c_fsetup(s.v, s.n);
	int r = c_fop2((int32_t)op, o.v, o.n, &out), want = 1;
	uint64_t room = N - s.n;
	if (op == 0 || op == 3 || op == 4) for (int k = 0; k < 3; k++) if ((uint64_t)k < o.n && s.n < N) ins(&s, s.n, o.v[k]);
	if (op == 1) for (int k = 0; k < X; k++) if ((uint64_t)k < o.n) keep(&s, is_equal, o.v[k], false);
	if (op == 2) VP_ENSURES("equal exactly if all elements are", (out != 0) == same);
	if (op == 3 || op == 4) VP_ENSURES("the number that did not fit", (uint64_t)out == (o.n > room ? o.n - room : 0));
	if (op >= 5) { if (s.n == N) want = 0; else ins(&s, op == 5 ? s.n : op == 6 ? 0 : o.v[1] < 0 ? 0 : s.n, o.v[0]); }
	VP_ENSURES("fault exactly if it is full", r == want);
	CHECK(c_fsize(), c_fat, N);
	VP_REACH();
}
void vp_elastic_pair(uint64_t op) { elastic_pair(op); }
//@unit elastic_minus fnunwind=remove_:3:3 bound="arrays of at most 2 elements" fns=ElasticArray.remove_all_from
void vp_elastic_minus(void) { elastic_pair(1); }
//@unit linked each=0..2,5..12,16,17 bound="one operation on any list of at most 4 elements" fns=LinkedList.push,LinkedList.pop,LinkedList.insert_at,LinkedList.remove_at,LinkedList.unlink,LinkedList.link_before,LinkedList.node_at_index
static void linked(uint64_t op_, uint64_t max)
{
	static const int as[18] = { 0, 1, 2, 3, 5, 6, 8, 9, 10, 11, 13, 14, 15, 21, 22, 23, 0, 15 };
	int op = as[op_]; Seq s = any_seq(max); OPERANDS;
	c_ksetup(s.v, s.n);
	int r = c_kop((int32_t)op_, i, x, &out);
	if (op_ == 16) VP_ENSURES("empty exactly without elements", (out != 0) == (s.n == 0));
	else {
		VP_ENSURES("fault exactly if there is no such element", r == model(op, &s, i, j, x, xn, &want, &has));
		if (r && has) VP_ENSURES("the documented result", out == want);
	}
	int32_t f[N + 1], b[N + 1];
	VP_ENSURES("both directions and the length agree", c_kread(f, b, N + 1) == (int64_t)s.n);
	for (uint64_t k = 0; k < N + 1; k++) if (k < s.n) VP_ENSURES("every element in its place", f[k] == s.v[k] && b[s.n - 1 - k] == s.v[k]);
	VP_ENSURES("one block for each element", (uint64_t)vp_live == s.n);
	VP_REACH();
}
void vp_linked(uint64_t op) { linked(op, N); }
//@unit linked_inside each=3,4,13..15 fnunwind=LinkedList:4,setup:4,kread:5 bound="one operation on any list of at most 3 elements" fns=LinkedList.remove,LinkedList.remove_first_match,LinkedList.remove_last_match,LinkedList.insert_at,LinkedList.remove_at
void vp_linked_inside(uint64_t op) { linked(op, 3); }
//@unit ring each=0..4 bound="a buffer of 3 with any content and start" fns=RingBuffer.push,RingBuffer.pop,RingBuffer.get,RingBuffer.read,RingBuffer.write
void vp_ring(uint64_t op)
{
	Seq s = any_seq(3); uint64_t head = VP_RANGE("head", 0, 2), i = VP_RANGE("i", 0, 4), xn = VP_RANGE("xn", 0, N); int32_t x = VP_I32("x"), out = 0;
	for (int k = 0; k < N; k++) xs[k] = xs0[k] = VP_I32("xs");
	if (op == 2) VP_REQUIRES(i < s.n);
	c_rsetup(s.v, s.n, head);
	int r = c_rop((int32_t)op, i, x, xs, xn, &out);
	VP_ENSURES("fault exactly if it is empty", r == (op != 1 || s.n > 0));
	if (op == 0) { if (s.n == 3) del(&s, 0); ins(&s, s.n, x); }
	if (op == 1 && s.n) { VP_ENSURES("the last element", out == s.v[s.n - 1]); s.n--; }
	if (op == 2) VP_ENSURES("the element at that position", out == s.v[i]);
	if (op == 3) {
		uint64_t at = i % 3, n = at < s.n ? s.n - at : 0; if (n > xn) n = xn;
		VP_ENSURES("the number of elements read", (uint64_t)out == n);
		for (uint64_t k = 0; k < N; k++) VP_ENSURES("the elements from that position", xs[k] == (k < n ? s.v[at + k] : xs0[k]));
	}
	if (op == 4) for (int k = 0; k < N; k++) if ((uint64_t)k < xn) { if (s.n == 3) del(&s, 0); ins(&s, s.n, xs0[k]); }
	VP_ENSURES("the documented length", c_rsize() == s.n && c_rhead() < 3);
	for (uint64_t k = 0; k < 3; k++) if (k < s.n) VP_ENSURES("every element in its place", c_rat((c_rhead() + k) % 3) == s.v[k]);
	VP_REACH();
}
