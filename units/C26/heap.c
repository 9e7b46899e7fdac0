//@file lang=c3 probe=heap.c3 with=vp_alloc.c3 d.unwind=10 d.kind=bounded d.outer=5 d.timeout=200
#define VP_ALLOC_MAX 64
#include "vp_alloc.h"
void c_setup(int32_t *, uint64_t, uint64_t), c_msetup(int32_t *, uint64_t, uint64_t);
int32_t c_op(int32_t, uint64_t, int32_t, int32_t *), c_mop(int32_t, uint64_t, int32_t, int32_t *), c_at(uint64_t), c_mat(uint64_t);
uint64_t c_size(void), c_msize(void);
#define N 6
static unsigned count(const int32_t *p, uint64_t n, int32_t v) { unsigned k = 0; for (int i = 0; i < N + 1; i++) if ((uint64_t)i < n && p[i] == v) k++; return k; }
static bool worse(int32_t a, int32_t b, bool max) { return max ? a < b : a > b; }
/* The representation invariant (no element is better than its parent) holds before and after each operation, whatever the
 * heap; with it the root is the best element, so one step from any state decides every history. */
static void step(uint64_t op, bool max)
{
	int32_t a[N + 1], b[N + 1], x = VP_I32("x"), out = 0, w = VP_I32("witness");
	for (int i = 0; i < N; i++) a[i] = VP_I32("v");
	uint64_t n = VP_RANGE("n", 0, op == 0 || op == 2 ? N - 1 : N), i = VP_RANGE("i", 0, N - 1), cap = op == 0 ? VP_RANGE("capacity", 0, N) : N;
	VP_REQUIRES(cap >= n); if (op == 2 || op == 5) VP_REQUIRES(i < n);
	for (uint64_t k = 1; k < N; k++) if (k < n) VP_REQUIRES(!worse(a[(k - 1) / 2], a[k], max));
	for (uint64_t k = 0; k < N; k++) if (k < n) VP_ENSURES("lemma: the root is a best element", !worse(a[0], a[k], max));
	if (max) c_msetup(a, n, cap); else c_setup(a, n, cap);
	int r = max ? c_mop((int)op, i, x, &out) : c_op((int)op, i, x, &out);
	VP_ENSURES("fault exactly if empty", r == ((op != 1 && op != 3) || n > 0));
	uint64_t m = max ? c_msize() : c_size(), want = op == 6 ? 0 : op == 0 ? n + 1 : (op == 1 && n) || op == 2 ? n - 1 : n;
	VP_ENSURES("the number of elements", m == want);
	for (int k = 0; k < N + 1; k++) b[k] = (uint64_t)k < m ? (max ? c_mat((uint64_t)k) : c_at((uint64_t)k)) : 0;
	for (uint64_t k = 1; k < N + 1; k++) if (k < m) VP_ENSURES("no element is better than its parent", !worse(b[(k - 1) / 2], b[k], max));
	unsigned before = count(a, n, w), after = count(b, m, w);
	if (op == 0) VP_ENSURES("the new element and all others", after == before + (x == w));
	if (op == 1 && n) { VP_ENSURES("the best element", out == a[0]); VP_ENSURES("all other elements", after + (out == w) == before); }
	if (op == 2) { unsigned k = after + (a[i] == w); VP_ENSURES("all elements but one of that index", k == before || i == 0); VP_ENSURES("all elements but one", after == before || after + 1 == before); }
	if (op == 3 && n) VP_ENSURES("the best element", out == a[0]);
	if (op == 4) VP_ENSURES("length and emptiness", out == (int)n * 2 + (n == 0));
	if (op == 5) VP_ENSURES("the element there", out == a[i]);
	if (op >= 3 && op < 6) VP_ENSURES("unchanged", after == before);
	if (op == 6) VP_ENSURES("one block for the new queue", vp_live == 1);
	VP_REACH();
}
//@unit min each=0..6 fnunwind=sift_:4 bound="one operation on any heap of at most 6 (push, remove_at: 5) elements" fns=PrivatePriorityQueue.push,PrivatePriorityQueue.pop,PrivatePriorityQueue.remove_at,PrivatePriorityQueue.sift_up,PrivatePriorityQueue.sift_down
void vp_min(uint64_t op) { step(op, false); }
//@unit max each=0..6 fnunwind=sift_:4 bound="one operation on any heap of at most 6 (push, remove_at: 5) elements" fns=PrivatePriorityQueue.push,PrivatePriorityQueue.pop,PrivatePriorityQueue.remove_at
void vp_max(uint64_t op) { step(op, true); }
