//@file lang=c3 probe=sort.c3 d.unwind=8
#include "vp.h"
typedef struct { int32_t key, id; } Item;
void c_isort(int32_t *, uint64_t), c_qsort(int32_t *, uint64_t), c_isort_items(Item *, uint64_t, int32_t), c_qsort_items(Item *, uint64_t, int32_t), c_qsort_ctx(int32_t *, uint64_t, int32_t *),
	c_csort(uint8_t *, uint64_t), c_csort16(uint16_t *, uint64_t), c_csort_items(Item *, uint64_t);
int32_t c_select(int32_t *, uint64_t, int64_t, int32_t *), c_is_sorted(int32_t *, uint64_t), c_is_sorted_items(Item *, uint64_t);
uint64_t c_bsearch(int32_t *, uint64_t, int32_t), c_bsearch_items(Item *, uint64_t, int32_t);
#define COUNT(p, n, c, N) ({ unsigned k_ = 0; for (int i_ = 0; i_ < N; i_++) if ((uint64_t)i_ < n && (p)[i_]c) k_++; k_; })
#define INTS(N) int32_t a[N], b[N + 1]; for (int i = 0; i < N; i++) a[i] = b[i] = VP_I32("v"); b[N] = 77; uint64_t n = VP_RANGE("n", 0, N); int32_t w = VP_I32("witness")
#define CHECK_INTS(N, s) \
	for (int i = 0; i + 1 < N; i++) if ((uint64_t)i + 1 < n) VP_ENSURES("ordered", (s) > 0 ? b[i] <= b[i + 1] : b[i] >= b[i + 1]); \
	VP_ENSURES("a permutation of the input", COUNT(a, n, == w, N) == COUNT(b, n, == w, N)); \
	for (int i = 0; i < N; i++) if ((uint64_t)i >= n) VP_ENSURES("nothing outside is touched", a[i] == b[i]); \
	VP_ENSURES("nothing outside is touched", b[N] == 77)
//@unit insertionsort kind=bounded bound="at most 5 elements" outer=7 fns=isort
void vp_insertionsort(void) { INTS(5); c_isort(b, n); CHECK_INTS(5, 1); VP_REACH(); }
// The partition based sorts only compare elements, so every order of the elements stands for all lists with that order.
// Each run is over constants: vector number k in base `base`.
#define VECTOR(k, base) for (uint64_t i = 0, r = (k); i < n; i++, r /= (base)) a[i] = b[i] = (int32_t)(r % (base)) * 1000 - 1500
static uint64_t power(uint64_t base, uint64_t n) { uint64_t r = 1; while (n--) r *= base; return r; }
// one vector for each order: the values used are 0..m without a gap
static bool dense(uint64_t k, uint64_t n) { uint64_t used = 0; for (uint64_t i = 0; i < n; i++, k /= n) used |= 1ull << k % n; return (used & (used + 1)) == 0; }
#define ORDERS(k, n, part, parts) for (uint64_t k = (part); k < power(n, n); k += (parts)) if (dense(k, n))
static void check_quicksort(uint64_t n, uint64_t k)
{
	int32_t a[5], b[5]; VECTOR(k, n); b[n] = 77;
	c_qsort(b, n);
	for (uint64_t i = 0; i < n; i++) {
		if (i + 1 < n) VP_ENSURES("ordered", b[i] <= b[i + 1]);
		VP_ENSURES("a permutation of the input", COUNT(a, n, == a[i], 5) == COUNT(b, n, == a[i], 5));
	}
	VP_ENSURES("nothing outside is touched", b[n] == 77);
}
//@unit quicksort each=0..3 kind=bounded bound="all orders of at most 3 elements" unwind=300 fns=qsort,@partition
void vp_quicksort(uint64_t n) { ORDERS(k, n, 0, 1) check_quicksort(n, k); VP_REACH(); }
//@unit quicksort4 each=0..9 kind=bounded bound="all orders of 4 elements" unwind=300 fns=qsort,@partition
void vp_quicksort4(uint64_t part) { ORDERS(k, 4, part, 10) check_quicksort(4, k); VP_REACH(); }
//@unit quicksort_context each=0..2 kind=bounded bound="all orders of 3 elements" unwind=300 fns=qsort,@partition
void vp_quicksort_context(uint64_t part)
{
	uint64_t n = 3;
	for (int32_t sign = -1; sign < 2; sign += 2) ORDERS(k, n, part, 3) {
		int32_t a[5], b[5]; VECTOR(k, n); b[n] = 77;
		c_qsort_ctx(b, n, &sign);
		for (uint64_t i = 0; i < n; i++) {
			if (i + 1 < n) VP_ENSURES("ordered", sign > 0 ? b[i] <= b[i + 1] : b[i] >= b[i + 1]);
			VP_ENSURES("a permutation of the input", COUNT(a, n, == a[i], 5) == COUNT(b, n, == a[i], 5));
		}
		VP_ENSURES("nothing outside is touched", b[n] == 77);
	}
	VP_REACH();
}
//@unit quicksort_deep each=0..3 kind=bounded bound="rising, falling, organ pipe and equal lists of 80 elements" unwind=4000 opts="--max-field-sensitivity-array-size 200" fns=qsort,@partition
void vp_quicksort_deep(uint64_t shape)
{
	int32_t b[80];
	for (int i = 0; i < 80; i++) b[i] = shape == 0 ? i : shape == 1 ? 80 - i : shape == 2 ? (i < 40 ? i : 80 - i) : 5;
	c_qsort(b, 80);
	for (int i = 0; i < 79; i++) VP_ENSURES("ordered", b[i] <= b[i + 1]);
	VP_REACH();
}
#define ITEMS(N) Item a[N], b[N]; for (int i = 0; i < N; i++) { a[i].key = b[i].key = VP_I32("key"); a[i].id = b[i].id = i; }
#define CHECK_ITEMS(N, stable) \
	for (int i = 0; i < N; i++) if ((uint64_t)i < n) { \
		VP_ENSURES("an element of the input", b[i].id >= 0 && (uint64_t)b[i].id < n && b[i].key == a[b[i].id].key); \
		for (int j = 0; j < i; j++) { VP_ENSURES("no element twice", b[i].id != b[j].id); VP_ENSURES("ordered", b[j].key <= b[i].key); \
			if (stable) VP_ENSURES("equal elements keep their order", b[j].key != b[i].key || b[j].id < b[i].id); } }
//@unit insertionsort_items kind=bounded bound="at most 4 elements" outer=6 fns=isort
void vp_insertionsort_items(void) { ITEMS(4) uint64_t n = VP_RANGE("n", 0, 4); c_isort_items(b, n, VP_BOOL("by reference")); CHECK_ITEMS(4, 1) VP_REACH(); }
//@unit quicksort_items each=0..3 kind=bounded bound="all orders of 3 elements" unwind=300 fns=qsort,@partition
void vp_quicksort_items(uint64_t part)
{
	uint64_t n = 3;
	for (int by = 0; by < 2; by++) ORDERS(k, n, part, 4) {
		Item a[4], b[4];
		for (uint64_t i = 0, r = k; i < n; i++, r /= n) { a[i].key = b[i].key = (int32_t)(r % n); a[i].id = b[i].id = i; }
		c_qsort_items(b, n, by);
		CHECK_ITEMS(4, 0)
	}
	VP_REACH();
}
static void check_quickselect(uint64_t n, uint64_t k, uint64_t v)
{
	int32_t a[5], b[5], r = 0; VECTOR(v, n); b[n] = 77;
	VP_ENSURES("finds an element", c_select(b, n, (int64_t)k, &r));
	VP_ENSURES("the k-th smallest", COUNT(a, n, < r, 5) <= (unsigned)k && COUNT(a, n, <= r, 5) > (unsigned)k);
	for (uint64_t i = 0; i < n; i++) VP_ENSURES("the list stays a permutation", COUNT(a, n, == a[i], 5) == COUNT(b, n, == a[i], 5));
	VP_ENSURES("nothing outside is touched", b[n] == 77);
}
//@unit quickselect each=1..3 kind=bounded bound="all orders of at most 3 elements" unwind=300 fns=qselect,@partition
void vp_quickselect(uint64_t n) { for (uint64_t k = 0; k < n; k++) ORDERS(v, n, 0, 1) check_quickselect(n, k, v); VP_REACH(); }
//@unit quickselect4 each=0..11 kind=bounded bound="all orders of 4 elements" unwind=300 fns=qselect,@partition
void vp_quickselect4(uint64_t p) { ORDERS(v, 4, p / 4, 3) check_quickselect(4, p % 4, v); VP_REACH(); }
//@unit quickselect_sorted kind=bounded bound="a sorted list of 70 elements" unwind=4000 opts="--max-field-sensitivity-array-size 200" fns=qselect,@partition
void vp_quickselect_sorted(void)
{
	int32_t b[70], r = 0; for (int i = 0; i < 70; i++) b[i] = i;
	VP_ENSURES("finds an element", c_select(b, 70, 69, &r)); VP_ENSURES("the k-th smallest", r == 69);
	VP_REACH();
}
//@unit countingsort each=0,3,5,6,8,10 kind=bounded bound="at most 3 elements, keys from a set of 3" unwind=300 opts="--max-field-sensitivity-array-size 300" fns=csort
void vp_countingsort(uint64_t k)
{
	static const uint8_t key[3] = { 0, 128, 255 }; static const uint16_t key16[3] = { 0, 256, 257 };
	static const uint8_t order[10][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 }, { 1, 0, 0 }, { 2, 2, 1 }, { 0, 2, 0 }, { 1, 1, 1 } };
	uint8_t a[4], b[4]; uint16_t c[4], d[4]; Item a2[4], b2[4]; uint64_t n = k < 10 ? 3 : k == 10 ? 2 : 0;
	for (uint64_t i = 0; i < n; i++) { uint8_t r = order[k == 10 ? 5 : k][i]; a[i] = b[i] = key[r]; c[i] = d[i] = key16[r]; a2[i].key = b2[i].key = key[r]; a2[i].id = b2[i].id = i; }
	b[n] = 77; d[n] = 77;
	c_csort(b, n); c_csort16(d, n); c_csort_items(b2, n);
	for (uint64_t i = 0; i < n; i++) {
		if (i + 1 < n) VP_ENSURES("ordered", b[i] <= b[i + 1] && d[i] <= d[i + 1] && b2[i].key <= b2[i + 1].key);
		VP_ENSURES("a permutation of the input", COUNT(a, n, == a[i], 4) == COUNT(b, n, == a[i], 4) && COUNT(c, n, == c[i], 4) == COUNT(d, n, == c[i], 4));
		VP_ENSURES("an element of the input", b2[i].id >= 0 && (uint64_t)b2[i].id < n && b2[i].key == a2[b2[i].id].key);
		for (uint64_t j = 0; j < i; j++) VP_ENSURES("no element twice", b2[i].id != b2[j].id);
	}
	VP_ENSURES("nothing outside is touched", b[n] == 77 && d[n] == 77);
	VP_REACH();
}
//@unit countingsort_large each=0..2 kind=bounded bound="three lists of 150 elements" unwind=800 opts="--max-field-sensitivity-array-size 400" fns=csort,qsort,isort
void vp_countingsort_large(uint64_t shape)
{
	// enough elements for each way of sorting the elements of one byte: recursion, quicksort and insertion sort
	uint16_t b[151];
	for (int i = 0; i < 150; i++) b[i] = shape == 0 ? (150 - i) * 7 % 256 : shape == 1 ? (i % 3 == 0) * 256 + (150 - i) % 40 : (i % 9) * 256 + (150 - i);
	b[150] = 77;
	c_csort16(b, 150);
	for (int i = 0; i < 149; i++) VP_ENSURES("ordered", b[i] <= b[i + 1]);
	VP_ENSURES("nothing outside is touched", b[150] == 77);
	VP_REACH();
}
#define SORTED(N) int32_t a[N]; for (int i = 0; i < N; i++) { a[i] = VP_I32("v"); if (i) VP_REQUIRES(a[i - 1] <= a[i]); } uint64_t n = VP_RANGE("n", 0, N); int32_t x = VP_I32("x")
//@unit binarysearch kind=bounded bound="at most 9 elements" fns=binarysearch unwind=11
void vp_binarysearch(void)
{
	SORTED(9);
	uint64_t r = c_bsearch(a, n, x), lo = COUNT(a, n, < x, 9), hi = COUNT(a, n, <= x, 9);
	VP_ENSURES("the position of the value or where it belongs", lo == hi ? r == lo : r >= lo && r < hi);
	VP_REACH();
}
//@unit binarysearch_items kind=bounded bound="at most 6 elements" fns=binarysearch unwind=11
void vp_binarysearch_items(void)
{
	SORTED(6);
	Item it[6]; for (int i = 0; i < 6; i++) { it[i].key = a[i]; it[i].id = 0; }
	uint64_t r = c_bsearch_items(it, n, x), lo = COUNT(a, n, < x, 6), hi = COUNT(a, n, <= x, 6);
	VP_ENSURES("the position of the value or where it belongs", lo == hi ? r == lo : r >= lo && r < hi);
	VP_REACH();
}
//@unit is_sorted kind=bounded bound="at most 5 elements" fns=is_sorted,@sort_cmp
void vp_is_sorted(void)
{
	INTS(5); bool up = true, down = true; Item it[5];
	for (int i = 0; i < 5; i++) { it[i].key = a[i]; it[i].id = i; if (i && (uint64_t)i < n) { if (a[i - 1] > a[i]) up = false; if (a[i - 1] < a[i]) down = false; } }
	VP_ENSURES("ascending or descending", (c_is_sorted(b, n) != 0) == (up || down));
	VP_ENSURES("with a comparison function", (c_is_sorted_items(it, n) != 0) == (up || down));
	(void)w; VP_REACH();
}
