/* Contract of the Allocator interface the extracted C3 code runs against (see vp_alloc.c3).
 * Under CBMC each allocation is an object of its own with at most VP_ALLOC_MAX bytes, the block is the end of the object, so
 * running over its end is an access outside the object.  Natively it is a malloc block (AddressSanitizer checks both ends). */
#ifndef VP_ALLOC_H
#define VP_ALLOC_H
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#ifndef VP_ALLOC_MAX
#define VP_ALLOC_MAX 64
#endif
#ifdef VP_NATIVE
int vp_live;
#else
static int vp_live;
#endif
static inline _Bool vp_pow2(uint64_t a) { return a && !(a & (a - 1)); }
#ifdef VP_NATIVE
#define VPX(n) n
static uint8_t *vp_block(uint64_t size, uint32_t zero) { return zero ? calloc(1, size) : malloc(size); }
static void vp_unblock(uint8_t *p) { free(p); }
static uint8_t *vp_reblock(uint8_t *p, uint64_t size) { return realloc(p, size); }
#else
#define VPX(n) vpx_##n
static uint8_t *vp_block(uint64_t size, uint32_t zero)
{
	__CPROVER_assert(size <= VP_ALLOC_MAX, "unwinding assertion: allocation size bound of the harness");
	__CPROVER_assume(size <= VP_ALLOC_MAX);
	uint8_t *p = malloc(VP_ALLOC_MAX);
	if (zero) { struct { uint8_t z[VP_ALLOC_MAX]; } z = { 0 }; *(__typeof__(z) *)p = z; }
	return p + (VP_ALLOC_MAX - size);
}
static void vp_unblock(uint8_t *p) { free(p - __CPROVER_POINTER_OFFSET(p)); }
static uint8_t *vp_reblock(uint8_t *p, uint64_t size)
{
	__CPROVER_assert(size <= VP_ALLOC_MAX, "unwinding assertion: allocation size bound of the harness");
	__CPROVER_assume(size <= VP_ALLOC_MAX);
	uint64_t old = VP_ALLOC_MAX - (uint64_t)__CPROVER_POINTER_OFFSET(p);
	uint8_t *q = (uint8_t *)malloc(VP_ALLOC_MAX) + (VP_ALLOC_MAX - size);
	uint64_t n = old < size ? old : size;
	if (!(n & 7)) for (uint64_t i = 0; i < VP_ALLOC_MAX / 8; i++) { if (i < n / 8) ((void **)q)[i] = ((void **)p)[i]; }
#if VP_ALLOC_MAX <= 64
	else if (!(n & 3)) {
#define VP_CP(i) if (i < n / 4) ((int32_t *)q)[i] = ((int32_t *)p)[i];
		VP_CP(0) VP_CP(1) VP_CP(2) VP_CP(3) VP_CP(4) VP_CP(5) VP_CP(6) VP_CP(7) VP_CP(8) VP_CP(9) VP_CP(10) VP_CP(11) VP_CP(12) VP_CP(13) VP_CP(14) VP_CP(15)
	}
#endif
	else for (uint64_t i = 0; i < VP_ALLOC_MAX; i++) { if (i < n) q[i] = p[i]; }
	vp_unblock(p);
	return q;
}
#endif
uint8_t *VPX(vp_acquire)(uint64_t size, uint64_t align, uint32_t zero)
{
	VP_ENSURES("allocation alignment is zero or a power of two", align == 0 || vp_pow2(align));
	vp_live++;
	return vp_block(size, zero);
}
uint8_t *VPX(vp_resize)(uint8_t *p, uint64_t size, uint64_t align)
{
	VP_ENSURES("allocation alignment is zero or a power of two", align == 0 || vp_pow2(align));
	VP_ENSURES("resize is given a live block", p != 0);
	if (!size) { vp_unblock(p); vp_live--; return 0; }
	return vp_reblock(p, size);
}
void VPX(vp_release)(uint8_t *p)
{
	if (!p) return;
	vp_unblock(p);
	vp_live--;
}
#endif
