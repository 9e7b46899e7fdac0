/* C runtime contracts for code extracted from C3 IR (CBMC side).  Trusted: these are the semantics of the C library
 * functions the standard library calls. */
#include "vp_ir.h"
#include <string.h>
int vp_trap_expected;
void vp_trap(void) { __CPROVER_assert(vp_trap_expected, "VP:runtime-check"); __CPROVER_assume(0); }
/* Copies of symbolic length.  (CBMC's own memmove/memset models lose updates of objects that are not byte arrays.) */
#define VP_COPY(T) { uint64_t c = n / sizeof(T); T tmp[c]; for (uint64_t i = 0; i < c; i++) tmp[i] = ((T *)s)[i]; for (uint64_t i = 0; i < c; i++) ((T *)d)[i] = tmp[i]; }
void vp_memmove(vpp d, vpp s, uint64_t n)
{
	if (!n) return;
	__CPROVER_assert(__CPROVER_r_ok(s, n), "VP:memory-copy-source");
	__CPROVER_assert(__CPROVER_w_ok(d, n), "VP:memory-copy-target");
#ifndef VP_BYTE_COPY
	if (!(n & 7)) VP_COPY(vpp)
	else if (!(n & 3)) VP_COPY(uint32_t)
	else
#endif
	VP_COPY(uint8_t)
}
void vp_memset(vpp d, uint8_t c, uint64_t n)
{
	if (!n) return;
	__CPROVER_assert(__CPROVER_w_ok(d, n), "VP:memory-set-target");
#ifndef VP_BYTE_COPY
	if (!(n & 7) && !c) for (uint64_t i = 0; i < n / 8; i++) ((vpp *)d)[i] = 0;
	else
#endif
	for (uint64_t i = 0; i < n; i++) ((uint8_t *)d)[i] = c;
}
void *vp_alloca(uint64_t n) { return __builtin_alloca(n); }
int vpx_memcmp(vpp a, vpp b, uint64_t n)
{
	for (uint64_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
	return 0;
}
