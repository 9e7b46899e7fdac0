/* Harness prelude for the compiler's C sources. */
#ifndef VP_C3C_H
#define VP_C3C_H
#include <stdarg.h>
#include <setjmp.h>
#include "vp.h"
#ifndef VP_NO_CI
#ifndef INT128_MIN
#include "compiler_internal.h"
#endif
#endif
#ifdef VP_NATIVE
void vp_terminated(void);
#endif
/* error_exit ends the process.  By contract the functions under proof never reach it (it reports internal compiler
 * errors); units about user errors define VP_ERROR_EXIT_OK, and then the path simply ends. */
#ifndef VP_OWN_ERROR_EXIT
NORETURN void error_exit(const char *format, ...)
{
#ifdef VP_NATIVE
#ifndef VP_ERROR_EXIT_OK
	vp_violation("no-internal-error", format);
#endif
	vp_terminated();
	for (;;);
#else
#ifndef VP_ERROR_EXIT_OK
	__CPROVER_assert(0, "VP:no-internal-error");
#endif
	__CPROVER_assume(0);
	for (;;);
#endif
}
#endif
#endif
