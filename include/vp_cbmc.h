/* forced include for goto-cc: goto-cc lays out some bitfields differently from clang, so size asserts are dropped */
#define _Static_assert(...)
#define static_assert(...)
#define __builtin_debugtrap() __CPROVER_assert(0, "VP:debugtrap")
