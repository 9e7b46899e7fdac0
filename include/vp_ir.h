/* Prelude of every C file generated from LLVM IR by vp/ir2c.py. */
#ifndef VP_IR_H
#define VP_IR_H
#include <stdint.h>
#include <stddef.h>
typedef unsigned __int128 vp_u128;
typedef __int128 vp_i128;
typedef uint8_t *vpp;
void __CPROVER_assume(_Bool);
void __CPROVER_assert(_Bool, const char *);
/* a runtime safety check, contract or assert of the C3 code fired */
void vp_trap(void);
#define VP_UNREACHABLE() __CPROVER_assert(0, "VP:unreachable-code"); __CPROVER_assume(0)
/* a runtime check: the program stops if c holds */
extern int vp_trap_expected;
#define VP_MUST_NOT(c) __CPROVER_assert(!(c) || vp_trap_expected, "VP:runtime-check"); __CPROVER_assume(!(c))
#define VP_DIV_CHECK(c) __CPROVER_assert((c), "VP:division-by-zero")
void vp_memmove(vpp d, vpp s, uint64_t n);
void vp_memset(vpp d, uint8_t c, uint64_t n);
void *vp_alloca(uint64_t n);
double fmod(double, double); float fmodf(float, float);
double floor(double); double ceil(double); double trunc(double); double round(double); double rint(double); double fabs(double);
float floorf(float); float ceilf(float); float truncf(float); float roundf(float); float rintf(float); float fabsf(float);
double sqrt(double); float sqrtf(float); double fma(double,double,double); float fmaf(float,float,float);
double copysign(double,double); float copysignf(float,float); double nearbyint(double); float nearbyintf(float);
double fmin(double,double); double fmax(double,double); float fminf(float,float); float fmaxf(float,float);
#endif
