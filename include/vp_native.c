/* Native side of vp.h: replays a list of input values, or searches random ones. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#ifdef VP_ENTRY_ARG
void VP_ENTRY(uint64_t);
#define VP_CALL() VP_ENTRY(VP_ENTRY_ARG)
#else
void VP_ENTRY(void);
#define VP_CALL() VP_ENTRY()
#endif
static uint64_t in[1 << 20];
static int n_in, pos, replay, reached, fd_out = -1;
static uint64_t rs;
static sigjmp_buf jb;
int vp_trap_expected;
static char const *out_path;

static uint64_t rnd(void)
{
	rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
	return rs * 0x2545F4914F6CDD1DULL;
}
static int bias;
/* state of the harness that the next run must not see */
__attribute__((weak)) int vp_live;
uint64_t vp_input(const char *name, int bits)
{
	uint64_t mask = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1), v;
	if (replay) { v = pos < n_in ? in[pos] : 0; pos++; return v & mask; }
	switch (rnd() % (bias ? 10 : 14))
	{
		case 0: v = 0; break;
		case 1: v = ~0ULL; break;
		case 2: v = 1ULL << (rnd() % (unsigned)bits); break;
		case 3: v = (1ULL << (rnd() % (unsigned)bits)) - 1; break;
		case 4: v = rnd() % 4; break;
		case 5: v = rnd() % 256; break;
		case 6: v = 0 - (rnd() % 16); break;
		case 7: v = ~(1ULL << (rnd() % (unsigned)bits)); break;
		case 8: v = rnd() >> (rnd() % 64); break;
		case 9: v = "0123456789abcdefzAFZ_+-.:/\\\"'%= \n\t"[rnd() % 35]; break;
		default: v = rnd(); break;
	}
	v &= mask;
	if (pos < (int)(sizeof in / sizeof *in)) in[pos] = v;
	pos++;
	return v;
}
static void dump(const char *why)
{
	char buf[64];
	(void)!write(1, "VP_NATIVE_VIOLATION ", 20); (void)!write(1, why, strlen(why)); (void)!write(1, "\nVP_INPUTS", 10);
	int n = replay ? n_in : pos;
	for (int i = 0; i < n && i < (int)(sizeof in / sizeof *in); i++) { int k = snprintf(buf, sizeof buf, " %llx", (unsigned long long)in[i]); (void)!write(1, buf, (size_t)k); }
	(void)!write(1, "\n", 1);
}
void vp_reject(void) { siglongjmp(jb, 1); }
void vp_reach(void) { reached = 1; }
void vp_violation(const char *clause, const char *text)
{
	dump(clause);
	printf("VP_TEXT %s\n", text); fflush(stdout);
	_exit(42);
}
/* the compiler's error_exit / exit_compiler end the call: not a violation unless the harness says so */
void vp_terminated(void) { siglongjmp(jb, 2); }
/* a function the extraction leaves out (LLVM, the linker, ...) was called after all: no verdict */
void vp_undefined(void) { siglongjmp(jb, 2); }
static void sig(int s) { if (vp_trap_expected && (s == SIGILL || s == SIGTRAP || s == SIGABRT)) siglongjmp(jb, 2); char b[32]; snprintf(b, sizeof b, "signal-%d", s); dump(b); _exit(42); }
void __asan_on_error(void) { dump("memory-error"); }
void __ubsan_on_report(void) { dump("undefined-behaviour"); _exit(42); }
int main(int argc, char **argv)
{
	signal(SIGSEGV, sig); signal(SIGILL, sig); signal(SIGFPE, sig); signal(SIGABRT, sig); signal(SIGTRAP, sig); signal(SIGBUS, sig);
	if (argc > 1 && !strcmp(argv[1], "replay"))
	{
		replay = 1;
		for (int i = 2; i < argc; i++) in[n_in++] = strtoull(argv[i], 0, 16);
		if (n_in == 0 ) { unsigned long long x; while (scanf("%llx", &x) == 1 && n_in < (int)(sizeof in / sizeof *in)) in[n_in++] = x; }
		int r = sigsetjmp(jb, 1);
		if (!r) { VP_CALL(); puts(reached ? "VP_OK" : "VP_OK_NOREACH"); return 0; }
		puts(r == 1 ? "VP_REJECTED" : "VP_TERMINATED");
		return 43;
	}
	unsigned long long seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
	double secs = argc > 2 ? atof(argv[2]) : 2;
	rs = seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
	struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
	volatile unsigned long long runs = 0, ok = 0;
	for (;;)
	{
		runs++;
		if ((runs & 15) == 0) { clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9 > secs) break; }
		pos = 0; vp_trap_expected = 0; vp_live = 0; bias = (int)(rnd() & 1);
		if (!sigsetjmp(jb, 1)) { VP_CALL(); ok++; }
	}
	printf("VP_SEARCHED runs=%llu accepted=%llu\n", runs, ok);
	return 0;
}
