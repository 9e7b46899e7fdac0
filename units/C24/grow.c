// Growth of a list, for every size and capacity (the allocator only records what it is asked for).
//@file lang=c3 probe=grow.c3 d.unwind=66
#include "vp.h"
#ifdef VP_NATIVE
#define VG(n) n
#else
#define VG(n) vpx_##n
#endif
static uint8_t block[2];
static uint64_t held;     /* bytes of the block in use, 0: none */
static int calls;
uint8_t *VG(vg_acquire)(uint64_t size, uint64_t align) { VP_ENSURES("no block is replaced without resize", held == 0); held = size; calls++; return (block + 1); }
uint8_t *VG(vg_resize)(uint8_t *p, uint64_t size, uint64_t align) { VP_ENSURES("the list's own block is resized", p == (&block[0]) && held != 0); held = size; calls++; return (block + 1); }
void VG(vg_release)(uint8_t *p) { VP_ENSURES("nothing is released", p == 0); }
uint64_t c_grow_int(uint64_t, uint64_t, uint64_t, uint8_t *, uint64_t *, uint8_t **), c_grow_char(uint64_t, uint64_t, uint64_t, uint8_t *, uint64_t *, uint8_t **), c_grow_odd(uint64_t, uint64_t, uint64_t, uint8_t *, uint64_t *, uint8_t **), c_init_int(uint64_t, uint8_t **);
//@unit reserve each=1,3,4 fns=List.reserve,List.ensure_capacity,next_power_of_2
void vp_reserve(uint64_t es)
{
	uint64_t cap = VP_BITS("capacity", 40), size = VP_BITS("size", 40), added = VP_BITS("added", 40), so = 0;
	VP_REQUIRES(size <= cap);
	uint8_t *out = 0, *p = cap ? (&block[0]) : (uint8_t *)0; held = cap * es; calls = 0;
	uint64_t c = es == 4 ? c_grow_int(size, cap, added, p, &so, &out) : es == 1 ? c_grow_char(size, cap, added, p, &so, &out) : c_grow_odd(size, cap, added, p, &so, &out);
	VP_ENSURES("there is room for what is added", c >= size + added);
	VP_ENSURES("capacity never shrinks, size stays", c >= cap && so == size);
	VP_ENSURES("the block has the capacity in bytes", c == cap ? calls == 0 && out == p : calls == 1 && out == (block + 1) && held >= c * es);
	VP_ENSURES("growth is amortised: a list that grows at least doubles", c == cap || c >= 2 * cap);
	VP_ENSURES("no more than four times what is needed", c == cap || c <= 16 || c < 4 * (size + added) || c <= 4 * cap);
	VP_REACH();
}
//@unit init_capacity fns=List.init
void vp_init_capacity(void)
{
	uint64_t n = VP_BITS("n", 40); uint8_t *out = 0; held = 0; calls = 0;
	uint64_t c = c_init_int(n, &out);
	VP_ENSURES("capacity asked for", c >= n && held >= c * 4 && (n == 0 || out == (block + 1)));
	VP_REACH();
}
