/* Scheduling points and step counting compiled into library code (the build that decides C10 and C20): the
 * coverage pass calls these at every basic block and before every memory access. In C, because that pass
 * must not instrument them. */
#include <stddef.h>
#include <stdint.h>

enum { AT_BLOCK = 2, AT_STATIC = 4 };

static __thread int on, counting;
static __thread uint32_t left_block, left_static;
static __thread uint64_t steps;
static volatile int mask;
static volatile uintptr_t lo, hi;

extern void sim_point(int at_static);

int sim_cov_on(int b) { int was = on; on = b; return was; }
void sim_cov_left(uint32_t block, uint32_t stat) { left_block = block; left_static = stat; }
void sim_cov_mask(int m) { mask = m; }
void sim_cov_image(uintptr_t a, uintptr_t b) { lo = a; hi = b; }
/* Count this thread's steps from 0 (b = 1), or stop counting; returns the steps counted. */
uint64_t sim_cov_count(int b) { uint64_t n = steps; counting = b; if (b) steps = 0; return n; }

void __sanitizer_cov_trace_pc(void) {
    if (counting) steps++;
    if (!on || !(mask & AT_BLOCK)) return;
    if (left_block) { left_block--; return; }
    on = 0;
    sim_point(0);
    on = 1;
}

static inline __attribute__((always_inline)) void touch(uintptr_t p) {
    if (!on || p < lo || p >= hi || !(mask & AT_STATIC)) return;
    if (left_static) { left_static--; return; }
    on = 0;
    sim_point(1);
    on = 1;
}

#define F(n) \
    void __sanitizer_cov_load##n(uintptr_t p) { touch(p); } \
    void __sanitizer_cov_store##n(uintptr_t p) { touch(p); }
F(1) F(2) F(4) F(8) F(16)

/* Block operations are loops too, one step per 16 bytes (compiled with -fno-builtin, or they would call
 * themselves). */
static inline __attribute__((always_inline)) void bulk(size_t n) { if (counting) steps += n >> 4; }

void *memcpy(void *restrict d, const void *restrict s, size_t n) {
    bulk(n);
    void *r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void *memmove(void *d, const void *s, size_t n) {
    bulk(n);
    void *r = d;
    if ((uintptr_t)d - (uintptr_t)s >= n) {
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    } else {
        char *dd = (char *)d + n - 1;
        const char *ss = (const char *)s + n - 1;
        __asm__ volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
    }
    return r;
}
int memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = a, *y = b;
    size_t i = 0;
    while (i < n && x[i] == y[i]) i++;
    bulk(i);
    return i < n ? x[i] - y[i] : 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
