/* Runtime for the memory access instrumentation of the simulated code.
 *
 * All crates are compiled with `-Zsanitizer=thread -Zexternal-clangrt`. The compiler then calls the
 * functions below for each memory access which may be shared, and for each atomic operation
 * instead of performing it. There is no thread sanitizer: these functions are the scheduler's seam.
 * While the simulator is executing an operation of the code under test in a simulated thread
 * ("armed"), each such access is a point at which the scheduler can switch to another one.
 */
#include <stdint.h>
#include <stddef.h>

typedef unsigned __int128 u128;

volatile int vsim_armed;
uintptr_t vsim_stack_lo, vsim_stack_hi;

/* In Rust. kind: 0 plain read, 1 plain write, 2 atomic load, 3 atomic store, 4 atomic rmw */
extern void vsim_point(const void *addr, uint32_t kind);

static inline void plain(const void *addr, uint32_t kind) {
    if (__builtin_expect(vsim_armed, 0)) {
        uintptr_t a = (uintptr_t)addr;
        if (a >= vsim_stack_lo && a < vsim_stack_hi)
            return;
        vsim_armed = 0;
        vsim_point(addr, kind);
        vsim_armed = 1;
    }
}
static inline void atomic(const void *addr, uint32_t kind) {
    if (__builtin_expect(vsim_armed, 0)) {
        vsim_armed = 0;
        vsim_point(addr, kind);
        vsim_armed = 1;
    }
}

/* Accesses to the arena and to the simulated heap must stay within one live region. */
struct region { uintptr_t lo, hi; };
#define REGIONS 65536
static struct region regions[2][REGIONS];
static size_t n_regions[2], hit[2];
static uintptr_t w_lo = 1, w_mid = 1, w_hi = 1;
/* The first offence: address, size, is a write, region which was released or -1. */
int vsim_oob; uintptr_t vsim_oob_addr; size_t vsim_oob_len; int vsim_oob_write; int vsim_oob_dead;

void vsim_watch_begin(uintptr_t lo, uintptr_t mid, uintptr_t hi) { w_lo = lo; w_mid = mid; w_hi = hi; n_regions[0] = n_regions[1] = hit[0] = hit[1] = 0; vsim_oob = 0; }
void vsim_watch_off(void) { w_lo = w_mid = w_hi = 1; }
/* Regions of one kind have ascending addresses. The top bit of `hi` marks a released one. */
#define DEAD ((uintptr_t)1 << 63)
void vsim_watch_add(uintptr_t lo, size_t len) {
    int k = lo >= w_mid;
    if (n_regions[k] < REGIONS) { regions[k][n_regions[k]].lo = lo; regions[k][n_regions[k]++].hi = lo + len; }
}
static size_t region_of(int k, uintptr_t a) {
    size_t lo = 0, hi = n_regions[k];
    while (lo < hi) { size_t m = (lo + hi) / 2; if (regions[k][m].lo <= a) lo = m + 1; else hi = m; }
    return lo - 1;
}
void vsim_watch_release(uintptr_t lo, int dead) {
    int k = lo >= w_mid;
    size_t i = region_of(k, lo);
    if (i == (size_t)-1 || regions[k][i].lo != lo) return;
    regions[k][i].hi = (regions[k][i].hi & ~DEAD) | (dead ? DEAD : 0);
}
static __attribute__((noinline)) void watch_slow(uintptr_t a, size_t n, int write) {
    int k = a >= w_mid;
    if (n_regions[k] >= REGIONS) return;
    size_t i = hit[k];
    if (!(i < n_regions[k] && regions[k][i].lo <= a && a + n <= regions[k][i].hi && !(regions[k][i].hi & DEAD))) {
        i = region_of(k, a);
        int dead = i != (size_t)-1 && (regions[k][i].hi & DEAD) != 0;
        uintptr_t end = i == (size_t)-1 ? 0 : regions[k][i].hi & ~DEAD;
        if (i != (size_t)-1 && a + n <= end && !dead) { hit[k] = i; return; }
        if (!vsim_oob) { vsim_oob = 1; vsim_oob_addr = a; vsim_oob_len = n; vsim_oob_write = write; vsim_oob_dead = dead && a < end; }
    }
}
static inline void watch(const void *addr, size_t n, int write) {
    uintptr_t a = (uintptr_t)addr;
    if (__builtin_expect(a - w_lo < w_hi - w_lo, 0) && n) watch_slow(a, n, write);
}

void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **v, void *n) { (void)n; plain(v, 1); }
void __tsan_vptr_read(void **v) { plain(v, 0); }
void __tsan_read_range(void *a, unsigned long s) { watch(a, s, 0); plain(a, 0); }
void __tsan_write_range(void *a, unsigned long s) { watch(a, s, 1); plain(a, 1); }

#define RW(n) \
    void __tsan_read##n(void *a) { watch(a, n, 0); plain(a, 0); } \
    void __tsan_write##n(void *a) { watch(a, n, 1); plain(a, 1); } \
    void __tsan_read_write##n(void *a) { watch(a, n, 1); plain(a, 1); } \
    void __tsan_volatile_read##n(void *a) { watch(a, n, 0); plain(a, 0); } \
    void __tsan_volatile_write##n(void *a) { watch(a, n, 1); plain(a, 1); } \
    void __tsan_unaligned_read##n(void *a) { watch(a, n, 0); plain(a, 0); } \
    void __tsan_unaligned_write##n(void *a) { watch(a, n, 1); plain(a, 1); } \
    void __tsan_unaligned_read_write##n(void *a) { watch(a, n, 1); plain(a, 1); } \
    void __tsan_unaligned_volatile_read##n(void *a) { watch(a, n, 0); plain(a, 0); } \
    void __tsan_unaligned_volatile_write##n(void *a) { watch(a, n, 1); plain(a, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)

/* Large copies are split: another simulated thread may run in the middle. */
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    if (n) { watch(s, n, 0); watch(d, n, 1); plain(s, 0); plain(d, 1); }
    char *dd = d; const char *ss = s;
    size_t half = n / 2;
    for (size_t i = 0; i < n; i++) { if (half && i == half) plain(d, 1); dd[i] = ss[i]; }
    return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    if (n) { watch(s, n, 0); watch(d, n, 1); plain(s, 0); plain(d, 1); }
    char *dd = d; const char *ss = s;
    if ((uintptr_t)d <= (uintptr_t)s) for (size_t i = 0; i < n; i++) dd[i] = ss[i];
    else for (size_t i = n; i > 0; i--) dd[i-1] = ss[i-1];
    return d;
}
void *__tsan_memset(void *d, int c, size_t n) {
    if (n) { watch(d, n, 1); plain(d, 1); }
    char *dd = d;
    size_t half = n / 2;
    for (size_t i = 0; i < n; i++) { if (half && i == half) plain(d, 1); dd[i] = (char)c; }
    return d;
}

#define ATOM(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo) { (void)mo; watch((const void*)a, sizeof(T), 0); atomic((const void*)a, 2); return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { (void)mo; watch((const void*)a, sizeof(T), 1); atomic((const void*)a, 3); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { (void)mo; watch((const void*)a, sizeof(T), 1); atomic((const void*)a, 4); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { (void)mo; watch((const void*)a, sizeof(T), 1); atomic((const void*)a, 4); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; watch((const void*)a, sizeof(T), 1); atomic((const void*)a, 4); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { (void)mo; watch((const void*)a, sizeof(T), 1); atomic((const void*)a, 4); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { (void)mo; watch((const void*)a, sizeof(T), 1); atomic((const void*)a, 4); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; watch((const void*)a, sizeof(T), 1); atomic((const void*)a, 4); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; watch((const void*)a, sizeof(T), 1); atomic((const void*)a, 4); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; watch((const void*)a, sizeof(T), 1); atomic((const void*)a, 4); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; watch((const void*)a, sizeof(T), 1); atomic((const void*)a, 4); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { (void)mo; (void)fmo; watch((const void*)a, sizeof(T), 1); atomic((const void*)a, 4); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t) ATOM(128, u128)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* Coroutines: switching between stacks within one OS thread. */
void vsim_switch(void **save, void *load);
__asm__(
    ".text\n.globl vsim_switch\n.type vsim_switch,@function\nvsim_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  movq %rsp, (%rdi)\n"
    "  movq %rsi, %rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n"
    "  ret\n"
    ".size vsim_switch,.-vsim_switch\n"
    ".globl vsim_tramp\n.type vsim_tramp,@function\nvsim_tramp:\n"
    "  xorl %ebp, %ebp\n"
    "  call vsim_coro_entry\n"
    "  ud2\n"
    ".size vsim_tramp,.-vsim_tramp\n");
extern void vsim_tramp(void);

/* Prepares a stack such that switching to the result enters vsim_coro_entry. */
void *vsim_prepare(void *top) {
    uintptr_t sp = (uintptr_t)top & ~(uintptr_t)15;
    uint64_t *p = (uint64_t *)sp;
    *--p = 0;
    *--p = 0;
    *--p = (uint64_t)vsim_tramp;  /* return address; rsp is 16 aligned after popping it */
    for (int i = 0; i < 6; i++) *--p = 0;
    return p;
}

/* Fast filling and checking of memory, without instrumentation. */
static inline unsigned char canary(uintptr_t a) { return 0xC0 | (((unsigned char)a & 0x1F) ^ 0x15); }
void vsim_fill(unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = canary((uintptr_t)(p + i)); }
long vsim_fill_check(const unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++) if (p[i] != canary((uintptr_t)(p + i))) return (long)i; return -1; }
/* Position dependent bytes. */
static inline unsigned char dirt(size_t i, uint64_t salt) { uint64_t x = (salt + i / 8) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return (unsigned char)(x >> (8 * (i % 8))); }
void vsim_dirt(unsigned char *p, size_t n, uint64_t salt) { for (size_t i = 0; i < n; i++) p[i] = dirt(i, salt); }
long vsim_dirt_check(const unsigned char *p, size_t n, uint64_t salt) { for (size_t i = 0; i < n; i++) if (p[i] != dirt(i, salt)) return (long)i; return -1; }
