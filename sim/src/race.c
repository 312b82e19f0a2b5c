/* Runtime of the memory-access instrumentation (rustc -Zsanitizer=thread with
 * this file in place of the sanitizer's own runtime). It makes every memory
 * access of the code under test a scheduling point and checks, under the
 * simulated schedule, that no two accesses of which one writes are unordered.
 * Only one simulated task runs at a time, so plain globals suffice. */
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <linux/futex.h>
#include "tls.h"

#define T 4 /* tasks at most */
#define SLOTS 8
typedef uint32_t clk;

struct acc { clk c; uint8_t mask; uint8_t task; uint16_t op; };
/* clock in the upper 24 bits, bytes read in the lower 8 */
typedef uint32_t rd;
struct cell {
    struct acc w;   /* last plain write */
    rd r[T];        /* last plain read of each task */
    uint32_t at;    /* atomic accesses, if any */
    uint32_t pad;
};
#define LINE 256
#define GRAN 8
#define CELLS (LINE / GRAN)
struct line { uint64_t addr; uint32_t epoch; struct cell *cells; };
#define NB (1u << 15)
static struct line table[NB];
static uint32_t epoch, used;
static char *pool; static size_t pool_used;
#define POOL ((size_t)NB * sizeof(struct cell) * CELLS)

static int enabled;
static __thread uint64_t stack_top;
/* Called by each task before its body, from a frame that encloses it. */
void sim_race_stack(void *top) { stack_top = (uint64_t)top; }
static clk vc[T][T];
static clk lw[SLOTS][T], lr[SLOTS][T];
#define NVC 4096
/* Atomic accesses of a granule: the last write and reads, the clock released
 * into the place, and the value instrumented code left there. */
static struct atom { struct acc w; rd r[T]; clk c[T]; uint64_t val; uint8_t known; } avc[NVC];
static uint32_t navc;
uint64_t sim_race_accesses, sim_race_atomics;

void sim_preempt(void);
void sim_atomic_point(void);
void sim_futex_yield(void);
void sim_race_report(uint8_t me_kind, uint8_t other_kind, uint32_t other_task, uint32_t other_op, uint32_t size);
uint32_t sim_cur_op(void);

int sim_race_built(void) {
#ifdef SIM_RACE
    return 1;
#else
    return 0;
#endif
}

static void join(clk *a, const clk *b) { for (int i = 0; i < T; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void join_all(int t) { for (int i = 0; i < T; i++) { if (i != t) { join(vc[t], vc[i]); vc[i][i]++; } } }

void sim_race_start(int n) {
    if (n > T) return;
    epoch++; used = 0; pool_used = 0; navc = 0;
    if (!pool) {
        pool = mmap(0, POOL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (pool == MAP_FAILED) { pool = 0; return; }
    }
    memset(vc, 0, sizeof vc); memset(lw, 0, sizeof lw); memset(lr, 0, sizeof lr);
    for (int i = 0; i < T; i++) vc[i][i] = 1;
    enabled = 1;
}
void sim_race_stop(void) { enabled = 0; }
void sim_race_lock(uint32_t task, uint32_t slot, uint32_t write) {
    if (!enabled) return;
    slot %= SLOTS;
    join(vc[task % T], lw[slot]);
    if (write) join(vc[task % T], lr[slot]);
}
void sim_race_unlock(uint32_t task, uint32_t slot, uint32_t write) {
    if (!enabled) return;
    slot %= SLOTS; task %= T;
    join(write ? lw[slot] : lr[slot], vc[task]);
    vc[task][task]++;
}

static struct line *find(uint64_t la, int make) {
    uint32_t h = (uint32_t)((la * 0x9E3779B97F4A7C15ull) >> 49);
    for (;;) {
        struct line *l = &table[h & (NB - 1)];
        if (l->epoch != epoch) {
            if (!make || used >= NB / 2) return 0;
            used++;
            l->epoch = epoch; l->addr = la;
            l->cells = (struct cell *)(pool + pool_used);
            pool_used += sizeof(struct cell) * CELLS;
            memset(l->cells, 0, sizeof(struct cell) * CELLS);
            return l;
        }
        if (l->addr == la) return l;
        h++;
    }
}

/* The range holds a new object. */
void sim_race_fresh(void *p, uint64_t n) {
    if (!enabled || n == 0) return;
    uint64_t a = (uint64_t)p & ~(uint64_t)(GRAN - 1), e = (uint64_t)p + n;
    if ((e - a) / LINE > 2 * NB) return;
    while (a < e) {
        uint64_t la = a / LINE;
        uint64_t le = (la + 1) * LINE; if (le > e) le = (e + GRAN - 1) & ~(uint64_t)(GRAN - 1);
        struct line *l = find(la, 0);
        if (l) memset(&l->cells[(a % LINE) / GRAN], 0, sizeof(struct cell) * ((le - a) / GRAN));
        a = le;
    }
}

static uint32_t avcof(struct cell *c) {
    if (!c) return 0;
    if (!c->at) {
        if (navc + 1 >= NVC) return 0;
        navc++;
        memset(&avc[navc], 0, sizeof avc[0]);
        c->at = navc;
    }
    return c->at;
}
enum { PR = 0, PW = 1, AR = 2, AW = 4, ARW = 6 };

static void one(uint64_t a, uint8_t mask, int kind, int me, uint32_t size) {
    static struct line *recent[16]; /* entries of the table never move */
    struct line **rl = &recent[(a / LINE) & 15], *l = *rl;
    if (!l || l->addr != a / LINE || l->epoch != epoch) {
        l = find(a / LINE, 1);
        if (!l) return;
        *rl = l;
    }
    struct cell *c = &l->cells[(a % LINE) / GRAN];
    clk *v = vc[me];
    int bad = -1; uint32_t other = 0, op = 0;
    struct atom *at = c->at ? &avc[c->at] : 0;
#define W(x) if ((x).c && ((x).mask & mask) && (x).task != me && (x).c > v[(x).task])
#define R(x) for (int i = 0; i < T; i++) if (i != me && ((x)[i] & mask) && (x)[i] >> 8 > v[i])
    W(c->w) { bad = PW; other = c->w.task; op = c->w.op; }
    if (bad < 0 && at && (kind == PR || kind == PW)) { W(at->w) { bad = AW; other = at->w.task; op = at->w.op; } }
    if (bad < 0 && at && kind == PW) { R(at->r) { bad = AR; other = i; } }
    if (bad < 0 && (kind == PW || (kind & AW))) { R(c->r) { bad = PR; other = i; } }
    if (bad >= 0) {
        tls.on = 0;
        sim_race_report(kind, bad, other, op, size);
    }
    clk now = v[me];
    if (kind & (AR | AW)) {
        uint32_t i = avcof(c);
        if (!i) return;
        at = &avc[i];
    }
    if (kind == PW || (kind & AW)) {
        struct acc *w = kind == PW ? &c->w : &at->w;
        if (w->task == me && w->c == now) w->mask |= mask;
        else { w->c = now; w->task = me; w->mask = mask; w->op = sim_cur_op(); }
    }
    if (kind == PR || (kind & AR)) {
        rd *r = kind == PR ? &c->r[me] : &at->r[me];
        *r = (*r >> 8 == now ? *r : now << 8) | mask;
    }
}

static void access(void *p, uint32_t n, int kind) {
    uint64_t a = (uint64_t)p, e = a + n;
    int me = tls.task % T;
    while (a < e) {
        uint64_t g = a & ~(uint64_t)(GRAN - 1);
        uint64_t end = g + GRAN < e ? g + GRAN : e;
        uint8_t mask = (uint8_t)((0xffu << (a - g)) & (0xffu >> (g + GRAN - end)));
        one(g, mask, kind, me, n);
        a = end;
    }
}

#define HOT(p) (__builtin_expect(tls.on, 0))
static inline void point(void) {
    if (__builtin_expect(++tls.cnt >= tls.next, 0)) {
        tls.on = 0;
        sim_preempt();
        tls.on = 1;
    }
}
static __attribute__((noinline)) void plain(void *p, uint32_t n, int kind) {
    uint64_t f = (uint64_t)__builtin_frame_address(0), a = (uint64_t)p;
    /* its own stack, and the simulator's state of the thread */
    if (!enabled || (a >= f && a < stack_top) || a - (uint64_t)&tls < sizeof tls) return;
    point();
    sim_race_accesses++;
    access(p, n, kind);
}

#define ACC(n) \
    void __tsan_read##n(void *p) { if (HOT(p)) plain(p, n, PR); } \
    void __tsan_write##n(void *p) { if (HOT(p)) plain(p, n, PW); } \
    void __tsan_unaligned_read##n(void *p) { if (HOT(p)) plain(p, n, PR); } \
    void __tsan_unaligned_write##n(void *p) { if (HOT(p)) plain(p, n, PW); } \
    void __tsan_read_write##n(void *p) { if (HOT(p)) { plain(p, n, PR); plain(p, n, PW); } } \
    void __tsan_unaligned_read_write##n(void *p) { if (HOT(p)) { plain(p, n, PR); plain(p, n, PW); } }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, uint64_t n) { if (HOT(p) && n) plain(p, n, PR); }
void __tsan_write_range(void *p, uint64_t n) { if (HOT(p) && n) plain(p, n, PW); }
void __tsan_vptr_read(void **p) { if (HOT(p)) plain(p, 8, PR); }
void __tsan_vptr_update(void **p, void *v) { (void)v; if (HOT(p)) plain(p, 8, PW); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    if (HOT(d) && n) { plain((void *)s, n, PR); plain(d, n, PW); }
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    if (HOT(d) && n) { plain((void *)s, n, PR); plain(d, n, PW); }
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    if (HOT(d) && n) plain(d, n, PW);
    return memset(d, c, n);
}

/* ---- atomics: mo 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst */
static struct cell *acell(void *p) {
    struct line *l = find((uint64_t)p / LINE, 1);
    return l ? &l->cells[((uint64_t)p % LINE) / GRAN] : 0;
}
/* Before: the point. After: the ordering, with the value seen and left. */
static void apoint(void) {
    sim_race_atomics++;
    tls.on = 0;
    sim_atomic_point();
    tls.on = 1;
    point();
}
static void aload(void *p, uint32_t n, int mo, uint64_t seen) {
    int me = tls.task % T;
    access(p, n, AR);
    if (mo == 0 || mo == 3) return;
    uint32_t i = avcof(acell(p));
    /* A value that code without instrumentation left: assume it is ordered. */
    if (!i || !avc[i].known || avc[i].val != seen) join_all(me);
    else join(vc[me], avc[i].c);
}
static void astore(void *p, uint32_t n, int mo, uint64_t left, int rmw) {
    int me = tls.task % T;
    access(p, n, AW);
    uint32_t i = avcof(acell(p));
    if (!i) { join_all(me); return; }
    avc[i].known = 1;
    avc[i].val = left;
    int rel = mo >= 3;
    if (!rmw) memset(avc[i].c, 0, sizeof avc[i].c);
    if (rel) { join(avc[i].c, vc[me]); vc[me][me]++; }
}
#define HOTA() (__builtin_expect(tls.on && enabled, 0))
#define ATOMIC(bits, type) \
    type __tsan_atomic##bits##_load(const volatile type *p, int mo) { \
        if (!HOTA()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); \
        apoint(); \
        type v = __atomic_load_n(p, __ATOMIC_SEQ_CST); \
        aload((void *)p, bits / 8, mo, (uint64_t)v); \
        return v; \
    } \
    void __tsan_atomic##bits##_store(volatile type *p, type v, int mo) { \
        if (!HOTA()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } \
        apoint(); \
        astore((void *)p, bits / 8, mo, (uint64_t)v, 0); \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST); \
    } \
    static void rmw##bits(volatile type *p, type o, type n, int mo) { \
        aload((void *)p, bits / 8, mo, (uint64_t)o); \
        astore((void *)p, bits / 8, mo, (uint64_t)n, 1); \
    } \
    RMW(bits, type, exchange, v) RMW(bits, type, fetch_add, o + v) RMW(bits, type, fetch_sub, o - v) \
    RMW(bits, type, fetch_and, o & v) RMW(bits, type, fetch_or, o | v) RMW(bits, type, fetch_xor, o ^ v) \
    RMW(bits, type, fetch_nand, ~(o & v)) \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type *p, type *e, type v, int mo, int fmo) { \
        int hot = HOTA(); \
        if (hot) apoint(); \
        type o = *e; \
        int ok = __atomic_compare_exchange_n(p, &o, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (hot) { if (ok) rmw##bits(p, o, v, mo); else aload((void *)p, bits / 8, fmo, (uint64_t)o); } \
        *e = o; \
        return ok; \
    } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type *p, type *e, type v, int mo, int fmo) { \
        return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); \
    } \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type *p, type e, type v, int mo, int fmo) { \
        __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); \
        return e; \
    }
#define RMW(bits, type, name, expr) \
    type __tsan_atomic##bits##_##name(volatile type *p, type v, int mo) { \
        int hot = HOTA(); \
        if (hot) apoint(); \
        type o = __atomic_load_n(p, __ATOMIC_SEQ_CST), n; \
        do { n = (type)(expr); } while (!__atomic_compare_exchange_n(p, &o, n, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)); \
        if (hot) rmw##bits(p, o, n, mo); \
        return o; \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    (void)mo;
    if (HOTA()) { apoint(); join_all(tls.task % T); }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---- blocking inside the code under test: give the turn away and return, as
 * a spurious wake-up would. */
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
    long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && tls.active && !tls.parked) {
        int op = (int)b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            uint8_t on = tls.on;
            tls.on = 0;
            sim_futex_yield();
            if (enabled) join_all(tls.task % T);
            tls.on = on;
            return 0;
        }
    }
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) {
        extern int *__errno_location(void);
        *__errno_location() = (int)-ret;
        return -1;
    }
    return ret;
}
