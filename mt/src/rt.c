/* Controlled scheduler. The crate and this harness are compiled with
 * -Zsanitizer=thread (memory accesses not instrumented), which turns every
 * atomic operation into a call of __tsan_atomic*; those are implemented here.
 * Before each one the running thread gives the scheduler the choice of who
 * runs next. Blocking (futex, join) and thread creation are intercepted at
 * the libc symbols std uses. Exactly one controlled thread runs at a time. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 8
#define MAXC (1 << 20)
enum { RUNNING = 0, FINISHED, DEADLOCK, LIVELOCK, DIVERGED, TOO_LONG, TOO_MANY };

struct choice { uint8_t mask, chosen, cur, tid; };
struct shm {
    uint32_t status, n_prefix, n_trace, steps, blocks, wakes, spawned, mismatch;
    uint32_t n_shared, overflow;      /* in: addresses at which threads conflict (0 and overflow: all of them) */
    uint64_t shared[512];
    uint64_t log_addr[4096];          /* out: open-addressed table of what was accessed */
    uint8_t log_r[4096], log_w[4096]; /* by which threads */
    uint32_t n_log, log_overflow;
    char text[65536];
    uint8_t prefix[MAXC];
    struct choice trace[MAXC];
};
struct shm *rt_shm;

enum { NONE = 0, READY, WAITING, JOINING, DONE };
static struct thread {
    int go, state, timed, wake, join;
    const void *addr;
    pthread_t handle;
    int has_handle;
    /* the last thing it did, if that was a load */
    const void *spin_addr;
    uint64_t spin_val, spin_epoch;
    int spin_count;
} th[MAXT];
static int n_threads, n_registered, n_expected, all_done;
static uint64_t epoch; /* changes whenever another thread runs or anything is written */
static uint32_t max_steps = 3000000;
static __thread int me = -1;

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void fwait(int *p, int v) { raw6(SYS_futex, (long)p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0); }
static void fwake(int *p) { raw6(SYS_futex, (long)p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1000, 0, 0, 0); }
static void stop(int status) { rt_shm->status = status; raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0); }

static void await_turn(void) {
    while (!__atomic_load_n(&th[me].go, __ATOMIC_ACQUIRE)) fwait(&th[me].go, 0);
    th[me].go = 0;
}
static void give(int t) {
    __atomic_store_n(&th[t].go, 1, __ATOMIC_RELEASE);
    fwake(&th[t].go);
}

static int is_shared(const void *a) {
    if (rt_shm->overflow) return 1;
    for (uint32_t i = 0; i < rt_shm->n_shared; i++) if (rt_shm->shared[i] == (uint64_t)a) return 1;
    return 0;
}
static void log_access(const void *a, int write) {
    uint32_t h = (uint32_t)(((uint64_t)a * 0x9E3779B97F4A7C15u) >> 52) & 4095;
    while (rt_shm->log_addr[h] && rt_shm->log_addr[h] != (uint64_t)a) h = (h + 1) & 4095;
    if (!rt_shm->log_addr[h]) {
        if (rt_shm->n_log > 3000) { rt_shm->log_overflow = 1; return; }
        rt_shm->n_log++;
        rt_shm->log_addr[h] = (uint64_t)a;
    }
    if (write) rt_shm->log_w[h] |= 1u << me; else rt_shm->log_r[h] |= 1u << me;
}

/* Who runs next. `yielding`: the current thread asks to be passed over. */
static int pick(int yielding, const void *addr) {
    unsigned mask = 0;
    int alive = 0;
    for (int i = 0; i < n_threads; i++) {
        if (th[i].state == READY) mask |= 1u << i;
        if (th[i].state != DONE && th[i].state != NONE) alive++;
    }
    if (!mask) {
        if (!alive) return -1;
        for (int i = 0; i < n_threads; i++)
            if (th[i].state == WAITING && th[i].timed) {
                th[i].state = READY; th[i].wake = 2;
                return i;
            }
        stop(DEADLOCK);
    }
    if (++rt_shm->steps > max_steps) stop(LIVELOCK);
    int cur_ok = me >= 0 && (mask >> me & 1);
    if (yielding && cur_ok && (mask & ~(1u << me))) { mask &= ~(1u << me); cur_ok = 0; }
    if (!(mask & (mask - 1))) return __builtin_ctz(mask);
    if (cur_ok && addr && !is_shared(addr)) return me; /* nobody else can tell when this happens */
    int dflt = cur_ok ? me : -1;
    if (dflt < 0) /* round robin, so that yields are fair */
        for (int k = 1; k <= n_threads; k++) {
            int t = ((me < 0 ? n_threads - 1 : me) + k) % n_threads;
            if (mask >> t & 1) { dflt = t; break; }
        }
    uint32_t k = rt_shm->n_trace;
    if (k >= MAXC) stop(TOO_LONG);
    int c = k < rt_shm->n_prefix ? rt_shm->prefix[k] : dflt;
    if (c >= n_threads || !(mask >> c & 1)) stop(DIVERGED);
    rt_shm->trace[k] = (struct choice){ (uint8_t)mask, (uint8_t)c, (uint8_t)(cur_ok ? me : 255), (uint8_t)(me < 0 ? 255 : me) };
    rt_shm->n_trace = k + 1;
    return c;
}
static void schedule(int yielding, const void *addr) {
    int n = pick(yielding, addr);
    if (n == me) return;
    epoch++;
    if (n >= 0) give(n);
    await_turn();
}

void rt_point(void) {
    if (me < 0) return;
    th[me].spin_addr = 0;
    schedule(0, 0);
}
/* before a write */
static void point_write(const void *a) { if (me >= 0) { th[me].spin_addr = 0; log_access(a, 1); schedule(0, a); epoch++; } }
/* before a read that, if it happened now, would give v */
static void point_read(const void *a, uint64_t v) {
    if (me < 0) return;
    struct thread *t = &th[me];
    log_access(a, 0);
    if (t->spin_addr == a && t->spin_val == v && t->spin_epoch == epoch) {
        /* the same read again with nothing in between: no new behaviour
         * starts here, but a thread that spins must be passed over */
        if (++t->spin_count % 256 == 0) { if ((rt_shm->steps += 100) > max_steps) stop(LIVELOCK); schedule(1, 0); }
    } else {
        t->spin_count = 0;
        schedule(0, a);
    }
}
static void seen(const void *a, uint64_t v) {
    if (me >= 0) { th[me].spin_addr = a; th[me].spin_val = v; th[me].spin_epoch = epoch; }
}

/* ---- harness interface ---- */
void rt_init(struct shm *s, int n, uint32_t limit) {
    rt_shm = s;
    memset(th, 0, sizeof th);
    n_threads = n_expected = n;
    n_registered = 0; all_done = 0; epoch = 1;
    max_steps = limit;
    s->status = RUNNING; s->n_trace = s->steps = s->blocks = s->wakes = s->spawned = s->mismatch = 0;
    s->text[0] = 0;
    s->n_log = s->log_overflow = 0;
    memset(s->log_addr, 0, sizeof s->log_addr);
    memset(s->log_r, 0, sizeof s->log_r);
    memset(s->log_w, 0, sizeof s->log_w);
}
void rt_begin(int id) {
    th[id].state = READY;
    int last = __atomic_add_fetch(&n_registered, 1, __ATOMIC_ACQ_REL) == n_expected;
    if (last) { int f = pick(0, 0); me = id; give(f); } else me = id;
    await_turn();
}
static void finish(void) {
    th[me].state = DONE;
    for (int i = 0; i < n_threads; i++)
        if (th[i].state == JOINING && th[i].join == me) th[i].state = READY;
    int n = pick(0, 0);
    epoch++;
    me = -1;
    if (n >= 0) give(n);
    else { __atomic_store_n(&all_done, 1, __ATOMIC_RELEASE); fwake(&all_done); }
}
void rt_end(void) { if (me >= 0) finish(); }
void rt_wait(void) { while (!__atomic_load_n(&all_done, __ATOMIC_ACQUIRE)) fwait(&all_done, 0); rt_shm->status = FINISHED; }

/* ---- memory: at the same addresses in every execution of a schedule ---- */
#define REGION (1ull << 28)
static char *heap, *heap_at[MAXT];
void rt_heap(void) {
    heap = mmap(0, MAXT * REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (heap == MAP_FAILED) abort();
    for (int i = 0; i < MAXT; i++) heap_at[i] = heap + i * REGION;
}
/* null: not for a controlled thread */
void *rt_alloc(size_t n, size_t align) {
    if (me < 0 || !heap) return 0;
    uint64_t p = ((uint64_t)heap_at[me] + align - 1) & ~(uint64_t)(align - 1);
    if (p + n > (uint64_t)heap + (me + 1) * REGION) return 0;
    heap_at[me] = (char *)(p + n);
    return (void *)p;
}
int rt_owns(void *p) { return heap && (char *)p >= heap && (char *)p < heap + MAXT * REGION; }

/* ---- randomness: the same in every execution ---- */
static uint64_t rnd = 1;
static long fill(unsigned char *p, unsigned long n) {
    for (unsigned long i = 0; i < n; i++) {
        rnd = rnd * 6364136223846793005u + 1442695040888963407u;
        p[i] = (unsigned char)(rnd >> 56);
    }
    return (long)n;
}
ssize_t getrandom(void *p, size_t n, unsigned fl) { return fill(p, n); }
int getentropy(void *p, size_t n) { fill(p, n); return 0; }

/* ---- futex ---- */
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_getrandom) return fill((unsigned char *)a, (unsigned long)b);
    if (me >= 0 && n == SYS_futex) {
        int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            rt_point();
            if (__atomic_load_n((int *)a, __ATOMIC_SEQ_CST) != (int)c) { errno = EAGAIN; return -1; }
            struct thread *t = &th[me];
            t->state = WAITING; t->addr = (void *)a; t->timed = d != 0; t->wake = 0;
            rt_shm->blocks++;
            int x = pick(0, 0);
            epoch++;
            if (x != me) { give(x); await_turn(); }
            if (t->wake == 2) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int k = 0;
            for (int i = 0; i < n_threads && k < (int)c; i++)
                if (th[i].state == WAITING && th[i].addr == (void *)a) { th[i].state = READY; th[i].wake = 1; k++; }
            rt_shm->wakes++;
            epoch++;
            rt_point();
            return k;
        }
    }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
int sched_yield(void) { if (me >= 0) { th[me].spin_addr = 0; schedule(1, 0); return 0; } return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
int clock_nanosleep(clockid_t k, int fl, const struct timespec *t, struct timespec *r) {
    if (me >= 0) { th[me].spin_addr = 0; schedule(1, 0); return 0; }
    return (int)-raw6(SYS_clock_nanosleep, k, fl, (long)t, (long)r, 0, 0);
}
int nanosleep(const struct timespec *t, struct timespec *r) { return clock_nanosleep(CLOCK_MONOTONIC, 0, t, r); }

/* ---- threads the code under test makes itself ---- */
struct start { void *(*f)(void *); void *arg; int id; };
static void *enter(void *p) {
    struct start s = *(struct start *)p;
    free(p);
    me = s.id;
    await_turn();
    void *r = s.f(s.arg);
    rt_end();
    return r;
}
typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*join_t)(pthread_t, void **);
int pthread_create(pthread_t *h, const pthread_attr_t *at, void *(*f)(void *), void *arg) {
    static create_t real;
    if (!real) real = (create_t)dlsym(RTLD_NEXT, "pthread_create");
    if (me < 0) return real(h, at, f, arg);
    int id = -1;
    for (int i = n_expected; i < n_threads; i++) if (th[i].state == DONE && !th[i].has_handle) { id = i; break; }
    if (id < 0) { if (n_threads >= MAXT) stop(TOO_MANY); id = n_threads++; }
    memset(&th[id], 0, sizeof th[id]);
    th[id].state = READY;
    struct start *s = malloc(sizeof *s);
    *s = (struct start){ f, arg, id };
    rt_shm->spawned++;
    int r = real(h, at, enter, s);
    if (r) { th[id].state = DONE; return r; }
    th[id].handle = *h; th[id].has_handle = 1;
    epoch++;
    rt_point();
    return 0;
}
int pthread_join(pthread_t h, void **out) {
    static join_t real;
    if (!real) real = (join_t)dlsym(RTLD_NEXT, "pthread_join");
    if (me >= 0)
        for (int i = n_expected; i < n_threads; i++)
            if (th[i].has_handle && pthread_equal(th[i].handle, h)) {
                if (th[i].state != DONE) {
                    th[me].state = JOINING; th[me].join = i;
                    int x = pick(0, 0);
                    epoch++;
                    if (x != me) { give(x); await_turn(); }
                }
                th[i].has_handle = 0;
                break;
            }
    return real(h, out);
}

/* ---- atomics ---- */
#define OPS(N, T)                                                                                                   \
    T __tsan_atomic##N##_load(const volatile T *p, int mo) {                                                        \
        point_read((const void *)p, __atomic_load_n(p, 5));                                                         \
        T v = __atomic_load_n(p, 5);                                                                                \
        seen((const void *)p, v);                                                                                   \
        return v;                                                                                                   \
    }                                                                                                               \
    void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { point_write((const void *)p); __atomic_store_n(p, v, 5); }         \
    T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { point_write((const void *)p); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) { point_write((const void *)p); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) { point_write((const void *)p); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) { point_write((const void *)p); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) { point_write((const void *)p); return __atomic_fetch_or(p, v, 5); }   \
    T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) { point_write((const void *)p); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) { point_write((const void *)p); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) {                     \
        T now = __atomic_load_n(p, 5);                                                                              \
        if (now != *c) point_read((const void *)p, now); else point_write((const void *)p);                                        \
        int ok = __atomic_compare_exchange_n(p, c, v, 0, 5, 5);                                                     \
        if (!ok) seen((const void *)p, *c);                                                                         \
        else if (me >= 0) { epoch++; th[me].spin_addr = 0; }                                                        \
        return ok;                                                                                                  \
    }                                                                                                               \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) {                       \
        return __tsan_atomic##N##_compare_exchange_strong(p, c, v, mo, fmo);                                        \
    }                                                                                                               \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) {                           \
        __tsan_atomic##N##_compare_exchange_strong(p, &c, v, mo, fmo);                                              \
        return c;                                                                                                   \
    }
OPS(8, uint8_t)
OPS(16, uint16_t)
OPS(32, uint32_t)
OPS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
#define NOP(name) void name(void *p) {}
NOP(__tsan_read1) NOP(__tsan_read2) NOP(__tsan_read4) NOP(__tsan_read8) NOP(__tsan_read16)
NOP(__tsan_write1) NOP(__tsan_write2) NOP(__tsan_write4) NOP(__tsan_write8) NOP(__tsan_write16)
NOP(__tsan_unaligned_read2) NOP(__tsan_unaligned_read4) NOP(__tsan_unaligned_read8) NOP(__tsan_unaligned_read16)
NOP(__tsan_unaligned_write2) NOP(__tsan_unaligned_write4) NOP(__tsan_unaligned_write8) NOP(__tsan_unaligned_write16)
NOP(__tsan_read_write1) NOP(__tsan_read_write2) NOP(__tsan_read_write4) NOP(__tsan_read_write8) NOP(__tsan_read_write16)
void __tsan_vptr_update(void *a, void *b) {}
void __tsan_vptr_read(void *a) {}
void __tsan_read_range(void *a, unsigned long n) {}
void __tsan_write_range(void *a, unsigned long n) {}
