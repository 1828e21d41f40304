// A controlled scheduler for two threads that execute ufunc inner loops compiled with
// -fsanitize=thread: this library takes the place of the sanitizer's runtime, so that every
// memory access, atomic operation and function entry of the instrumented code is a point at
// which the running thread can be preempted.  Exactly one thread runs at a time.
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <errno.h>

typedef void (*loop_t)(char **args, const intptr_t *dims, const intptr_t *steps, void *data);

typedef struct {
    loop_t loop;
    void *data;
    intptr_t nargs;
    char *args[32];
    intptr_t dims[32];
    intptr_t steps[64];
} job_t;

typedef struct {
    uint64_t addr;
    uint32_t point;
    uint8_t size, write, thread, pad;
} rec_t;

static __thread int me = -1;
static volatile int active, free_run;
static volatile int done[2];
static volatile long cnt[2];
static sem_t go[2], start[2], fin;
static pthread_t thr[2];
static int have_threads;
static job_t *job[2];
static const int32_t *plan;         // pairs (thread, point)
static volatile int nplan, nextp;
static rec_t *logbuf;
static volatile long nlog, maxlog;
static volatile long switches, blocked;

static int timed(sem_t *s, long ms) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_sec += ms / 1000;
    t.tv_nsec += (ms % 1000) * 1000000;
    if (t.tv_nsec >= 1000000000) { t.tv_sec++; t.tv_nsec -= 1000000000; }
    for (;;) {
        if (sem_timedwait(s, &t) == 0) return 0;
        if (errno != EINTR) return -1;
    }
}

static void wait_(sem_t *s) {
    while (sem_wait(s) != 0) { }
}

static void yield_to(int o) {
    if (done[o] || free_run) return;
    switches++;
    sem_post(&go[o]);
    // The other thread posts go[me] when it is preempted or has finished.  If it is blocked by
    // something this thread holds, let both run.
    if (timed(&go[me], 300) != 0) {
        blocked++;
        free_run = 1;
    }
}

static void point(void *addr, unsigned size, unsigned write) {
    if (me < 0 || !active) return;
    long c = ++cnt[me];
    if (logbuf && nlog < maxlog) {
        rec_t *r = &logbuf[nlog++];
        r->addr = (uint64_t) (uintptr_t) addr;
        r->point = (uint32_t) c;
        r->size = size > 255 ? 255 : (uint8_t) size;
        r->write = (uint8_t) write;
        r->thread = (uint8_t) me;
    }
    if (!free_run && nextp < nplan && plan[2*nextp] == me && plan[2*nextp + 1] == c) {
        nextp++;
        yield_to(1 - me);
    }
}

static void *worker(void *p) {
    int id = (int) (intptr_t) p;
    me = id;
    for (;;) {
        wait_(&start[id]);
        wait_(&go[id]);
        job_t *j = job[id];
        char *args[32];
        intptr_t dims[32], steps[64];
        memcpy(args, j->args, sizeof args);
        memcpy(dims, j->dims, sizeof dims);
        memcpy(steps, j->steps, sizeof steps);
        j->loop(args, dims, steps, j->data);
        done[id] = 1;
        if (!done[1 - id]) sem_post(&go[1 - id]);
        sem_post(&fin);
    }
    return NULL;
}

// Run two jobs; the plan is a list of preemptions.  `first` starts.
static void run(job_t *a, job_t *b, int first, const int32_t *pl, int n, rec_t *lg, long mlog) {
    if (!have_threads) {
        for (int i = 0; i < 2; ++i) {
            sem_init(&go[i], 0, 0);
            sem_init(&start[i], 0, 0);
        }
        sem_init(&fin, 0, 0);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        for (int i = 0; i < 2; ++i) pthread_create(&thr[i], &at, worker, (void *) (intptr_t) i);
        have_threads = 1;
    }
    job[0] = a; job[1] = b;
    done[0] = done[1] = 0;
    cnt[0] = cnt[1] = 0;
    plan = pl; nplan = n; nextp = 0;
    free_run = 0;
    logbuf = lg; maxlog = mlog; nlog = 0;
    while (sem_trywait(&go[0]) == 0) { }
    while (sem_trywait(&go[1]) == 0) { }
    active = 1;
    sem_post(&start[0]);
    sem_post(&start[1]);
    sem_post(&go[first]);
    wait_(&fin);
    wait_(&fin);
    active = 0;
}

typedef struct {
    char *out;          // where the loop writes
    char *init;         // what is there before
    char *ref;          // what must be there afterwards
    intptr_t bytes;
    intptr_t item, valid;   // of every `item` bytes the first `valid` count
} chk_t;

static int differs(chk_t *k) {
    if (k->item == k->valid) return memcmp(k->out, k->ref, k->bytes) != 0;
    for (intptr_t i = 0; i + k->item <= k->bytes; i += k->item)
        if (memcmp(k->out + i, k->ref + i, k->valid) != 0) return 1;
    return 0;
}

// One schedule.  Returns 1 if an output differs.
int mc_one(job_t *a, job_t *b, int first, const int32_t *pl, int n, chk_t *k, int nk,
           rec_t *lg, long mlog, long *info) {
    for (int i = 0; i < nk; ++i) memcpy(k[i].out, k[i].init, k[i].bytes);
    long sw = switches;
    run(a, b, first, pl, n, lg, mlog);
    info[0] = cnt[0]; info[1] = cnt[1]; info[2] = nlog; info[3] = switches - sw; info[4] = blocked;
    int bad = 0;
    for (int i = 0; i < nk; ++i) bad |= differs(&k[i]);
    return bad;
}

// All schedules in which thread `first` is preempted once, at each of its points lo <= p < hi in steps.
// Returns the first point for which an output differs, or 0.
long mc_sweep(job_t *a, job_t *b, int first, long lo, long hi, long step, chk_t *k, int nk, long *info) {
    int32_t pl[2];
    pl[0] = first;
    long n = 0, bad = 0;
    for (long p = lo; p < hi; p += step) {
        pl[1] = (int32_t) p;
        if (mc_one(a, b, first, pl, 1, k, nk, NULL, 0, info)) { bad = p; break; }
        n++;
    }
    info[5] = n;
    return bad;
}

// ---- the interface the instrumented code calls -------------------------------------------------
#define X __attribute__((visibility("default")))
X void __tsan_init(void) { }
X void __tsan_func_entry(void *pc) { (void) pc; point(NULL, 0, 0); }
X void __tsan_func_exit(void) { }
X void __tsan_vptr_update(void **p, void *v) { (void) v; point(p, 8, 1); }
X void __tsan_vptr_read(void **p) { point(p, 8, 0); }
#define RW(n) \
X void __tsan_read##n(void *p) { point(p, n, 0); } \
X void __tsan_write##n(void *p) { point(p, n, 1); } \
X void __tsan_read##n##_pc(void *p, void *c) { (void) c; point(p, n, 0); } \
X void __tsan_write##n##_pc(void *p, void *c) { (void) c; point(p, n, 1); } \
X void __tsan_unaligned_read##n(void *p) { point(p, n, 0); } \
X void __tsan_unaligned_write##n(void *p) { point(p, n, 1); } \
X void __tsan_volatile_read##n(void *p) { point(p, n, 0); } \
X void __tsan_volatile_write##n(void *p) { point(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
X void __tsan_read_range(void *p, unsigned long n) { point(p, n > 255 ? 255 : (unsigned) n, 0); }
X void __tsan_write_range(void *p, unsigned long n) { point(p, n > 255 ? 255 : (unsigned) n, 1); }
#define AT(n, T) \
X T __tsan_atomic##n##_load(const volatile T *p, int m) { (void) m; point((void *) p, n/8, 0); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
X void __tsan_atomic##n##_store(volatile T *p, T v, int m) { (void) m; point((void *) p, n/8, 1); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
X T __tsan_atomic##n##_exchange(volatile T *p, T v, int m) { (void) m; point((void *) p, n/8, 1); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
X T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int m) { (void) m; point((void *) p, n/8, 1); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
X T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int m) { (void) m; point((void *) p, n/8, 1); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
X T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int m) { (void) m; point((void *) p, n/8, 1); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
X T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int m) { (void) m; point((void *) p, n/8, 1); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
X T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int m) { (void) m; point((void *) p, n/8, 1); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
X T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int m) { (void) m; point((void *) p, n/8, 1); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
X int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int m, int f) { (void) m; (void) f; point((void *) p, n/8, 1); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
X int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int m, int f) { (void) m; (void) f; point((void *) p, n/8, 1); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
X T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int m, int f) { (void) m; (void) f; point((void *) p, n/8, 1); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
X void __tsan_atomic_thread_fence(int m) { (void) m; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
X void __tsan_atomic_signal_fence(int m) { (void) m; }
