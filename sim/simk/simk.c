/* Deterministic simulation kernel.
 *
 * Interposes the libc entry points through which a Rust program (std, parking_lot, tokio,
 * salsa, ...) creates threads, blocks, reads the clock, draws randomness and touches files.
 * Between simk_begin() and simk_end() the threads of the simulation are real OS threads, but
 * exactly one of them runs at a time and this file decides which: every blocking primitive and
 * every allocation is a scheduling decision.  Time is virtual.  File-system calls under a chosen
 * root are counted, logged and can be made to fail, be cut short, or end the process.
 *
 * Threads outside the simulation pass straight through to the kernel.
 */
#define _GNU_SOURCE
#include "simk.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static inline long ret_errno(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

/* ------------------------------------------------------------------ scheduler state */
#define MAXT 512
#define MAXDEV 65536
enum { T_FREE = 0, T_RUNNABLE, T_BLOCKED, T_FINISHED };
struct simthread {
    int state;
    int token;               /* real futex word */
    const void *addr;        /* futex address blocked on */
    uint32_t bitset;
    int timed;               /* has a deadline */
    uint64_t deadline;
    int woken;               /* 1: woken, 2: timeout, 3: spurious */
    uint64_t block_seq;
    int joining;             /* id of the thread this one joins, or -1 */
    pthread_t handle;
    int handle_set;
    void *(*start)(void *);
    void *arg;
};
static struct simthread T[MAXT];
static int NT;
static volatile int g_active;
static int g_cur = -1;
static int g_frozen;
static struct simk_cfg G;
static struct simk_stats S;
static uint64_t g_now, g_block_seq, g_next_dev;
static uint64_t g_prng, g_ent;
static struct simk_dev g_devs[MAXDEV];      /* recorded (random) or given (replay) */
static size_t g_ndevs, g_devpos;
static void (*g_fatal)(int);
static pthread_key_t g_key;
static int g_key_ok;
static __thread int t_id __attribute__((tls_model("initial-exec"))) = -1;

static inline int in_sim(void) { return g_active && t_id >= 0; }

static uint64_t prng(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline void mix(uint64_t v) { S.trace_hash = (S.trace_hash ^ v) * 0x100000001B3ull; S.trace_hash ^= S.trace_hash >> 29; }

static void fatal(int reason) {
    g_frozen = 1000000;
    if (g_fatal) g_fatal(reason);
    raw6(SYS_exit_group, 97, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

static void token_wait(int id) {
    while (__atomic_load_n(&T[id].token, __ATOMIC_ACQUIRE) == 0)
        raw6(SYS_futex, (long)&T[id].token, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    __atomic_store_n(&T[id].token, 0, __ATOMIC_RELEASE);
}
static void token_give(int id) {
    g_cur = id;
    __atomic_store_n(&T[id].token, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)&T[id].token, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void switch_to(int self, int next) {
    if (next == self) return;
    S.switches++;
    mix(0x1000000ull + (uint64_t)next + (S.steps << 16));
    token_give(next);
    token_wait(self);
}

/* threads whose deadline has passed become runnable */
static void fire_timers(void) {
    for (int i = 0; i < NT; i++)
        if (T[i].state == T_BLOCKED && T[i].timed && T[i].deadline <= g_now) {
            T[i].state = T_RUNNABLE; T[i].woken = 2; T[i].timed = 0; S.timeouts++;
        }
}
static int count_runnable(int except) {
    int n = 0;
    for (int i = 0; i < NT; i++) if (i != except && T[i].state == T_RUNNABLE) n++;
    return n;
}
static int nth_runnable(int except, uint64_t k) {
    for (int i = 0; i < NT; i++)
        if (i != except && T[i].state == T_RUNNABLE) { if (k == 0) return i; k--; }
    return -1;
}
static int next_round_robin(int self) {
    for (int d = 1; d <= NT; d++) {
        int i = (self + d) % NT;
        if (i != self && T[i].state == T_RUNNABLE) return i;
    }
    return -1;
}

static void schedule_next_dev(void) {
    uint64_t g = G.mean_gap ? G.mean_gap : 1;
    /* mixture of short and long gaps: geometric-ish with a heavy tail */
    uint64_t r = prng(&g_prng);
    uint64_t gap;
    switch (r & 7) {
        case 0: gap = 1 + (r >> 8) % 4; break;
        case 1: gap = 1 + (r >> 8) % (g / 8 + 2); break;
        case 2: gap = 1 + (r >> 8) % (4 * g + 1); break;
        default: gap = 1 + (r >> 8) % (2 * g + 1);
    }
    g_next_dev = S.steps + gap;
}
static void record(uint32_t kind, uint64_t arg) {
    if (g_ndevs < MAXDEV) {
        g_devs[g_ndevs].step = S.steps; g_devs[g_ndevs].kind = kind; g_devs[g_ndevs].pad = 0; g_devs[g_ndevs].arg = arg;
        g_ndevs++;
    }
}
/* replay: is there a deviation of `kind` at this step?  others at this step are left alone */
static int replay_take(uint32_t kind, uint64_t *arg) {
    while (g_devpos < g_ndevs && g_devs[g_devpos].step < S.steps) g_devpos++;
    for (size_t i = g_devpos; i < g_ndevs && g_devs[i].step == S.steps; i++)
        if (g_devs[i].kind == kind) { *arg = g_devs[i].arg; return 1; }
    return 0;
}

/* Faults stop: no stall and no spurious wakeup is injected from here on. */
void simk_calm(void) { G.stall_permille = 0; G.spurious_permille = 0; }
static void stall(uint64_t ns) { g_now += ns; S.stalls++; mix(0x2000000ull + ns); fire_timers(); }

/* one scheduling decision while `self` could go on running */
static void decision(int self) {
    S.steps++;
    if (S.steps > G.max_steps) fatal(SIMK_STEPS);
    if (G.mode == 0) return;
    if (G.mode == 1) {
        if (S.steps < g_next_dev) return;
        schedule_next_dev();
        uint64_t r = prng(&g_prng);
        if (r % 1000 < G.stall_permille) {
            uint64_t ns = 1 + (r >> 16) % (G.max_stall_ns + 1);
            record(DEV_STALL, ns);
            stall(ns);
        }
        int n = count_runnable(self);
        if (n == 0) return;
        int t = nth_runnable(self, (r >> 20) % (uint64_t)n);
        record(DEV_SWITCH, (uint64_t)t);
        S.preemptions++;
        switch_to(self, t);
    } else {
        if (g_devpos >= g_ndevs || g_devs[g_devpos].step > S.steps) return;
        uint64_t a;
        if (replay_take(DEV_STALL, &a)) stall(a);
        if (replay_take(DEV_SWITCH, &a)) {
            int t = (int)a;
            if (t < NT && t != self && T[t].state == T_RUNNABLE) { S.preemptions++; switch_to(self, t); }
        }
    }
}

/* `self` cannot run: hand the processor to somebody else; returns when scheduled again */
static void block_self(int self) {
    S.blocks++;
    S.steps++;
    if (S.steps > G.max_steps) fatal(SIMK_STEPS);
    fire_timers();
    for (;;) {
        int n = 0;
        for (int i = 0; i < NT; i++) if (T[i].state == T_RUNNABLE) n++;
        if (n) break;
        uint64_t best = UINT64_MAX;
        for (int i = 0; i < NT; i++)
            if (T[i].state == T_BLOCKED && T[i].timed && T[i].deadline < best) best = T[i].deadline;
        if (best == UINT64_MAX) fatal(SIMK_DEADLOCK);
        if (best > g_now) g_now = best;
        fire_timers();
    }
    int next = T[self].state == T_RUNNABLE ? self : next_round_robin(self);
    uint64_t a;
    if (G.mode == 1) {
        int n = count_runnable(-1);
        int pick = nth_runnable(-1, prng(&g_prng) % (uint64_t)n);
        if (pick != next) { record(DEV_SWITCH, (uint64_t)pick); next = pick; }
    } else if (G.mode == 2 && replay_take(DEV_SWITCH, &a)) {
        if ((int)a < NT && T[a].state == T_RUNNABLE) next = (int)a;
    }
    if (next != self) switch_to(self, next);
}

static void finish_self(int self) {
    /* the thread is done with all its destructors: pass the processor on for good */
    T[self].state = T_FINISHED;
    for (int i = 0; i < NT; i++)
        if (T[i].state == T_BLOCKED && T[i].joining == self) { T[i].state = T_RUNNABLE; T[i].joining = -1; }
    mix(0x3000000ull + (uint64_t)self);
    t_id = -1;
    S.steps++;
    fire_timers();
    for (;;) {
        if (count_runnable(-1)) break;
        uint64_t best = UINT64_MAX;
        for (int i = 0; i < NT; i++)
            if (T[i].state == T_BLOCKED && T[i].timed && T[i].deadline < best) best = T[i].deadline;
        if (best == UINT64_MAX) fatal(SIMK_DEADLOCK);
        if (best > g_now) g_now = best;
        fire_timers();
    }
    int next = next_round_robin(self);
    uint64_t a;
    if (G.mode == 1) {
        int n = count_runnable(-1);
        int pick = nth_runnable(-1, prng(&g_prng) % (uint64_t)n);
        if (pick != next) { record(DEV_SWITCH, (uint64_t)pick); next = pick; }
    } else if (G.mode == 2 && replay_take(DEV_SWITCH, &a)) {
        if ((int)a < NT && T[a].state == T_RUNNABLE) next = (int)a;
    }
    token_give(next);
}

/* ------------------------------------------------------------------ public control */
static void key_destructor(void *v) {
    uintptr_t n = (uintptr_t)v;
    if (n < 3) { pthread_setspecific(g_key, (void *)(n + 1)); return; }
    if (t_id >= 0 && g_active) finish_self(t_id);
}
void simk_set_fatal(void (*cb)(int)) { g_fatal = cb; }
void simk_begin(const struct simk_cfg *cfg, const struct simk_dev *devs, size_t ndevs) {
    if (!g_key_ok) { pthread_key_create(&g_key, key_destructor); g_key_ok = 1; }
    memset(T, 0, sizeof T);
    memset(&S, 0, sizeof S);
    G = *cfg;
    S.trace_hash = 0xcbf29ce484222325ull;
    g_prng = cfg->seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    g_ent = cfg->entropy;
    g_now = cfg->epoch_ns;
    g_block_seq = 0;
    g_ndevs = 0; g_devpos = 0;
    if (cfg->mode == 2) { if (ndevs > MAXDEV) ndevs = MAXDEV; memcpy(g_devs, devs, ndevs * sizeof *devs); g_ndevs = ndevs; }
    NT = 1;
    T[0].state = T_RUNNABLE; T[0].joining = -1;
    t_id = 0; g_cur = 0; g_frozen = 0;
    S.threads = 1;
    if (cfg->mode == 1) schedule_next_dev();
    g_active = 1;
}
/* Ends the simulation; the remaining threads (if any) must have finished. */
void simk_end(void) {
    int self = t_id;
    /* let detached threads run to completion if they can */
    while (in_sim()) {
        int other = 0;
        for (int i = 0; i < NT; i++) if (i != self && T[i].state != T_FINISHED) other = 1;
        if (!other) break;
        if (count_runnable(self) == 0) {
            uint64_t best = UINT64_MAX;
            for (int i = 0; i < NT; i++)
                if (i != self && T[i].state == T_BLOCKED && T[i].timed && T[i].deadline < best) best = T[i].deadline;
            if (best == UINT64_MAX) break; /* leftovers are blocked for good: abandoned */
            if (best > g_now) g_now = best;
            fire_timers();
            continue;
        }
        S.steps++;
        if (S.steps > G.max_steps) fatal(SIMK_STEPS);
        switch_to(self, next_round_robin(self));
    }
    S.now_ns = g_now - G.epoch_ns;
    S.ndevs = g_ndevs;
    g_active = 0;
    t_id = -1;
}
void simk_stats_get(struct simk_stats *o) { S.now_ns = g_now - G.epoch_ns; S.ndevs = g_ndevs; S.fs_ops = simk_fs_ops(); *o = S; }
size_t simk_devs_get(struct simk_dev *out, size_t cap) {
    size_t n = g_ndevs < cap ? g_ndevs : cap;
    memcpy(out, g_devs, n * sizeof *out);
    return n;
}
void simk_point(void) { if (in_sim() && !g_frozen) decision(t_id); }
void simk_yield(void) {
    if (!in_sim()) { raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); return; }
    if (g_frozen) return;
    int self = t_id;
    g_now += 1000;
    fire_timers();
    S.steps++;
    if (S.steps > G.max_steps) fatal(SIMK_STEPS);
    int next = next_round_robin(self);
    if (next < 0) {
        /* nobody else can run: let time pass so that a spin on a timer ends */
        uint64_t best = UINT64_MAX;
        for (int i = 0; i < NT; i++)
            if (T[i].state == T_BLOCKED && T[i].timed && T[i].deadline < best) best = T[i].deadline;
        if (best != UINT64_MAX && best > g_now) g_now = best;
        fire_timers();
        next = next_round_robin(self);
        if (next < 0) return;
    }
    uint64_t a;
    if (G.mode == 1) {
        int n = count_runnable(-1);
        int pick = nth_runnable(-1, prng(&g_prng) % (uint64_t)n);
        if (pick != next) { record(DEV_SWITCH, (uint64_t)pick); next = pick; }
    } else if (G.mode == 2 && replay_take(DEV_SWITCH, &a)) {
        if ((int)a < NT && T[a].state == T_RUNNABLE) next = (int)a;
    }
    if (next != self) switch_to(self, next);
}
void simk_mix(uint64_t v) { mix(0x4000000000ull ^ v); }
uint64_t simk_now(void) { return g_now - G.epoch_ns; }
uint64_t simk_steps(void) { return S.steps; }
int simk_self(void) { return t_id; }
void simk_freeze(int on) { g_frozen += on ? 1 : -1; }

/* ------------------------------------------------------------------ interposed: threads */
static void *trampoline(void *p) {
    int id = (int)(intptr_t)p;
    t_id = id;
    pthread_setspecific(g_key, (void *)1);
    token_wait(id);
    return T[id].start(T[id].arg);
}
typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*start)(void *), void *arg) {
    static pc_t real;
    if (!real) real = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
    if (!in_sim()) return real(th, attr, start, arg);
    if (NT >= MAXT) return EAGAIN;
    int id = NT;
    memset(&T[id], 0, sizeof T[id]);
    T[id].start = start; T[id].arg = arg; T[id].joining = -1;
    NT++;
    S.threads++;
    int r = real(th, attr, trampoline, (void *)(intptr_t)id);
    if (r) { T[id].state = T_FINISHED; return r; }
    T[id].handle = *th; T[id].handle_set = 1;
    T[id].state = T_RUNNABLE;
    mix(0x5000000ull + (uint64_t)id);
    if (!g_frozen) decision(t_id);
    return 0;
}
typedef int (*pj_t)(pthread_t, void **);
int pthread_join(pthread_t th, void **ret) {
    static pj_t real;
    if (!real) real = (pj_t)dlsym(RTLD_NEXT, "pthread_join");
    if (in_sim()) {
        int target = -1;
        for (int i = 0; i < NT; i++) if (T[i].handle_set && pthread_equal(T[i].handle, th)) target = i;
        if (target >= 0) {
            int self = t_id;
            if (T[target].state != T_FINISHED) {
                T[self].state = T_BLOCKED; T[self].joining = target; T[self].addr = NULL; T[self].timed = 0;
                block_self(self);
            }
            T[target].handle_set = 0;
        }
    }
    return real(th, ret);
}
int sched_yield(void) { simk_yield(); return 0; }

/* ------------------------------------------------------------------ interposed: futex, entropy */
static uint64_t ts_ns(const struct timespec *ts) { return (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec; }
static long sim_futex(uint32_t *uaddr, int op, uint32_t val, const struct timespec *to, uint32_t *uaddr2, uint32_t val3) {
    int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    int self = t_id;
    (void)uaddr2;
    switch (cmd) {
    case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
        if (!g_frozen) decision(self);
        if (__atomic_load_n(uaddr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        if (g_frozen) { /* harness code must not block on simulated primitives */ fatal(SIMK_DEADLOCK); }
        uint64_t a;
        if (G.mode == 1 && G.spurious_permille && prng(&g_prng) % 1000 < G.spurious_permille) {
            record(DEV_SPURIOUS, 0); S.spurious++;
            simk_yield();
            return 0;
        }
        if (G.mode == 2 && replay_take(DEV_SPURIOUS, &a)) { S.spurious++; simk_yield(); return 0; }
        T[self].addr = uaddr;
        T[self].bitset = cmd == FUTEX_WAIT_BITSET ? val3 : 0xffffffffu;
        T[self].timed = to != NULL;
        if (to) {
            uint64_t d = ts_ns(to);
            T[self].deadline = cmd == FUTEX_WAIT ? g_now + d : d;
        }
        T[self].woken = 0; T[self].joining = -1;
        T[self].block_seq = ++g_block_seq;
        T[self].state = T_BLOCKED;
        block_self(self);
        T[self].addr = NULL; T[self].timed = 0;
        if (T[self].woken == 2) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
        uint32_t bits = cmd == FUTEX_WAKE_BITSET ? val3 : 0xffffffffu;
        long n = 0;
        while ((uint32_t)n < val) {
            int best = -1;
            for (int i = 0; i < NT; i++)
                if (T[i].state == T_BLOCKED && T[i].joining < 0 && T[i].addr == uaddr && (T[i].bitset & bits) &&
                    (best < 0 || T[i].block_seq < T[best].block_seq)) best = i;
            if (best < 0) break;
            T[best].state = T_RUNNABLE; T[best].woken = 1; T[best].timed = 0; T[best].addr = NULL;
            S.wakes++;
            n++;
        }
        if (!g_frozen) decision(self);
        return n;
    }
    default: errno = ENOSYS; return -1;
    }
}
static void fill_entropy(void *buf, size_t len) {
    unsigned char *p = buf;
    while (len) { uint64_t v = prng(&g_ent); size_t k = len < 8 ? len : 8; memcpy(p, &v, k); p += k; len -= k; }
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (in_sim()) {
        if (n == SYS_futex) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f);
        if (n == SYS_getrandom) { fill_entropy((void *)a, (size_t)b); return b; }
    }
    return ret_errno(raw6(n, a, b, c, d, e, f));
}
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    if (in_sim()) { fill_entropy(buf, len); return (ssize_t)len; }
    return ret_errno(raw6(SYS_getrandom, (long)buf, (long)len, flags, 0, 0, 0));
}

/* ------------------------------------------------------------------ interposed: time */
int clock_gettime(clockid_t clk, struct timespec *ts) {
    if (in_sim() && (clk == CLOCK_MONOTONIC || clk == CLOCK_REALTIME || clk == CLOCK_BOOTTIME || clk == CLOCK_MONOTONIC_COARSE || clk == CLOCK_REALTIME_COARSE || clk == CLOCK_MONOTONIC_RAW)) {
        g_now += 1000;
        ts->tv_sec = (time_t)(g_now / 1000000000ull);
        ts->tv_nsec = (long)(g_now % 1000000000ull);
        return 0;
    }
    return (int)ret_errno(raw6(SYS_clock_gettime, clk, (long)ts, 0, 0, 0, 0));
}
static void sim_sleep_until(uint64_t deadline) {
    int self = t_id;
    if (deadline <= g_now) return;
    T[self].addr = NULL; T[self].timed = 1; T[self].deadline = deadline; T[self].woken = 0; T[self].joining = -1;
    T[self].state = T_BLOCKED;
    block_self(self);
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
    if (in_sim()) { sim_sleep_until(g_now + ts_ns(req)); if (rem) memset(rem, 0, sizeof *rem); return 0; }
    return (int)ret_errno(raw6(SYS_nanosleep, (long)req, (long)rem, 0, 0, 0, 0));
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec *req, struct timespec *rem) {
    if (in_sim()) { sim_sleep_until((flags & TIMER_ABSTIME) ? ts_ns(req) : g_now + ts_ns(req)); return 0; }
    return (int)-raw6(SYS_clock_nanosleep, clk, flags, (long)req, (long)rem, 0, 0);
}

/* ------------------------------------------------------------------ interposed: files */
#define MAXFD 4096
static volatile int fs_on;
static char fs_root[PATH_MAX];
static size_t fs_rootlen;
static char fs_real[PATH_MAX];
static size_t fs_reallen;
static int fs_rel;
static uint64_t fs_n, fs_seed;
static struct simk_fsf fs_f[1024];
static size_t fs_nf;
static unsigned char fs_fd[MAXFD];
static char fs_name[MAXFD][304];
static char fs_logbuf[1 << 18];
static size_t fs_loglen;
static uint64_t fs_kinds[16];
static int (*fs_cb)(uint64_t, uint64_t);
static __thread int fs_nest __attribute__((tls_model("initial-exec"))) = 0;
static int fs_nodtype;          /* the file system does not tell the types of directory entries */
static int fs_ctl = -1;         /* preload mode: every operation is decided by a controller at the other end */
static struct simk_fsf fs_told;
void simk_fs_nodtype(int on) { fs_nodtype = on; }
/* the kind of the last fault injected into each operation, for the harness */
static char fs_hit[1 << 14];
static size_t fs_hitlen;
size_t simk_fs_hits(char *out, size_t cap) { size_t n = fs_hitlen < cap ? fs_hitlen : cap; memcpy(out, fs_hit, n); return n; }

void simk_fs_begin(const char *root, int rel, uint64_t dirseed, const struct simk_fsf *f, size_t n) {
    snprintf(fs_root, sizeof fs_root, "%s", root); fs_rootlen = strlen(fs_root);
    fs_reallen = 0; fs_rel = rel; fs_seed = dirseed; fs_n = 0; fs_loglen = 0; fs_hitlen = 0;
    if (n > 1024) n = 1024;
    memcpy(fs_f, f, n * sizeof *f); fs_nf = n;
    memset(fs_fd, 0, sizeof fs_fd); memset(fs_kinds, 0, sizeof fs_kinds);
    fs_on = 1;
}
void simk_fs_end(void) { fs_on = 0; }
void simk_fs_hook(int (*cb)(uint64_t, uint64_t)) { fs_cb = cb; }
uint64_t simk_fs_ops(void) { return fs_n; }
uint64_t simk_fs_kind_count(int k) { return fs_kinds[k & 15]; }
size_t simk_fs_log(char *out, size_t cap) { size_t n = fs_loglen < cap ? fs_loglen : cap; memcpy(out, fs_logbuf, n); return n; }

/* The tree may appear to the code under test under a name that is the same in every run. */
void simk_fs_alias(const char *real) { snprintf(fs_real, sizeof fs_real, "%s", real); fs_reallen = strlen(fs_real); }
static const char *tr(const char *p, char *buf) {
    if (!fs_on || !fs_reallen || !p || strncmp(p, fs_root, fs_rootlen) || (p[fs_rootlen] != '/' && p[fs_rootlen])) return p;
    snprintf(buf, PATH_MAX, "%s%s", fs_real, p + fs_rootlen);
    return buf;
}
#define TR(p) char trbuf[PATH_MAX]; const char *tp = tr(p, trbuf)
char *getcwd(char *buf, size_t n) {
    if (fs_on && fs_reallen && buf) { if (n <= fs_rootlen) { errno = ERANGE; return NULL; } memcpy(buf, fs_root, fs_rootlen + 1); return buf; }
    long r = raw6(SYS_getcwd, (long)buf, (long)n, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return NULL; }
    return buf;
}
static int watched(const char *p) {
    if (!fs_on || fs_nest || !p) return 0;
    if (p[0] != '/') return fs_rel;
    return strncmp(p, fs_root, fs_rootlen) == 0 && (p[fs_rootlen] == '/' || p[fs_rootlen] == 0);
}
static int watched_fd(int fd) { return fs_on && !fs_nest && fd >= 0 && fd < MAXFD && fs_fd[fd]; }
static const char *relname(const char *p) { return p[0] == '/' ? p + fs_rootlen : p; }

static void fs_crash(void) {
    S.fs_faults++;
    if (g_fatal && in_sim()) fatal(SIMK_CRASHPOINT);
    raw6(SYS_exit_group, 86, 0, 0, 0, 0, 0);
}
/* Decide what happens to this operation.  Returns the fault or NULL. */
static const struct simk_fsf *fs_op(const char *what, const char *given) {
    uint64_t n = fs_n++;
    char name[304]; size_t nl = 0;
    for (; given[nl] && nl < 300; nl++) name[nl] = given[nl] == '\n' ? 1 : given[nl];
    name[nl] = 0;
    size_t room = sizeof fs_logbuf - fs_loglen;
    if (room > 512) fs_loglen += (size_t)snprintf(fs_logbuf + fs_loglen, room, "%llu %s %.200s\n", (unsigned long long)n, what, name);
    if (in_sim()) { uint64_t h = 0; for (const char *q = what; *q; q++) h = h * 31 + (unsigned char)*q; for (const char *q = name; *q; q++) h = h * 31 + (unsigned char)*q; mix(h); }
    if (fs_ctl >= 0) {
        char line[400];
        int k = snprintf(line, sizeof line, "%s %.300s\n", what, name);
        long x = raw6(SYS_write, fs_ctl, (long)line, k, 0, 0, 0);
        char *q = (char *)&fs_told; size_t got = 0;
        while (x > 0 && got < sizeof fs_told) {
            x = raw6(SYS_read, fs_ctl, (long)(q + got), (long)(sizeof fs_told - got), 0, 0, 0);
            if (x > 0) got += (size_t)x;
        }
        if (x <= 0) raw6(SYS_exit_group, 86, 0, 0, 0, 0, 0);
        if (fs_told.kind == FSF_CRASH) fs_crash();
        return fs_told.kind ? &fs_told : NULL;
    }
    for (size_t i = 0; i < fs_nf; i++)
        if (fs_f[i].op == n) {
            const struct simk_fsf *f = &fs_f[i];
            fs_kinds[f->kind & 15]++;
            if (f->kind != FSF_HOOK && f->kind != FSF_HOOK_AFTER && sizeof fs_hit - fs_hitlen > 400)
                fs_hitlen += (size_t)snprintf(fs_hit + fs_hitlen, sizeof fs_hit - fs_hitlen, "%u %llu %s %.300s\n", f->kind, (unsigned long long)f->arg, what, name);
            if (f->kind == FSF_CRASH) fs_crash();
            if (f->kind == FSF_HOOK) { fs_nest++; if (fs_cb) fs_cb(n, f->arg); fs_nest--; return NULL; }
            S.fs_faults++;
            return f;
        }
    if (in_sim() && !g_frozen) decision(t_id);
    return NULL;
}
static void fs_after(const struct simk_fsf *f) {
    if (!f) return;
    if (f->kind == FSF_CRASH_AFTER) fs_crash();
    if (f->kind == FSF_HOOK_AFTER) { fs_nest++; if (fs_cb) fs_cb(fs_n - 1, f->arg); fs_nest--; }
}
#define FAIL_IF(f, r) do { if ((f) && (f)->kind == FSF_ERRNO) { errno = (int)(f)->arg; return (r); } } while (0)

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    int w = watched(path) && (path[0] == '/' || dirfd == AT_FDCWD);
    const struct simk_fsf *f = NULL;
    if (w) { f = fs_op((flags & O_CREAT) ? "create" : "open", relname(path)); FAIL_IF(f, -1); }
    TR(path);
    int fd = (int)ret_errno(raw6(SYS_openat, dirfd, (long)tp, flags, mode, 0, 0));
    if (fd >= 0 && fd < MAXFD) { fs_fd[fd] = (unsigned char)w; if (w) snprintf(fs_name[fd], 304, "%.300s", relname(path)); }
    fs_after(f);
    return fd;
}
#define OPEN_MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { OPEN_MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { OPEN_MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { OPEN_MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { OPEN_MODE return do_open(d, path, flags | O_LARGEFILE, mode); }
ssize_t read(int fd, void *buf, size_t n) {
    if (watched_fd(fd)) {
        const struct simk_fsf *f = fs_op("read", fs_name[fd]);
        FAIL_IF(f, -1);
        if (f && f->kind == FSF_SHORT && n > 1) n = 1 + f->arg % (n - 1);
        ssize_t r = ret_errno(raw6(SYS_read, fd, (long)buf, (long)n, 0, 0, 0));
        fs_after(f);
        return r;
    }
    return ret_errno(raw6(SYS_read, fd, (long)buf, (long)n, 0, 0, 0));
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (watched_fd(fd)) {
        const struct simk_fsf *f = fs_op("write", fs_name[fd]);
        FAIL_IF(f, -1);
        if (f && (f->kind == FSF_SHORT || f->kind == FSF_TORN) && n > 1) n = 1 + f->arg % (n - 1);
        ssize_t r = ret_errno(raw6(SYS_write, fd, (long)buf, (long)n, 0, 0, 0));
        if (f && f->kind == FSF_TORN) fs_crash();
        fs_after(f);
        return r;
    }
    return ret_errno(raw6(SYS_write, fd, (long)buf, (long)n, 0, 0, 0));
}
int close(int fd) {
    if (fd >= 0 && fd < MAXFD) fs_fd[fd] = 0;
    return (int)ret_errno(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
}
#define PATHOP1(name, what, expr) \
    { TR(p); if (watched(p)) { const struct simk_fsf *f = fs_op(what, relname(p)); FAIL_IF(f, -1); int r = (int)ret_errno(expr); fs_after(f); return r; } \
      return (int)ret_errno(expr); }
int mkdir(const char *p, mode_t m) PATHOP1(mkdir, "mkdir", raw6(SYS_mkdir, (long)tp, m, 0, 0, 0, 0))
int rmdir(const char *p) PATHOP1(rmdir, "rmdir", raw6(SYS_rmdir, (long)tp, 0, 0, 0, 0, 0))
int unlink(const char *p) PATHOP1(unlink, "unlink", raw6(SYS_unlink, (long)tp, 0, 0, 0, 0, 0))
int rename(const char *p, const char *q) PATHOP1(rename, "rename", raw6(SYS_rename, (long)tp, (long)q, 0, 0, 0, 0))
int stat(const char *p, struct stat *st) PATHOP1(stat, "stat", raw6(SYS_newfstatat, AT_FDCWD, (long)tp, (long)st, 0, 0, 0))
int stat64(const char *p, struct stat64 *st) PATHOP1(stat, "stat", raw6(SYS_newfstatat, AT_FDCWD, (long)tp, (long)st, 0, 0, 0))
int lstat(const char *p, struct stat *st) PATHOP1(lstat, "stat", raw6(SYS_newfstatat, AT_FDCWD, (long)tp, (long)st, AT_SYMLINK_NOFOLLOW, 0, 0))
int lstat64(const char *p, struct stat64 *st) PATHOP1(lstat, "stat", raw6(SYS_newfstatat, AT_FDCWD, (long)tp, (long)st, AT_SYMLINK_NOFOLLOW, 0, 0))
int access(const char *p, int m) PATHOP1(access, "access", raw6(SYS_access, (long)tp, m, 0, 0, 0, 0))
int statx(int d, const char *p, int flags, unsigned mask, struct statx *st) {
    /* (std probes with a null path, which the header's nonnull attribute makes the compiler ignore) */
    const char *volatile q = p;
    char trbuf[PATH_MAX]; const char *tp = q ? tr(p, trbuf) : p;
    if (q && p[0] && watched(p) && (p[0] == '/' || d == AT_FDCWD)) {
        const struct simk_fsf *f = fs_op("stat", relname(p));
        FAIL_IF(f, -1);
        int r = (int)ret_errno(raw6(SYS_statx, d, (long)tp, flags, mask, (long)st, 0));
        fs_after(f);
        return r;
    }
    return (int)ret_errno(raw6(SYS_statx, d, (long)tp, flags, mask, (long)st, 0));
}
int fsync(int fd) {
    if (watched_fd(fd)) { const struct simk_fsf *f = fs_op("fsync", fs_name[fd]); FAIL_IF(f, -1); fs_after(f); }
    return (int)ret_errno(raw6(SYS_fsync, fd, 0, 0, 0, 0, 0));
}
/* copy_file_range/sendfile: force the read/write fallback so that faults reach the data path */
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl) {
    if (watched_fd(a) || watched_fd(b)) { errno = ENOSYS; return -1; }
    return ret_errno(raw6(SYS_copy_file_range, a, (long)ao, b, (long)bo, (long)n, fl));
}

/* directories: entries come back in an order the simulator chooses */
struct simdir { DIR *d; struct dirent64 *ents; size_t n, pos; int loaded; char name[304]; };
#define MAXDIR 64
static struct simdir dirs[MAXDIR];
typedef DIR *(*od_t)(const char *);
typedef struct dirent64 *(*rd_t)(DIR *);
typedef int (*cd_t)(DIR *);
static od_t r_opendir; static rd_t r_readdir64; static cd_t r_closedir;
static void dir_syms(void) {
    if (!r_opendir) { r_opendir = (od_t)dlsym(RTLD_NEXT, "opendir"); r_readdir64 = (rd_t)dlsym(RTLD_NEXT, "readdir64"); r_closedir = (cd_t)dlsym(RTLD_NEXT, "closedir"); }
}
DIR *opendir(const char *p) {
    dir_syms();
    TR(p);
    if (!watched(p)) return r_opendir(tp);
    const struct simk_fsf *f = fs_op("opendir", relname(p));
    FAIL_IF(f, NULL);
    DIR *d = r_opendir(tp);
    if (d) for (int i = 0; i < MAXDIR; i++) if (!dirs[i].d) { memset(&dirs[i], 0, sizeof dirs[i]); dirs[i].d = d; snprintf(dirs[i].name, 304, "%.300s", relname(p)); break; }
    fs_after(f);
    return d;
}
static int cmp_ent(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }
struct dirent64 *readdir64(DIR *d) {
    dir_syms();
    struct simdir *s = NULL;
    for (int i = 0; i < MAXDIR; i++) if (dirs[i].d == d) s = &dirs[i];
    if (!s || !d) return r_readdir64(d);
    if (fs_on && !fs_nest) {
        const struct simk_fsf *f = fs_op("readdir", s->name);
        FAIL_IF(f, NULL);
    }
    if (!s->loaded) {
        s->loaded = 1;
        size_t cap = 64;
        s->ents = malloc(cap * sizeof *s->ents);
        struct dirent64 *e;
        while ((e = r_readdir64(d))) {
            if (s->n == cap) { cap *= 2; s->ents = realloc(s->ents, cap * sizeof *s->ents); }
            memset(&s->ents[s->n], 0, sizeof s->ents[0]);
            memcpy(&s->ents[s->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
            s->ents[s->n].d_reclen = sizeof *e;
            if (fs_nodtype) s->ents[s->n].d_type = DT_UNKNOWN;
            s->n++;
        }
        qsort(s->ents, s->n, sizeof *s->ents, cmp_ent);
        uint64_t sd = fs_seed;
        if (fs_seed) for (const char *q = s->name; *q; q++) sd = sd * 131 + (unsigned char)*q;
        if (fs_seed) for (size_t i = s->n; i > 1; i--) {
            size_t j = prng(&sd) % i;
            struct dirent64 t = s->ents[i - 1]; s->ents[i - 1] = s->ents[j]; s->ents[j] = t;
        }
        errno = 0;
    }
    if (s->pos >= s->n) return NULL;
    return &s->ents[s->pos++];
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    dir_syms();
    for (int i = 0; i < MAXDIR; i++) if (dirs[i].d == d) { free(dirs[i].ents); dirs[i].d = NULL; dirs[i].ents = NULL; }
    return r_closedir(d);
}
typedef char *(*rp_t)(const char *, char *);
char *realpath(const char *p, char *buf) {
    static rp_t real;
    if (!real) real = (rp_t)dlsym(RTLD_NEXT, "realpath");
    TR(p);
    if (!watched(p)) return real(tp, buf);
    const struct simk_fsf *f = fs_op("realpath", relname(p));
    FAIL_IF(f, NULL);
    fs_nest++;
    char *r = real(tp, buf);
    fs_nest--;
    if (r && tp != p && !strncmp(r, fs_real, fs_reallen) && (r[fs_reallen] == '/' || !r[fs_reallen])) {
        char back[PATH_MAX];
        snprintf(back, sizeof back, "%.*s%s", (int)fs_rootlen, fs_root, r + fs_reallen);
        if (buf) strcpy(buf, back);
        else { free(r); r = strdup(back); }
        if (buf) r = buf;
    }
    fs_after(f);
    return r;
}

/* ------------------------------------------------------------------ preload mode */
#ifdef SIMK_PRELOAD
/* SIMK_PLAN="root|dirseed|entropy|op:kind:arg,op:kind:arg,..."  SIMK_LOG=file */
static char plan_log[PATH_MAX];
static void write_log(void) {
    if (!plan_log[0]) return;
    int fd = (int)raw6(SYS_openat, AT_FDCWD, (long)plan_log, O_WRONLY | O_CREAT | O_TRUNC, 0644, 0, 0);
    if (fd >= 0) { raw6(SYS_write, fd, (long)fs_logbuf, (long)fs_loglen, 0, 0, 0); raw6(SYS_close, fd, 0, 0, 0, 0, 0); }
}
static void preload_fatal(int r) { (void)r; write_log(); raw6(SYS_exit_group, 86, 0, 0, 0, 0, 0); }
__attribute__((destructor)) static void preload_fini(void) { write_log(); }
__attribute__((constructor)) static void preload_init(void) {
    const char *p = getenv("SIMK_PLAN");
    if (!p) return;
    const char *ctl = getenv("SIMK_CTL");
    char root[PATH_MAX]; size_t i = 0;
    while (*p && *p != '|' && i < sizeof root - 1) root[i++] = *p++;
    root[i] = 0;
    if (*p) p++;
    uint64_t dirseed = strtoull(p, (char **)&p, 10); if (*p) p++;
    uint64_t ent = strtoull(p, (char **)&p, 10); if (*p) p++;
    struct simk_fsf f[64]; size_t n = 0;
    while (*p && n < 64) {
        f[n].op = strtoull(p, (char **)&p, 10); if (*p == ':') p++;
        f[n].kind = (uint32_t)strtoul(p, (char **)&p, 10); if (*p == ':') p++;
        f[n].arg = strtoull(p, (char **)&p, 10); if (*p == ',') p++;
        f[n].pad = 0;
        n++;
    }
    const char *l = getenv("SIMK_LOG");
    if (l) snprintf(plan_log, sizeof plan_log, "%s", l);
    struct simk_cfg c; memset(&c, 0, sizeof c);
    c.max_steps = UINT64_MAX; c.entropy = ent; c.epoch_ns = 1700000000ull * 1000000000ull;
    simk_set_fatal(preload_fatal);
    simk_begin(&c, NULL, 0);
    simk_fs_begin(root, 1, dirseed, f, n);
    if (ctl) fs_ctl = atoi(ctl);
    if (getenv("SIMK_STDOUT")) { fs_fd[1] = 1; snprintf(fs_name[1], 304, "(standard output)"); }
}
#endif
