#ifndef SIMK_H
#define SIMK_H
#include <stdint.h>
#include <stddef.h>

/* A schedule deviation: at scheduling decision `step`, do `kind` with `arg`. */
enum { DEV_SWITCH = 1, DEV_STALL = 2, DEV_SPURIOUS = 3 };
struct simk_dev { uint64_t step; uint32_t kind; uint32_t pad; uint64_t arg; };

/* A file-system fault: at file-system operation `op`, do `kind` with `arg`. */
enum { FSF_ERRNO = 1, FSF_SHORT = 2, FSF_CRASH = 3, FSF_CRASH_AFTER = 4, FSF_TORN = 5, FSF_HOOK = 6, FSF_HOOK_AFTER = 7 };
struct simk_fsf { uint64_t op; uint32_t kind; uint32_t pad; uint64_t arg; };

struct simk_cfg {
    uint64_t seed;
    uint32_t mode;          /* 0: default schedule only; 1: random; 2: replay `devs` */
    uint32_t mean_gap;      /* random: mean number of decision points between preemptions */
    uint32_t stall_permille;/* random: share of deviations that are clock stalls */
    uint32_t spurious_permille; /* random: chance that a futex wait returns spuriously */
    uint64_t max_stall_ns;
    uint64_t max_steps;
    uint64_t entropy;       /* seed of getrandom() */
    uint64_t epoch_ns;      /* virtual start time */
};

enum { SIMK_DEADLOCK = 1, SIMK_STEPS = 2, SIMK_CRASHPOINT = 3 };

struct simk_stats {
    uint64_t steps, switches, preemptions, blocks, wakes, stalls, spurious, timeouts;
    uint64_t threads, now_ns, trace_hash, fs_ops, fs_faults, ndevs;
};

void simk_begin(const struct simk_cfg *cfg, const struct simk_dev *devs, size_t ndevs);
void simk_end(void);
void simk_stats_get(struct simk_stats *out);
size_t simk_devs_get(struct simk_dev *out, size_t cap);
void simk_set_fatal(void (*cb)(int reason));
void simk_point(void);      /* allocation / explicit preemption point */
void simk_yield(void);
void simk_calm(void);
void simk_mix(uint64_t v);  /* mix an application event into the trace hash */
uint64_t simk_now(void);
uint64_t simk_steps(void);
int  simk_self(void);
void simk_freeze(int on);   /* no preemption while frozen (harness code) */

void simk_fs_begin(const char *root, int match_relative, uint64_t dirseed, const struct simk_fsf *f, size_t n);
void simk_fs_end(void);
void simk_fs_alias(const char *real);
void simk_fs_hook(int (*cb)(uint64_t op, uint64_t arg));
uint64_t simk_fs_ops(void);
/* log of operations: newline separated text */
size_t simk_fs_log(char *out, size_t cap);
uint64_t simk_fs_kind_count(int kind);
#endif
