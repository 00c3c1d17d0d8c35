#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>
/* One scheduling deviation from the default policy. */
enum { DEV_SWITCH = 0, DEV_STALL = 1, DEV_SPURIOUS = 2, DEV_CRASH = 3, DEV_PREEMPT = 4 };
struct sim_dev { uint64_t step; uint64_t arg; uint32_t kind; int32_t tid; };
enum { STRAT_DEFAULT = 0, STRAT_RANDOM = 1, STRAT_PCT = 2, STRAT_STICKY = 3 };
struct sim_cfg {
  uint64_t seed_sched, seed_data;
  uint64_t strategy;
  uint64_t preempt_1in;   /* mean atomics between preemptions, 0 = never */
  uint64_t wake_1in;      /* switch on 1 in n wakes, 0 = never */
  uint64_t stall_1in;     /* mean steps between stalls, 0 = never */
  uint64_t stall_max_ns;
  uint64_t spurious_1in;  /* mean steps between spurious futex wakes, 0 = never */
  uint64_t pct_depth, pct_len;
  uint64_t tick_ns;
  uint64_t max_steps, max_time_ns;
  uint64_t replay;        /* use devs instead of the strategy */
  uint64_t crash_step, crash_group; /* process crash at a scheduling step, 0 = none */
};
#define MAX_DEVS 400000
#define OUT_LEN (1<<20)
/* Lives in memory shared with the parent. */
struct sim_shared {
  uint64_t done;            /* 1 = result valid */
  uint64_t steps, switches, now_ns, stalls, spurious, crashes, sched_hash, event_hash, nthreads, atomics;
  uint64_t ndevs, nreplay, devs_overflow;
  uint64_t counters[64];    /* application counters (faults fired, ...) */
  uint64_t out_len;
  char out[OUT_LEN];        /* JSON outcome */
  struct sim_dev devs[MAX_DEVS];   /* recorded deviations */
  struct sim_dev replay[MAX_DEVS]; /* deviations to replay */
};
#endif
