/* Deterministic runtime: owns threads, futexes, clocks, randomness, I/O readiness and every atomic
 * operation of the instrumented program. See DESIGN.md. */
#define _GNU_SOURCE
#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

#define MAXT 640
#define STACK_SZ (2ul << 20)
#define STACK_BASE 0x100000000000ul
#define HEAP_BASE 0x110000000000ul
#define HEAP_SZ (8ul << 30)
#define SPIN_LIMIT 3000

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define raw4(n,a,b,c,d) raw6(n,(long)(a),(long)(b),(long)(c),(long)(d),0,0)
#define raw3(n,a,b,c) raw6(n,(long)(a),(long)(b),(long)(c),0,0,0)
static inline long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

enum { ST_FREE, ST_READY, ST_RUN, ST_FUTEX, ST_SLEEP, ST_EPOLL, ST_POLL, ST_JOIN, ST_EXITED, ST_DEAD };
struct sth {
  int tid, state, group, rounds, timed_out, doomed, stalled, zyields;
  uint32_t go;
  uint64_t deadline, seq, prio;
  uint32_t *faddr, fmask;
  int epfd; struct pollfd *pfds; nfds_t npfds;
  struct sth *join;
  pthread_t pt; void *(*fn)(void *); void *arg, *retv;
  char name[24];
};
static struct sth T[MAXT];
static int nt;
static __thread struct sth *self;
static struct sth *volatile cur;
int sim_on;               /* simulation active in this process */
static struct sim_cfg C;
static struct sim_shared *S;
static uint64_t step, now_base, next_ev, last_switch, seqc, idle_yields;
static uint64_t next_preempt, next_stall, next_spur;
static uint64_t rs[2], rd[2];
static int io_dirty;
static uint64_t pct_pts[64]; static int pct_n, pct_i; static uint64_t pct_low;
static size_t rpos;
static uint64_t min_deadline;
static pthread_key_t exit_key;
static int trace_fd = -1;
static void (*end_cb)(int);

static uint64_t sm(uint64_t *x) { uint64_t z = (*x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t xs(uint64_t *s) { uint64_t a = s[0], b = s[1], r = a + b; b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27); return r; }
static uint64_t rr(uint64_t n) { return n ? xs(rs) % n : 0; }
static uint64_t gap(uint64_t mean) { /* geometric-ish gap */
  if (!mean) return ~0ull >> 1;
  uint64_t u = xs(rs) >> 11; double x = (double)(u + 1) / 9007199254740993.0; /* (0,1] */
  /* -ln(x) without libm: use frexp-like loop */
  double l = 0; while (x < 0.5) { x *= 2; l += 0.6931471805599453; }
  double y = (1 - x) / (1 + x), y2 = y * y; l += 2 * (y + y * y2 / 3 + y * y2 * y2 / 5 + y * y2 * y2 * y2 / 7);
  uint64_t g = (uint64_t)(l * (double)mean); return g + 1;
}
static inline uint64_t now(void) { return now_base + step * C.tick_ns; }
static void set_now(uint64_t t) { if (t > now()) now_base = t - step * C.tick_ns; }
static void mix(uint64_t *h, uint64_t v) { *h = (*h ^ v) * 0x100000001b3ull; *h ^= *h >> 29; }

static void recompute(void) {
  uint64_t e = last_switch + SPIN_LIMIT;
  if (C.replay) { if (rpos < S->nreplay && S->replay[rpos].step < e) e = S->replay[rpos].step; }
  else { if (next_preempt < e) e = next_preempt; if (next_stall < e) e = next_stall; if (next_spur < e) e = next_spur;
    if (C.crash_step && C.crash_step < e) e = C.crash_step; }
  if (e > C.max_steps) e = C.max_steps;
  if (min_deadline != ~0ull) { uint64_t d = min_deadline <= now() ? step + 1 : step + 1 + (C.tick_ns ? (min_deadline - now()) / C.tick_ns : 1000000); if (d < e && d > step) e = d; }
  next_ev = e > step ? e : step + 1;
}
static int preempt_to; 
static void record_at(uint64_t st, uint32_t kind, int tid, uint64_t arg) {
  if (S->ndevs >= MAX_DEVS) { S->devs_overflow = 1; return; }
  struct sim_dev *d = &S->devs[S->ndevs++]; d->step = st; d->kind = kind; d->tid = tid; d->arg = arg;
}
static void record(uint32_t kind, int tid, uint64_t arg) {
  if (S->ndevs >= MAX_DEVS) { S->devs_overflow = 1; return; }
  struct sim_dev *d = &S->devs[S->ndevs++]; d->step = step; d->kind = kind; d->tid = tid; d->arg = arg;
}
static void tr(const char *fmt, ...) {
  if (trace_fd < 0) return;
  char b[256]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  raw3(SYS_write, trace_fd, b, n);
}
static void publish_stats(void) { S->steps = step; S->now_ns = now(); S->nthreads = nt; }
/* Ends the run: 1 deadlock, 2 step cap, 3 time cap, 4 too many threads. */
static void __attribute__((noreturn)) sim_end(int why) {
  publish_stats(); sim_on = 0;
  if (end_cb) end_cb(why);
  raw3(SYS_exit_group, 0, 0, 0);
  for (;;) ;
}
static void make_ready(struct sth *t, int timed_out) {
  t->state = ST_READY; t->timed_out = timed_out; t->deadline = ~0ull; t->seq = ++seqc; t->faddr = 0;
}
static void expire(void) {
  uint64_t n = now(); uint64_t m = ~0ull;
  for (int i = 0; i < nt; i++) { struct sth *t = &T[i];
    if (t->state >= ST_FUTEX && t->state <= ST_JOIN) { if (t->deadline <= n) make_ready(t, 1); else if (t->deadline < m) m = t->deadline; } }
  min_deadline = m;
}
static int io_check(void) {
  if (!io_dirty) return 0;
  io_dirty = 0; int k = 0;
  for (int i = 0; i < nt; i++) { struct sth *t = &T[i];
    if (t->state == ST_EPOLL) { struct pollfd p = { t->epfd, POLLIN, 0 }; if (raw3(SYS_poll, &p, 1, 0) > 0) { make_ready(t, 0); k++; } }
    else if (t->state == ST_POLL) { if (raw3(SYS_poll, t->pfds, t->npfds, 0) > 0) { make_ready(t, 0); k++; } } }
  return k;
}
/* The simulated processes share an address space. The mutable statics of the crate under test are kept apart: each group
 * has its own copy, which is in place while its threads run, and starts out as the program does. */
#define MAXG 1024
static struct { char *p; size_t n; } stat_r[512]; static int stat_n, stat_g; static size_t stat_sz; static char *stat_img[MAXG], *stat_new;
static char *stat_page(void) { return mmap(0, stat_sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
static void stat_save(char *o) { for (int i = 0; i < stat_n; i++) { memcpy(o, stat_r[i].p, stat_r[i].n); o += stat_r[i].n; } }
static void stat_switch(int g) {
  if (!stat_n || g == stat_g || g < 0 || g >= MAXG) return;
  if (!stat_img[stat_g]) stat_img[stat_g] = stat_page();
  stat_save(stat_img[stat_g]); stat_g = g;
  const char *o = stat_img[g] ? stat_img[g] : stat_new;
  for (int i = 0; i < stat_n; i++) { memcpy(stat_r[i].p, o, stat_r[i].n); o += stat_r[i].n; }
}
void sim_static(void *p, size_t n) { if (stat_n < 512) { stat_r[stat_n].p = p; stat_r[stat_n++].n = n; stat_sz += n; } }
static int stat_own(void *a) { for (int i = 0; i < stat_n; i++) if ((char *)a >= stat_r[i].p && (char *)a < stat_r[i].p + stat_r[i].n) return 1; return 0; }
static void handoff(struct sth *t) {
  struct sth *me = self;
  stat_switch(t->group);
  S->switches++; mix(&S->sched_hash, ((uint64_t)t->tid << 8) ^ (me ? me->tid : 0xff));
  cur = t; t->state = ST_RUN;
  __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
  raw6(SYS_futex, (long)&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void wait_go(struct sth *me) {
  while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) raw6(SYS_futex, (long)&me->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  __atomic_store_n(&me->go, 0, __ATOMIC_SEQ_CST);
}
enum { K_BLOCK, K_PREEMPT, K_YIELD, K_WAKE };
static void skip_devs(void) { while (rpos < S->nreplay && S->replay[rpos].step < step && S->replay[rpos].kind != DEV_CRASH) rpos++; }
/* A crashed process never communicates again: its sockets are shut down now, threads that wait for I/O or sleep are dead
 * now, the others die before their next I/O, sleep or operation. Until then they go on: a lock that this address space
 * shares between the simulated processes (as parking_lot's table does) must neither stay locked nor be handed to the dead. */
static void do_crash(int g) {
  int any = 0;
  for (int i = 0; i < nt; i++) if (T[i].group == g && T[i].state != ST_EXITED && T[i].state != ST_DEAD && !T[i].doomed) {
    T[i].doomed = any = 1;
    if (T[i].state > ST_FUTEX && T[i].state <= ST_JOIN && !T[i].stalled) T[i].state = ST_DEAD; }
  if (any) { S->crashes++; tr("%lu t=%lu CRASH group %d\n", step, now(), g); }
  extern void simnet_group_crashed(int g); simnet_group_crashed(g); io_dirty = 1;
}
static struct sth *fifo_first(struct sth **r, int n, struct sth *not) {
  struct sth *b = 0; for (int i = 0; i < n; i++) if (r[i] != not && (!b || r[i]->seq < b->seq)) b = r[i]; return b;
}
/* Pick and switch. self is READY (kind != K_BLOCK) or blocked/exited/dead. Returns when self runs again. */
static void decide(int kind) {
  struct sth *me = self; struct sth *r[MAXT]; int n; const char *why = ""; uint64_t step0 = step;
again:
  step++;
  if (step >= C.max_steps) sim_end(2);
  expire(); io_check();
  if (C.replay) skip_devs();
  n = 0; for (int i = 0; i < nt; i++) if (T[i].state == ST_READY) r[n++] = &T[i];
  if (kind == K_YIELD && n == 1 && r[0] == me) { /* nobody else can run: let time pass if this goes on */
    if (++idle_yields > 256) { expire(); if (min_deadline != ~0ull) { set_now(min_deadline); if (now() > C.max_time_ns) sim_end(3); idle_yields = 0; goto again; } }
    if (idle_yields > 2000000) sim_end(2);
  } else idle_yields = 0;
  if (n == 0) {
    io_dirty = 1; if (io_check()) goto again;
    expire();
    if (min_deadline == ~0ull) sim_end(1);
    set_now(min_deadline);
    if (now() > C.max_time_ns) sim_end(3);
    goto again;
  }
  struct sth *def = kind == K_BLOCK ? fifo_first(r, n, 0) : kind == K_WAKE || kind == K_PREEMPT ? me : (n > 1 ? fifo_first(r, n, me) : me);
  struct sth *t = def;
  if (C.replay) {
    int want = -1;
    if (kind == K_PREEMPT) want = preempt_to;
    else if (rpos < S->nreplay && S->replay[rpos].step == step && S->replay[rpos].kind == DEV_SWITCH) want = S->replay[rpos++].tid;
    for (int i = 0; i < n; i++) if (r[i]->tid == want) { t = r[i]; why = "dev"; }
  } else switch (C.strategy) {
    case STRAT_RANDOM:
      if (kind == K_WAKE) { if (C.wake_1in && rr(C.wake_1in) == 0) t = r[rr(n)]; }
      else if (kind == K_YIELD && n > 1) { do t = r[rr(n)]; while (t == me); }
      else t = r[rr(n)];
      break;
    case STRAT_STICKY:
      if (kind == K_BLOCK) t = r[rr(n)];
      break;
    case STRAT_PCT: {
      if (kind == K_YIELD || kind == K_PREEMPT) me->prio = --pct_low;
      t = 0; for (int i = 0; i < n; i++) if (!t || r[i]->prio > t->prio) t = r[i];
      break; }
    default: break;
  }
  if (!C.replay) { if (kind == K_PREEMPT) record_at(step0, DEV_PREEMPT, t->tid, 0); else if (t != def) record(DEV_SWITCH, t->tid, 0); }
  tr("%lu t=%lu %s %d->%d(%s) ready=%d %s\n", step, now(), kind == K_BLOCK ? "block" : kind == K_PREEMPT ? "preempt" : kind == K_YIELD ? "yield" : "wake", me->tid, t->tid, t->name, n, why);
  last_switch = step;
  if (t == me) { me->state = ST_RUN; recompute(); return; }
  recompute();
  handoff(t);
  if (me->state == ST_EXITED) for (;;) { raw6(SYS_futex, (long)&me->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0); if (me->state != ST_EXITED) break; struct timespec z = {1000, 0}; raw3(SYS_nanosleep, &z, 0, 0); }
  wait_go(me);
}
static void die(void) { self->state = ST_DEAD; decide(K_BLOCK); for (;;) raw3(SYS_pause, 0, 0, 0); }
static void stall(uint64_t d) { self->state = ST_SLEEP; self->deadline = now() + d; self->timed_out = 0; self->stalled = 1; decide(K_BLOCK); self->stalled = 0; }
static void block(int st, uint64_t deadline) {
  if (self->doomed && st != ST_FUTEX) die();
  self->state = st; self->deadline = deadline; self->timed_out = 0;
  decide(K_BLOCK);
}
static void point(int kind) { self->state = ST_READY; self->seq = ++seqc; decide(kind); }
static int cmp_spur(void) { /* spurious wake of one futex waiter */
  struct sth *c[MAXT]; int n = 0;
  for (int i = 0; i < nt; i++) if (T[i].state == ST_FUTEX) c[n++] = &T[i];
  if (!n) return -1;
  struct sth *t = c[rr(n)]; make_ready(t, 0); return t->tid;
}
static void slow_point(void) {
  struct sth *me = self;
  if (step >= C.max_steps) sim_end(2);
  if (C.replay) {
    skip_devs();
    if (rpos < S->nreplay && S->replay[rpos].step <= step) {
      struct sim_dev *d = &S->replay[rpos];
      switch (d->kind) {
        case DEV_STALL: rpos++; S->stalls++; tr("%lu t=%lu STALL %d %lu\n", step, now(), me->tid, d->arg); stall(d->arg); return;
        case DEV_SPURIOUS: rpos++; for (int i = 0; i < nt; i++) if (T[i].tid == d->tid && T[i].state == ST_FUTEX) { S->spurious++; make_ready(&T[i], 0); tr("%lu SPURIOUS %d\n", step, d->tid); } recompute(); return;
        case DEV_CRASH: rpos++; do_crash((int)d->arg); point(K_WAKE); return;
        case DEV_PREEMPT: rpos++; preempt_to = d->tid; point(K_PREEMPT); return;
        default: break;
      }
    }
  } else {
    if (C.crash_step && step >= C.crash_step) { C.crash_step = 0; record(DEV_CRASH, -1, C.crash_group); do_crash((int)C.crash_group);
      point(K_WAKE); return; }
    if (step >= next_stall) { next_stall = step + gap(C.stall_1in);
      uint64_t hi = 1; while ((1000ull << hi) < C.stall_max_ns && hi < 40) hi++; /* log-uniform */
      uint64_t d = (1000ull << rr(hi)); d += rr(d); S->stalls++;
      record(DEV_STALL, me->tid, d); tr("%lu t=%lu STALL %d %lu\n", step, now(), me->tid, d); stall(d); return; }
    if (step >= next_spur) { next_spur = step + gap(C.spurious_1in); int t = cmp_spur();
      if (t >= 0) { S->spurious++; record(DEV_SPURIOUS, t, 0); tr("%lu SPURIOUS %d\n", step, t); recompute(); return; } }
    if (step >= next_preempt) {
      if (C.strategy == STRAT_PCT) { pct_i++; next_preempt = pct_i < pct_n ? pct_pts[pct_i] : ~0ull >> 1; if (next_preempt <= step) next_preempt = step + 1; }
      else next_preempt = step + gap(C.preempt_1in);
      point(K_PREEMPT); return; }
  }
  /* from here on everything is a function of the execution alone, in both modes */
  if (step - last_switch >= SPIN_LIMIT) { if (me->doomed) die(); point(K_YIELD); return; }
  if (min_deadline <= now()) { point(K_WAKE); return; }
  recompute();
}
/* The hook behind every atomic operation. */
static inline void P(void) { if (sim_on && self) { if (++step >= next_ev) slow_point(); } }
static inline int act(void) { return sim_on && self != 0; }
static void wake_point(void) { point(K_WAKE); }

/* ---- atomics ---- */
void __tsan_init(void) {}
#define A(N, TT) \
TT __tsan_atomic##N##_load(const volatile TT *a, int mo) { P(); return __atomic_load_n(a, 5); } \
void __tsan_atomic##N##_store(volatile TT *a, TT v, int mo) { P(); __atomic_store_n(a, v, 5); } \
TT __tsan_atomic##N##_exchange(volatile TT *a, TT v, int mo) { P(); return __atomic_exchange_n(a, v, 5); } \
TT __tsan_atomic##N##_fetch_add(volatile TT *a, TT v, int mo) { P(); return __atomic_fetch_add(a, v, 5); } \
TT __tsan_atomic##N##_fetch_sub(volatile TT *a, TT v, int mo) { P(); return __atomic_fetch_sub(a, v, 5); } \
TT __tsan_atomic##N##_fetch_and(volatile TT *a, TT v, int mo) { P(); return __atomic_fetch_and(a, v, 5); } \
TT __tsan_atomic##N##_fetch_or(volatile TT *a, TT v, int mo) { P(); return __atomic_fetch_or(a, v, 5); } \
TT __tsan_atomic##N##_fetch_xor(volatile TT *a, TT v, int mo) { P(); return __atomic_fetch_xor(a, v, 5); } \
TT __tsan_atomic##N##_fetch_nand(volatile TT *a, TT v, int mo) { P(); return __atomic_fetch_nand(a, v, 5); } \
TT __tsan_atomic##N##_compare_exchange_val(volatile TT *a, TT c, TT v, int mo, int f) { P(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile TT *a, TT *c, TT v, int mo, int f) { P(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile TT *a, TT *c, TT v, int mo, int f) { P(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
/* 128-bit: only serialised execution needs it, so plain accesses are enough. */
typedef unsigned __int128 u128;
u128 __tsan_atomic128_load(const volatile u128 *a, int mo) { P(); return *a; }
void __tsan_atomic128_store(volatile u128 *a, u128 v, int mo) { P(); *a = v; }
u128 __tsan_atomic128_exchange(volatile u128 *a, u128 v, int mo) { P(); u128 o = *a; *a = v; return o; }
u128 __tsan_atomic128_compare_exchange_val(volatile u128 *a, u128 c, u128 v, int mo, int f) { P(); u128 o = *a; if (o == c) *a = v; return o; }
int __tsan_atomic128_compare_exchange_strong(volatile u128 *a, u128 *c, u128 v, int mo, int f) { P(); u128 o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; }
int __tsan_atomic128_compare_exchange_weak(volatile u128 *a, u128 *c, u128 v, int mo, int f) { return __tsan_atomic128_compare_exchange_strong(a, c, v, mo, f); }
void __tsan_atomic_thread_fence(int mo) { P(); __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int mo) {}

/* ---- threads ---- */
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_detach)(pthread_t);
__attribute__((constructor)) static void ctor(void) {
  real_create = dlsym(RTLD_NEXT, "pthread_create"); real_join = dlsym(RTLD_NEXT, "pthread_join"); real_detach = dlsym(RTLD_NEXT, "pthread_detach");
}
static void thread_gone(void) {
  struct sth *me = self;
  for (int i = 0; i < nt; i++) if (T[i].state == ST_JOIN && T[i].join == me) make_ready(&T[i], 0);
  me->state = ST_EXITED; decide(K_BLOCK);
}
static void exit_dtor(void *v) {
  if (!sim_on) return;
  struct sth *me = v;
  if (++me->rounds < PTHREAD_DESTRUCTOR_ITERATIONS) { pthread_setspecific(exit_key, v); return; }
  thread_gone();
}
static void *tramp(void *v) {
  struct sth *me = v; self = me;
  wait_go(me);
  pthread_setspecific(exit_key, me);
  me->retv = me->fn(me->arg);
  return me->retv;
}
static struct sth *new_thread(void *(*fn)(void *), void *arg, int group) {
  if (nt >= MAXT) sim_end(4);
  struct sth *t = &T[nt]; memset(t, 0, sizeof *t);
  t->tid = nt++; t->fn = fn; t->arg = arg; t->group = group; t->deadline = ~0ull;
  t->prio = (1ull << 40) + rr(1ull << 30);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (char *)STACK_BASE + (uint64_t)t->tid * STACK_SZ + 4096, STACK_SZ - 4096);
  t->state = ST_READY; t->seq = ++seqc;
  if (real_create(&t->pt, &at, tramp, t)) { fprintf(stderr, "simrt: pthread_create failed\n"); raw3(SYS_exit_group, 97, 0, 0); }
  pthread_attr_destroy(&at);
  return t;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!act()) return real_create(pt, at, fn, arg);
  struct sth *t = new_thread(fn, arg, self->group); *pt = t->pt; wake_point(); return 0;
}
int pthread_join(pthread_t pt, void **rv) {
  if (!act()) return real_join(pt, rv);
  for (int i = 0; i < nt; i++) if (T[i].pt == pt) {
    if (T[i].state != ST_EXITED) { self->join = &T[i]; block(ST_JOIN, ~0ull); }
    if (rv) *rv = T[i].retv; return 0; }
  return ESRCH;
}
int pthread_detach(pthread_t pt) { if (!act()) return real_detach(pt); return 0; }
int pthread_setname_np(pthread_t pt, const char *n) { if (act()) for (int i = 0; i < nt; i++) if (T[i].pt == pt) { strncpy(T[i].name, n, sizeof T[i].name - 1); } return 0; }
int sched_yield(void) { if (!act()) return ret(raw3(SYS_sched_yield, 0, 0, 0)); if (self->doomed && ++self->zyields > 2000) die(); point(K_YIELD); return 0; }
int sched_getaffinity(pid_t p, size_t sz, cpu_set_t *m) { if (sz) memset(m, 0, sz); ((unsigned char *)m)[0] = 1; return 0; }

/* ---- clocks and sleeps ---- */
#define MONO_BASE 1000000ull
#define REAL_BASE 1700000000ull
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!act()) return ret(raw3(SYS_clock_gettime, c, ts, 0));
  uint64_t n = now(); ts->tv_sec = n / 1000000000 + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL_BASE : MONO_BASE); ts->tv_nsec = n % 1000000000; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (!act()) return ret(raw3(SYS_gettimeofday, tv, tz, 0));
  uint64_t n = now(); tv->tv_sec = n / 1000000000 + REAL_BASE; tv->tv_usec = n % 1000000000 / 1000; return 0;
}
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
static uint64_t rel(const struct timespec *ts) { return (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec; }
static uint64_t absn(const struct timespec *ts, int realtime) { uint64_t s = ts->tv_sec, b = realtime ? REAL_BASE : MONO_BASE; return s < b ? 0 : (s - b > 10000000000ull ? ~0ull >> 1 : (s - b) * 1000000000ull + ts->tv_nsec); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *q, struct timespec *rem) {
  if (!act()) { long r = raw4(SYS_clock_nanosleep, c, fl, q, rem); return r < 0 ? (int)-r : 0; }
  block(ST_SLEEP, fl & TIMER_ABSTIME ? absn(q, c == CLOCK_REALTIME) : now() + rel(q)); return 0;
}
int nanosleep(const struct timespec *q, struct timespec *rem) { if (!act()) return ret(raw3(SYS_nanosleep, q, rem, 0)); block(ST_SLEEP, now() + rel(q)); return 0; }
int usleep(useconds_t u) { struct timespec ts = { u / 1000000, (long)(u % 1000000) * 1000 }; return nanosleep(&ts, 0); }

/* ---- futex, randomness ---- */
static long do_futex(uint32_t *a, int op, uint32_t v, const struct timespec *ts, uint32_t mask) {
  int cmd = op & 0x7f;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (++step >= next_ev) slow_point();
    if (__atomic_load_n(a, 5) != v) return -EAGAIN;
    uint64_t d = !ts ? ~0ull : cmd == FUTEX_WAIT ? now() + rel(ts) : absn(ts, op & FUTEX_CLOCK_REALTIME);
    self->faddr = a; self->fmask = cmd == FUTEX_WAIT ? ~0u : mask;
    block(ST_FUTEX, d);
    return self->timed_out ? -ETIMEDOUT : 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t m = cmd == FUTEX_WAKE ? ~0u : mask; long k = 0; int own = stat_own(a);
    while (k < (long)v) { struct sth *b = 0;
      for (int i = 0; i < nt; i++) if (T[i].state == ST_FUTEX && T[i].faddr == a && (!own || T[i].group == self->group) && (T[i].fmask & m) && (!b || T[i].seq < b->seq)) b = &T[i];
      if (!b) break; make_ready(b, 0); k++; }
    if (k) wake_point(); else P();
    return k;
  }
  fprintf(stderr, "simrt: unsupported futex op %d\n", op); raw3(SYS_exit_group, 98, 0, 0); return 0;
}
static void fill(uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(xs(rd) >> 24); }
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (act()) {
    if (n == SYS_futex) return ret(do_futex((uint32_t *)a, (int)b, (uint32_t)c, (void *)d, (uint32_t)f));
    if (n == SYS_getrandom) { fill((uint8_t *)a, b); return b; }
    if (n == SYS_gettid) return 1000 + self->tid;
  }
  return ret(raw6(n, a, b, c, d, e, f));
}
ssize_t getrandom(void *b, size_t n, unsigned fl) { if (!act()) return ret(raw3(SYS_getrandom, b, n, fl)); fill(b, n); return n; }

/* ---- I/O ---- */
#define MAXFD 1024
static struct { uint8_t sim; int group; int peer; } FD[MAXFD];

static int (*connect_cb)(int group, int fd);
void simnet_set_connect(int (*cb)(int, int)) { connect_cb = cb; }
void simnet_group_crashed(int g) { for (int i = 0; i < MAXFD; i++) if (FD[i].sim && FD[i].group == g) raw3(SYS_shutdown, i, SHUT_RDWR, 0); }
static void io(void) { io_dirty = 1; wake_point(); }
static inline void doom(void) { if (act() && self->doomed) die(); }
/* ... but not while it reads a file: that may be inside the initialisation of something all processes share. */
static inline void doom_fd(int fd) { if (fd >= 0 && fd < MAXFD && FD[fd].sim) doom(); }
static int is_blocking(int fd) { long f = raw3(SYS_fcntl, fd, F_GETFL, 0); return f >= 0 && !(f & O_NONBLOCK); }
static void wait_fd(int fd, short ev) { /* blocking fd: wait in the simulation */
  struct pollfd p = { fd, ev, 0 };
  while (raw3(SYS_poll, &p, 1, 0) == 0) { self->pfds = &p; self->npfds = 1; block(ST_POLL, ~0ull); }
}
#define RD(fd) doom_fd(fd); if (act() && fd > 2) { P(); if (is_blocking(fd)) wait_fd(fd, POLLIN); }
#define WR(fd) doom_fd(fd); if (act() && fd > 2 && is_blocking(fd)) wait_fd(fd, POLLOUT);
#define DONE(fd, r) { long r_ = (r); if (act() && fd > 2 && r_ >= 0) { io(); } return ret(r_); }
ssize_t read(int fd, void *b, size_t n) { RD(fd) DONE(fd, raw3(SYS_read, fd, b, n)) }
ssize_t readv(int fd, const struct iovec *v, int n) { RD(fd) DONE(fd, raw3(SYS_readv, fd, v, n)) }
ssize_t recv(int fd, void *b, size_t n, int fl) { RD(fd) DONE(fd, raw6(SYS_recvfrom, fd, (long)b, n, fl, 0, 0)) }
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { RD(fd) DONE(fd, raw6(SYS_recvfrom, fd, (long)b, n, fl, (long)a, (long)l)) }
ssize_t recvmsg(int fd, struct msghdr *m, int fl) { RD(fd) DONE(fd, raw3(SYS_recvmsg, fd, m, fl)) }
ssize_t write(int fd, const void *b, size_t n) { WR(fd) DONE(fd, raw3(SYS_write, fd, b, n)) }
ssize_t writev(int fd, const struct iovec *v, int n) { WR(fd) DONE(fd, raw3(SYS_writev, fd, v, n)) }
ssize_t send(int fd, const void *b, size_t n, int fl) { WR(fd) DONE(fd, raw6(SYS_sendto, fd, (long)b, n, fl | MSG_NOSIGNAL, 0, 0)) }
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { WR(fd) DONE(fd, raw6(SYS_sendto, fd, (long)b, n, fl | MSG_NOSIGNAL, (long)a, l)) }
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) { WR(fd) DONE(fd, raw3(SYS_sendmsg, fd, m, fl | MSG_NOSIGNAL)) }
int close(int fd) { doom_fd(fd); if (fd >= 0 && fd < MAXFD) FD[fd].sim = 0; DONE(fd, raw3(SYS_close, fd, 0, 0)) }
int shutdown(int fd, int h) { doom(); DONE(fd, raw3(SYS_shutdown, fd, h, 0)) }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) { doom(); DONE(fd, raw4(SYS_epoll_ctl, ep, op, fd, ev)) }
static int do_epoll(int ep, struct epoll_event *ev, int max, uint64_t d) {
  doom();
  if (d != 0) { struct pollfd p = { ep, POLLIN, 0 };
    if (++step >= next_ev) slow_point();
    if (raw3(SYS_poll, &p, 1, 0) <= 0) { self->epfd = ep; block(ST_EPOLL, d); } }
  else P();
  return (int)ret(raw6(SYS_epoll_wait, ep, (long)ev, max, 0, 0, 0));
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int to) {
  if (!act()) return ret(raw4(SYS_epoll_wait, ep, ev, max, to));
  return do_epoll(ep, ev, max, to < 0 ? ~0ull : to == 0 ? 0 : now() + (uint64_t)to * 1000000ull);
}
int epoll_pwait(int ep, struct epoll_event *ev, int max, int to, const sigset_t *s) { if (!act()) return ret(raw6(SYS_epoll_pwait, ep, (long)ev, max, to, (long)s, 8)); return epoll_wait(ep, ev, max, to); }
int poll(struct pollfd *p, nfds_t n, int to) {
  if (!act()) return ret(raw3(SYS_poll, p, n, to));
  doom();
  if (++step >= next_ev) slow_point();
  long r = raw3(SYS_poll, p, n, 0);
  if (r != 0 || to == 0) return ret(r);
  self->pfds = p; self->npfds = n; block(ST_POLL, to < 0 ? ~0ull : now() + (uint64_t)to * 1000000ull);
  return ret(raw3(SYS_poll, p, n, 0));
}
/* poll with a nanosecond deadline (absolute simulated time), for the simulated peers */
int simnet_poll_until(struct pollfd *p, nfds_t n, uint64_t deadline) {
  long r = raw3(SYS_poll, p, n, 0); if (r != 0) { wake_point(); return (int)r; }
  if (deadline <= now()) { P(); return 0; }
  self->pfds = p; self->npfds = n; block(ST_POLL, deadline);
  return (int)raw3(SYS_poll, p, n, 0);
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  doom();
  if (!act() || a->sa_family == AF_UNIX) return ret(raw3(SYS_connect, fd, a, l));
  if (a->sa_family != AF_INET) { errno = ECONNREFUSED; return -1; }
  long fl = raw3(SYS_fcntl, fd, F_GETFL, 0); int sv[2];
  if (raw4(SYS_socketpair, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) < 0) { errno = ECONNREFUSED; return -1; }
  if (!connect_cb || connect_cb(self->group, sv[1]) < 0) { raw3(SYS_close, sv[0], 0, 0); raw3(SYS_close, sv[1], 0, 0); errno = ECONNREFUSED; return -1; }
  raw3(SYS_dup3, sv[0], fd, O_CLOEXEC); raw3(SYS_close, sv[0], 0, 0); raw3(SYS_fcntl, fd, F_SETFL, fl);
  raw3(SYS_fcntl, sv[1], F_SETFL, O_NONBLOCK);
  if (fd < MAXFD) { FD[fd].sim = 1; FD[fd].group = self->group; FD[fd].peer = sv[1]; }
  io(); return 0;
}
int setsockopt(int fd, int lvl, int o, const void *v, socklen_t l) {
  if (fd >= 0 && fd < MAXFD && FD[fd].sim && lvl != SOL_SOCKET) return 0;
  return ret(raw6(SYS_setsockopt, fd, lvl, o, (long)v, l, 0));
}
static int fake_name(struct sockaddr *a, socklen_t *l) { struct sockaddr_in s = { .sin_family = AF_INET, .sin_port = htons(5672), .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s; return 0; }
int getpeername(int fd, struct sockaddr *a, socklen_t *l) { if (fd >= 0 && fd < MAXFD && FD[fd].sim) return fake_name(a, l); return ret(raw3(SYS_getpeername, fd, a, l)); }
int getsockname(int fd, struct sockaddr *a, socklen_t *l) { if (fd >= 0 && fd < MAXFD && FD[fd].sim) return fake_name(a, l); return ret(raw3(SYS_getsockname, fd, a, l)); }

/* ---- allocator ---- */
static char *hp; static void *fl_[48];
static int cls(size_t n) { int c = 0; size_t s = 16; while (s < n) { if (s + s / 2 >= n && s >= 32) return c * 2 + 1; s <<= 1; c++; } return c * 2; }
static size_t csz(int k) { size_t s = 16ul << (k / 2); return k & 1 ? s + s / 2 : s; }
void *sim_alloc(size_t n, size_t al) {
  if (!act()) { void *p = 0; if (al <= 16) return malloc(n ? n : 1); return posix_memalign(&p, al, n) ? 0 : p; }
  if (al > 16 || n > (1ul << 26)) { if (n < al) n = al; hp = (char *)(((uint64_t)hp + al - 1) & ~(al - 1)); if (al <= 16) hp = (char *)(((uint64_t)hp + 15) & ~15ul); void *p = hp; hp += (n + 15) & ~15ul; if (hp > (char *)HEAP_BASE + HEAP_SZ) abort(); return p; }
  int k = cls(n); if (fl_[k]) { void *p = fl_[k]; fl_[k] = *(void **)p; return p; }
  size_t z = (csz(k) + 15) & ~15ul; char *p = hp; hp += z; if (hp > (char *)HEAP_BASE + HEAP_SZ) abort(); return p;
}
void sim_free(void *p, size_t n, size_t al) {
  if ((uint64_t)p < HEAP_BASE || (uint64_t)p >= HEAP_BASE + HEAP_SZ) { if (!act()) free(p); return; /* pre-run memory: leak, the process is about to end */ }
  if (!act() || al > 16 || n > (1ul << 26)) return;
  memset(p, 0xDB, n < 512 ? n : 512);
  int k = cls(n); *(void **)p = fl_[k]; fl_[k] = p;
}

/* ---- control ---- */
uint64_t sim_now(void) { return now(); }
uint64_t sim_step(void) { return step; }
uint64_t sim_rand(void) { return xs(rd); }
int sim_tid(void) { return self ? self->tid : -1; }
void sim_set_group(int g) { if (self) { self->group = g; stat_switch(g); } }
int sim_group_crashed(int g) { for (int i = 0; i < nt; i++) if (T[i].group == g && T[i].doomed) return 1; return 0; }
int sim_group(void) { return self ? self->group : -1; }
void sim_crash_group(int g) { if (!act()) return; do_crash(g); if (self->doomed) die(); else point(K_WAKE); }
void sim_die_if_crashed(void) { if (act() && self->doomed) die(); }
void sim_event(uint64_t v) { mix(&S->event_hash, v); }
void sim_trace(const char *s) { tr("%lu t=%lu [%d] %s\n", step, now(), self ? self->tid : -1, s); }
int sim_tracing(void) { return trace_fd >= 0; }
void sim_end_run(void) { sim_end(0); }
void sim_yield(void) { if (act()) point(K_YIELD); }
void sim_set_faults(uint64_t stall_1in, uint64_t spur_1in) { /* quiesce / re-enable scheduler faults */
  C.stall_1in = stall_1in; C.spurious_1in = spur_1in; next_stall = step + gap(stall_1in); next_spur = step + gap(spur_1in); recompute();
}
void sim_reserve(void) {
  if (mmap((void *)STACK_BASE, MAXT * STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)STACK_BASE ||
      mmap((void *)HEAP_BASE, HEAP_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)HEAP_BASE) { perror("simrt: mmap"); _exit(99); }
}
/* Called once in a fresh child process; never returns. */
void sim_run(const struct sim_cfg *c, struct sim_shared *s, void *(*fn)(void *), void *arg, void (*cb)(int), int tfd) {
  C = *c; S = s; end_cb = cb; trace_fd = tfd; hp = (char *)HEAP_BASE;
  uint64_t x = C.seed_sched; rs[0] = sm(&x); rs[1] = sm(&x) | 1; x = C.seed_data ^ 0x5bd1e995; rd[0] = sm(&x); rd[1] = sm(&x) | 1;
  if (!C.tick_ns) C.tick_ns = 1;
  s->sched_hash = s->event_hash = 0xcbf29ce484222325ull;
  next_preempt = next_stall = next_spur = ~0ull >> 1;
  if (!C.replay) {
    if (C.strategy == STRAT_PCT) { pct_low = 1ull << 39; pct_n = C.pct_depth > 64 ? 64 : (int)C.pct_depth;
      for (int i = 0; i < pct_n; i++) pct_pts[i] = 1 + rr(C.pct_len);
      for (int i = 0; i < pct_n; i++) for (int j = i + 1; j < pct_n; j++) if (pct_pts[j] < pct_pts[i]) { uint64_t q = pct_pts[i]; pct_pts[i] = pct_pts[j]; pct_pts[j] = q; }
      next_preempt = pct_n ? pct_pts[0] : ~0ull >> 1;
    } else if (C.strategy == STRAT_RANDOM) next_preempt = gap(C.preempt_1in);
    next_stall = gap(C.stall_1in); next_spur = gap(C.spurious_1in);
  }
  pthread_key_create(&exit_key, exit_dtor);
  if (stat_n) { stat_new = stat_page(); stat_save(stat_new); }
  min_deadline = ~0ull; last_switch = 0; recompute();
  sim_on = 1;
  struct sth *t = new_thread(fn, arg, 0); strcpy(t->name, "main");
  t->state = ST_RUN; cur = t; __atomic_store_n(&t->go, 1, 5);
  raw6(SYS_futex, (long)&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
  for (;;) raw3(SYS_pause, 0, 0, 0);
}
/* std's stack-overflow handler insists on a guard page size; our stacks are one reserved region. */
int pthread_attr_getguardsize(const pthread_attr_t *at, size_t *g) { *g = 4096; return 0; }
