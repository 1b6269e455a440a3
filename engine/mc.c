// Controlled-scheduler model checking engine.
//
// The code under test is compiled with rustc's ThreadSanitizer instrumentation pass, but is linked
// against THIS file instead of the TSan runtime: every atomic operation, plain memory access, bulk
// copy, allocation and free of the real implementation lands here.  On top of that stream sit
//   * a deterministic scheduler: OS threads, exactly one runs, switches only before atomic ops,
//   * a deviation-bounded exhaustive explorer (preemptions), with an exact redundancy rule,
//   * a C11 happens-before race detector (vector clocks from the *program's* orderings only),
//   * an arena heap with never-reused blocks: use-after-free, double free, out-of-bounds, leaks,
//   * optional weak-memory exploration: a load may return an older store that C11 coherence and
//     happens-before still permit (bounded number of such stale reads per execution).
#define _GNU_SOURCE
#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef unsigned __int128 u128;
typedef uintptr_t up;

#define MAXT 6 // thread 0 is the driver (setup / final checks), 1..MAXT-1 are scheduled threads
#define MAXSTEPS 600000
#define MAXDEV 12
#define ARENA_BASE 0x200000000000ull
#define ARENA_SIZE (64ull << 20)
#define CELLS 14
#define RA ((up)__builtin_return_address(0))

// ------------------------------------------------------------------------------------------------
// shared (cross-process) results
// ------------------------------------------------------------------------------------------------
typedef struct {
  int step, alt; // alt: thread id for schedule points, +8 when the preempted thread is suspended there, 16+i for "read the i-th older store"
} Dev;

typedef struct {
  char kind[32];
  char msg[900];
  int nd;
  Dev d[MAXDEV];
} Viol;

#define MAXVIOL 8
#define OUTC 65536
#define MAXITEMS 200000
typedef struct {
  volatile u64 execs, steps, nodes, switches, pruned, races_seen;
  volatile u64 next_item;
  volatile int stop, capped, nviol, vlock, diverged, max_steps;
  volatile u64 outcomes[OUTC];
  volatile u32 noutcomes;
  Viol v[MAXVIOL];
} Shared;
static Shared *G;

// ------------------------------------------------------------------------------------------------
// threads
// ------------------------------------------------------------------------------------------------
typedef struct {
  u32 c[MAXT];
} VC;
enum { OP_START = 0, OP_LOAD, OP_STORE, OP_RMW, OP_LOCK, OP_UNLOCK, OP_NOTE };
enum { ST_NONE = 0, ST_READY, ST_SPIN, ST_DONE };

#define SPINTAB 64
typedef struct Thread {
  int id;
  int state;
  VC vc, relf, acqp;
  up paddr;
  int psize, pkind;
  // spin detection
  up last_addr;
  u64 last_val;
  int consec;
  struct {
    up a;
    u64 v;
    u32 n;
  } tab[SPINTAB];
  int ntab;
  u64 wcount_seen;
  int grace;
  int limit_mul;
  void *sp;
} Thread;

static Thread TH[MAXT];
static Thread *self;               // NULL: not part of an execution
static int nthreads;               // number of scheduled threads of the scenario
static volatile int in_exec;       // between setup and end of final checks
static u64 wcount;                 // writes so far in this execution
static int frozen_tid;             // thread that is not resumed once preempted until all others are done (0 = none)
static int suspend_late;           // it may be preempted before; the suspension is a choice of its own, after one of its writes
static int suspended;              // it has been suspended
static int delay_mask;             // threads that, once preempted, are resumed only when no other thread can run (0 = none);
                                   // then only these threads are ever preempted
static int delay_over;
static int step_limit;

typedef struct {
  up addr, paddr;
  u16 size, psize;
  u8 kind, pkind, tid, prev, prev_en, wr, enmask, live, nstale, stale, frees;
} Step;
static Step *trace;
static int nsteps;
static const Dev *cur_dev;
static int cur_nd, cur_di;
static int last_tid, run_len;
static int viol_flag; // violation recorded in this execution
static Viol cur_viol;
static int weak_on;

// callbacks supplied by the harness
typedef struct {
  void (*setup)(void *);
  void (*body)(void *, int);
  int (*check)(void *, char *, int); // 0 ok, otherwise a message was written
  u64 (*outcome)(void *);
  void *ctx;
} Cb;
static Cb cb;

void mc_violation(const char *kind, const char *fmt, ...);
static void fatal_violation(const char *kind, const char *fmt, ...);
static int memcmp_raw(const void *a, const void *b, size_t n);

// The threads of a scenario are coroutines of one OS thread: only one may run at a time anyway.
__attribute__((naked, noinline)) static void mc_switch(void **save, void *to) {
  (void)save;
  (void)to;
  __asm__ volatile("pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
                   "movq %rsp, (%rdi)\n movq %rsi, %rsp\n"
                   "popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
}
static void resume(Thread *from, Thread *to) {
  if (from == to) return;
  self = to;
  mc_switch(&from->sp, to->sp);
}

// ------------------------------------------------------------------------------------------------
// arena heap
// ------------------------------------------------------------------------------------------------
typedef struct {
  up base;
  u64 size;
  u8 freed, atid, harness;
  u32 seq;
} Block;
#define MAXBLOCKS 400000
static Block *blocks;
static u32 nblocks;
static up arena_top = ARENA_BASE;
static u32 *bmap; // per 16 bytes -> block index
static u8 *usable; // per 16 bytes: how many of them belong to a live block (always a prefix)
static int shadow_off; // bookkeeping of the stubs: no heap/race tracking
void mc_shadow_off(int d) { shadow_off += d; }
static int harness_alloc; // allocations made by the harness itself are exempt from the leak check

static inline int in_arena(up a) { return a - ARENA_BASE < ARENA_SIZE; }

static Block *find_block(up a) {
  u32 i = bmap[(a - ARENA_BASE) >> 4];
  if (i >= nblocks) return NULL;
  Block *b = &blocks[i];
  if (a < b->base || a >= b->base + b->size) return NULL;
  return b;
}

void mc_harness_alloc(int d) { harness_alloc += d; }

static void race_free(up base, u64 size);

void *mc_alloc(size_t size, size_t align) {
  if (!self || !in_exec) {
    void *p = NULL;
    if (align <= 16) return malloc(size ? size : 1);
    if (posix_memalign(&p, align, size ? size : 1)) return NULL;
    return p;
  }
  if (align < 16) align = 16;
  up base = (arena_top + align - 1) & ~(up)(align - 1);
  u64 sz = size ? size : 1;
  up end = (base + sz + 15) & ~(up)15;
  if (end + 32 > ARENA_BASE + ARENA_SIZE || nblocks >= MAXBLOCKS) fatal_violation("harness-arena", "arena exhausted");
  arena_top = end + 16; // red zone
  u32 i = nblocks++;
  blocks[i] = (Block){base, sz, 0, (u8)self->id, (u8)(harness_alloc > 0), i};
  for (up a = base; a < end; a += 16) bmap[(a - ARENA_BASE) >> 4] = i;
  bmap[(end - ARENA_BASE) >> 4] = 0xffffffffu;
  memset(usable + ((base - ARENA_BASE) >> 4), 16, sz >> 4);
  if (sz & 15) usable[(base + sz - ARENA_BASE) >> 4] = sz & 15;
  memset((void *)base, 0xCB, sz);
  return (void *)base;
}

void mc_free(void *p) {
  up a = (up)p;
  if (!in_arena(a)) {
    free(p);
    return;
  }
  if (!in_exec) return;
  Block *b = find_block(a);
  if (!b || b->base != a) {
    mc_violation("bad-free", "free of a pointer that is not a live allocation");
    return;
  }
  if (b->freed) {
    mc_violation("double-free", "block #%u (%lu bytes) freed twice", b->seq, (unsigned long)b->size);
    return;
  }
  if (self && self->id && !shadow_off) race_free(b->base, b->size);
  if (self && self->id && nsteps && !shadow_off) trace[nsteps - 1].frees = 1;
  b->freed = 1;
  memset(usable + ((b->base - ARENA_BASE) >> 4), 0, (b->size + 15) >> 4);
}

// number of non-harness blocks still allocated
u64 mc_leaked(char *buf, int n) {
  u64 k = 0;
  for (u32 i = 0; i < nblocks; i++)
    if (!blocks[i].freed && !blocks[i].harness) {
      if (!k && buf) snprintf(buf, n, "block #%u of %lu bytes", i, (unsigned long)blocks[i].size);
      k++;
    }
  return k;
}
u64 mc_live_blocks(void) { return mc_leaked(NULL, 0); }

// ------------------------------------------------------------------------------------------------
// happens-before shadow
// ------------------------------------------------------------------------------------------------
typedef struct {
  u32 clk;
  u8 tid, mask, wr, at;
} Cell;
typedef struct {
  u32 gen;
  u8 n;
  u16 loc[8];
  Cell c[CELLS];
} Gran;
static Gran *grans;
static u32 gen;

// atomic locations
#define HIST 8
#define RREC 24
typedef struct {
  u128 val;
  VC rel;
  u32 clk;
  u8 tid, hasrel;
  u32 idx; // modification order index
} Store;
typedef struct {
  up addr;
  VC rel;
  u32 mo; // index of newest store
  u8 nh;
  Store h[HIST]; // h[0] oldest retained
  u8 nr;
  struct {
    u32 clk, idx;
    u8 tid;
  } r[RREC];
} Loc;
#define MAXLOCS 60000
static Loc *locs;
static u32 nlocs;
#define NAH 8192
static struct {
  up a;
  u32 gen;
  u16 loc;
} nah[NAH];

static inline Gran *gran(up a) {
  Gran *g = &grans[(a - ARENA_BASE) >> 3];
  if (g->gen != gen) {
    g->gen = gen;
    g->n = 0;
    memset(g->loc, 0, sizeof g->loc);
  }
  return g;
}
static Loc *getloc(up a) {
  u16 *slot;
  if (in_arena(a))
    slot = &gran(a)->loc[a & 7];
  else {
    u32 h = (u32)((a >> 2) * 2654435761u) % NAH;
    while (nah[h].gen == gen && nah[h].a != a) h = (h + 1) % NAH;
    if (nah[h].gen != gen) {
      nah[h].gen = gen;
      nah[h].a = a;
      nah[h].loc = 0;
    }
    slot = &nah[h].loc;
  }
  if (!*slot) {
    if (nlocs >= MAXLOCS) fatal_violation("harness-locs", "too many atomic locations");
    *slot = (u16)nlocs++;
    Loc *l = &locs[*slot];
    l->addr = a;
    memset(&l->rel, 0, sizeof l->rel);
    l->mo = 0;
    l->nh = 0;
    l->nr = 0;
  }
  return &locs[*slot];
}
static inline void vjoin(VC *a, const VC *b) {
  for (int i = 0; i < MAXT; i++)
    if (b->c[i] > a->c[i]) a->c[i] = b->c[i];
}

static int race_reports_on = 1;
static int freeing; // the access being recorded is the release of the block
static void describe(up a, char *out, int n) {
  Block *b = in_arena(a) ? find_block(a) : NULL;
  if (b)
    snprintf(out, n, "offset %lu of a %lu-byte block", (unsigned long)(a - b->base), (unsigned long)b->size);
  else
    snprintf(out, n, "address %lx", (unsigned long)a);
}

static void hb_gran(up a, int mask, int wr, int at, up pc) {
  Gran *g = gran(a);
  Thread *t = self;
  int w = 0;
  for (int i = 0; i < g->n; i++) {
    Cell c = g->c[i];
    int hb = c.clk <= t->vc.c[c.tid];
    if ((c.mask & mask) && !hb && (c.wr | wr) && !(c.at & at)) {
      G->races_seen++;
      char d[96];
      if (freeing) {
        describe(a, d, sizeof d);
        mc_violation("free-in-use", "the release by thread %d of a block is unordered with an earlier %s %s by thread %d at %s",
                     t->id, c.at ? "atomic" : "plain", c.wr ? "write" : "read", c.tid, d);
      } else if (race_reports_on) {
        describe(a, d, sizeof d);
        mc_violation("data-race", "%s %s by thread %d (pc %lx) is unordered with an earlier %s %s by thread %d at %s",
                     at ? "atomic" : "plain", wr ? "write" : "read", t->id, (unsigned long)pc,
                     c.at ? "atomic" : "plain", c.wr ? "write" : "read", c.tid, d);
      }
    }
    // superseded?
    if (hb && !(c.mask & ~mask) && (wr >= c.wr) && (at <= c.at)) continue;
    g->c[w++] = c;
  }
  g->n = w;
  if (g->n == CELLS) { // drop the oldest record
    memmove(&g->c[0], &g->c[1], sizeof(Cell) * (CELLS - 1));
    g->n--;
  }
  g->c[g->n++] = (Cell){t->vc.c[t->id], (u8)t->id, (u8)mask, (u8)wr, (u8)at};
}

static void hb_access(up a, u64 size, int wr, int at, up pc) {
  up e = a + size;
  while (a < e) {
    up g = a & ~(up)7;
    up n = g + 8 < e ? g + 8 : e;
    int mask = ((1 << (n - a)) - 1) << (a & 7);
    hb_gran(g, mask, wr, at, pc);
    a = n;
  }
}

static __attribute__((noinline)) void heap_check_slow(up a, u64 size, int wr, up pc) {
  Block *b = find_block(a);
  if (!b)
    mc_violation("wild-access", "%s of %lu bytes outside any heap block (pc %lx)", wr ? "write" : "read",
                 (unsigned long)size, (unsigned long)pc);
  else if (b->freed)
    mc_violation("use-after-free", "%s at offset %lu of freed %lu-byte block (pc %lx)", wr ? "write" : "read",
                 (unsigned long)(a - b->base), (unsigned long)b->size, (unsigned long)pc);
  else if (a + size > b->base + b->size)
    mc_violation("out-of-bounds", "%s of %lu bytes at offset %lu of a %lu-byte block (pc %lx)",
                 wr ? "write" : "read", (unsigned long)size, (unsigned long)(a - b->base), (unsigned long)b->size,
                 (unsigned long)pc);
}

static inline void heap_check(up a, u64 size, int wr, up pc) {
  if (usable[(a - ARENA_BASE) >> 4] >= (a & 15) + size) return;
  heap_check_slow(a, size, wr, pc);
}

static void race_free(up base, u64 size) {
  freeing = 1;
  hb_access(base, size, 1, 0, 0);
  freeing = 0;
}

static void plain(up a, u64 size, int wr, up pc) {
  if (!self || !in_exec || shadow_off || !size || !in_arena(a)) return;
  heap_check(a, size, wr, pc);
  // The driver runs only before all threads start and after all have finished: its accesses are
  // ordered with everything, so there is nothing to record for it.
  if (self->id) hb_access(a, size, wr, 0, pc);
}

// ------------------------------------------------------------------------------------------------
// violations
// ------------------------------------------------------------------------------------------------
static void publish(void) {
  while (__atomic_exchange_n(&G->vlock, 1, __ATOMIC_ACQUIRE)) sched_yield();
  int dup = 0;
  for (int i = 0; i < G->nviol; i++)
    if (!strcmp(G->v[i].kind, cur_viol.kind)) {
      dup = 1;
      if (cur_viol.nd < G->v[i].nd) G->v[i] = cur_viol; // keep the shortest counterexample
    }
  if (!dup && G->nviol < MAXVIOL) {
    G->v[G->nviol] = cur_viol;
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    G->nviol++;
  }
  __atomic_store_n(&G->vlock, 0, __ATOMIC_RELEASE);
}
static void vset(const char *kind, const char *fmt, va_list ap) {
  if (viol_flag) return;
  viol_flag = 1;
  snprintf(cur_viol.kind, sizeof cur_viol.kind, "%s", kind);
  vsnprintf(cur_viol.msg, sizeof cur_viol.msg, fmt, ap);
  cur_viol.nd = cur_nd;
  for (int i = 0; i < cur_nd; i++) cur_viol.d[i] = cur_dev[i];
}
void mc_violation(const char *kind, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vset(kind, fmt, ap);
  va_end(ap);
}
static void fatal_violation(const char *kind, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vset(kind, fmt, ap);
  va_end(ap);
  publish();
  G->stop = 1;
  _exit(42);
}
void mc_fatal(const char *kind, const char *msg) { fatal_violation(kind, "%s", msg); }

static void on_signal(int s) {
  if (in_exec) fatal_violation("crash", "signal %d (%s) in the code under test", s, strsignal(s));
  _exit(43);
}

// ------------------------------------------------------------------------------------------------
// scheduler
// ------------------------------------------------------------------------------------------------
static inline int enabled(Thread *t) {
  if (t->state != ST_READY) return 0;
  if (t->pkind == OP_LOCK && *(volatile u32 *)t->paddr) return 0;
  return 1;
}

static int overlap(up a, int as, up b, int bs) { return a < b + bs && b < a + as; }

static void spin_reset(Thread *t) {
  t->ntab = 0;
  t->consec = 0;
  t->last_addr = 0;
}

// a write by `w` happened: wake spinners
static void note_write(Thread *w) {
  wcount++;
  spin_reset(w);
  w->grace = 0;
  w->limit_mul = 1;
  for (int i = 1; i <= nthreads; i++) {
    Thread *t = &TH[i];
    if (t == w) continue;
    spin_reset(t);
    t->grace = 0;
    t->limit_mul = 1;
    if (t->state == ST_SPIN) t->state = ST_READY;
  }
}

static void diverged(const char *why) {
  G->diverged = 1;
  fprintf(stderr, "mc: replay diverged: %s (step %d)\n", why, nsteps);
  _exit(44);
}

static Thread *choose_next(Thread *cur) {
  for (;;) {
    int en = 0, live = 0;
    for (int i = 1; i <= nthreads; i++) {
      if (TH[i].state != ST_DONE) live |= 1 << i;
      if (enabled(&TH[i])) en |= 1 << i;
    }
    int cur_en = cur && (en >> cur->id & 1);
    // a frozen thread only runs when every other thread is done
    int alive_others = frozen_tid ? live & ~(1 << frozen_tid) : 0;
    int frozen_now = alive_others && suspended;
    if (frozen_now) en &= ~(1 << frozen_tid);
    if (delay_mask && !delay_over && last_tid) {
      int begun = 0;
      for (int i = 1; i <= nthreads; i++)
        if ((delay_mask >> i & 1) && i != last_tid && TH[i].pkind != OP_START) begun |= 1 << i;
      if (en & ~begun) en &= ~begun;
      else if (en) delay_over = 1;
    }
    if (!en) {
      if (!live) return NULL;
      int revived = 0;
      for (int i = 1; i <= nthreads; i++)
        if (TH[i].state == ST_SPIN && TH[i].grace < 2 && !(i == frozen_tid && frozen_now)) {
          TH[i].grace++;
          TH[i].limit_mul *= 16;
          spin_reset(&TH[i]);
          TH[i].state = ST_READY;
          revived = 1;
        }
      if (revived) continue;
      char b[200];
      int o = 0;
      for (int i = 1; i <= nthreads; i++)
        if (TH[i].state != ST_DONE)
          o += snprintf(b + o, sizeof b - o, " thread %d %s%s;", i,
                        TH[i].state == ST_SPIN ? "waits forever for a change nobody will make" : "is blocked on a mutex",
                        i == frozen_tid ? " (suspended)" : "");
      fatal_violation(suspended ? "blocked-by-suspended" : "deadlock", "no thread can make progress:%s", b);
    }
    int pick = 0;
    Step *s = &trace[nsteps];
    s->prev = cur ? cur->id : 0;
    s->prev_en = cur_en;
    s->enmask = en;
    s->live = live;
    s->paddr = cur ? cur->paddr : 0;
    s->psize = cur ? cur->psize : 0;
    s->pkind = cur ? cur->pkind : 0;
    s->stale = s->nstale = 0;
    if (cur_di < cur_nd && cur_dev[cur_di].step == nsteps && cur_dev[cur_di].alt < 16) {
      pick = cur_dev[cur_di++].alt;
      if (pick & 8) {
        pick &= 7;
        suspended = 1;
      }
      if (!(en >> pick & 1)) diverged("chosen thread is not enabled");
    } else if (cur_en && (en >> cur->id & 1) && (run_len < 6000 || delay_mask)) {
      pick = cur->id;
    } else {
      int base = cur ? cur->id : 0;
      for (int i = 1; i <= nthreads; i++) {
        int c = (base - 1 + i + nthreads) % nthreads + 1;
        if (i < nthreads + 1 && (en >> c & 1) && !(cur_en && c == base && (en & ~(1 << base)))) {
          pick = c;
          break;
        }
      }
    }
    s->tid = pick;
    // giving way while it waits for somebody's write is not yet the suspension
    if (frozen_tid && !suspend_late && last_tid == frozen_tid && pick != frozen_tid && TH[frozen_tid].state == ST_READY) suspended = 1;
    if (pick == last_tid)
      run_len++;
    else {
      run_len = 0;
      G->switches++;
    }
    last_tid = pick;
    if (nsteps >= step_limit) fatal_violation("livelock", "execution exceeded %d atomic steps without finishing", step_limit);
    return &TH[pick];
  }
}

static void begin_step(Thread *t) {
  Step *s = &trace[nsteps++];
  s->addr = t->paddr;
  s->size = t->psize;
  s->kind = t->pkind;
  s->frees = 0;
  s->wr = t->pkind != OP_LOAD && t->pkind != OP_START && t->pkind != OP_NOTE;
}

static void point(up addr, int size, int kind) {
  Thread *t = self;
  if (t->id == 0) return;
  t->paddr = addr;
  t->psize = size;
  t->pkind = kind;
  t->state = ST_READY;
  Thread *n = choose_next(t);
  if (n != t) {
    resume(t, n);
  }
  begin_step(t);
}

// called after a non-writing atomic op by t
static void note_read(Thread *t, up addr, u64 val) {
  if (t->id == 0) return;
  int mul = t->limit_mul;
  int spin = 0;
  if (t->last_addr == addr && t->last_val == val) {
    if (++t->consec >= 10 * mul) spin = 1;
  } else {
    t->last_addr = addr;
    t->last_val = val;
    t->consec = 1;
  }
  if (!spin) {
    int i;
    for (i = 0; i < t->ntab; i++)
      if (t->tab[i].a == addr) {
        if (t->tab[i].v == val) {
          if (++t->tab[i].n >= (u32)(48 * mul)) spin = 1;
        } else {
          t->tab[i].v = val;
          t->tab[i].n = 1;
        }
        break;
      }
    if (i == t->ntab && t->ntab < SPINTAB) {
      t->tab[t->ntab].a = addr;
      t->tab[t->ntab].v = val;
      t->tab[t->ntab++].n = 1;
    }
  }
  if (spin) {
    // the thread is waiting: it becomes runnable again when somebody else writes
    spin_reset(t);
    t->state = ST_SPIN;
    t->pkind = OP_NOTE;
    t->paddr = 0;
    t->psize = 0;
    Thread *n = choose_next(t);
    if (n != t) {
      resume(t, n);
    }
    begin_step(t);
    t->state = ST_READY;
  }
}

// explicit yield (sched_yield, sleep): wait for somebody else's write
static void yield_hint(void) {
  Thread *t = self;
  if (!t || t->id == 0 || !in_exec) return;
  t->state = ST_SPIN;
  t->pkind = OP_NOTE;
  t->paddr = 0;
  t->psize = 0;
  Thread *n = choose_next(t);
  if (n != t) {
    resume(t, n);
  }
  begin_step(t);
  t->state = ST_READY;
}

static void worker(Thread *t) {
  for (;;) {
    begin_step(t);
    cb.body(cb.ctx, t->id);
    t->state = ST_DONE;
    // terminating is visible to nobody in particular, but may unblock joins: treat as no write
    Thread *n = choose_next(t);
    resume(t, n ? n : &TH[0]);
  }
}
static void worker_entry(void) {
  worker(self);
  __builtin_trap();
}

// ------------------------------------------------------------------------------------------------
// one execution
// ------------------------------------------------------------------------------------------------
static int created;
static u64 trace_hash(void) {
  u64 h = 1469598103934665603ull;
  for (int i = 0; i < nsteps; i++) {
    h = (h ^ trace[i].tid) * 1099511628211ull;
    h = (h ^ (trace[i].addr & 0xffffffff)) * 1099511628211ull;
    h = (h ^ trace[i].wr) * 1099511628211ull;
  }
  return h;
}

static void record_outcome(u64 o) {
  if (!o) o = 1;
  u32 h = (u32)(o * 0x9E3779B97F4A7C15ull >> 48);
  for (int i = 0; i < OUTC; i++, h = (h + 1) % OUTC) {
    u64 c = __atomic_load_n(&G->outcomes[h], __ATOMIC_RELAXED);
    if (c == o) return;
    if (!c) {
      u64 z = 0;
      if (__atomic_compare_exchange_n(&G->outcomes[h], &z, o, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
        __atomic_fetch_add(&G->noutcomes, 1, __ATOMIC_SEQ_CST);
        return;
      }
      if (z == o) return;
    }
  }
}

static int run(const Dev *d, int nd) {
  if (!created) {
    created = 1;
    for (int i = 1; i < MAXT; i++) {
      const size_t sz = 1 << 20;
      char *m = mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (m == MAP_FAILED) abort();
      mprotect(m, 4096, PROT_NONE);
      void **sp = (void **)(m + sz - 64);
      *--sp = NULL;                 // keeps the entry function's stack aligned
      *--sp = (void *)worker_entry; // return address
      sp -= 6;                      // callee-saved registers
      TH[i].sp = sp;
    }
  }
  cur_dev = d;
  cur_nd = nd;
  cur_di = 0;
  nsteps = 0;
  viol_flag = 0;
  wcount = 0;
  last_tid = 0;
  run_len = 0;
  delay_over = 0;
  suspended = 0;
  step_limit = delay_mask ? MAXSTEPS - 2 : 60000;
  gen++;
  nlocs = 1;
  nblocks = 0;
  memset(usable, 0, (arena_top - ARENA_BASE) >> 4);
  arena_top = ARENA_BASE + 64;
  harness_alloc = 0;
  shadow_off = 0;
  for (int i = 0; i < MAXT; i++) {
    Thread *t = &TH[i];
    t->id = i;
    memset(&t->vc, 0, sizeof(VC));
    memset(&t->relf, 0, sizeof(VC));
    memset(&t->acqp, 0, sizeof(VC));
    t->vc.c[i] = 1;
    t->state = ST_NONE;
    t->grace = 0;
    t->limit_mul = 1;
    spin_reset(t);
  }
  self = &TH[0];
  in_exec = 1;
  cb.setup(cb.ctx);
  if (nthreads > 0) {
    TH[0].vc.c[0]++;
    for (int i = 1; i <= nthreads; i++) {
      Thread *t = &TH[i];
      vjoin(&t->vc, &TH[0].vc);
      t->state = ST_READY;
      t->pkind = OP_START;
      t->paddr = 0;
      t->psize = 0;
    }
    Thread *n = choose_next(NULL);
    resume(&TH[0], n);
    if (cur_di != cur_nd) diverged("deviation never reached");
    for (int i = 1; i <= nthreads; i++) vjoin(&TH[0].vc, &TH[i].vc);
    TH[0].vc.c[0]++;
  }
  char msg[800];
  msg[0] = 0;
  int r = cb.check(cb.ctx, msg, sizeof msg);
  if (r) {
    char *sep = strchr(msg, '|');
    if (sep) {
      *sep = 0;
      mc_violation(msg, "%s", sep + 1);
    } else
      mc_violation("check", "%s", msg);
  }
  self = NULL;
  in_exec = 0;
  if (nsteps > G->max_steps) G->max_steps = nsteps;
  __atomic_fetch_add(&G->execs, 1, __ATOMIC_RELAXED);
  __atomic_fetch_add(&G->steps, nsteps, __ATOMIC_RELAXED);
  __atomic_fetch_add(&G->nodes, nsteps - (cur_nd ? cur_dev[cur_nd - 1].step : 0), __ATOMIC_RELAXED);
  record_outcome(cb.outcome(cb.ctx));
  if (viol_flag) {
    publish();
    G->stop = 1;
  }
  return viol_flag;
}

// ------------------------------------------------------------------------------------------------
// exploration
// ------------------------------------------------------------------------------------------------
static int pb_bound, stale_bound;
static double deadline;
static double now(void) {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static int halted(void) {
  if (G->stop) return 1;
  if (now() > deadline) {
    G->capped = 1;
    return 1;
  }
  return 0;
}

typedef struct {
  Dev d[MAXDEV];
  int nd, cost, scost;
} Item;
static Item *items;
static u64 nitems;
static int emitting;

// accesses made by threads other than `a` in steps [k, j) of t conflict with op (addr,size,wr)?
static int seg_conflicts(const Step *t, int k, int j, int a, up addr, int size, int wr) {
  for (int i = k; i < j; i++)
    if (t[i].tid != a) {
      if (t[i].frees && in_arena(addr)) return 1; // a free conflicts with any access to the heap
      if (t[i].size && overlap(t[i].addr, t[i].size, addr, size) && (t[i].wr || wr)) return 1;
    }
  return 0;
}
static int kind_writes(int kind) { return kind != OP_LOAD && kind != OP_START && kind != OP_NOTE; }

// Thread `t` would be resumed at step j. If it was switched out while enabled with pending op X at
// step k and nothing in [k,j) conflicts with X, then executing X before the switch gives an
// equivalent execution with no more preemptions, which is explored separately.
static int redundant_resume(const Step *tr, int j, int t) {
  int k = -1;
  for (int i = j - 1; i >= 0; i--) {
    if (tr[i].prev == t && tr[i].tid != t) {
      if (!tr[i].prev_en) return 0;
      k = i;
      break;
    }
    if (tr[i].tid == t) return 0;
  }
  if (k < 0) return 0;
  if (tr[k].pkind == OP_START || tr[k].pkind == OP_NOTE) return 0;
  return !seg_conflicts(tr, k, j, t, tr[k].paddr, tr[k].psize, kind_writes(tr[k].pkind));
}

static int dfs(const Dev *d, int nd, int cost, int scost, Step **out_tr, int *out_n);

static void emit(const Dev *d, int nd, int cost, int scost) {
  if (nitems >= MAXITEMS) {
    G->capped = 1;
    return;
  }
  Item *it = &items[nitems++];
  memcpy(it->d, d, sizeof(Dev) * nd);
  it->nd = nd;
  it->cost = cost;
  it->scost = scost;
}

// explores all children of an already executed run; tr/n is its trace
static void children(const Dev *d, int nd, int cost, int scost, const Step *tr, int n) {
  if (nd >= MAXDEV) {
    G->capped = 1;
    return;
  }
  Dev nd_d[MAXDEV];
  memcpy(nd_d, d, sizeof(Dev) * nd);
  int start = nd ? d[nd - 1].step + 1 : 0, suspended_before = 0;
  for (int i = 0; i < nd; i++) suspended_before |= d[i].alt < 16 && d[i].alt & 8;
  // free alternatives: the previous thread could not continue
  for (int k = start; k < n && !halted(); k++) {
    if (tr[k].prev_en) continue;
    for (int t = 1; t <= nthreads; t++) {
      if (t == tr[k].tid || !(tr[k].enmask >> t & 1)) continue;
      if (redundant_resume(tr, k, t)) {
        G->pruned++;
        continue;
      }
      nd_d[nd] = (Dev){k, t};
      dfs(nd_d, nd + 1, cost, scost, NULL, NULL);
    }
  }
  // suspension: others can only be held up by what the thread has written
  if (suspend_late && !suspended_before) {
    for (int k = start ? start : 1; k < n && !halted(); k++) {
      if (tr[k].prev != frozen_tid || !tr[k].prev_en || tr[k].tid != frozen_tid || tr[k - 1].tid != frozen_tid || !tr[k - 1].wr) continue;
      for (int t = 1; t <= nthreads; t++) {
        if (t == frozen_tid || !(tr[k].enmask >> t & 1)) continue;
        nd_d[nd] = (Dev){k, t | 8};
        dfs(nd_d, nd + 1, cost, scost, NULL, NULL);
      }
    }
  }
  // preemptions
  if (cost < pb_bound) {
    for (int t = 1; t <= nthreads; t++) {
      int k = start;
      while (k < n && !halted()) {
        int a = tr[k].prev;
        if (!tr[k].prev_en || tr[k].tid != a || t == a || (delay_mask && !(delay_mask >> a & 1)) || !(tr[k].enmask >> t & 1) || tr[k].kind == OP_NOTE) {
          k++;
          continue;
        }
        if (redundant_resume(tr, k, t)) {
          G->pruned++;
          k++;
          continue;
        }
        int two = __builtin_popcount(tr[k].live) == 2;
        nd_d[nd] = (Dev){k, t};
        Step *ct = NULL;
        int cn = 0;
        dfs(nd_d, nd + 1, cost + 1, scost, &ct, &cn);
        if (!ct) break;
        if (!two) {
          k++;
          free(ct);
          continue;
        }
        int e = k; // end of the foreign segment in the child
        while (e < cn && ct[e].tid != a) e++;
        int j = k;
        while (j < n && tr[j].tid == a && tr[j].prev == a && tr[j].prev_en &&
               !(tr[j].size && seg_conflicts(ct, k, e, a, tr[j].addr, tr[j].size, tr[j].wr)))
          j++;
        free(ct);
        if (j == k)
          k++;
        else {
          G->pruned += j - k - 1;
          k = j;
        }
      }
    }
  }
  // stale reads
  if (weak_on && scost < stale_bound) {
    int sst = nd && d[nd - 1].alt < 16 ? d[nd - 1].step : start;
    for (int k = sst; k < n && !halted(); k++) {
      for (int s = 1; s <= tr[k].nstale; s++) {
        nd_d[nd] = (Dev){k, 16 + s};
        dfs(nd_d, nd + 1, cost, scost + 1, NULL, NULL);
      }
    }
  }
}

static int dfs(const Dev *d, int nd, int cost, int scost, Step **out_tr, int *out_n) {
  if (halted()) return 1;
  run(d, nd);
  int n = nsteps;
  Step *tr = malloc(sizeof(Step) * (n + 1));
  memcpy(tr, trace, sizeof(Step) * n);
  int deeper = 1;
  if (nd && d[nd - 1].alt < 8) {
    int k = d[nd - 1].step;
    if (tr[k].prev_en && __builtin_popcount(tr[k].live) == 2) {
      int a = tr[k].prev, e = k;
      while (e < n && tr[e].tid != a) e++;
      if (tr[k].pkind != OP_START &&
          !seg_conflicts(tr, k, e, a, tr[k].paddr, tr[k].psize, kind_writes(tr[k].pkind)))
        deeper = 0;
      // NB: the parent compares against the op as executed; a CAS that fails there but is pending
      // here is treated as a write here, which only explores more.
    }
  }
  if (deeper && !halted()) {
    if (emitting && cost + scost >= 1) {
      if (cost < pb_bound || (weak_on && scost < stale_bound)) emit(d, nd, cost, scost);
      else children(d, nd, cost, scost, tr, n);
    } else
      children(d, nd, cost, scost, tr, n);
  }
  if (out_tr) {
    *out_tr = tr;
    *out_n = n;
  } else
    free(tr);
  return 0;
}

// ------------------------------------------------------------------------------------------------
// public entry points
// ------------------------------------------------------------------------------------------------
static void *map(size_t n) {
  void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(45);
  }
  return p;
}

void mc_init(void) {
  static int done;
  if (done) return;
  done = 1;
  void *a = mmap((void *)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != (void *)ARENA_BASE) {
    perror("mc: arena");
    _exit(45);
  }
  blocks = map(sizeof(Block) * MAXBLOCKS);
  bmap = map(ARENA_SIZE / 16 * 4 + 64);
  usable = map(ARENA_SIZE / 16 + 64);
  memset(bmap, 0xff, 4096);
  grans = map(ARENA_SIZE / 8 * sizeof(Gran));
  locs = map(sizeof(Loc) * MAXLOCS);
  trace = map(sizeof(Step) * MAXSTEPS);
  items = map(sizeof(Item) * (size_t)MAXITEMS);
  G = mmap(NULL, sizeof *G, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

typedef struct {
  u64 execs, steps, nodes, outcomes, pruned, items, races, switches;
  int nviol, capped, max_steps, diverged, error;
  double wall;
} Result;

static void install_signals(void) {
  static char alt[65536];
  stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
  sigaltstack(&ss, NULL);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  sigaction(SIGSEGV, &sa, NULL);
  sigaction(SIGBUS, &sa, NULL);
  sigaction(SIGILL, &sa, NULL);
  sigaction(SIGFPE, &sa, NULL);
  sigaction(SIGABRT, &sa, NULL);
}

static int cpu_base;
void mc_set_cpu(int base) { cpu_base = base; }
static int run_child(void (*f)(int), int idx) {
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p) return p;
  install_signals();
  cpu_set_t s;
  CPU_ZERO(&s);
  cpu_set_t have;
  if (!sched_getaffinity(0, sizeof have, &have)) {
    int n = CPU_COUNT(&have), want = n ? (idx + cpu_base) % n : 0, seen = 0;
    for (int i = 0; i < CPU_SETSIZE; i++)
      if (CPU_ISSET(i, &have) && seen++ == want) {
        CPU_SET(i, &s);
        sched_setaffinity(0, sizeof s, &s);
        break;
      }
  }
  f(idx);
  _exit(0);
}

static volatile u64 *shared_nitems;
static Item *shared_items;

static void master(int idx) {
  (void)idx;
  // determinism: the default schedule must replay identically
  run(NULL, 0);
  u64 h1 = trace_hash();
  if (!viol_flag) {
    run(NULL, 0);
    if (trace_hash() != h1) diverged("two runs of the default schedule differ");
  }
  items = shared_items;
  emitting = 1;
  if (!G->stop) dfs(NULL, 0, 0, 0, NULL, NULL);
  *shared_nitems = nitems;
}
static void slave(int idx) {
  (void)idx;
  items = shared_items;
  u64 n = *shared_nitems;
  for (;;) {
    u64 i = __atomic_fetch_add(&G->next_item, 1, __ATOMIC_SEQ_CST);
    if (i >= n || halted()) break;
    Item *it = &items[i];
    run(it->d, it->nd);
    __atomic_fetch_sub(&G->execs, 1, __ATOMIC_RELAXED);
    __atomic_fetch_sub(&G->steps, nsteps, __ATOMIC_RELAXED);
    __atomic_fetch_sub(&G->nodes, nsteps - (it->nd ? it->d[it->nd - 1].step : 0), __ATOMIC_RELAXED);
    int m = nsteps;
    Step *tr = malloc(sizeof(Step) * (m + 1));
    memcpy(tr, trace, sizeof(Step) * m);
    children(it->d, it->nd, it->cost, it->scost, tr, m);
    free(tr);
  }
}

static int status_err(int st) {
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 42)) return 0;
  return 1;
}

int mc_explore(const Cb *c, int nt, int pb, int stale, int freeze, double seconds, int workers, Result *r) {
  mc_init();
  cb = *c;
  nthreads = nt;
  pb_bound = pb;
  stale_bound = stale;
  weak_on = stale > 0;
  frozen_tid = freeze > 0 ? freeze & 7 : 0;
  suspend_late = freeze > 0 && freeze & 8;
  delay_mask = freeze < 0 ? (2 << -freeze) - 2 : 0;
  memset((void *)G, 0, sizeof *G);
  double t0 = now();
  deadline = t0 + seconds;
  if (!shared_items) {
    shared_items = mmap(NULL, sizeof(Item) * (size_t)MAXITEMS, PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shared_nitems = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  *shared_nitems = 0;
  int st, err = 0;
  int p = run_child(master, 0);
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  err |= status_err(st);
  if (!err && *shared_nitems && !G->stop) {
    int pids[64];
    if (workers > 64) workers = 64;
    for (int i = 0; i < workers; i++) pids[i] = run_child(slave, i);
    for (int i = 0; i < workers; i++) {
      while (waitpid(pids[i], &st, 0) < 0 && errno == EINTR)
        ;
      err |= status_err(st);
    }
  }
  r->execs = G->execs;
  r->steps = G->steps;
  r->nodes = G->nodes;
  r->outcomes = G->noutcomes;
  r->pruned = G->pruned;
  r->items = *shared_nitems;
  r->races = G->races_seen;
  r->switches = G->switches;
  r->nviol = G->nviol;
  r->capped = G->capped && !G->stop;
  r->max_steps = G->max_steps;
  r->diverged = G->diverged;
  r->error = err;
  r->wall = now() - t0;
  return G->nviol;
}

const char *mc_viol_kind(int i) { return G->v[i].kind; }
const char *mc_viol_msg(int i) { return G->v[i].msg; }
int mc_viol_devs(int i, int *steps, int *alts) {
  for (int k = 0; k < G->v[i].nd; k++) {
    steps[k] = G->v[i].d[k].step;
    alts[k] = G->v[i].d[k].alt;
  }
  return G->v[i].nd;
}

static Dev rp_dev[MAXDEV];
static int rp_n;
static int verbose_replay;
static void replay_child(int idx) {
  (void)idx;
  run(rp_dev, rp_n);
  if (verbose_replay) {
    for (int i = 0; i < nsteps; i++) {
      static const char *kn[] = {"start", "load", "store", "rmw", "lock", "unlock", "wait"};
      Step *s = &trace[i];
      Block *b = in_arena(s->addr) ? find_block(s->addr) : NULL;
      printf("  step %4d thread %d %-6s %s#%u(%lu)+%lu size %d%s\n", i, s->tid, kn[s->kind], b ? "block" : "addr", b ? b->seq : 0,
             b ? (unsigned long)b->size : 0ul, b ? (unsigned long)(s->addr - b->base) : (unsigned long)s->addr, s->size,
             s->tid != s->prev ? (s->prev_en ? "  <== preempts" : "  <-- switch") : "");
    }
    fflush(stdout);
  }
}
int mc_replay(const Cb *c, int nt, int freeze, const int *steps, const int *alts, int n, int verbose, Result *r) {
  mc_init();
  cb = *c;
  nthreads = nt;
  frozen_tid = freeze > 0 ? freeze & 7 : 0;
  suspend_late = freeze > 0 && freeze & 8;
  delay_mask = freeze < 0 ? (2 << -freeze) - 2 : 0;
  weak_on = 0;
  for (int i = 0; i < n && i < MAXDEV; i++) {
    rp_dev[i] = (Dev){steps[i], alts[i]};
    if (alts[i] >= 16) weak_on = 1;
  }
  rp_n = n;
  verbose_replay = verbose;
  memset((void *)G, 0, sizeof *G);
  deadline = now() + 60;
  int p = run_child(replay_child, 0), st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  memset(r, 0, sizeof *r);
  r->execs = G->execs;
  r->steps = G->steps;
  r->nviol = G->nviol;
  r->diverged = G->diverged;
  r->error = status_err(st);
  return G->nviol;
}
void mc_set_races(int on) { race_reports_on = on; }
u64 mc_step(void) { return nsteps; }
int mc_tid(void) { return self ? self->id : -1; }
int mc_in_exec(void) { return self && in_exec; }

// ------------------------------------------------------------------------------------------------
// synchronisation primitives used by the stubs (mutexes, reclamation)
// ------------------------------------------------------------------------------------------------
void mc_lock(u32 *m) {
  if (!self || !in_exec) {
    while (__atomic_exchange_n(m, 1, __ATOMIC_ACQUIRE)) sched_yield();
    return;
  }
  if (in_arena((up)m)) heap_check((up)m, 4, 1, RA);
  point((up)m, 4, OP_LOCK);
  if (*m) fatal_violation("deadlock", "mutex locked twice by the same thread");
  *m = 1;
  vjoin(&self->vc, &getloc((up)m)->rel);
  note_write(self);
}
int mc_trylock(u32 *m) {
  if (!self || !in_exec) return !__atomic_exchange_n(m, 1, __ATOMIC_ACQUIRE);
  point((up)m, 4, OP_RMW);
  if (*m) {
    note_read(self, (up)m, 1);
    return 0;
  }
  *m = 1;
  vjoin(&self->vc, &getloc((up)m)->rel);
  note_write(self);
  return 1;
}
void mc_unlock(u32 *m) {
  if (!self || !in_exec) {
    __atomic_store_n(m, 0, __ATOMIC_RELEASE);
    return;
  }
  point((up)m, 4, OP_UNLOCK);
  *m = 0;
  getloc((up)m)->rel = self->vc;
  self->vc.c[self->id]++;
  note_write(self);
}
// Reclamation: `obj` is the collector. kind 0 = commutes with other kind-0 ops (enter/leave), 1 = write
void mc_collector_point(void *obj, int wr) {
  if (!self || !in_exec) return;
  point((up)obj, 4, wr ? OP_RMW : OP_LOAD);
}
void mc_release(void *obj) {
  if (!self || !in_exec) return;
  vjoin(&getloc((up)obj)->rel, &self->vc);
  self->vc.c[self->id]++;
}
void mc_acquire(void *obj) {
  if (!self || !in_exec) return;
  vjoin(&self->vc, &getloc((up)obj)->rel);
}
void mc_progress(void) {
  if (self && in_exec) note_write(self);
}
void mc_yield(void) { yield_hint(); }

// ------------------------------------------------------------------------------------------------
// interposed libc waiting / comparing functions
// ------------------------------------------------------------------------------------------------
int sched_yield(void) {
  if (self && in_exec) {
    yield_hint();
    return 0;
  }
  return (int)syscall(SYS_sched_yield);
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (self && in_exec) {
    yield_hint();
    return 0;
  }
  return (int)syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (self && in_exec) {
    yield_hint();
    return 0;
  }
  long r = syscall(SYS_clock_nanosleep, c, fl, a, b);
  return r < 0 ? errno : 0;
}
__attribute__((optimize("no-tree-loop-distribute-patterns"))) static int memcmp_raw(const void *a, const void *b, size_t n) {
  const u8 *x = a, *y = b;
  for (size_t i = 0; i < n; i++)
    if (x[i] != y[i]) return x[i] - y[i];
  return 0;
}
int memcmp(const void *a, const void *b, size_t n) {
  if (self && in_exec) {
    plain((up)a, n, 0, RA);
    plain((up)b, n, 0, RA);
  }
  return memcmp_raw(a, b, n);
}
int bcmp(const void *a, const void *b, size_t n) {
  if (self && in_exec) {
    plain((up)a, n, 0, RA);
    plain((up)b, n, 0, RA);
  }
  return memcmp_raw(a, b, n);
}

// ------------------------------------------------------------------------------------------------
// TSan interface
// ------------------------------------------------------------------------------------------------
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a, (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
#define RW(n)                                                                        \
  void __tsan_read##n(void *a) { plain((up)a, n, 0, RA); }                           \
  void __tsan_write##n(void *a) { plain((up)a, n, 1, RA); }                          \
  void __tsan_unaligned_read##n(void *a) { plain((up)a, n, 0, RA); }                 \
  void __tsan_unaligned_write##n(void *a) { plain((up)a, n, 1, RA); }                \
  void __tsan_volatile_read##n(void *a) { plain((up)a, n, 0, RA); }                  \
  void __tsan_volatile_write##n(void *a) { plain((up)a, n, 1, RA); }                 \
  void __tsan_unaligned_volatile_read##n(void *a) { plain((up)a, n, 0, RA); }        \
  void __tsan_unaligned_volatile_write##n(void *a) { plain((up)a, n, 1, RA); }       \
  void __tsan_read_write##n(void *a) { plain((up)a, n, 0, RA), plain((up)a, n, 1, RA); } \
  void __tsan_unaligned_read_write##n(void *a) { plain((up)a, n, 0, RA), plain((up)a, n, 1, RA); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *a, long n) { plain((up)a, n, 0, RA); }
void __tsan_write_range(void *a, long n) { plain((up)a, n, 1, RA); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  plain((up)s, n, 0, RA);
  plain((up)d, n, 1, RA);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  plain((up)s, n, 0, RA);
  plain((up)d, n, 1, RA);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  plain((up)d, n, 1, RA);
  return memset(d, c, n);
}

enum { MO_RLX, MO_CON, MO_ACQ, MO_REL, MO_AR, MO_SC };
static inline int is_acq(int m) { return m == MO_ACQ || m == MO_CON || m == MO_AR || m == MO_SC; }
static inline int is_rel(int m) { return m == MO_REL || m == MO_AR || m == MO_SC; }
static VC sc_clock;
static u32 sc_gen;

static void at_check(up a, int size, int wr, up pc) {
  if (in_arena(a)) {
    heap_check(a, size, wr, pc);
    hb_access(a, size, wr, 1, pc);
  }
}

static void sync_load(Thread *t, const VC *rel, int mo) {
  if (is_acq(mo))
    vjoin(&t->vc, rel);
  else
    vjoin(&t->acqp, rel);
}

// ---- weak memory: store histories -------------------------------------------------------------
static void hist_push(Loc *l, u128 val, Thread *t, const VC *rel) {
  if (!weak_on) return;
  if (l->nh == HIST) {
    memmove(&l->h[0], &l->h[1], sizeof(Store) * (HIST - 1));
    l->nh--;
  }
  l->mo++;
  l->h[l->nh++] = (Store){val, *rel, t->vc.c[t->id], (u8)t->id, 1, l->mo};
}
static void rrec(Loc *l, Thread *t, u32 idx) {
  if (!weak_on) return;
  for (int i = 0; i < l->nr; i++)
    if (l->r[i].tid == t->id && l->r[i].idx == idx) return; // earliest record for this index suffices
  if (l->nr == RREC) {
    memmove(&l->r[0], &l->r[1], sizeof l->r[0] * (RREC - 1));
    l->nr--;
  }
  l->r[l->nr].tid = t->id;
  l->r[l->nr].clk = t->vc.c[t->id];
  l->r[l->nr].idx = idx;
  l->nr++;
}
// number of older stores that this load may still return (0: only the newest)
static int stale_choices(Loc *l, Thread *t, int mo, const Store **opt) {
  if (!weak_on || t->id == 0 || l->nh < 2 || mo == MO_SC) return 0;
  u32 minidx = 0;
  for (int i = 0; i < l->nr; i++)
    if (l->r[i].clk <= t->vc.c[l->r[i].tid] && l->r[i].idx > minidx) minidx = l->r[i].idx;
  int n = 0;
  for (int i = l->nh - 1; i >= 0; i--) {
    Store *s = &l->h[i];
    int later_hb = 0;
    for (int j = i + 1; j < l->nh; j++)
      if (l->h[j].clk <= t->vc.c[l->h[j].tid]) later_hb = 1;
    if (later_hb || s->idx < minidx) break;
    if (i < l->nh - 1) opt[n++] = s;
  }
  return n;
}

static u128 rd(up a, int size) {
  switch (size) {
  case 1: return *(volatile u8 *)a;
  case 2: return *(volatile u16 *)a;
  case 4: return *(volatile u32 *)a;
  case 8: return *(volatile u64 *)a;
  default: return *(volatile u128 *)a;
  }
}
static void wrv(up a, int size, u128 v) {
  switch (size) {
  case 1: *(volatile u8 *)a = (u8)v; break;
  case 2: *(volatile u16 *)a = (u16)v; break;
  case 4: *(volatile u32 *)a = (u32)v; break;
  case 8: *(volatile u64 *)a = (u64)v; break;
  default: *(volatile u128 *)a = v;
  }
}

static void hist_init(Loc *l, up a, int size) {
  // first atomic access: the current content is store number 0 and happens-before everything that
  // can reach the object without a race
  if (weak_on && l->nh && l->h[l->nh - 1].val != rd(a, size)) l->nh = 0, l->nr = 0; // plain re-initialisation
  if (weak_on && l->nh == 0) {
    Store s;
    memset(&s, 0, sizeof s);
    s.val = rd(a, size);
    s.tid = 0;
    s.clk = 0;
    s.idx = l->mo;
    l->h[l->nh++] = s;
  }
}

// outside executions (the harness's own threads): really atomic
static int real_cas(up a, int size, u128 *exp, u128 v) {
#define RC(T)                                                                                                 \
  {                                                                                                           \
    T e = (T)*exp;                                                                                            \
    int r = __atomic_compare_exchange_n((volatile T *)a, &e, (T)v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);     \
    *exp = e;                                                                                                 \
    return r;                                                                                                 \
  }
  switch (size) {
  case 1: RC(u8)
  case 2: RC(u16)
  case 4: RC(u32)
  case 8: RC(u64)
  default: abort(); // nothing in the harness is that wide
  }
}

// driver thread (or no execution at all): act directly
static inline int direct(Thread *t, up a, int size, int wr, up pc) {
  if (t && in_exec) {
    if (t->id) return 0;
    if (in_arena(a)) heap_check(a, size, wr, pc);
  }
  return 1;
}

static u128 do_load(up a, int size, int mo, up pc) {
  Thread *t = self;
  if (direct(t, a, size, 0, pc)) return rd(a, size);
  point(a, size, OP_LOAD);
  at_check(a, size, 0, pc);
  Loc *l = getloc(a);
  hist_init(l, a, size);
  u128 v = rd(a, size);
  if (weak_on && t->id) {
    const Store *opt[HIST];
    int n = stale_choices(l, t, mo, opt);
    Step *s = &trace[nsteps - 1];
    s->nstale = n;
    u32 idx = l->mo;
    const VC *rel = &l->rel;
    if (cur_di < cur_nd && cur_dev[cur_di].step == nsteps - 1 && cur_dev[cur_di].alt >= 16) {
      int w = cur_dev[cur_di++].alt - 16;
      if (w > n) diverged("stale read not available");
      v = opt[w - 1]->val;
      rel = &opt[w - 1]->rel;
      idx = opt[w - 1]->idx;
      s->stale = w;
    }
    sync_load(t, rel, mo);
    rrec(l, t, idx);
  } else
    sync_load(t, &l->rel, mo);
  note_read(t, a, (u64)v ^ (u64)(v >> 64));
  return v;
}

static void do_store(up a, int size, u128 v, int mo, up pc) {
  Thread *t = self;
  if (direct(t, a, size, 1, pc)) {
    if (!t) __atomic_thread_fence(__ATOMIC_SEQ_CST);
    wrv(a, size, v);
    if (!t) __atomic_thread_fence(__ATOMIC_SEQ_CST);
    return;
  }
  point(a, size, OP_STORE);
  at_check(a, size, 1, pc);
  Loc *l = getloc(a);
  hist_init(l, a, size);
  l->rel = is_rel(mo) ? t->vc : t->relf;
  wrv(a, size, v);
  hist_push(l, v, t, &l->rel);
  rrec(l, t, l->mo);
  if (is_rel(mo)) t->vc.c[t->id]++;
  else if (weak_on) t->vc.c[t->id]++;
  note_write(t);
}

// rmw helper: f computes the new value; returns old
enum { F_XCHG, F_ADD, F_SUB, F_AND, F_OR, F_XOR, F_NAND };
static u128 apply(int f, u128 o, u128 v) {
  switch (f) {
  case F_XCHG: return v;
  case F_ADD: return o + v;
  case F_SUB: return o - v;
  case F_AND: return o & v;
  case F_OR: return o | v;
  case F_XOR: return o ^ v;
  default: return ~(o & v);
  }
}
static void rmw_sync(Loc *l, Thread *t, int mo) {
  sync_load(t, &l->rel, mo);
  VC base = l->rel; // an RMW continues the release sequence
  if (is_rel(mo))
    vjoin(&base, &t->vc);
  else
    vjoin(&base, &t->relf);
  l->rel = base;
}
static u128 do_rmw(up a, int size, int f, u128 v, int mo, up pc) {
  Thread *t = self;
  if (direct(t, a, size, 1, pc)) {
    u128 o = rd(a, size);
    if (!t) {
      while (!real_cas(a, size, &o, apply(f, o, v))) {}
      return o;
    }
    wrv(a, size, apply(f, o, v));
    return o;
  }
  point(a, size, OP_RMW);
  at_check(a, size, 1, pc);
  Loc *l = getloc(a);
  hist_init(l, a, size);
  u128 o = rd(a, size);
  rmw_sync(l, t, mo);
  u128 nv = apply(f, o, v);
  wrv(a, size, nv);
  hist_push(l, nv, t, &l->rel);
  rrec(l, t, l->mo);
  t->vc.c[t->id]++;
  note_write(t);
  return o;
}
static int do_cas(up a, int size, u128 *exp, u128 v, int mo, int fmo, up pc) {
  Thread *t = self;
  if (direct(t, a, size, 1, pc)) {
    if (!t) return real_cas(a, size, exp, v);
    u128 o = rd(a, size);
    if (o == *exp) {
      wrv(a, size, v);
      return 1;
    }
    *exp = o;
    return 0;
  }
  point(a, size, OP_RMW);
  Loc *l = getloc(a);
  hist_init(l, a, size);
  u128 o = rd(a, size);
  if (o == *exp) {
    at_check(a, size, 1, pc);
    rmw_sync(l, t, mo);
    wrv(a, size, v);
    hist_push(l, v, t, &l->rel);
    rrec(l, t, l->mo);
    t->vc.c[t->id]++;
    note_write(t);
    return 1;
  }
  at_check(a, size, 0, pc);
  if (t->id) trace[nsteps - 1].wr = 0;
  sync_load(t, &l->rel, fmo);
  rrec(l, t, l->mo);
  *exp = o;
  note_read(t, a, (u64)o ^ (u64)(o >> 64));
  return 0;
}

#define ATOM(B, T)                                                                                            \
  T __tsan_atomic##B##_load(const volatile T *a, int mo) { return (T)do_load((up)a, B / 8, mo, RA); }         \
  void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { do_store((up)a, B / 8, v, mo, RA); }            \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { return (T)do_rmw((up)a, B / 8, F_XCHG, v, mo, RA); } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { return (T)do_rmw((up)a, B / 8, F_ADD, v, mo, RA); } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { return (T)do_rmw((up)a, B / 8, F_SUB, v, mo, RA); } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { return (T)do_rmw((up)a, B / 8, F_AND, v, mo, RA); } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { return (T)do_rmw((up)a, B / 8, F_OR, v, mo, RA); }   \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { return (T)do_rmw((up)a, B / 8, F_XOR, v, mo, RA); } \
  T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int mo) { return (T)do_rmw((up)a, B / 8, F_NAND, v, mo, RA); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) {                 \
    u128 e = *c;                                                                                              \
    int r = do_cas((up)a, B / 8, &e, v, mo, fmo, RA);                                                         \
    if (!r) *c = (T)e;                                                                                        \
    return r;                                                                                                 \
  }                                                                                                           \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) {                   \
    u128 e = *c;                                                                                              \
    int r = do_cas((up)a, B / 8, &e, v, mo, fmo, RA);                                                         \
    if (!r) *c = (T)e;                                                                                        \
    return r;                                                                                                 \
  }                                                                                                           \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                       \
    u128 e = c;                                                                                               \
    do_cas((up)a, B / 8, &e, v, mo, fmo, RA);                                                                 \
    return (T)e;                                                                                              \
  }
ATOM(8, u8)
ATOM(16, u16)
ATOM(32, u32)
ATOM(64, u64)
ATOM(128, u128)

void __tsan_atomic_thread_fence(int mo) {
  Thread *t = self;
  if (!t || !in_exec) return;
  if (is_acq(mo)) vjoin(&t->vc, &t->acqp);
  if (mo == MO_SC) {
    if (sc_gen != gen) {
      sc_gen = gen;
      memset(&sc_clock, 0, sizeof sc_clock);
    }
    vjoin(&t->vc, &sc_clock);
    sc_clock = t->vc;
  }
  if (is_rel(mo)) {
    t->relf = t->vc;
    t->vc.c[t->id]++;
  }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
