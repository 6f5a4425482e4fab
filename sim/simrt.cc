// simrt.cc: the deterministic simulator runtime.
//
// One process = one run.  Simulated threads are real threads parked on a
// futex; exactly one holds the token.  Every scheduling choice and every fault
// is a decision taken here, at a numbered event of the deciding thread, and
// written to the decision log when it is not the default choice; the log (plus
// the workload) is the replay file.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simrt.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef uintptr_t uptr;
#define RETADDR ((uptr)__builtin_return_address(0))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define HOT inline __attribute__((always_inline))

const char* const kDecNames[D_NKINDS] = {
    "-",       "switch",     "spurious_wakeup", "stale_load", "spin_burn",
    "oversleep", "signal_pick", "thread_create_failure", "alloc_failure",
    "cas_spurious_failure", "tsd_order", "key_create_failure", "eintr",
    "late_timeout"};

SimResult* g_res;
SimCfg g_cfg;

namespace {

// ---------------------------------------------------------------- layout ---
#if UINTPTR_MAX > 0xffffffffu
const uptr kArena = 0x100000000000ull;
const uptr kStackSz = 512 << 10;
const uptr kHeapSz = 384ull << 20;
const uptr kBufSz = 128ull << 20;
const uptr kGlobSz = 64ull << 20;
const uptr kEdgeSz = 256ull << 20;
#else
const uptr kArena = 0x50000000;
const uptr kStackSz = 256 << 10;
const uptr kHeapSz = 64 << 20;
const uptr kBufSz = 48 << 20;
const uptr kGlobSz = 24 << 20;
const uptr kEdgeSz = 48 << 20;
#endif
const int MAXT = 64;   // simultaneously known threads
const int MAXL = 64;   // atomic locations with a tracked store history
const uptr kStacks = kArena;
const uptr kHeap = kStacks + MAXT * kStackSz;
const uptr kBuf = kHeap + kHeapSz;
const uptr kArenaSz = kBuf + kBufSz - kArena;
#if UINTPTR_MAX > 0xffffffffu
const uptr kEdge = kArena + (4ull << 30);
const uptr kShadow = 0x200000000000ull;              // race cells, 4x
const uptr kPerm = 0x300000000000ull;                // permissions, 1x
#else
const uptr kEdge = 0x60000000;
const uptr kShadow = 0x70000000;
const uptr kPerm = 0xa0000000;
#endif

extern "C" char __executable_start;
extern "C" char _end;
uptr g_glob_lo, g_glob_sz;

struct Slot { u32 epoch; u8 tid; u8 mask; u8 flags; u8 used; };
enum { F_WRITE = 1, F_ATOMIC = 2, F_FREE = 4 };

struct VC { u32 t[MAXT]; u32 v[MAXL]; };

struct Store { u64 val; u32 ts; u32 epoch; int tid; bool rel; VC clk; };
const int kHist = 6;
struct ALoc {
  uptr addr; int size; int id; int n; u32 ts;
  Store h[kHist];      // h[(ts) % kHist] is the store with timestamp ts
};

enum TState { S_FREE, S_RUN, S_BLOCKED, S_SLEEP, S_DONE };
const char* const kStName[] = {"free", "runnable", "blocked", "sleeping", "done"};

const int kMaxKeys = 1024;
struct TlsDtor { void (*fn)(void*); void* obj; };

struct T {
  int tid;
  volatile int go;
  int state;
  u64 ltick, stop;
  u64 slice_end;
  VC vc;
  VC acq_pend; bool has_acq_pend;
  VC rel_fence; bool has_rel_fence;
  void* (*fn)(void*); void* arg; void* ret;
  pthread_t pt;
  bool detached, joined;
  // blocking
  uptr wait_addr; const char* wait_why;
  bool in_cond; bool cond_woken; bool timed; u64 deadline; bool timed_out;
  u64 cond_seq;
  // spinning
  uptr spin_addr; u64 spin_val; u32 spin_n; i64 burn_left; u64 fast_spin;
  u32 prio;
  int ignore;
  const void* keyv[kMaxKeys]; int maxkey;
  TlsDtor tls[32]; int ntls;
  const Decision** dq; u32 dqn, dqi;
  u64 nsync;
  int last_op; uptr last_addr;
};

enum SKind { K_NONE, K_MUTEX, K_COND, K_ONCE, K_GUARD, K_SEM, K_RW, K_BARRIER, K_HB, K_SPIN };
struct Sync {
  uptr addr; u8 kind; bool destroyed; bool inited; u8 type;
  int owner;   // tid+1 of the owner / state
  int count; int readers; u64 gen;
  VC clk;
};

struct Block { uptr addr; u64 size; u8 state; int tid; uptr pc; uptr lo, hi; int next; };
enum { B_LIVE = 1, B_FREED = 2 };

const int kMaxSync = 4096, kMaxALoc = 1024, kMaxBlocks = 1 << 17, kMaxRegions = 512;
struct Region { uptr lo, hi; char name[40]; };

struct Big {
  T th[MAXT];
  Sync sync[kMaxSync]; int nsync;
  ALoc aloc[kMaxALoc]; int naloc; int nview;
  Block blk[kMaxBlocks]; int nblk;
  int freelist[64];
  Region reg[kMaxRegions]; int nreg;
  char out[1 << 18]; u64 nout;
  char err[1 << 14]; u64 nerr;
  const Decision* dqbuf[kMaxDec];
  void (*keydtor[kMaxKeys])(void*); bool keyused[kMaxKeys]; int nkeys;
  u64 pct_points[16]; int npct, ipct;
  uptr watch_pc[MAXT][2]; u64 watch_tick[MAXT][2];
};
Big* B;

T* volatile g_cur;
volatile int g_in_rt;
int g_nth;                 // threads slots used
u64 g_tick, g_extra, g_last_progress, g_progress_ns;
u64 g_writers;             // threads that wrote to bytes marked SIM_WATCH
u64 g_fault_end;
bool g_faults;             // still inside the fault phase
bool g_explore;
Rng g_rng(1);
u64 g_heap_top, g_heap_poisoned;
u64 g_live_blocks, g_live_bytes, g_alloc_calls;
u64 g_alloc_armed, g_create_armed; bool g_armed; int g_fired;
int g_allow_failstop;
int g_created, g_live_thr, g_peak_thr;
u64 g_buf_top, g_edge_top;
uptr g_watch;
int g_victim[4];
int g_ending;
bool g_trace;
u64 g_overslept;      // injected sleep overrun so far, bounded per run
u64 g_idle_grace;     // end of the longest sleep in progress
u64 g_pct_lo;              // next priority to hand out on a change point
u64 g_condseq;

typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
create_t real_create;

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

// ------------------------------------------------------------- utilities ---
void rt_write(int fd, const char* s, size_t n) {
  while (n) { ssize_t r = syscall(SYS_write, fd, s, n); if (r <= 0) break; s += r; n -= r; }
}
void tracef(const char* fmt, ...) {
  char b[512]; va_list ap; va_start(ap, fmt);
  g_in_rt++; int n = vsnprintf(b, sizeof b, fmt, ap); g_in_rt--;
  va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  rt_write(1, b, n);
}
inline u64 now_ns() { return g_tick * 5 + g_extra; }

void futex_wait(volatile int* p, int v) {
  syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
void futex_wake(volatile int* p) {
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void wait_go(T* t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) futex_wait(&t->go, 0);
  t->go = 0;
}
void park_forever() { volatile int z = 0; for (;;) futex_wait(&z, 0); }

HOT void hmix(u64* h, u64 v) { *h = (*h ^ v) * 0x100000001b3ull; *h ^= *h >> 29; }

void finish() {
  g_res->ticks = g_tick; g_res->virt_ns = now_ns();
  g_res->threads = g_created;
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  g_res->done = 1;
  if (g_trace) tracef("-- end: ticks=%lu virt_ns=%lu\n", (unsigned long)g_tick, (unsigned long)now_ns());
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

const char* describe_addr(uptr a, char* buf, size_t n) {
  buf[0] = 0;
  if (a >= kStacks && a < kHeap) {
    snprintf(buf, n, "stack of thread %d", (int)((a - kStacks) / kStackSz));
  } else if (a >= kHeap && a < kHeap + kHeapSz) {
    int best = -1; i64 bd = 1 << 30;
    for (int i = B->nblk - 1; i >= 0; i--) {
      Block& b = B->blk[i];
      i64 d = a < b.addr ? (i64)(b.addr - a) : a >= b.addr + b.size ? (i64)(a - b.addr - b.size + 1) : 0;
      if (d < bd) { bd = d; best = i; if (!d) break; }
    }
    if (best >= 0) {
      Block& b = B->blk[best];
      const char* st = b.state == B_LIVE ? "live" : "freed";
      if (a < b.addr) snprintf(buf, n, "%ld bytes before a %s %lu-byte heap block of thread %d [pc 0x%lx]", (long)(b.addr - a), st, (unsigned long)b.size, b.tid, (unsigned long)b.pc);
      else if (a >= b.addr + b.size) snprintf(buf, n, "%ld bytes after a %s %lu-byte heap block of thread %d [pc 0x%lx]", (long)(a - b.addr - b.size), st, (unsigned long)b.size, b.tid, (unsigned long)b.pc);
      else snprintf(buf, n, "offset %ld of a %s %lu-byte heap block of thread %d [pc 0x%lx]", (long)(a - b.addr), st, (unsigned long)b.size, b.tid, (unsigned long)b.pc);
    }
  } else if (a >= kBuf && a < kBuf + kBufSz) {
    snprintf(buf, n, "caller buffer");
    for (int i = B->nreg - 1; i >= 0; i--) {
      Region& r = B->reg[i];
      if (a >= r.lo && a < r.hi) { snprintf(buf, n, "offset %ld of caller buffer %s", (long)(a - r.lo), r.name); break; }
    }
  } else if (a >= g_glob_lo && a < g_glob_lo + g_glob_sz) {
    snprintf(buf, n, "global data [pc 0x%lx]", (unsigned long)a);
  } else {
    snprintf(buf, n, "address outside the simulated memory");
  }
  return buf;
}

// --------------------------------------------------------------- decisions -
void log_dec(u32 kind, u64 value) {
  g_res->fault[kind]++;
  if (g_res->ndec < kMaxDec) {
    Decision& d = g_res->dec[g_res->ndec++];
    d.tid = g_cur->tid; d.kind = kind; d.ltick = g_cur->ltick; d.value = value;
  }
  if (g_trace) tracef("   decide T%d @%lu %s %lu\n", g_cur->tid, (unsigned long)g_cur->ltick, kDecNames[kind], (unsigned long)value);
}
// In replay: is there a decision of this kind for the current event?
bool replay_dec(u32 kind, u64* value) {
  T* c = g_cur;
  while (c->dqi < c->dqn && c->dq[c->dqi]->ltick < c->ltick) c->dqi++;
  for (u32 i = c->dqi; i < c->dqn && c->dq[i]->ltick == c->ltick; i++)
    if (c->dq[i]->kind == kind) { *value = c->dq[i]->value; return true; }
  return false;
}
bool can_log() { return g_res->ndec < kMaxDec - 64; }

void update_phase() {
  if (g_faults && (g_tick >= g_fault_end || !can_log())) {
    g_faults = false;
    if (g_trace) tracef("-- faults stop at tick %lu\n", (unsigned long)g_tick);
  }
}

// ------------------------------------------------------------- scheduling --
const u64 kSlice = 400000;

bool spinning(T* t) { return t->spin_n >= 3; }

void recompute_stop(T* c) {
  u64 s = c->slice_end;
  if (g_explore) {
    if (g_faults) {
      if (g_cfg.policy == P_PCT) {
        if (B->ipct < B->npct) {
          u64 at = B->pct_points[B->ipct];
          u64 l = at > g_tick ? c->ltick + (at - g_tick) : c->ltick + 1;
          if (l < s) s = l;
        }
      } else if (g_cfg.mem_mean) {
        u64 r = g_rng.next();
        // roughly geometric
        u64 m = g_cfg.mem_mean;
        u64 d = 1 + (r % (2 * m));
        if ((r >> 40) % 8 == 0) d += (r >> 20) % (6 * m);
        if (c->ltick + d < s) s = c->ltick + d;
      }
      u64 h = g_fault_end > g_tick ? c->ltick + (g_fault_end - g_tick) : c->ltick + 1;
      if (h < s) s = h;
    }
  } else {
    while (c->dqi < c->dqn && c->dq[c->dqi]->ltick < c->ltick) c->dqi++;
    u32 i = c->dqi;
    while (i < c->dqn && c->dq[i]->ltick <= c->ltick) i++;
    if (i < c->dqn && c->dq[i]->ltick < s) s = c->dq[i]->ltick;
  }
  if (s <= c->ltick) s = c->ltick + 1;
  c->stop = s;
}

void switch_to(T* n) {
  T* me = g_cur;
  if (n == me) return;
  g_res->switches++;
  hmix(&g_res->hash_sched, ((u64)n->tid << 32) ^ me->nsync);
  hmix(&g_res->hash_full, ((u64)n->tid << 40) ^ me->ltick);
  n->slice_end = n->ltick + kSlice;
  n->fast_spin = 0;
  g_cur = n;
  recompute_stop(n);
  if (g_trace) tracef("-> T%d (from T%d, tick %lu)\n", n->tid, me->tid, (unsigned long)g_tick);
  __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE);
  futex_wake(&n->go);
  wait_go(me);
}

void fail_hang(const char* what) {
  char b[1800]; int n = 0;
  for (int i = 0; i < g_nth; i++) {
    T* t = &B->th[i];
    if (t->state == S_FREE || t->state == S_DONE) continue;
    n += snprintf(b + n, sizeof b - n, "; T%d %s%s%s", i, kStName[t->state],
                  t->state == S_BLOCKED ? " in " : spinning(t) ? " spinning" : "",
                  t->state == S_BLOCKED ? t->wait_why : "");
    if (n > 1600) break;
  }
  b[n < (int)sizeof b ? n : sizeof b - 1] = 0;
  sim_fail("hang", "%s%s", what, b);
}

void wake_sleepers() {
  u64 now = now_ns();
  for (int i = 0; i < g_nth; i++) {
    T* t = &B->th[i];
    if (t->state == S_SLEEP && t->deadline <= now) t->state = S_RUN;
    else if (t->state == S_BLOCKED && t->timed && t->deadline <= now) {
      t->state = S_RUN; t->timed_out = true; t->in_cond = false;
    }
  }
}

// Next runnable thread after `from` in cyclic order, preferring ones that are
// not spinning; null if none.
T* next_rr(int from, bool allow_spin, bool include_self) {
  for (int k = 1; k <= g_nth; k++) {
    int i = (from + k) % g_nth;
    T* t = &B->th[i];
    if (i == from && !include_self) continue;
    if (t->state == S_RUN && (allow_spin || !spinning(t))) return t;
  }
  return nullptr;
}

bool is_victim(T* t) {
  for (u32 i = 0; i < g_cfg.victims && i < 4; i++)
    if (g_victim[i] == t->tid) return true;
  return false;
}

// The policy's choice; `def` is what the default rule would run.
T* policy_pick(T* def, bool forced, bool mem_stop) {
  T* c = g_cur;
  T* cand[MAXT]; int n = 0;
  for (int i = 0; i < g_nth; i++)
    if (B->th[i].state == S_RUN) cand[n++] = &B->th[i];
  if (n == 0) return def;
  if (g_cfg.policy == P_PCT) {
    if (B->ipct < B->npct && g_tick >= B->pct_points[B->ipct]) {
      B->ipct++;
      c->prio = (u32)(g_pct_lo--);
    }
    T* best = nullptr;
    for (int i = 0; i < n; i++) {
      if (spinning(cand[i])) continue;
      if (!best || cand[i]->prio > best->prio) best = cand[i];
    }
    return best ? best : def;
  }
  if (g_cfg.policy == P_STARVE) {
    int m = 0;
    for (int i = 0; i < n; i++) if (!is_victim(cand[i])) cand[m++] = cand[i];
    bool all_spin = true;
    for (int i = 0; i < m; i++) if (!spinning(cand[i])) all_spin = false;
    if (m == 0 || all_spin) return def;   // only then may the victim run
    n = m;
    if (is_victim(def)) { def = cand[0]; for (int i = 0; i < n; i++) if (!spinning(cand[i])) { def = cand[i]; break; } }
  }
  bool sw = forced ? true : mem_stop ? true : g_rng.chance(g_cfg.p_sync);
  if (!sw) return def;
  if (!g_rng.chance(40)) {   // spinning threads rarely: they only burn time
    int m = 0;
    for (int i = 0; i < n; i++) if (!spinning(cand[i])) cand[m++] = cand[i];
    if (!m) return def;
    n = m;
  }
  return cand[g_rng.below(n)];
}

// Chooses and runs the next thread.  `forced`: the current one cannot go on.
void reschedule(bool forced, bool mem_stop, int op, uptr addr) {
  T* c = g_cur;
  update_phase();
  wake_sleepers();
  T* def;
  if (forced) {
    for (;;) {
      def = next_rr(c->tid, false, true);
      if (!def) def = next_rr(c->tid, true, true);
      if (def) break;
      u64 dl = ~0ull;
      for (int i = 0; i < g_nth; i++) {
        T* t = &B->th[i];
        if (t->state == S_SLEEP || (t->state == S_BLOCKED && t->timed))
          if (t->deadline < dl) dl = t->deadline;
      }
      if (dl == ~0ull) fail_hang("deadlock: no thread can run");
      if (dl > now_ns()) g_extra += dl - now_ns();
      wake_sleepers();
    }
  } else {
    def = c;
    bool spin = spinning(c) && op == 1 && addr == c->spin_addr;
    if (spin) {
      if (c->burn_left > 0) {
        c->burn_left--;
      } else {
        u64 v = 0;
        bool burn = false;
        if (g_explore) {
          if (g_faults && g_cfg.p_burn && g_rng.chance(g_cfg.p_burn)) {
            burn = true; v = 66000 + g_rng.below(8000);
            if (g_rng.chance(300)) v = 2 + g_rng.below(400);
          }
        } else {
          burn = replay_dec(D_BURN, &v);
        }
        if (burn) {
          if (v > 200000) v = 200000;
          c->burn_left = (i64)v;
          log_dec(D_BURN, v);
        } else {
          T* o = next_rr(c->tid, false, false);
          if (o) def = o;
        }
      }
    }
    if (def == c && c->ltick >= c->slice_end) {
      T* o = next_rr(c->tid, false, false);
      if (!o) o = next_rr(c->tid, true, false);
      if (o) def = o; else c->slice_end = c->ltick + kSlice;
    }
  }
  T* n = def;
  if (g_explore) {
    if (g_faults && !(c->burn_left > 0 && !forced)) n = policy_pick(def, forced, mem_stop);
  } else {
    u64 v;
    if (replay_dec(D_SW, &v) && v < (u64)g_nth && B->th[v].state == S_RUN) n = &B->th[v];
  }
  if (n != def) log_dec(D_SW, n->tid);
  if (n != c) switch_to(n);
  else { if (c->ltick >= c->slice_end) c->slice_end = c->ltick + kSlice; recompute_stop(c); }
}

void check_budget() {
  if (UNLIKELY(g_tick > g_cfg.budget)) fail_hang("no completion within the step budget");
  if (UNLIKELY(g_tick - g_last_progress > g_cfg.idle_budget) && now_ns() <= g_idle_grace)
    g_last_progress = g_tick;  // somebody is in a long sleep: not idle for ever
  if (UNLIKELY(g_tick - g_last_progress > g_cfg.idle_budget))
    fail_hang("no progress: only waiting since the last state change");
  if (UNLIKELY(now_ns() > g_progress_ns + 8000000000ull))
    fail_hang("no progress: only waiting for 8 simulated seconds");
}

// ops for hashing and tracing
enum Op { O_NONE, O_LOAD, O_STORE, O_RMW, O_FENCE, O_LOCK, O_UNLOCK, O_CWAIT, O_CSIG, O_CBCAST,
          O_CREATE, O_JOIN, O_EXIT, O_SLEEP, O_YIELD, O_ONCE, O_GUARD, O_ALLOC, O_FREE, O_KEY,
          O_CLOCK, O_SYSCONF, O_SEM, O_RW, O_BARRIER, O_USER, O_INIT, O_DESTROY };
const char* const kOpName[] = {"none", "load", "store", "rmw", "fence", "lock", "unlock", "cond_wait", "cond_signal", "cond_broadcast",
    "create", "join", "exit", "sleep", "yield", "once", "guard", "alloc", "free", "key", "clock", "sysconf", "sem", "rwlock", "barrier", "user", "init", "destroy"};

// A scheduling point before a synchronisation operation.
void point(int op, uptr addr, uptr pc) {
  T* c = g_cur;
  c->ltick++; g_tick++; c->nsync++;
  g_res->syncops++;
  c->last_op = op; c->last_addr = addr;
  if (op != O_LOAD) {
    if (op != O_SLEEP && op != O_YIELD && op != O_CLOCK) { g_last_progress = g_tick; g_progress_ns = now_ns(); }
    c->spin_n = 0; c->burn_left = 0; c->fast_spin = 0;
    hmix(&g_res->hash_full, ((u64)op << 56) ^ ((u64)c->tid << 48) ^ (addr & 0xffffffffffull) ^ (c->ltick << 20));
  }
  check_budget();
  if (g_trace) {
    char b[160];
    tracef("T%d @%lu %s 0x%lx pc=0x%lx %s\n", c->tid, (unsigned long)c->ltick, kOpName[op], (unsigned long)addr, (unsigned long)pc, describe_addr(addr, b, sizeof b));
  }
  // spurious wakeups
  if (op != O_LOAD) {
    u64 v;
    if (g_explore) {
      if (g_faults && g_cfg.p_spur && g_rng.chance(g_cfg.p_spur)) {
        int w[MAXT], n = 0;
        for (int i = 0; i < g_nth; i++) if (B->th[i].state == S_BLOCKED && B->th[i].in_cond) w[n++] = i;
        if (n) {
          int k = w[g_rng.below(n)];
          B->th[k].state = S_RUN; B->th[k].in_cond = false;
          log_dec(D_SPUR, k);
        }
      }
    } else if (replay_dec(D_SPUR, &v) && v < (u64)g_nth && B->th[v].state == S_BLOCKED && B->th[v].in_cond) {
      B->th[v].state = S_RUN; B->th[v].in_cond = false;
      log_dec(D_SPUR, v);
    }
  }
  reschedule(false, false, op, addr);
}

void block_on(uptr addr, const char* why) {
  T* c = g_cur;
  c->state = S_BLOCKED; c->wait_addr = addr; c->wait_why = why;
  c->spin_n = 0;
  c->ltick++; g_tick++;
  reschedule(true, false, 0, 0);
}
void wake_addr(uptr addr) {
  for (int i = 0; i < g_nth; i++) {
    T* t = &B->th[i];
    if (t->state == S_BLOCKED && !t->in_cond && t->wait_addr == addr) t->state = S_RUN;
  }
}

void __attribute__((noinline)) mem_stop(T* c) {
  check_budget();
  reschedule(false, true, 0, 0);
}

// ------------------------------------------------------------ vector clock -
HOT void vc_join(VC* a, const VC* b) {
  u32* x = a->t; const u32* y = b->t;
  for (int i = 0; i < MAXT + MAXL; i++) x[i] = x[i] > y[i] ? x[i] : y[i];
}
HOT void tick_epoch(T* c) { c->vc.t[c->tid]++; }
void sync_release(Sync* s) { vc_join(&s->clk, &g_cur->vc); tick_epoch(g_cur); }
void sync_acquire(Sync* s) { vc_join(&g_cur->vc, &s->clk); }

// --------------------------------------------------------- shadow & checks -
HOT bool shadow_off(uptr a, uptr* off) {
  uptr o = a - kArena;
  if (LIKELY(o < kArenaSz)) { *off = o; return true; }
  o = a - g_glob_lo;
  if (o < g_glob_sz) { *off = kArenaSz + (o & ~(uptr)0) ; return true; }
  return false;
}

void __attribute__((noinline)) report_race(uptr a, unsigned size, int flags, uptr pc, Slot s) {
  char b[256], c2[400] = "";
  g_res->vaddr = a; g_res->vpc = pc;
  if (g_watch) {
    int w = (s.flags & F_WRITE) ? 1 : 0;
    snprintf(c2, sizeof c2, " [other pc 0x%lx]", (unsigned long)B->watch_pc[s.tid][w]);
  }
  sim_fail("race", "data race: %s%s of %u bytes by T%d [pc 0x%lx] is unordered with a previous %s%s by T%d%s; %s",
           (flags & F_ATOMIC) ? "atomic " : "", (flags & F_FREE) ? "free" : (flags & F_WRITE) ? "write" : "read", size, g_cur->tid, (unsigned long)pc,
           (s.flags & F_ATOMIC) ? "atomic " : "", (s.flags & F_FREE) ? "free" : (s.flags & F_WRITE) ? "write" : "read", s.tid, c2,
           describe_addr(a, b, sizeof b));
}
void __attribute__((noinline)) report_perm(uptr a, unsigned size, int flags, uptr pc, u8 perm) {
  char b[256];
  g_res->vaddr = a; g_res->vpc = pc;
  sim_fail("mem", "%s of %u bytes by T%d [pc 0x%lx] to memory it may not %s: %s",
           (flags & F_WRITE) ? "write" : "read", size, g_cur->tid, (unsigned long)pc,
           (flags & F_WRITE) ? "write" : "read", describe_addr(a, b, sizeof b));
}

void aloc_forget(uptr lo, uptr hi);

// The permission byte holds SIM_NOREAD / SIM_NOWRITE; bit 7 marks a granule
// that holds an atomic with a store history (on the granule's first byte).
HOT void cell_check(uptr a, uptr off, unsigned len_in, int flags, uptr pc, T* c) {
  unsigned o = a & 7;
  u8 mask = (u8)(((1u << len_in) - 1) << o);
  u64* cell = (u64*)(kShadow + (off & ~(uptr)7) * 4);
  Slot me; me.epoch = c->vc.t[c->tid]; me.tid = (u8)c->tid; me.mask = mask; me.flags = (u8)(flags & 3); me.used = 1;
  u64 mev; memcpy(&mev, &me, 8);
  if (cell[0] == mev || cell[1] == mev || cell[2] == mev || cell[3] == mev) return;
  int store_at = -1, empty = -1;
  for (int i = 0; i < 4; i++) {
    u64 v = cell[i];
    if (!v) { if (empty < 0) empty = i; break; }
    Slot s; memcpy(&s, &v, 8);
    if (!(s.mask & mask)) continue;
    if (s.tid == me.tid) {
      if (s.epoch == me.epoch && (s.mask & mask) == mask && (s.flags & F_WRITE) >= (flags & F_WRITE) && (s.flags & F_ATOMIC) <= (flags & F_ATOMIC))
        return;   // covered by an equal or stronger access of ours
      if (s.mask == mask && (s.flags & F_WRITE) <= (flags & F_WRITE) && (s.flags & F_ATOMIC) >= (flags & F_ATOMIC)) store_at = i;
      continue;
    }
    if (!((s.flags | flags) & F_WRITE)) continue;
    if ((s.flags & flags) & F_ATOMIC) continue;
    if (s.epoch > c->vc.t[s.tid]) report_race(a, len_in, flags, pc, s);
    // ordered before us: if we overwrite the same bytes with a write, replace
    if ((flags & F_WRITE) && s.mask == mask) store_at = i;
  }
  if (store_at < 0) store_at = empty;
  if (store_at < 0) store_at = (int)(c->ltick & 3);
  cell[store_at] = mev;
}

HOT void one_granule(uptr a, uptr off, unsigned len, int flags, uptr pc, T* c) {
  // permissions
  u64 pv = *(u64*)(kPerm + (off & ~(uptr)7));
  if (UNLIKELY(pv)) {
    unsigned o = a & 7;
    u64 bytes = len == 8 ? ~0ull : ((1ull << (len * 8)) - 1) << (o * 8);
    u64 bad = pv & bytes & ((flags & F_WRITE) ? 0x0202020202020202ull : 0x0101010101010101ull);
    if (bad) {
      unsigned k = __builtin_ctzll(bad) / 8;
      report_perm((a & ~(uptr)7) + k, len, flags, pc, (u8)(pv >> (k * 8)));
    }
    if ((flags & F_WRITE) && !(flags & F_ATOMIC) && (pv & 0x80)) aloc_forget(a, a + len);
    if ((flags & F_WRITE) && (pv & bytes & 0x4040404040404040ull)) g_writers |= 1ull << c->tid;
  }
  if (g_cfg.race) cell_check(a, off, len, flags, pc, c);
}

#ifdef SIM_COV
// Which instrumented instructions the runs reached (tools/cov.py reads it).
u8* g_cov;
#endif
HOT void check_mem(uptr a, unsigned size, int flags, uptr pc, T* c) {
  uptr off;
#ifdef SIM_COV
  if (g_cov && pc - (uptr)&__executable_start < kGlobSz) g_cov[pc - (uptr)&__executable_start] = 1;
#endif
  if (!shadow_off(a, &off)) return;
  if (UNLIKELY(g_watch != 0) && (a & ~(uptr)7) <= g_watch && a + size > (g_watch & ~(uptr)7)) {
    int w = (flags & F_WRITE) ? 1 : 0;
    B->watch_pc[c->tid][w] = pc; B->watch_tick[c->tid][w] = c->ltick;
  }
  unsigned in = 8 - (a & 7);
  if (LIKELY(size <= in)) { one_granule(a, off, size, flags, pc, c); return; }
  one_granule(a, off, in, flags, pc, c);
  a += in; off += in; size -= in;
  while (size) {
    unsigned k = size < 8 ? size : 8;
    one_granule(a, off, k, flags, pc, c);
    a += k; off += k; size -= k;
  }
}

HOT void access(uptr a, unsigned size, int flags, uptr pc) {
  T* c = g_cur;
  if (UNLIKELY(!c)) return;
  if (UNLIKELY(c->ignore)) return;
  g_tick++;
  if (UNLIKELY(++c->ltick >= c->stop)) mem_stop(c);
  if ((flags & F_WRITE) && a - kStacks >= MAXT * kStackSz) { g_last_progress = g_tick; g_progress_ns = now_ns(); }
  check_mem(a, size, flags, pc, c);
}

void access_range(uptr a, u64 size, int flags, uptr pc) {
  T* c = g_cur;
  if (!c || c->ignore || !size) return;
  while (size) {
    u64 k = size > 64 ? 64 : size;
    if (k == 64 && (a & 7)) k = 64 - (a & 7);
    access(a, (unsigned)k, flags, pc);
    a += k; size -= k;
  }
}

void shadow_clear(uptr a, u64 n) {
  uptr off; if (!n || !shadow_off(a, &off)) return;
  uptr lo = off & ~(uptr)7, hi = (off + n + 7) & ~(uptr)7;
  memset((void*)(kShadow + lo * 4), 0, (hi - lo) * 4);
}
void set_perm(uptr a, u64 n, u8 p) {
  uptr off; if (!n || !shadow_off(a, &off)) return;
  memset((void*)(kPerm + off), p, n);
}
// Only the permission part of an access (for objects the runtime models).
void perm_only(uptr a, unsigned size, bool write, uptr pc) {
  uptr off; if (!shadow_off(a, &off)) return;
  for (unsigned i = 0; i < size; i++) {
    u8 p = *(u8*)(kPerm + off + i);
    if (p & (write ? 2 : 1)) report_perm(a + i, size, write ? F_WRITE : 0, pc, p);
  }
}

// --------------------------------------------------------------- sync table
Sync* find_sync(uptr addr, int kind, bool create) {
  for (int i = 0; i < B->nsync; i++)
    if (B->sync[i].addr == addr && B->sync[i].kind == kind) return &B->sync[i];
  if (!create) return nullptr;
  Sync* s = nullptr;
  for (int i = 0; i < B->nsync; i++) if (!B->sync[i].addr) { s = &B->sync[i]; break; }
  if (!s) { if (B->nsync >= kMaxSync) sim_fail("harness", "too many sync objects"); s = &B->sync[B->nsync++]; }
  memset(s, 0, sizeof *s);
  s->addr = addr; s->kind = kind;
  return s;
}

ALoc* find_aloc(uptr addr, int size) {
  for (int i = 0; i < B->naloc; i++) if (B->aloc[i].addr == addr) { if (B->aloc[i].size == size) return &B->aloc[i]; B->aloc[i].addr = 0; }
  return nullptr;
}
void aloc_forget(uptr lo, uptr hi) {
  for (int i = 0; i < B->naloc; i++) {
    ALoc& l = B->aloc[i];
    if (l.addr && l.addr < hi && l.addr + l.size > lo) {
      // a plain write ends the history: later loads see the plain value
      l.n = 0;
    }
  }
}
void forget_range(uptr lo, uptr hi, bool freeing) {
  for (int i = 0; i < B->nsync; i++) {
    Sync& s = B->sync[i];
    if (s.addr >= lo && s.addr < hi && s.addr) {
      if (freeing && s.kind == K_MUTEX && s.owner && !s.destroyed)
        sim_fail("misuse", "memory of a locked mutex (owner T%d) was freed", s.owner - 1);
      s.addr = 0;
    }
  }
  for (int i = 0; i < B->naloc; i++) if (B->aloc[i].addr >= lo && B->aloc[i].addr < hi) B->aloc[i].addr = 0;
}

u64 load_mem(uptr a, int size) {
  switch (size) {
    case 1: return *(volatile u8*)a;
    case 2: return *(volatile uint16_t*)a;
    case 4: return *(volatile u32*)a;
    default: return *(volatile u64*)a;
  }
}
void store_mem(uptr a, int size, u64 v) {
  switch (size) {
    case 1: *(volatile u8*)a = (u8)v; break;
    case 2: *(volatile uint16_t*)a = (uint16_t)v; break;
    case 4: *(volatile u32*)a = (u32)v; break;
    default: *(volatile u64*)a = v; break;
  }
}

ALoc* get_aloc(uptr a, int size) {
  ALoc* l = find_aloc(a, size);
  u64 cur = load_mem(a, size);
  if (!l) {
    for (int i = 0; i < B->naloc; i++) if (!B->aloc[i].addr) { l = &B->aloc[i]; break; }
    if (!l) { if (B->naloc >= kMaxALoc) sim_fail("harness", "too many atomic locations"); l = &B->aloc[B->naloc++]; l->id = -2; }
    int oid = l->id; u32 ots = l->ts;
    l->addr = a; l->size = size; l->n = 0;
    if (oid == -2) { l->id = B->nview < MAXL ? B->nview++ : -1; l->ts = 0; }
    else { l->id = oid; l->ts = ots; }  // keep timestamps growing on reuse
    uptr off; if (shadow_off(a, &off)) *(u8*)(kPerm + (off & ~(uptr)7)) |= 0x80;
  }
  if (l->n == 0 || l->h[l->ts % kHist].val != cur) {
    // first sight, or changed by a plain write: restart the history
    l->ts++; l->n = 1;
    Store& s = l->h[l->ts % kHist];
    s.val = cur; s.ts = l->ts; s.tid = -1; s.epoch = 0; s.rel = false;
  }
  return l;
}

bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void read_store(T* c, ALoc* l, Store& s, int mo) {
  if (l->id >= 0 && s.ts > c->vc.v[l->id]) c->vc.v[l->id] = s.ts;
  if (s.rel) {
    if (is_acq(mo)) vc_join(&c->vc, &s.clk);
    else {
      if (!c->has_acq_pend) { memset(&c->acq_pend, 0, sizeof(VC)); c->has_acq_pend = true; }
      vc_join(&c->acq_pend, &s.clk);
    }
  }
}
void push_store(T* c, ALoc* l, u64 val, int mo, bool rmw) {
  Store prev_copy; bool have_prev = l->n > 0;
  if (have_prev) prev_copy = l->h[l->ts % kHist];
  l->ts++;
  if (l->n < kHist) l->n++;
  Store& s = l->h[l->ts % kHist];
  s.val = val; s.ts = l->ts; s.tid = c->tid; s.rel = false;
  memset(&s.clk, 0, sizeof(VC));
  if (l->id >= 0) c->vc.v[l->id] = l->ts;
  bool cont = have_prev && prev_copy.rel && (rmw || prev_copy.tid == c->tid);
  if (cont) { s.clk = prev_copy.clk; s.rel = true; }
  if (is_rel(mo)) { vc_join(&s.clk, &c->vc); s.rel = true; }
  else if (c->has_rel_fence) { vc_join(&s.clk, &c->rel_fence); s.rel = true; }
  s.epoch = c->vc.t[c->tid];
  if (is_rel(mo)) tick_epoch(c);
}
void value_changed(uptr a) {
  for (int i = 0; i < g_nth; i++) if (B->th[i].spin_addr == a) B->th[i].spin_n = 0;
}

HOT bool atomic_enter(uptr a, int size, int op, bool write, uptr pc) {
  T* c = g_cur;
  if (!c || c->ignore) return false;
  point(op, a, pc);
  check_mem(a, size, (write ? F_WRITE : 0) | F_ATOMIC, pc, c);
  return true;
}

// How many further spin loads of `c` cannot be affected by anything else.
u64 spin_ahead(T* c) {
  u64 lim = c->slice_end > c->ltick ? c->slice_end - c->ltick : 0;
  if (c->burn_left > 0 && (u64)c->burn_left < lim) lim = (u64)c->burn_left;
  if (c->burn_left <= 0 && next_rr(c->tid, false, false)) return 0;
  u64 now = now_ns();
  for (int i = 0; i < g_nth; i++) {
    T* t = &B->th[i];
    if (t->state == S_SLEEP || (t->state == S_BLOCKED && t->timed)) {
      u64 d = t->deadline > now ? (t->deadline - now) / 30 : 0;
      if (d < lim) lim = d;
    }
  }
  if (g_explore && g_faults) { u64 d = g_fault_end > g_tick ? g_fault_end - g_tick : 0; if (d < lim) lim = d; }
  u64 st = c->stop > c->ltick ? c->stop - c->ltick : 0;
  if (!g_explore && st < lim) lim = st;
  u64 idle = g_last_progress + g_cfg.idle_budget; idle = idle > g_tick ? idle - g_tick : 0;
  if (idle < lim) lim = idle;
  return lim > 2 ? lim - 2 : 0;
}

u64 do_load(uptr a, int size, int mo, uptr pc) {
  {
    T* c = g_cur;
    if (c && c->fast_spin && c->spin_addr == a && c->spin_n >= 3 && load_mem(a, size) == c->spin_val) {
      c->fast_spin--; c->spin_n++; c->ltick++; g_tick++; c->nsync++; g_res->syncops++; g_extra += 25; g_res->runtime_spin++;
      if (c->burn_left > 0) c->burn_left--;
      return c->spin_val;
    }
  }
  if (!atomic_enter(a, size, O_LOAD, false, pc)) return load_mem(a, size);
  T* c = g_cur;
  ALoc* l = get_aloc(a, size);
  u64 k = 0;
  Store* s = &l->h[l->ts % kHist];
  if (l->id >= 0 && mo != __ATOMIC_SEQ_CST && l->n > 1) {
    u64 maxk = 0;
    while ((int)maxk + 1 < l->n && l->ts - (maxk + 1) >= c->vc.v[l->id]) maxk++;
    if (maxk) {
      if (g_explore) {
        if (g_faults && g_cfg.p_stale && g_rng.chance(g_cfg.p_stale)) { k = 1 + g_rng.below(maxk); log_dec(D_STALE, k); }
      } else {
        u64 v;
        if (replay_dec(D_STALE, &v)) { k = v < maxk ? v : maxk; if (k) log_dec(D_STALE, k); }
      }
      s = &l->h[(l->ts - k) % kHist];
    }
  }
  u64 val = s->val;
  read_store(c, l, *s, mo);
  // spin detection
  if (c->spin_addr == a && c->spin_val == val) {
    c->spin_n++; g_extra += 25; g_res->runtime_spin++;
    if (c->spin_n > 8 && k == 0) c->fast_spin = spin_ahead(c);
  }
  else { c->spin_addr = a; c->spin_val = val; c->spin_n = 1; }
  return val;
}
void do_store(uptr a, int size, u64 v, int mo, uptr pc) {
  if (!atomic_enter(a, size, O_STORE, true, pc)) { store_mem(a, size, v); return; }
  T* c = g_cur;
  ALoc* l = get_aloc(a, size);
  u64 old = load_mem(a, size);
  store_mem(a, size, v);
  v = load_mem(a, size);
  push_store(c, l, v, mo, false);
  if (v != old) value_changed(a);
}
u64 do_rmw(uptr a, int size, int op, u64 v, int mo, uptr pc) {
  bool sim = atomic_enter(a, size, O_RMW, true, pc);
  u64 old = load_mem(a, size);
  ALoc* l = nullptr; T* c = g_cur;
  if (sim) { l = get_aloc(a, size); read_store(c, l, l->h[l->ts % kHist], mo); }
  u64 nv = v;
  switch (op) {
    case 0: nv = v; break;
    case 1: nv = old + v; break;
    case 2: nv = old - v; break;
    case 3: nv = old & v; break;
    case 4: nv = old | v; break;
    case 5: nv = old ^ v; break;
    case 6: nv = ~(old & v); break;
  }
  store_mem(a, size, nv);
  nv = load_mem(a, size);
  if (sim) { push_store(c, l, nv, mo, true); if (nv != old) value_changed(a); }
  return old;
}
bool do_cas(uptr a, int size, u64* expected, u64 v, int mo, int fmo, bool weak, uptr pc) {
  bool sim = atomic_enter(a, size, O_RMW, true, pc);
  u64 old = load_mem(a, size);
  T* c = g_cur;
  bool ok = old == *expected;
  if (sim && weak && ok) {
    u64 d;
    if (g_explore) {
      if (g_faults && g_cfg.p_casfail && g_rng.chance(g_cfg.p_casfail)) { ok = false; log_dec(D_CASFAIL, 1); }
    } else if (replay_dec(D_CASFAIL, &d)) { ok = false; log_dec(D_CASFAIL, 1); }
  }
  ALoc* l = nullptr;
  if (sim) { l = get_aloc(a, size); read_store(c, l, l->h[l->ts % kHist], ok ? mo : fmo); }
  if (ok) {
    store_mem(a, size, v);
    if (sim) { push_store(c, l, v, mo, true); if (v != old) value_changed(a); }
  } else {
    *expected = old;
  }
  return ok;
}

// ------------------------------------------------------------------ heap ---
void region_fill(uptr a, u64 n, u64 seed) {
  u64 x = sim_mix(seed) | 1;
  uptr e = a + n;
  while (a < e && (a & 7)) { *(u8*)a++ = (u8)(x >> 3); }
  while (a + 8 <= e) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; *(u64*)a = x; a += 8; }
  while (a < e) { *(u8*)a++ = (u8)(x >> 11); }
}
void poison_ahead(u64 upto) {
  while (g_heap_poisoned < upto + (64 << 10)) {
    u64 n = 256 << 10;
    if (g_heap_poisoned + n > kHeapSz) n = kHeapSz - g_heap_poisoned;
    if (!n) return;
    set_perm(kHeap + g_heap_poisoned, n, SIM_NONE);
    g_heap_poisoned += n;
  }
}
int size_class(u64 n) { int c = 0; while ((1ull << c) < n && c < 63) c++; return c; }

bool inject_alloc_fail(u64 size) {
  if (!g_armed) return false;
  bool f = false; u64 v;
  g_alloc_armed++;
  if (g_explore) {
    if (g_cfg.fail_alloc && g_alloc_armed >= g_cfg.fail_alloc &&
        (!g_cfg.fail_alloc_len || g_alloc_armed < g_cfg.fail_alloc + g_cfg.fail_alloc_len)) f = true;
  } else f = replay_dec(D_ALLOCFAIL, &v);
  if (f) { log_dec(D_ALLOCFAIL, size); g_fired++; }
  return f;
}

void* heap_alloc(u64 size, u64 align, uptr pc, bool zero) {
  T* c = g_cur;
  if (!c->ignore) { point(O_ALLOC, 0, pc); if (inject_alloc_fail(size)) return nullptr; }
  if (align < 16) align = 16;
  g_alloc_calls++;
  u64 h = sim_mix(g_cfg.seed * 31 + g_alloc_calls);
  int cls = size_class(size + 1);
  int idx = -1;
  if (g_cfg.heap_reuse) {
    int* pi = &B->freelist[cls];
    while (*pi >= 0) {
      Block& b = B->blk[*pi];
      if (b.hi - b.addr >= size + 32 && (b.addr % align) == 0) { idx = *pi; *pi = b.next; break; }
      pi = &b.next;
    }
  }
  if (idx < 0) {
    if (B->nblk >= kMaxBlocks) sim_fail("harness", "simulated heap: too many blocks");
    uptr lo = kHeap + g_heap_top;
    uptr p = (lo + 64 + align - 1) & ~(uptr)(align - 1);
    // Exactly as aligned as asked for, and no more, most of the time.
    if ((h & 3) && (p & (2 * align - 1)) == 0) p += align;
    uptr hi = (p + size + 64 + 63) & ~(uptr)63;
    if (hi - kHeap > kHeapSz - (1 << 20)) {
      // the simulated machine is out of memory: only reachable with huge requests
      return nullptr;
    }
    poison_ahead(hi - kHeap);
    g_heap_top = hi - kHeap;
    idx = B->nblk++;
    Block& b = B->blk[idx];
    b.addr = p; b.lo = lo; b.hi = hi;
  }
  Block& b = B->blk[idx];
  b.size = size; b.state = B_LIVE; b.tid = c->tid; b.pc = pc; b.next = -1;
  ((u64*)b.addr)[-1] = (u64)idx ^ 0x5157a11ull << 32;
  forget_range(b.addr, b.addr + (size ? size : 1), false);
  set_perm(b.addr, b.hi - b.addr, SIM_NONE);
  set_perm(b.addr, size, SIM_RW);
  shadow_clear(b.addr, size);
  if (zero) memset((void*)b.addr, 0, size);
  else region_fill(b.addr, size, h);
  g_live_blocks++; g_live_bytes += size;
  return (void*)b.addr;
}
Block* find_block(uptr p) {
  u64 tag = ((u64*)p)[-1] ^ 0x5157a11ull << 32;
  if (tag < (u64)B->nblk && B->blk[tag].addr == p) return &B->blk[tag];
  for (int i = 0; i < B->nblk; i++) if (B->blk[i].addr == p) return &B->blk[i];
  return nullptr;
}
void heap_free(void* ptr, uptr pc) {
  T* c = g_cur;
  uptr p = (uptr)ptr;
  if (c && !c->ignore) point(O_FREE, 0, pc);
  char d[256];
  Block* b = find_block(p);
  if (!b) { g_res->vpc = pc; sim_fail("mem", "free of a pointer that was never allocated [pc 0x%lx]: %s", (unsigned long)pc, describe_addr(p, d, sizeof d)); }
  if (b->state == B_FREED) { g_res->vpc = pc; sim_fail("mem", "double free [pc 0x%lx]: %s", (unsigned long)pc, describe_addr(p, d, sizeof d)); }
  if (((u64*)p)[-1] != ((u64)(b - B->blk) ^ 0x5157a11ull << 32))
    sim_fail("mem", "heap memory before a block was overwritten: %s", describe_addr(p, d, sizeof d));
  if (c && !c->ignore && g_cfg.race) {
    uptr a = p; u64 n = b->size;
    while (n) { unsigned k = 8 - (a & 7); if (k > n) k = (unsigned)n; check_mem(a, k, F_WRITE | F_FREE, pc, c); a += k; n -= k; }
  }
  b->state = B_FREED;
  forget_range(p, p + (b->size ? b->size : 1), true);
  set_perm(p, b->size, SIM_NONE);
  region_fill(p, b->size, g_cfg.seed ^ p);
  g_live_blocks--; g_live_bytes -= b->size;
  if (g_cfg.heap_reuse) {
    int cls = size_class(b->size + 1);
    b->next = B->freelist[cls]; B->freelist[cls] = (int)(b - B->blk);
  }
}
bool in_heap(const void* p) { return (uptr)p - kHeap < kHeapSz; }

// --------------------------------------------------------------- threads ---
void thread_finish(T* c);

void* thr_start(void* p) {
  T* t = (T*)p;
  wait_go(t);
  t->ret = t->fn(t->arg);
  thread_finish(t);
  park_forever();
  return nullptr;
}

void run_thread_dtors(T* c) {
  while (c->ntls) { TlsDtor d = c->tls[--c->ntls]; d.fn(d.obj); }
  u64 order = 0; bool perm = false;
  c->ltick++; g_tick++;
  if (g_explore) { if (g_faults && g_cfg.p_tsd && g_rng.chance(g_cfg.p_tsd)) { perm = true; order = g_rng.below(1000); } }
  else if (replay_dec(D_TSDORDER, &order)) perm = true;
  if (perm) log_dec(D_TSDORDER, order);
  for (int it = 0; it < 4; it++) {
    int ks[kMaxKeys]; int n = 0;
    for (int k = 0; k < c->maxkey; k++) if (B->keyused[k] && B->keydtor[k] && c->keyv[k]) ks[n++] = k;
    if (!n) break;
    if (perm) {
      Rng r(order + it);
      for (int i = n - 1; i > 0; i--) { int j = (int)r.below(i + 1); int x = ks[i]; ks[i] = ks[j]; ks[j] = x; }
    }
    for (int i = 0; i < n; i++) {
      int k = ks[i];
      const void* v = c->keyv[k];
      if (!v || !B->keyused[k] || !B->keydtor[k]) continue;
      c->keyv[k] = nullptr;
      B->keydtor[k]((void*)v);
    }
  }
}

void thread_finish(T* c) {
  run_thread_dtors(c);
  point(O_EXIT, 0, 0);
  for (int i = 0; i < B->nsync; i++)
    if (B->sync[i].addr && B->sync[i].kind == K_MUTEX && B->sync[i].owner == c->tid + 1)
      sim_fail("misuse", "thread T%d ended while holding a mutex", c->tid);
  c->state = S_DONE;
  g_live_thr--;
  tick_epoch(c);
  for (int i = 0; i < g_nth; i++) {
    T* t = &B->th[i];
    if (t->state == S_BLOCKED && t->wait_addr == (uptr)c) t->state = S_RUN;
  }
  c->ltick++; g_tick++;
  reschedule(true, false, 0, 0);
  park_forever();
}

T* new_thread_slot() {
  if (g_nth < MAXT) {
    T* t = &B->th[g_nth];
    memset(t, 0, sizeof *t);
    t->tid = g_nth;
    g_nth++;
    return t;
  }
  sim_fail("resource", "more than %d threads were created", MAXT - 1);
}

void assign_dq(T* t, const Decision* dec, u32 ndec) {
  // dqbuf is filled per thread, in order of the log
  static u32 used = 0;
  t->dq = &B->dqbuf[used];
  t->dqn = 0; t->dqi = 0;
  for (u32 i = 0; i < ndec; i++) if ((int)dec[i].tid == t->tid) t->dq[t->dqn++] = &dec[i];
  used += t->dqn;
}
const Decision* g_dec; u32 g_ndec;

int spawn_real(T* t) {
  pthread_attr_t at;
  g_in_rt++;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void*)(kStacks + t->tid * kStackSz), kStackSz);
  int r = real_create(&t->pt, &at, thr_start, t);
  pthread_attr_destroy(&at);
  g_in_rt--;
  return r;
}

T* by_pthread(pthread_t p) {
  for (int i = 0; i < g_nth; i++) if (B->th[i].pt == p && B->th[i].state != S_FREE) return &B->th[i];
  return nullptr;
}

// --------------------------------------------------------------- mutexes ---
Sync* mutex_of(pthread_mutex_t* m, uptr pc, bool may_be_destroyed = false) {
  perm_only((uptr)m, sizeof(*m) < 24 ? sizeof(*m) : 24, true, pc);
  Sync* s = find_sync((uptr)m, K_MUTEX, true);
  if (s->destroyed && !may_be_destroyed) { g_res->vpc = pc; sim_fail("misuse", "operation on a destroyed mutex [pc 0x%lx]", (unsigned long)pc); }
  return s;
}
int mutex_lock_nopoint(Sync* s, uptr pc) {
  T* c = g_cur;
  if (s->owner == c->tid + 1) {
    if (s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
    if (s->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  while (s->owner) {
    block_on(s->addr, "mutex lock");
    if (s->destroyed) sim_fail("misuse", "mutex destroyed while a thread waits for it");
  }
  s->owner = c->tid + 1; s->count = 1;
  sync_acquire(s);
  return 0;
}
int mutex_unlock_nopoint(Sync* s, uptr pc) {
  T* c = g_cur;
  if (s->owner != c->tid + 1) {
    if (s->type == PTHREAD_MUTEX_ERRORCHECK) return EPERM;
    g_res->vpc = pc;
    sim_fail("misuse", "unlock of a mutex that the thread does not hold [pc 0x%lx]", (unsigned long)pc);
  }
  if (--s->count) return 0;
  sync_release(s);
  s->owner = 0;
  wake_addr(s->addr);
  return 0;
}

int cond_wait_impl(pthread_cond_t* cv, pthread_mutex_t* m, bool timed, u64 deadline, uptr pc) {
  T* c = g_cur;
  point(O_CWAIT, (uptr)cv, pc);
  perm_only((uptr)cv, sizeof(*cv), true, pc);
  Sync* sc = find_sync((uptr)cv, K_COND, true);
  if (sc->destroyed) sim_fail("misuse", "wait on a destroyed condition variable [pc 0x%lx]", (unsigned long)pc);
  Sync* sm = mutex_of(m, pc);
  int saved = sm->count; sm->count = 1;
  if (sm->owner != c->tid + 1) sim_fail("misuse", "condition wait without holding the mutex [pc 0x%lx]", (unsigned long)pc);
  mutex_unlock_nopoint(sm, pc);
  c->in_cond = true; c->timed = timed; c->deadline = deadline; c->timed_out = false;
  c->cond_seq = ++g_condseq;
  block_on((uptr)cv, "condition wait");
  c->in_cond = false; c->timed = false;
  bool to = c->timed_out;
  mutex_lock_nopoint(sm, pc);
  sm->count = saved;
  return to ? ETIMEDOUT : 0;
}
u64 ts_ns(const struct timespec* t) { return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
const u64 kRealtimeBase = 1600000000ull * 1000000000ull;

void cond_wake(pthread_cond_t* cv, bool all, uptr pc) {
  perm_only((uptr)cv, sizeof(*cv), true, pc);
  Sync* sc = find_sync((uptr)cv, K_COND, false);
  if (sc && sc->destroyed) sim_fail("misuse", "signal on a destroyed condition variable [pc 0x%lx]", (unsigned long)pc);
  int w[MAXT], n = 0;
  for (int i = 0; i < g_nth; i++)
    if (B->th[i].state == S_BLOCKED && B->th[i].in_cond && B->th[i].wait_addr == (uptr)cv) w[n++] = i;
  if (!n) return;
  for (int i = 1; i < n; i++)   // first come, first served
    for (int j = i; j > 0 && B->th[w[j]].cond_seq < B->th[w[j - 1]].cond_seq; j--) { int x = w[j]; w[j] = w[j - 1]; w[j - 1] = x; }
  if (all) {
    for (int i = 0; i < n; i++) { B->th[w[i]].state = S_RUN; B->th[w[i]].in_cond = false; }
    return;
  }
  u64 k = 0;
  if (n > 1) {
    if (g_explore) { if (g_faults) k = g_rng.below(n); }
    else { u64 v; if (replay_dec(D_SIGPICK, &v)) k = v % n; }
    if (k) log_dec(D_SIGPICK, k);
  }
  B->th[w[k]].state = S_RUN; B->th[w[k]].in_cond = false;
}

int sleep_ns(u64 ns, uptr pc) {
  T* c = g_cur;
  point(O_SLEEP, 0, pc);
  u64 v;
  if (g_explore) {
    if (g_faults && g_cfg.p_eintr && g_rng.chance(g_cfg.p_eintr)) { log_dec(D_EINTR, 1); g_extra += ns / 3; return EINTR; }
    if (g_faults && g_cfg.p_oversleep && g_rng.chance(g_cfg.p_oversleep)) {
      v = g_rng.below(g_rng.chance(300) ? 200000000 : 5000000);
      u64 left = 250000000 - g_overslept;
      if (v > left) v = left;
      ns += v; g_overslept += v; log_dec(D_OVERSLEEP, v);
    }
  } else {
    if (replay_dec(D_EINTR, &v)) { log_dec(D_EINTR, 1); g_extra += ns / 3; return EINTR; }
    if (replay_dec(D_OVERSLEEP, &v)) { ns += v; log_dec(D_OVERSLEEP, v); }
  }
  c->state = S_SLEEP; c->deadline = now_ns() + ns; c->wait_why = "sleep";
  if (ns > 20000000 && c->deadline > g_idle_grace) g_idle_grace = c->deadline;
  c->ltick++; g_tick++;
  reschedule(true, false, 0, 0);
  return 0;
}

void on_fatal_signal(int sig, siginfo_t* si, void* uc) {
  char b[200];
  if (sig == SIGPROF) {
    // every 4 s of processor time: code that loops without any event?
    static u64 seen; static int same, total;
    if (g_tick != seen) { seen = g_tick; same = 0; }
    else same++;
    if (same >= 2) sim_fail("hang", "T%d loops without ever touching shared memory or synchronising", g_cur ? g_cur->tid : -1);
    if (++total >= 30) sim_fail("hang", "no completion within 120 s of processor time");
    return;
  }
  uptr pc = 0;
#if defined(__x86_64__)
  pc = (uptr)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
#elif defined(__aarch64__)
  pc = (uptr)((ucontext_t*)uc)->uc_mcontext.pc;
#elif defined(__arm__)
  pc = (uptr)((ucontext_t*)uc)->uc_mcontext.arm_pc;
#endif
  g_res->vpc = pc;
  sim_fail("crash", "signal %d at address 0x%lx [pc 0x%lx] in T%d: %s", sig, (unsigned long)(uptr)si->si_addr, (unsigned long)pc, g_cur ? g_cur->tid : -1,
           B ? describe_addr((uptr)si->si_addr, b, sizeof b) : "");
}

}  // namespace

// ------------------------------------------------------------- public API --
extern "C" void sim_fail(const char* vclass, const char* fmt, ...) {
  g_in_rt++;
  if (g_ending) syscall(SYS_exit_group, 0);
  g_ending = 1;
  va_list ap; va_start(ap, fmt);
  vsnprintf(g_res->msg, kMaxMsg, fmt, ap);
  va_end(ap);
  snprintf(g_res->vclass, sizeof g_res->vclass, "%s", vclass);
  g_res->violated = 1;
  if (g_trace) tracef("!! %s: %s\n", g_res->vclass, g_res->msg);
  finish();
  __builtin_unreachable();
}
extern "C" void sim_log(const char* fmt, ...) {
  if (!g_trace) return;
  char b[400]; va_list ap; va_start(ap, fmt);
  g_in_rt++; int n = vsnprintf(b, sizeof b, fmt, ap); g_in_rt--; va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  tracef("## T%d %.*s\n", g_cur ? g_cur->tid : -1, n, b);
}
extern "C" void sim_probe(int id) { if (id >= 0 && id < kMaxProbe) g_res->probe[id]++; }
extern "C" int sim_tid() { return g_cur ? g_cur->tid : -1; }
extern "C" u64 sim_now() { return now_ns(); }
extern "C" u64 sim_seq() { return g_tick; }
extern "C" void sim_stop_faults() { g_fault_end = 0; update_phase(); if (g_cur) recompute_stop(g_cur); }
extern "C" void sim_arm_faults(int on) { g_armed = on; if (on) { g_alloc_armed = g_create_armed = 0; } }
extern "C" int sim_fault_fired() { return g_fired; }
extern "C" void sim_allow_failstop(int on) { g_allow_failstop = on; }
extern "C" u64 sim_stderr_bytes() { return B->nerr; }
extern "C" const char* sim_stderr_text() { B->err[B->nerr] = 0; return B->err; }
extern "C" u64 sim_stdout_bytes() { return B->nout; }
extern "C" const char* sim_stdout_text() { B->out[B->nout] = 0; return B->out; }
extern "C" void sim_stdout_clear() { B->nout = 0; }
extern "C" u64 sim_live_blocks() { return g_live_blocks; }
extern "C" u64 sim_live_bytes() { return g_live_bytes; }
extern "C" u64 sim_alloc_calls() { return g_alloc_calls; }
extern "C" int sim_live_threads() { return g_live_thr; }
extern "C" int sim_unjoined_threads() {
  int n = 0;
  for (int i = 1; i < g_nth; i++) if (B->th[i].state != S_FREE && !B->th[i].joined && !B->th[i].detached) n++;
  return n;
}
extern "C" int sim_thread_finished(int tid) { T* t = &B->th[tid]; return t->state != S_DONE ? 0 : t->joined ? 2 : 1; }
extern "C" int sim_created_threads() { return g_created; }
extern "C" int sim_peak_threads() { return g_peak_thr; }
extern "C" void sim_peak_reset() { g_peak_thr = g_live_thr; }
extern "C" int sim_live_mutexes() {
  int n = 0;
  for (int i = 0; i < B->nsync; i++) if (B->sync[i].addr && (B->sync[i].kind == K_MUTEX || B->sync[i].kind == K_COND) && B->sync[i].inited && !B->sync[i].destroyed) n++;
  return n;
}
extern "C" void sim_writers_reset() { g_writers = 0; }
extern "C" int sim_writers() { return __builtin_popcountll(g_writers); }
extern "C" int sim_live_keys() { return B->nkeys; }
extern "C" int sim_locks_held() {
  int n = 0;
  for (int i = 0; i < B->nsync; i++) if (B->sync[i].addr && B->sync[i].kind == K_MUTEX && B->sync[i].owner && !B->sync[i].destroyed) n++;
  return n;
}
extern "C" void* sim_buf(size_t bytes, size_t misalign) {
  u64 start = (g_buf_top + 127) & ~(u64)127;
  start += 64 + misalign;
  if (start + bytes + 256 > kBufSz) sim_fail("harness", "caller buffer arena exhausted");
  set_perm(kBuf + g_buf_top, start + bytes + 128 - g_buf_top, SIM_NONE);
  uptr p = kBuf + start;
  set_perm(p, bytes, SIM_RW);
  g_buf_top = start + bytes + 64;
  return (void*)p;
}
extern "C" void sim_perm(const void* p, size_t n, int perm) { set_perm((uptr)p, n, (u8)perm); }
extern "C" void sim_region_name(const void* p, size_t n, const char* name) {
  if (B->nreg >= kMaxRegions) B->nreg = 0;
  Region& r = B->reg[B->nreg++];
  r.lo = (uptr)p; r.hi = (uptr)p + n; snprintf(r.name, sizeof r.name, "%s", name);
}
extern "C" void* sim_edge_buf(size_t bytes, int at_end, size_t align) {
  const u64 pg = 4096;
  u64 n = (bytes + pg - 1) & ~(pg - 1); if (!n) n = pg;
  if (g_edge_top + n + 2 * pg > kEdgeSz) sim_fail("harness", "edge arena exhausted");
  uptr base = kEdge + g_edge_top;
  if (mmap((void*)(base + pg), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED)
    sim_fail("harness", "edge mmap failed");
  g_edge_top += n + 2 * pg;
  if (!at_end) return (void*)(base + pg);
  return (void*)((base + pg + n - bytes) & ~(uptr)(align - 1));
}
extern "C" void sim_edge_reset() { munmap((void*)kEdge, g_edge_top); g_edge_top = 0; }
extern "C" void sim_point() { if (g_cur) point(O_USER, 0, RETADDR); }
extern "C" void sim_hb_release(const void* key) { if (g_cur) sync_release(find_sync((uptr)key, K_HB, true)); }
extern "C" void sim_hb_acquire(const void* key) { if (g_cur) sync_acquire(find_sync((uptr)key, K_HB, true)); }
extern "C" void sim_ignore_push() { if (g_cur) g_cur->ignore++; }
extern "C" void sim_ignore_pop() { if (g_cur) g_cur->ignore--; }

void sim_preinit() {
  static bool done = false;
  if (done) return;
  done = true;
  real_create = (create_t)dlsym(RTLD_NEXT, "pthread_create");
  g_glob_lo = (uptr)&__executable_start & ~(uptr)63;
  g_glob_sz = ((uptr)&_end - g_glob_lo + 63) & ~(uptr)63;
  if (g_glob_sz > kGlobSz) { fprintf(stderr, "simrt: program too big\n"); _exit(3); }
#ifdef SIM_COV
  if (const char* f = getenv("SIM_COV_FILE")) {
    int fd = open(f, O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && !ftruncate(fd, kGlobSz)) { void* p = mmap(nullptr, kGlobSz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) g_cov = (u8*)p; }
  }
#endif
  auto map = [](uptr a, u64 n) {
    void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a) { fprintf(stderr, "simrt: cannot map arena at %lx\n", (unsigned long)a); _exit(3); }
  };
  map(kArena, kArenaSz);
  map(kShadow, (kArenaSz + kGlobSz) * 4);
  map(kPerm, kArenaSz + kGlobSz);
  void* p = mmap(nullptr, sizeof(Big), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) _exit(3);
  B = (Big*)p;
}

extern "C" int sim_watch(u64 a) { g_watch = a; return 0; }

void sim_main(const SimCfg& cfg, const Decision* dec, u32 ndec, SimResult* res, void (*body)(void*), void* arg) {
  g_cfg = cfg; g_res = res;
  sim_preinit();
  g_trace = cfg.trace;
  g_explore = cfg.explore;
  g_rng = Rng(cfg.seed ^ 0x5eedull);
  g_dec = dec; g_ndec = ndec;
  g_faults = true;
  g_fault_end = cfg.explore ? cfg.horizon : ~0ull >> 1;
  res->hash_full = res->hash_sched = 1469598103934665603ull;
  for (int i = 0; i < 64; i++) B->freelist[i] = -1;
  g_heap_top = (sim_mix(cfg.seed) % 61) * 64;
  poison_ahead(g_heap_top);
  // PCT
  B->npct = 0;
  if (cfg.policy == P_PCT) {
    int d = (int)cfg.pct_depth; if (d > 15) d = 15;
    for (int i = 0; i < d; i++) B->pct_points[B->npct++] = 1 + g_rng.below(cfg.pct_len);
    for (int i = 1; i < d; i++) for (int j = i; j > 0 && B->pct_points[j] < B->pct_points[j - 1]; j--) { u64 x = B->pct_points[j]; B->pct_points[j] = B->pct_points[j - 1]; B->pct_points[j - 1] = x; }
    g_pct_lo = 1000;
  }
  for (int i = 0; i < 4; i++) g_victim[i] = (int)g_rng.below(6);
  // a fatal signal is a violation
  static char alt[64 << 10];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_fatal_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGTRAP};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = it.it_interval.tv_sec = 4;
  setitimer(ITIMER_PROF, &it, nullptr);
  // thread 0
  T* t = new_thread_slot();
  t->fn = nullptr; t->state = S_RUN;
  t->vc.t[0] = 1;
  assign_dq(t, dec, ndec);
  t->prio = (u32)(100000 + g_rng.below(100000));
  t->slice_end = kSlice;
  struct Boot { void (*body)(void*); void* arg; };
  static Boot boot; boot.body = body; boot.arg = arg;
  t->fn = [](void* p) -> void* {
    // each thread needs its own alternate signal stack only for overflow; skip
    Boot* b = (Boot*)p;
    b->body(b->arg);
    g_ending = 1;
    finish();
    return nullptr;
  };
  t->arg = &boot;
  int r = spawn_real(t);
  if (r) { fprintf(stderr, "simrt: cannot start\n"); _exit(3); }
  g_cur = t;
  recompute_stop(t);
  t->go = 1; futex_wake(&t->go);
  park_forever();
  __builtin_unreachable();
}

// ------------------------------------------------------------ interposers --
extern "C" {

void* malloc(size_t n) { if (!g_cur || g_in_rt) return __libc_malloc(n); return heap_alloc(n, 16, RETADDR, false); }
void* calloc(size_t a, size_t b) {
  if (!g_cur || g_in_rt) return __libc_calloc(a, b);
  u64 n; if (__builtin_mul_overflow((u64)a, (u64)b, &n)) { errno = ENOMEM; return nullptr; }
  return heap_alloc(n, 16, RETADDR, true);
}
void free(void* p) {
  if (!p) return;
  if (in_heap(p)) { if (B) heap_free(p, RETADDR); return; }
  __libc_free(p);
}
void* realloc(void* p, size_t n) {
  if (p && !in_heap(p)) return __libc_realloc(p, n);
  if (!g_cur || g_in_rt) { if (!p) return __libc_malloc(n); }
  if (!p) return heap_alloc(n, 16, RETADDR, false);
  Block* b = find_block((uptr)p);
  if (!b || b->state != B_LIVE) sim_fail("mem", "realloc of an invalid pointer");
  void* q = heap_alloc(n, 16, RETADDR, false);
  if (!q) return nullptr;
  memcpy(q, p, b->size < n ? b->size : n);
  heap_free(p, RETADDR);
  return q;
}
static void* aligned_impl(size_t al, size_t n, uptr pc) {
  if (!g_cur || g_in_rt) return __libc_memalign(al, n);
  return heap_alloc(n, al, pc, false);
}
int posix_memalign(void** out, size_t al, size_t n) {
  if (al < sizeof(void*) || (al & (al - 1))) return EINVAL;
  void* p = aligned_impl(al, n, RETADDR);
  if (!p) return ENOMEM;
  *out = p; return 0;
}
void* aligned_alloc(size_t al, size_t n) { return aligned_impl(al, n, RETADDR); }
void* memalign(size_t al, size_t n) { return aligned_impl(al, n, RETADDR); }
void* valloc(size_t n) { return aligned_impl(4096, n, RETADDR); }
size_t malloc_usable_size(void* p) { if (in_heap(p)) { Block* b = find_block((uptr)p); return b ? b->size : 0; } return 0; }

static void fail_stop(const char* what) {
  if (g_ending) syscall(SYS_exit_group, 0);
  if (g_allow_failstop && (g_fired || g_allow_failstop == 2)) { g_res->failstop = 1; g_ending = 1; finish(); }
  char d[300]; snprintf(d, sizeof d, "%s", B ? sim_stderr_text() : "");
  sim_fail("abort", "%s by T%d; stderr: %s", what, g_cur ? g_cur->tid : -1, d);
}
void abort(void) {
  if (g_cur) { g_in_rt++; g_res->vpc = RETADDR; fail_stop("abort()"); }
  signal(SIGABRT, SIG_DFL); raise(SIGABRT); for (;;) _exit(134);
}
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  if (g_cur) {
    g_in_rt++;
    const char* s = strrchr(f, '/');
    char b[400]; snprintf(b, sizeof b, "assertion failed: %s (%s:%u)", e, s ? s + 1 : f, l);
    fail_stop(b);
  }
  fprintf(stderr, "%s:%u: %s: assertion %s failed\n", f, l, fn, e);
  abort();
}
void sim_exit(int code) {
  if (g_cur) { g_in_rt++; fail_stop("exit()"); }
  _exit(code);
}

// -- stdio of instrumented code (objcopy renames the references) -----------
static void cap(FILE* f, const char* s, size_t n) {
  if (f == stderr) { if (B->nerr + n < sizeof(B->err) - 1) { memcpy(B->err + B->nerr, s, n); B->nerr += n; } }
  else { if (B->nout + n < sizeof(B->out) - 1) { memcpy(B->out + B->nout, s, n); B->nout += n; } }
}
int sim_vfprintf(FILE* f, const char* fmt, va_list ap) {
  if (!g_cur) return vfprintf(f, fmt, ap);
  char b[2048]; g_in_rt++; int n = vsnprintf(b, sizeof b, fmt, ap); g_in_rt--;
  cap(f, b, n < (int)sizeof b ? n : sizeof b - 1);
  point(O_USER, 0, RETADDR);
  return n;
}
int sim_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(stdout, fmt, ap); va_end(ap); return n; }
int sim_fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_fputs(const char* s, FILE* f) { if (!g_cur) return fputs(s, f); cap(f, s, strlen(s)); return 1; }
int sim_puts(const char* s) { if (!g_cur) return puts(s); cap(stdout, s, strlen(s)); cap(stdout, "\n", 1); return 1; }
int sim_putchar(int c) { if (!g_cur) return putchar(c); char x = (char)c; cap(stdout, &x, 1); return c; }
int sim_fputc(int c, FILE* f) { if (!g_cur) return fputc(c, f); char x = (char)c; cap(f, &x, 1); return c; }
size_t sim_fwrite(const void* p, size_t s, size_t n, FILE* f) { if (!g_cur) return fwrite(p, s, n, f); cap(f, (const char*)p, s * n); return n; }
int sim_fflush(FILE* f) { return g_cur ? 0 : fflush(f); }

void* sim_memcpy(void* d, const void* s, size_t n) { access_range((uptr)s, n, 0, RETADDR); access_range((uptr)d, n, F_WRITE, RETADDR); return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { access_range((uptr)s, n, 0, RETADDR); access_range((uptr)d, n, F_WRITE, RETADDR); return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { access_range((uptr)d, n, F_WRITE, RETADDR); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { access_range((uptr)a, n, 0, RETADDR); access_range((uptr)b, n, 0, RETADDR); return memcmp(a, b, n); }
int sim_bcmp(const void* a, const void* b, size_t n) { return sim_memcmp(a, b, n); }
int sim_putc(int c, FILE* f) { return sim_fputc(c, f); }
void sim__exit(int c) { sim_exit(c); }
void sim_bzero(void* d, size_t n) { access_range((uptr)d, n, F_WRITE, RETADDR); memset(d, 0, n); }
void* sim_memchr(const void* a, int c, size_t n) { return (void*)memchr(a, c, n); }

}  // extern "C"
// Red-black tree helpers of libstdc++ (uninstrumented): announce the accesses.
#include <set>
typedef std::_Rb_tree_node_base Rb;
static const unsigned kRb = sizeof(Rb);
extern "C" {
Rb* sim_rb_inc(Rb* x) {
  uptr pc = RETADDR;
  access((uptr)x, kRb, 0, pc);
  if (x->_M_right) { x = x->_M_right; access((uptr)x, kRb, 0, pc); while (x->_M_left) { x = x->_M_left; access((uptr)x, kRb, 0, pc); } }
  else { Rb* y = x->_M_parent; access((uptr)y, kRb, 0, pc); while (x == y->_M_right) { x = y; y = y->_M_parent; access((uptr)y, kRb, 0, pc); } if (x->_M_right != y) x = y; }
  return x;
}
Rb* sim_rb_dec(Rb* x) { access((uptr)x, kRb, 0, RETADDR); return std::_Rb_tree_decrement(x); }
Rb* sim_rb_cinc(Rb* x) { return sim_rb_inc(x); }
Rb* sim_rb_cdec(Rb* x) { return sim_rb_dec(x); }
void sim_rb_insert(bool left, Rb* x, Rb* p, Rb* header) {
  access((uptr)x, kRb, F_WRITE, RETADDR); access((uptr)p, kRb, F_WRITE, RETADDR); access((uptr)header, kRb, F_WRITE, RETADDR);
  std::_Rb_tree_insert_and_rebalance(left, x, p, *header);
}
Rb* sim_rb_erase(Rb* z, Rb* header) {
  access((uptr)z, kRb, F_WRITE, RETADDR); access((uptr)header, kRb, F_WRITE, RETADDR);
  if (z->_M_parent != header) access((uptr)z->_M_parent, kRb, F_WRITE, RETADDR);
  return std::_Rb_tree_rebalance_for_erase(z, *header);
}

// -- threads -----------------------------------------------------------------
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  T* c = g_cur;
  if (!c || g_in_rt) {
    if (!real_create) real_create = (create_t)dlsym(RTLD_NEXT, "pthread_create");
    return real_create(out, at, fn, arg);
  }
  point(O_CREATE, 0, RETADDR);
  bool failc = false; u64 v;
  if (g_armed) {
    g_create_armed++;
    if (g_explore) {
      if (g_cfg.fail_create && g_create_armed >= g_cfg.fail_create &&
          (!g_cfg.fail_create_len || g_create_armed < g_cfg.fail_create + g_cfg.fail_create_len)) failc = true;
    } else failc = replay_dec(D_CREATEFAIL, &v);
  }
  if (failc) { log_dec(D_CREATEFAIL, 1); g_fired++; return EAGAIN; }
  T* t = new_thread_slot();
  t->fn = fn; t->arg = arg;
  t->vc = c->vc;
  t->vc.t[t->tid] = 1;
  tick_epoch(c);
  t->prio = (u32)(100000 + g_rng.below(100000));
  assign_dq(t, g_dec, g_ndec);
  if (at) { int ds = 0; pthread_attr_getdetachstate(at, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED; }
  int r = spawn_real(t);
  if (r) sim_fail("harness", "real pthread_create failed: %d", r);
  t->state = S_RUN;
  g_created++; g_live_thr++;
  if (g_live_thr > g_peak_thr) g_peak_thr = g_live_thr;
  perm_only((uptr)out, sizeof *out, true, RETADDR);
  *out = t->pt;
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  T* c = g_cur;
  if (!c) { typedef int (*f_t)(pthread_t, void**); return ((f_t)dlsym(RTLD_NEXT, "pthread_join"))(p, ret); }
  point(O_JOIN, 0, RETADDR);
  T* t = by_pthread(p);
  if (!t) { sim_fail("misuse", "join of an unknown thread"); }
  if (t->joined || t->detached) sim_fail("misuse", "thread T%d joined twice or after detach", t->tid);
  if (t == c) return EDEADLK;
  while (t->state != S_DONE) block_on((uptr)t, "join");
  t->joined = true;
  vc_join(&c->vc, &t->vc);
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!g_cur) { typedef int (*f_t)(pthread_t); return ((f_t)dlsym(RTLD_NEXT, "pthread_detach"))(p); }
  T* t = by_pthread(p);
  if (!t) return ESRCH;
  t->detached = true;
  return 0;
}
void pthread_exit(void* ret) {
  T* c = g_cur;
  if (!c) _exit(0);
  c->ret = ret;
  thread_finish(c);
  park_forever();
  __builtin_unreachable();
}
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) {
  T* c = g_cur;
  if (!c) { extern int __cxa_thread_atexit_impl(void (*)(void*), void*, void*); return __cxa_thread_atexit_impl(fn, obj, dso); }
  if (c->ntls < 32) { c->tls[c->ntls].fn = fn; c->tls[c->ntls++].obj = obj; }
  return 0;
}

// -- thread-specific data ----------------------------------------------------
static const void* main_keyv[kMaxKeys];
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
  if (!B) sim_preinit();
  if (g_cur) point(O_KEY, 0, RETADDR);
  for (int i = 0; i < kMaxKeys; i++)
    if (!B->keyused[i]) {
      B->keyused[i] = true; B->keydtor[i] = d; B->nkeys++;
      for (int t = 0; t < g_nth; t++) B->th[t].keyv[i] = nullptr;
      main_keyv[i] = nullptr;
      *k = i; return 0;
    }
  return EAGAIN;
}
int pthread_key_delete(pthread_key_t k) {
  if (g_cur) point(O_KEY, 0, RETADDR);
  if (k >= (unsigned)kMaxKeys || !B || !B->keyused[k]) return EINVAL;
  B->keyused[k] = false; B->keydtor[k] = nullptr; B->nkeys--; return 0;
}
int pthread_setspecific(pthread_key_t k, const void* v) {
  if (k >= (unsigned)kMaxKeys || !B || !B->keyused[k]) return EINVAL;
  if (!g_cur) { main_keyv[k] = v; return 0; }
  g_cur->keyv[k] = v; if ((int)k >= g_cur->maxkey) g_cur->maxkey = k + 1;
  return 0;
}
void* pthread_getspecific(pthread_key_t k) {
  if (k >= (unsigned)kMaxKeys || !B || !B->keyused[k]) return nullptr;
  if (!g_cur) return (void*)main_keyv[k];
  return (void*)g_cur->keyv[k];
}

// -- mutexes and condition variables ----------------------------------------
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) {
  int type = PTHREAD_MUTEX_DEFAULT;
  if (at) pthread_mutexattr_gettype(at, &type);
  memset((void*)m, 0, sizeof *m);
  if (!g_cur) return 0;
  point(O_INIT, (uptr)m, RETADDR);
  perm_only((uptr)m, sizeof *m, true, RETADDR);
  Sync* s = find_sync((uptr)m, K_MUTEX, true);
  if (s->owner && !s->destroyed) sim_fail("misuse", "initialisation of a locked mutex");
  uptr a = s->addr; memset(s, 0, sizeof *s); s->addr = a; s->kind = K_MUTEX; s->inited = true; s->type = (u8)type;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!g_cur) return 0;
  point(O_DESTROY, (uptr)m, RETADDR);
  Sync* s = mutex_of(m, RETADDR);
  if (s->owner) sim_fail("misuse", "destruction of a locked mutex (owner T%d) [pc 0x%lx]", s->owner - 1, (unsigned long)RETADDR);
  for (int i = 0; i < g_nth; i++) if (B->th[i].state == S_BLOCKED && B->th[i].wait_addr == (uptr)m) sim_fail("misuse", "destruction of a mutex that T%d waits for", i);
  s->destroyed = true;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!g_cur || g_in_rt) return 0;
  point(O_LOCK, (uptr)m, RETADDR);
  Sync* s = mutex_of(m, RETADDR);
  if (!s->inited && !s->type && !s->owner) s->type = (u8)(m->__data.__kind & 3);
  return mutex_lock_nopoint(s, RETADDR);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!g_cur) return 0;
  point(O_LOCK, (uptr)m, RETADDR);
  Sync* s = mutex_of(m, RETADDR);
  if (s->owner && !(s->owner == g_cur->tid + 1 && s->type == PTHREAD_MUTEX_RECURSIVE)) return EBUSY;
  return mutex_lock_nopoint(s, RETADDR);
}
static u64 abs_deadline(const struct timespec* ts, clockid_t clk) {
  u64 t = ts_ns(ts);
  if (clk == CLOCK_REALTIME) return t > kRealtimeBase ? t - kRealtimeBase : 0;
  return t;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (!g_cur) return 0;
  T* c = g_cur;
  point(O_LOCK, (uptr)m, RETADDR);
  Sync* s = mutex_of(m, RETADDR);
  while (s->owner && s->owner != c->tid + 1) {
    c->timed = true; c->deadline = abs_deadline(ts, CLOCK_REALTIME); c->timed_out = false;
    block_on((uptr)m, "mutex timedlock");
    c->timed = false;
    if (c->timed_out) return ETIMEDOUT;
  }
  return mutex_lock_nopoint(s, RETADDR);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!g_cur || g_in_rt) return 0;
  point(O_UNLOCK, (uptr)m, RETADDR);
  return mutex_unlock_nopoint(mutex_of(m, RETADDR), RETADDR);
}
int pthread_cond_init(pthread_cond_t* cv, const pthread_condattr_t*) {
  memset((void*)cv, 0, sizeof *cv);
  if (!g_cur) return 0;
  point(O_INIT, (uptr)cv, RETADDR);
  perm_only((uptr)cv, sizeof *cv, true, RETADDR);
  Sync* s = find_sync((uptr)cv, K_COND, true);
  s->destroyed = false; s->inited = true;
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* cv) {
  if (!g_cur) return 0;
  point(O_DESTROY, (uptr)cv, RETADDR);
  perm_only((uptr)cv, sizeof *cv, true, RETADDR);
  Sync* s = find_sync((uptr)cv, K_COND, true);
  if (s->destroyed) sim_fail("misuse", "condition variable destroyed twice");
  for (int i = 0; i < g_nth; i++)
    if (B->th[i].state == S_BLOCKED && B->th[i].in_cond && B->th[i].wait_addr == (uptr)cv) sim_fail("misuse", "destruction of a condition variable that T%d waits on", i);
  s->destroyed = true;
  return 0;
}
int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) {
  if (!g_cur) return 0;
  return cond_wait_impl(cv, m, false, 0, RETADDR);
}
int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* ts) {
  if (!g_cur) return 0;
  return cond_wait_impl(cv, m, true, abs_deadline(ts, CLOCK_REALTIME), RETADDR);
}
int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  if (!g_cur) return 0;
  return cond_wait_impl(cv, m, true, abs_deadline(ts, clk), RETADDR);
}
int pthread_cond_signal(pthread_cond_t* cv) { if (!g_cur) return 0; point(O_CSIG, (uptr)cv, RETADDR); cond_wake(cv, false, RETADDR); return 0; }
int pthread_cond_broadcast(pthread_cond_t* cv) { if (!g_cur) return 0; point(O_CBCAST, (uptr)cv, RETADDR); cond_wake(cv, true, RETADDR); return 0; }

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!g_cur) { if (*o != 2) { *o = 1; fn(); *o = 2; } return 0; }
  point(O_ONCE, (uptr)o, RETADDR);
  Sync* s = find_sync((uptr)o, K_ONCE, true);
  while (*o == 1) block_on((uptr)o, "once");
  if (*o == 2) { sync_acquire(s); return 0; }
  *o = 1;
  fn();
  *o = 2;
  sync_release(find_sync((uptr)o, K_ONCE, true));
  wake_addr((uptr)o);
  return 0;
}

// -- function-local statics ----------------------------------------------------
int __cxa_guard_acquire(u64* g) {
  volatile u8* b = (volatile u8*)g;
  if (!g_cur) { if (b[0]) return 0; b[1] = 1; return 1; }
  point(O_GUARD, (uptr)g, RETADDR);
  Sync* s = find_sync((uptr)g, K_GUARD, true);
  for (;;) {
    if (b[0]) { sync_acquire(s); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    block_on((uptr)g, "static initialisation");
    s = find_sync((uptr)g, K_GUARD, true);
  }
}
void __cxa_guard_release(u64* g) {
  volatile u8* b = (volatile u8*)g;
  if (!g_cur) { b[0] = 1; b[1] = 0; return; }
  point(O_GUARD, (uptr)g, RETADDR);
  sync_release(find_sync((uptr)g, K_GUARD, true));
  // the fast path reads the guard with an atomic acquire load (one byte on
  // x86, the whole word on ARM)
  T* c = g_cur;
#if defined(__aarch64__)
  ALoc* l = get_aloc((uptr)g, 8);
#elif defined(__arm__)
  ALoc* l = get_aloc((uptr)g, 4);
#else
  ALoc* l = get_aloc((uptr)g, 1);
#endif
  b[1] = 0; b[0] = 1;
  push_store(c, l, 1, __ATOMIC_RELEASE, false);
  wake_addr((uptr)g);
}
void __cxa_guard_abort(u64* g) {
  volatile u8* b = (volatile u8*)g;
  b[1] = 0;
  if (g_cur) wake_addr((uptr)g);
}

// -- time ------------------------------------------------------------------------
// the system calls matching this build's struct timespec (64-bit times on 32-bit ARM)
#ifdef SYS_clock_gettime64
static const long kSysClockGettime = sizeof(time_t) == 8 ? SYS_clock_gettime64 : SYS_clock_gettime;
static const long kSysClockNanosleep = sizeof(time_t) == 8 ? SYS_clock_nanosleep_time64 : SYS_clock_nanosleep;
#else
static const long kSysClockGettime = SYS_clock_gettime, kSysClockNanosleep = SYS_clock_nanosleep;
#endif
int nanosleep(const struct timespec* rq, struct timespec* rm) {
  if (!g_cur) return (int)syscall(kSysClockNanosleep, CLOCK_MONOTONIC, 0, rq, rm);
  u64 ns = ts_ns(rq);
  u64 t0 = now_ns();
  int r = sleep_ns(ns, RETADDR);
  if (r) {
    u64 left = t0 + ns > now_ns() ? t0 + ns - now_ns() : 0;
    if (rm) { rm->tv_sec = left / 1000000000ull; rm->tv_nsec = left % 1000000000ull; }
    errno = r; return -1;
  }
  return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec* rq, struct timespec* rm) {
  if (!g_cur) return (int)syscall(kSysClockNanosleep, clk, flags, rq, rm);
  u64 ns;
  if (flags & TIMER_ABSTIME) { u64 d = abs_deadline(rq, clk); ns = d > now_ns() ? d - now_ns() : 0; return sleep_ns(ns, RETADDR); }
  return nanosleep(rq, rm) ? errno : 0;
}
int usleep(useconds_t us) { if (!g_cur) { struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); } return sleep_ns((u64)us * 1000, RETADDR) ? -1 : 0; }
unsigned sleep(unsigned s) { if (!g_cur) { struct timespec t = {(time_t)s, 0}; nanosleep(&t, nullptr); return 0; } return sleep_ns((u64)s * 1000000000ull, RETADDR) ? 1 : 0; }
int sched_yield(void) {
  if (!g_cur) return (int)syscall(SYS_sched_yield);
  point(O_YIELD, 0, RETADDR);
  T* c = g_cur;
  c->ltick++; g_tick++;
  c->slice_end = c->ltick;   // default: give way
  reschedule(false, false, 0, 0);
  return 0;
}
int clock_gettime(clockid_t clk, struct timespec* ts) {
  if (!g_cur) return (int)syscall(kSysClockGettime, clk, ts);
  point(O_CLOCK, 0, RETADDR);
  g_extra += 40;
  u64 t = now_ns() + (clk == CLOCK_REALTIME ? kRealtimeBase : 0);
  ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t* t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
long sysconf(int name) {
  if (g_cur && (name == _SC_NPROCESSORS_CONF || name == _SC_NPROCESSORS_ONLN)) { point(O_SYSCONF, 0, RETADDR); return g_cfg.ncpu; }
  typedef long (*f_t)(int);
  static f_t f; if (!f) f = (f_t)dlsym(RTLD_NEXT, "sysconf");
  return f(name);
}
int get_nprocs(void) { return g_cur ? g_cfg.ncpu : 1; }
int get_nprocs_conf(void) { return g_cur ? g_cfg.ncpu : 1; }

// -- less common primitives ----------------------------------------------------
int sem_init(sem_t* p, int, unsigned v) { if (!g_cur) return 0; Sync* s = find_sync((uptr)p, K_SEM, true); s->count = (int)v; s->destroyed = false; return 0; }
int sem_destroy(sem_t* p) { if (!g_cur) return 0; Sync* s = find_sync((uptr)p, K_SEM, true); s->destroyed = true; return 0; }
int sem_post(sem_t* p) {
  if (!g_cur) return 0;
  point(O_SEM, (uptr)p, RETADDR); perm_only((uptr)p, sizeof *p, true, RETADDR);
  Sync* s = find_sync((uptr)p, K_SEM, true);
  if (s->destroyed) sim_fail("misuse", "post on a destroyed semaphore");
  sync_release(s); s->count++; wake_addr((uptr)p); return 0;
}
int sem_wait(sem_t* p) {
  if (!g_cur) return 0;
  point(O_SEM, (uptr)p, RETADDR); perm_only((uptr)p, sizeof *p, true, RETADDR);
  Sync* s = find_sync((uptr)p, K_SEM, true);
  if (s->destroyed) sim_fail("misuse", "wait on a destroyed semaphore");
  while (!s->count) block_on((uptr)p, "semaphore wait");
  s->count--; sync_acquire(s); return 0;
}
int sem_trywait(sem_t* p) {
  if (!g_cur) return 0;
  point(O_SEM, (uptr)p, RETADDR);
  Sync* s = find_sync((uptr)p, K_SEM, true);
  if (!s->count) { errno = EAGAIN; return -1; }
  s->count--; sync_acquire(s); return 0;
}
int pthread_spin_init(pthread_spinlock_t* p, int) { *(volatile int*)p = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* p) {
  if (!g_cur) return 0;
  point(O_LOCK, (uptr)p, RETADDR); perm_only((uptr)p, sizeof *p, true, RETADDR);
  Sync* s = find_sync((uptr)p, K_SPIN, true);
  while (s->owner) block_on((uptr)p, "spin lock");
  s->owner = g_cur->tid + 1; sync_acquire(s); return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* p) {
  if (!g_cur) return 0;
  point(O_LOCK, (uptr)p, RETADDR);
  Sync* s = find_sync((uptr)p, K_SPIN, true);
  if (s->owner) return EBUSY;
  s->owner = g_cur->tid + 1; sync_acquire(s); return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* p) {
  if (!g_cur) return 0;
  point(O_UNLOCK, (uptr)p, RETADDR);
  Sync* s = find_sync((uptr)p, K_SPIN, true);
  sync_release(s); s->owner = 0; wake_addr((uptr)p); return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* p, const pthread_rwlockattr_t*) { if (!g_cur) return 0; Sync* s = find_sync((uptr)p, K_RW, true); s->destroyed = false; s->owner = 0; s->readers = 0; return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* p) { if (!g_cur) return 0; Sync* s = find_sync((uptr)p, K_RW, true); if (s->owner || s->readers) sim_fail("misuse", "destruction of a held rwlock"); s->destroyed = true; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* p) {
  if (!g_cur) return 0;
  point(O_RW, (uptr)p, RETADDR); perm_only((uptr)p, 32, true, RETADDR);
  Sync* s = find_sync((uptr)p, K_RW, true);
  while (s->owner) block_on((uptr)p, "rwlock");
  s->readers++; sync_acquire(s); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* p) {
  if (!g_cur) return 0;
  point(O_RW, (uptr)p, RETADDR); perm_only((uptr)p, 32, true, RETADDR);
  Sync* s = find_sync((uptr)p, K_RW, true);
  while (s->owner || s->readers) block_on((uptr)p, "rwlock");
  s->owner = g_cur->tid + 1; sync_acquire(s); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) { if (!g_cur) return 0; Sync* s = find_sync((uptr)p, K_RW, true); if (s->owner) return EBUSY; return pthread_rwlock_rdlock(p); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) { if (!g_cur) return 0; Sync* s = find_sync((uptr)p, K_RW, true); if (s->owner || s->readers) return EBUSY; return pthread_rwlock_wrlock(p); }
int pthread_rwlock_unlock(pthread_rwlock_t* p) {
  if (!g_cur) return 0;
  point(O_RW, (uptr)p, RETADDR); perm_only((uptr)p, 32, true, RETADDR);
  Sync* s = find_sync((uptr)p, K_RW, true);
  sync_release(s);
  if (s->owner == g_cur->tid + 1) s->owner = 0; else if (s->readers) s->readers--; else sim_fail("misuse", "unlock of an rwlock not held");
  wake_addr((uptr)p); return 0;
}
int pthread_barrier_init(pthread_barrier_t* p, const pthread_barrierattr_t*, unsigned n) { if (!g_cur) return 0; Sync* s = find_sync((uptr)p, K_BARRIER, true); s->count = 0; s->owner = (int)n; s->gen = 0; return 0; }
int pthread_barrier_destroy(pthread_barrier_t*) { return 0; }
int pthread_barrier_wait(pthread_barrier_t* p) {
  if (!g_cur) return 0;
  point(O_BARRIER, (uptr)p, RETADDR); perm_only((uptr)p, sizeof *p, true, RETADDR);
  Sync* s = find_sync((uptr)p, K_BARRIER, true);
  u64 g = s->gen;
  sync_release(s);
  if (++s->count == s->owner) { s->count = 0; s->gen++; wake_addr((uptr)p); sync_acquire(s); return PTHREAD_BARRIER_SERIAL_THREAD; }
  while (s->gen == g) block_on((uptr)p, "barrier");
  sync_acquire(s);
  return 0;
}

// -- TSan ABI ---------------------------------------------------------------------
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void* p) { access((uptr)p, n, 0, RETADDR); } \
  void __tsan_write##n(void* p) { access((uptr)p, n, F_WRITE, RETADDR); } \
  void __tsan_unaligned_read##n(void* p) { access((uptr)p, n, 0, RETADDR); } \
  void __tsan_unaligned_write##n(void* p) { access((uptr)p, n, F_WRITE, RETADDR); } \
  void __tsan_volatile_read##n(void* p) { access((uptr)p, n, 0, RETADDR); } \
  void __tsan_volatile_write##n(void* p) { access((uptr)p, n, F_WRITE, RETADDR); } \
  void __tsan_read_write##n(void* p) { access((uptr)p, n, 0, RETADDR); access((uptr)p, n, F_WRITE, RETADDR); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access_range((uptr)p, n, 0, RETADDR); }
void __tsan_write_range(void* p, unsigned long n) { access_range((uptr)p, n, F_WRITE, RETADDR); }
void __tsan_vptr_update(void** p, void* v) {
  // Rewriting the same value is benign, but it is one step all the same: what a
  // dead stack slot happens to hold must not change the numbering of the steps.
  if (*p != v) { access((uptr)p, sizeof(void*), F_WRITE, RETADDR); return; }
  T* c = g_cur;
  if (!c || c->ignore) return;
  g_tick++;
  if (UNLIKELY(++c->ltick >= c->stop)) mem_stop(c);
}
void __tsan_vptr_read(void** p) { access((uptr)p, sizeof(void*), 0, RETADDR); }

#define ATOMICS(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type* a, int mo) { return (type)do_load((uptr)a, bits / 8, mo, RETADDR); } \
  void __tsan_atomic##bits##_store(volatile type* a, type v, int mo) { do_store((uptr)a, bits / 8, v, mo, RETADDR); } \
  type __tsan_atomic##bits##_exchange(volatile type* a, type v, int mo) { return (type)do_rmw((uptr)a, bits / 8, 0, v, mo, RETADDR); } \
  type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int mo) { return (type)do_rmw((uptr)a, bits / 8, 1, v, mo, RETADDR); } \
  type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int mo) { return (type)do_rmw((uptr)a, bits / 8, 2, v, mo, RETADDR); } \
  type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int mo) { return (type)do_rmw((uptr)a, bits / 8, 3, v, mo, RETADDR); } \
  type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int mo) { return (type)do_rmw((uptr)a, bits / 8, 4, v, mo, RETADDR); } \
  type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int mo) { return (type)do_rmw((uptr)a, bits / 8, 5, v, mo, RETADDR); } \
  type __tsan_atomic##bits##_fetch_nand(volatile type* a, type v, int mo) { return (type)do_rmw((uptr)a, bits / 8, 6, v, mo, RETADDR); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type v, int mo, int fmo) { u64 x = *e; bool r = do_cas((uptr)a, bits / 8, &x, v, mo, fmo, false, RETADDR); *e = (type)x; return r; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type v, int mo, int fmo) { u64 x = *e; bool r = do_cas((uptr)a, bits / 8, &x, v, mo, fmo, true, RETADDR); *e = (type)x; return r; } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type e, type v, int mo, int fmo) { u64 x = e; do_cas((uptr)a, bits / 8, &x, v, mo, fmo, false, RETADDR); return (type)x; }
ATOMICS(8, u8) ATOMICS(16, uint16_t) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo) {
  T* c = g_cur; if (!c) return;
  point(O_FENCE, 0, RETADDR);
  if (is_acq(mo) && c->has_acq_pend) { vc_join(&c->vc, &c->acq_pend); c->has_acq_pend = false; }
  if (mo == __ATOMIC_SEQ_CST) {
    // conservative: after a seq_cst fence this thread sees the newest stores
    for (int i = 0; i < B->naloc; i++) if (B->aloc[i].addr && B->aloc[i].id >= 0 && B->aloc[i].ts > c->vc.v[B->aloc[i].id]) c->vc.v[B->aloc[i].id] = B->aloc[i].ts;
  }
  if (is_rel(mo)) { c->rel_fence = c->vc; c->has_rel_fence = true; tick_epoch(c); }
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"
