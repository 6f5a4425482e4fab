// simrt.h: the deterministic simulator's API, as seen by scenarios and by the
// explorer.  See DESIGN.md.  The runtime (simrt.cc) is never instrumented; the
// scenarios and the gemmlowp sources they include are compiled with
// -fsanitize=thread, used purely as instrumentation: every memory access,
// atomic operation and function-static guard becomes a call into simrt.cc.
#ifndef SIMRT_H_
#define SIMRT_H_
#include <cstddef>
#include <cstdint>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef int64_t i64;

enum DecKind : u32 {
  D_SW = 1,      // run thread <value> instead of the default choice
  D_SPUR,        // spurious wakeup of condition waiter <value>
  D_STALE,       // atomic load returns the store <value> steps back
  D_BURN,        // spinning thread keeps the CPU for <value> further loads
  D_OVERSLEEP,   // sleep lasts <value> ns longer than asked
  D_SIGPICK,     // signal wakes the <value>-th waiter
  D_CREATEFAIL,  // pthread_create returns EAGAIN
  D_ALLOCFAIL,   // allocation returns null
  D_CASFAIL,     // weak compare-exchange fails spuriously
  D_TSDORDER,    // thread-specific destructors run in order number <value>
  D_KEYFAIL,     // pthread_key_create returns EAGAIN
  D_EINTR,       // sleep is cut short with EINTR
  D_TIMEOUT,     // timed wait times out although it was signalled late
  D_NKINDS
};
extern const char* const kDecNames[D_NKINDS];

struct Decision {
  u32 tid;
  u32 kind;
  u64 ltick;
  u64 value;
};

enum Policy { P_DEFAULT = 0, P_RANDOM = 1, P_PCT = 2, P_STARVE = 3 };

// Everything that determines a run, besides the workload itself.
struct SimCfg {
  u64 seed = 1;          // seeds heap garbage, and the policy when exploring
  int explore = 0;       // 1: policy draws decisions; 0: replay `dec_in`
  int policy = P_RANDOM;
  u32 p_sync = 100;      // /1000: switch at a synchronisation operation
  u64 mem_mean = 0;      // mean memory accesses between preemptions (0: never)
  u32 p_spur = 0;        // /1000 at a synchronisation operation
  u32 p_stale = 0;       // /1000 at an atomic load with an older visible store
  u32 p_burn = 0;        // /1000 when a spinning thread would give way
  u32 p_oversleep = 0;   // /1000 at a sleep
  u32 p_eintr = 0;       // /1000 at a sleep
  u32 p_casfail = 0;     // /1000 at a weak compare-exchange
  u32 p_tsd = 0;         // /1000 at thread exit
  u64 horizon = 1000000; // ticks after which faults stop
  u32 pct_depth = 3;
  u64 pct_len = 20000;
  u32 victims = 0;       // STARVE: number of starved threads
  u64 fail_alloc = 0;    // fail the n-th allocation (from arming), 0: none
  u64 fail_alloc_len = 0;// how many consecutive ones fail (0: all from there)
  u64 fail_create = 0;   // fail the n-th thread creation (from arming)
  u64 fail_create_len = 0;
  int ncpu = 4;          // what the simulated machine reports
  int heap_reuse = 0;    // 1: freed blocks are reused at once, 0: never
  u64 budget = 120000000;// tick budget (hang if exceeded)
  u64 idle_budget = 4000000; // ticks without any write/sync progress (hang)
  int race = 1;          // race detector on
  int trace = 0;
};

enum { kMaxDec = 1 << 16, kMaxMsg = 4096, kMaxProbe = 64, kMaxKnown = 32 };

// Shared between the run (a forked child) and the explorer.
struct SimResult {
  volatile u32 done;          // 1: run ended in an orderly way
  u32 violated;
  char vclass[32];            // violation class: result, race, mem, hang, ...
  char msg[kMaxMsg];
  u64 vaddr;
  u64 vpc;
  u64 ticks, switches, syncops, virt_ns;
  u64 hash_full, hash_sched;
  u64 fault[D_NKINDS];        // how often each decision kind fired
  u64 probe[kMaxProbe];       // "rare condition was reached" counters
  u32 threads;                // threads created
  u32 ndec;
  u32 failstop;               // run ended by a permitted diagnostic abort
  u64 runtime_spin;
  Decision dec[kMaxDec];
};

extern SimResult* g_res;
extern SimCfg g_cfg;

// Runs `body(arg)` as simulated thread 0; never returns (the process exits).
void sim_main(const SimCfg& cfg, const Decision* dec, u32 ndec, SimResult* res,
              void (*body)(void*), void* arg) __attribute__((noreturn));
void sim_preinit();  // reserve the arenas; before the first fork

// --- for scenarios (callable from simulated threads) -----------------------
extern "C" {
void sim_fail(const char* vclass, const char* fmt, ...)
    __attribute__((noreturn, format(printf, 2, 3)));
void sim_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_probe(int id);
int sim_tid();                    // current simulated thread
u64 sim_now();                    // simulated nanoseconds
u64 sim_seq();                    // global event sequence number
void sim_stop_faults();           // from here on: fair scheduling, no faults
void sim_arm_faults(int on);      // fail_alloc / fail_create counters run
int sim_fault_fired();            // an alloc/create failure was injected
void sim_allow_failstop(int on);  // 1: after an injected failure, 2: always: a diagnostic abort ends the run in peace
u64 sim_stderr_bytes();           // bytes the code under test wrote to stderr
const char* sim_stderr_text();
const char* sim_stdout_text();    // captured stdout of instrumented code
u64 sim_stdout_bytes();
void sim_stdout_clear();

// Accounting of what the code under test holds.
u64 sim_live_blocks();
u64 sim_live_bytes();
u64 sim_alloc_calls();
int sim_live_threads();           // simulated threads not yet finished
int sim_unjoined_threads();       // finished or not, neither joined nor detached
int sim_created_threads();        // total ever created (excluding thread 0)
int sim_peak_threads();           // highest number alive at once since reset
void sim_peak_reset();
int sim_thread_finished(int tid);  // 1: finished, 2: finished and joined
int sim_live_mutexes();           // initialised, not destroyed
int sim_live_keys();
int sim_locks_held();             // mutexes currently owned by anyone

// Caller buffers with per-byte permissions.
enum { SIM_RW = 0, SIM_NOREAD = 1, SIM_NOWRITE = 2, SIM_NONE = 3, SIM_WATCH = 0x40 };
void* sim_buf(size_t bytes, size_t misalign);   // outside the checked heap
void sim_perm(const void* p, size_t n, int perm);
void sim_writers_reset();
int sim_writers();                // threads that wrote to SIM_WATCH bytes since
void sim_region_name(const void* p, size_t n, const char* name);
// Edge buffers: end (or start) flush against an inaccessible page.
void* sim_edge_buf(size_t bytes, int at_end, size_t align);
void sim_edge_reset();

// Explicit scheduling point for harness code that shares data on purpose.
void sim_point();
// Hands harness data from thread to thread without a race report.
void sim_hb_release(const void* key);
void sim_hb_acquire(const void* key);
// The runtime ignores memory accesses of the current thread while >0.
void sim_ignore_push();
void sim_ignore_pop();
}

static inline u64 sim_mix(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(sim_mix(seed)) {}
  u64 next() {
    s += 0x9e3779b97f4a7c15ull;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
  bool chance(u32 per_mille) { return below(1000) < per_mille; }
};
#endif
