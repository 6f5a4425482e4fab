// harness.h: helpers shared by the scenarios.  Functions marked HARNESS are not
// instrumented: the simulator does not see their accesses.
#ifndef HARNESS_H_
#define HARNESS_H_
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <time.h>

#include "../sim/scenario.h"
#include "../sim/simrt.h"

#define HARNESS __attribute__((no_sanitize_thread, noinline))
#define HARNESS_INL __attribute__((no_sanitize_thread)) inline

// Spawns `n` simulated caller threads running fn(arg, index) and joins them.
// With n == 1 the calling thread itself is the caller.
typedef void (*caller_fn)(const Workload* w, int caller);
struct CallerArg { const Workload* w; caller_fn fn; int idx; pthread_t th; };
static void* caller_main(void* p) { CallerArg* a = (CallerArg*)p; a->fn(a->w, a->idx); return 0; }
static inline void run_callers(const Workload* w, int n, caller_fn fn) {
  static CallerArg args[8];
  if (n <= 1) { fn(w, 0); return; }
  if (n > 8) n = 8;
  for (int i = 0; i < n; i++) {
    args[i].w = w; args[i].fn = fn; args[i].idx = i;
    if (pthread_create(&args[i].th, 0, caller_main, &args[i])) sim_fail("harness", "cannot create caller");
  }
  for (int i = 0; i < n; i++) pthread_join(args[i].th, 0);
}
static inline i64 clampi(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }
static inline i64 umod(i64 v, i64 n) { i64 r = v % n; return r < 0 ? r + n : r; }
static inline void sim_idle_us(i64 us) {
  if (us <= 0) return;
  struct timespec t; t.tv_sec = us / 1000000; t.tv_nsec = (us % 1000000) * 1000;
  nanosleep(&t, 0);
}

// C18: with nothing to do, the threads of the library have to be asleep after a
// busy-wait of bounded length.  One simulated second is several hundred times
// the present one; an injected spurious wake-up may start another.
static inline void quiet_wait(u64 ns) {
  u64 end = sim_now() + ns;
  while (sim_now() < end) sim_idle_us((i64)((end - sim_now()) / 1000 + 1));
}
static inline void quiet_check() {
  sim_point();
  quiet_wait(1000000000ull);
  sim_point();
  u64 t0 = sim_seq(), s0 = g_res->fault[D_SPUR];
  quiet_wait(1000000000ull);
  u64 dt = sim_seq() - t0, ds = g_res->fault[D_SPUR] - s0;
  if (dt > 200000 + ds * 1000000)
    sim_fail("idle", "%d idle worker threads executed %llu steps in a second without work", sim_live_threads(), (unsigned long long)dt);
}
// C17: what is held after each repetition of the same calls.  The first round also
// changes settings that the later ones start with, so the second is the reference.
struct Growth { int pass; u64 bytes, blocks; int threads, mutexes; };
HARNESS_INL void growth_note(Growth* g, const char* what) {
  u64 by = sim_live_bytes(), bl = sim_live_blocks();
  int th = sim_live_threads(), mu = sim_live_mutexes();
  if (g->pass) {
    if (bl > g->blocks || by > g->bytes) sim_fail("growth", "%s: %llu heap blocks (%llu bytes) held after making the same calls %d times, %llu (%llu) after the second time", what, (unsigned long long)bl, (unsigned long long)by, g->pass + 2, (unsigned long long)g->blocks, (unsigned long long)g->bytes);
    if (th > g->threads) sim_fail("growth", "%s: %d threads after making the same calls %d times, %d after the second time", what, th, g->pass + 2, g->threads);
    if (mu > g->mutexes) sim_fail("growth", "%s: %d mutexes and conditions after making the same calls %d times, %d after the second time", what, mu, g->pass + 2, g->mutexes);
  } else {
    g->bytes = by; g->blocks = bl; g->threads = th; g->mutexes = mu;
  }
  g->pass++;
}
#endif
