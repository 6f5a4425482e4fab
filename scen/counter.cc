// Scenario "counter": the blocking counter and the wait for a variable change,
// used on their own.
#include "harness.h"

#include "internal/multi_thread_gemm.h"

namespace {
using gemmlowp::BlockingCounter;
using gemmlowp::WaitForVariableChange;

enum { PR_ROUNDS, PR_WAITED, PR_DECFIRST, PR_SLEPT, PR_VARROUNDS, PR_ALREADY, PR_PASSIVE, PR_MANYWAITERS, PR_ZERO, PR_BURST };
const char* const kProbes[] = {"counter_rounds", "waiter_arrived_before_the_last_event", "events_all_before_the_wait", "slow_event", "variable_rounds", "variable_already_changed", "long_wait", "several_waiters", "zero_events", "burst_of_changes", nullptr};

const int kMaxDec = 6;

// ---- counter ---------------------------------------------------------------
struct Round { int n; int share[kMaxDec]; int delay[kMaxDec]; int style; };
struct CounterRun {
  BlockingCounter c;
  int slot[kMaxDec][16];      // plain data published through the counter
  int rounds;
  Round r[8];
  int ndec;
};
CounterRun* cr;
// harness truth
int started[8], finished[8], lasts[8], waiting[8];
HARNESS void note_start(int round) { started[round]++; }
HARNESS void note_end(int round, bool last) {
  finished[round]++;
  if (last) {
    if (++lasts[round] > 1) sim_fail("counter", "two decrements of round %d both claimed to be the last", round);
    if (started[round] != cr->r[round].n) sim_fail("counter", "a decrement claimed to be the last after %d of %d", started[round], cr->r[round].n);
  }
}
HARNESS void note_waiting(int round) { waiting[round] = started[round] < cr->r[round].n; if (waiting[round]) sim_probe(PR_WAITED); else sim_probe(PR_DECFIRST); }
HARNESS void note_returned(int round) {
  if (started[round] != cr->r[round].n) sim_fail("counter", "the wait returned after %d of %d events", started[round], cr->r[round].n);
}
HARNESS void note_all_in(int round) {
  int n = cr->r[round].n;
  if (n && lasts[round] != 1) sim_fail("counter", "%d of the %d decrements claimed to be the last", lasts[round], n);
}

// Persistent decrementers take rounds one after the other, as pool workers do;
// a start gate (a condition variable of the harness) releases each round.
// The lock and the condition of the variable waits are the library's own where it
// brings its own thread layer.
#ifdef GEMMLOWP_USE_PTHREAD
#define GM ::
#else
#define GM gemmlowp::
#endif
pthread_mutex_t gate_mu = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t gate_cv = PTHREAD_COND_INITIALIZER;
int gate;
void dec_round(int me, int round) {
  Round& r = cr->r[round];
  for (int i = 0; i < r.share[me]; i++) {
    if (r.delay[me] & 1) { sim_probe(PR_SLEPT); sim_idle_us(r.delay[me] >> 1); }
    cr->slot[me][i % 16] = round * 100 + me * 10 + i;
    note_start(round);
    bool last = cr->c.DecrementCount();
    note_end(round, last);
  }
}
struct DecArg { int me; } dec_arg[kMaxDec];
void* dec_main(void* p) {
  int me = ((DecArg*)p)->me;
  for (int round = 0; round < cr->rounds; round++) {
    pthread_mutex_lock(&gate_mu);
    while (gate <= round) pthread_cond_wait(&gate_cv, &gate_mu);
    pthread_mutex_unlock(&gate_mu);
    dec_round(me, round);
  }
  return 0;
}
void run_counter(const Workload* w) {
  cr = new CounterRun;
  memset((void*)cr->slot, 0, sizeof cr->slot);
  cr->ndec = (int)clampi(w->op[0].a[2], 1, kMaxDec);
  cr->rounds = 0;
  for (int k = 1; k < w->nops && cr->rounds < 8; k++) {
    const Op& o = w->op[k];
    Round& r = cr->r[cr->rounds++];
    r.n = 0; r.style = (int)o.a[1];
    for (int i = 0; i < kMaxDec; i++) {
      r.share[i] = i < cr->ndec ? (int)clampi(o.a[2 + i], 0, 12) : 0;
      r.delay[i] = (int)clampi(o.a[10 + i], 0, 20000);
      r.n += r.share[i];
    }
  }
  pthread_t th[kMaxDec];
  for (int i = 0; i < cr->ndec; i++) { dec_arg[i].me = i; pthread_create(&th[i], 0, dec_main, &dec_arg[i]); }
  for (int round = 0; round < cr->rounds; round++) {
    Round& r = cr->r[round];
    sim_probe(PR_ROUNDS);
    if (!r.n) sim_probe(PR_ZERO);
    cr->c.Reset((std::size_t)r.n);   // straight after the previous wait returned
    pthread_mutex_lock(&gate_mu); gate = round + 1; pthread_cond_broadcast(&gate_cv); pthread_mutex_unlock(&gate_mu);
    if (r.style & 1) sim_idle_us((r.style >> 1) % 5000);
    note_waiting(round);
    cr->c.Wait();
    note_returned(round);
    // everything done before the decrements is visible now
    for (int i = 0; i < cr->ndec; i++)
      if (r.share[i]) { int j = r.share[i] - 1; int v = cr->slot[i][j % 16]; if (v != round * 100 + i * 10 + j) sim_fail("counter", "an effect that precedes a decrement is not visible after the wait"); }
  }
  for (int i = 0; i < cr->ndec; i++) pthread_join(th[i], 0);
  for (int round = 0; round < cr->rounds; round++) note_all_in(round);
  delete cr;
}

// ---- variable change ---------------------------------------------------------
struct VarRun {
  std::atomic<int> var;
  GM pthread_cond_t cond; GM pthread_mutex_t mutex;
  int data[64];
  int steps, waiters;
  i64 gap[24];
};
VarRun* vr;
int published, var_waiting[4];
HARNESS void note_publish(int v) { published = v; }
HARNESS void note_seen(int from, int v) {
  if (v == from) sim_fail("counter", "the wait returned although the variable still has its initial value");
  if (v < 0 || v > published) sim_fail("counter", "the wait returned a value the variable never had");
  if (v < from) sim_fail("counter", "the variable went back in time");
}
void* waiter_main(void* p) {
  int cur = 0;
  while (cur < vr->steps) {
    int v = WaitForVariableChange(&vr->var, cur, &vr->cond, &vr->mutex);
    note_seen(cur, v);
    // the mutex is free again, and what was published before is visible
    int d = vr->data[v];
    GM pthread_mutex_lock(&vr->mutex);
    GM pthread_mutex_unlock(&vr->mutex);
    if (d != v * 3 + 1) sim_fail("counter", "data published with the new value is not visible");
    cur = v;
  }
  return 0;
}
void run_var(const Workload* w) {
  vr = new VarRun;
  vr->var.store(0);
  GM pthread_cond_init(&vr->cond, nullptr); GM pthread_mutex_init(&vr->mutex, nullptr);
  vr->waiters = (int)clampi(w->op[0].a[2], 1, 3);
  vr->steps = 0;
  for (int k = 1; k < w->nops && vr->steps < 20; k++) vr->gap[vr->steps++] = clampi(w->op[k].a[2], 0, 30000);
  if (vr->waiters > 1) sim_probe(PR_MANYWAITERS);
  pthread_t th[4];
  for (int i = 0; i < vr->waiters; i++) pthread_create(&th[i], 0, waiter_main, 0);
  for (int s = 0; s < vr->steps; s++) {
    sim_probe(PR_VARROUNDS);
    if (vr->gap[s]) sim_idle_us(vr->gap[s]); else sim_probe(PR_BURST);
    if (vr->gap[s] > 4000) sim_probe(PR_PASSIVE);
    GM pthread_mutex_lock(&vr->mutex);
    vr->data[s + 1] = (s + 1) * 3 + 1;
    note_publish(s + 1);
    vr->var.store(s + 1, std::memory_order_release);
    GM pthread_cond_broadcast(&vr->cond);
    GM pthread_mutex_unlock(&vr->mutex);
  }
  for (int i = 0; i < vr->waiters; i++) pthread_join(th[i], 0);
  // already changed: returns at once
  if (vr->steps) { sim_probe(PR_ALREADY); int v = WaitForVariableChange(&vr->var, -1, &vr->cond, &vr->mutex); if (v != vr->steps) sim_fail("counter", "wrong value"); }
  GM pthread_cond_destroy(&vr->cond); GM pthread_mutex_destroy(&vr->mutex);
  delete vr;
}

void exec(const Workload* w) {
  if (!w->nops) return;
  if (w->op[0].a[1] & 1) run_var(w); else run_counter(w);
  if (sim_live_threads() != 0) sim_fail("harness", "threads left");
}

void gen(Rng& r, Workload* w, SimCfg* cfg) {
  Op& h = w->add();
  h.a[1] = r.chance(400);
  h.a[2] = h.a[1] ? (r.chance(600) ? 1 : r.range(2, 3)) : r.range(1, kMaxDec);
  int n = (int)r.range(1, h.a[1] ? 12 : 6);
  for (int i = 0; i < n; i++) {
    Op& o = w->add();
    if (h.a[1]) { o.a[2] = r.chance(500) ? 0 : r.chance(800) ? r.range(1, 9000) : r.range(1, 60); }
    else {
      o.a[1] = r.chance(300) ? 1 + 2 * (i64)r.below(5000) : 0;
      for (int k = 0; k < h.a[2]; k++) { o.a[2 + k] = r.chance(700) ? 1 : r.range(0, 4); o.a[10 + k] = r.chance(150) ? 1 + 2 * r.range(1, 8000) : 0; }
    }
  }
  cfg->budget = 60000000;
}
}  // namespace

extern const Scenario kScenCounter = {"counter", gen, exec, kProbes};
