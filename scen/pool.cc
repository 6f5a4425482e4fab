// Scenario "pool": the workers pool driven by one or more caller threads.
#include "harness.h"

#include "internal/multi_thread_gemm.h"

namespace {
using gemmlowp::Allocator;
using gemmlowp::Task;
using gemmlowp::WorkersPool;

enum { PR_EXEC, PR_LEGACY, PR_ARRAY, PR_WORKER_RAN, PR_DESTROY, PR_DESTROY_IDLE, PR_REUSE, PR_GROW, PR_SHARED, PR_PASSIVE, PR_NOTASK_DESTROY, PR_QUIET, PR_PASSES };
const char* const kProbes[] = {"executes", "vector_form", "array_form", "task_on_worker", "pool_destroyed", "pool_destroyed_at_once", "workers_reused", "pool_grew", "shared_pool_use", "idle_gap", "unused_pool_destroyed", "long_idle_observed", "calls_repeated", nullptr};

const int kMaxTasks = 8, kMaxRec = 4096;
struct Rec { int runs, dtors, tid, legacy; };

// Harness-side truth; touched only by uninstrumented code.
struct Track {
  Rec rec[kMaxRec]; int nrec;
  const void* inflight_alloc[64]; int inflight_tid[64]; int ninflight;
  int execs_open;
};
Track tr;

HARNESS int new_rec(int legacy) {
  if (tr.nrec >= kMaxRec) sim_fail("harness", "too many tasks");
  tr.rec[tr.nrec].runs = tr.rec[tr.nrec].dtors = 0; tr.rec[tr.nrec].tid = -1; tr.rec[tr.nrec].legacy = legacy;
  return tr.nrec++;
}
HARNESS void on_run_begin(int id, const void* alloc) {
  Rec& r = tr.rec[id];
  r.runs++;
  r.tid = sim_tid();
  if (r.runs > 1) sim_fail("exactly-once", "task %d ran a second time", id);
  if (r.dtors) sim_fail("exactly-once", "task %d ran after it was destroyed", id);
  if (!alloc) sim_fail("allocator", "task %d ran without a local allocator", id);
  for (int i = 0; i < tr.ninflight; i++)
    if (tr.inflight_alloc[i] == alloc) sim_fail("allocator", "two tasks running at once on T%d and T%d share one local allocator", tr.inflight_tid[i], sim_tid());
  tr.inflight_alloc[tr.ninflight] = alloc; tr.inflight_tid[tr.ninflight] = sim_tid();
  if (++tr.ninflight > 63) sim_fail("harness", "in flight");
}
HARNESS void on_run_end(int id, const void* alloc) {
  for (int i = 0; i < tr.ninflight; i++)
    if (tr.inflight_alloc[i] == alloc) { tr.inflight_alloc[i] = tr.inflight_alloc[tr.ninflight - 1]; tr.inflight_tid[i] = tr.inflight_tid[tr.ninflight - 1]; tr.ninflight--; return; }
}
HARNESS void on_dtor(int id) {
  if (id < 0) return;
  if (++tr.rec[id].dtors > 1) sim_fail("exactly-once", "task %d destroyed twice", id);
}

struct Shared { i64 input; i64 out[kMaxTasks]; };

struct PoolTask : Task {
  int id, index, work; Shared* sh; u64 payload;
  PoolTask() : id(-1), index(0), work(0), sh(0), payload(0) {}
  ~PoolTask() override { on_dtor(id); payload = 0; }
  void Run() override {
    on_run_begin(id, local_allocator);
    Allocator* a = local_allocator;
    i64 acc = sh->input * 31 + index;        // written by the caller: must be visible
    switch (work & 7) {
      case 1: case 2: {
        int n = 1 + (work >> 3) % 200;
        Allocator::Handle h = a->Reserve<std::int32_t>(n);
        Allocator::Handle h2 = a->Reserve<std::uint8_t>(n);
        a->Commit();
        std::int32_t* p = a->GetPointer<std::int32_t>(h);
        std::uint8_t* q = a->GetPointer<std::uint8_t>(h2);
        for (int i = 0; i < n; i += 7) { p[i] = id * 1000 + i; q[i] = (std::uint8_t)(id + i); }
        sim_point();
        for (int i = 0; i < n; i += 7)
          if (p[i] != id * 1000 + i || q[i] != (std::uint8_t)(id + i)) sim_fail("result", "task %d: scratch memory changed under it", id);
        a->Decommit();
        break;
      }
      case 3: sim_idle_us(200 + (work >> 3) % 3000); break;
      case 4: for (int i = 0; i < (work >> 3) % 20; i++) sim_point(); break;
      default: break;
    }
    sh->out[index] = acc + (i64)payload;      // plain write: must be visible after Execute
    on_run_end(id, a);
  }
};

struct PoolSlot { WorkersPool* pool; int created_at_most; int used; };
PoolSlot slots[16];
pthread_mutex_t shared_mu = PTHREAD_MUTEX_INITIALIZER;
WorkersPool* shared_pool;
int shared_max;

HARNESS void check_done(const int* ids, int n, bool legacy, int caller_tid, int pool_workers) {
  int tids[kMaxTasks], nt = 0;
  for (int i = 0; i < n; i++) {
    Rec& r = tr.rec[ids[i]];
    if (r.runs != 1) sim_fail("exactly-once", "task %d of %d had run %d times when Execute returned", i, n, r.runs);
    if (legacy && r.dtors != 1) sim_fail("exactly-once", "task %d of %d was destroyed %d times by the vector form", i, n, r.dtors);
    if (!legacy && r.dtors != 0) sim_fail("exactly-once", "task %d of %d was destroyed by the array form", i, n);
    if (r.tid != caller_tid) sim_probe(PR_WORKER_RAN);
    for (int k = 0; k < nt; k++) if (tids[k] == r.tid) { r.tid = -2; break; }
    if (r.tid >= 0) tids[nt++] = r.tid;
  }
}

void do_exec(WorkersPool* pool, int n, int form, int work, int* ids) {
  bool legacy = form != 2;
  Shared sh;
  sh.input = work * 7 + 1;
  for (int i = 0; i < kMaxTasks; i++) sh.out[i] = -1;
  sim_probe(PR_EXEC);
  if (legacy) {
    sim_probe(PR_LEGACY);
    std::vector<Task*> tasks;
    for (int i = 0; i < n; i++) {
      PoolTask* t = new PoolTask;
      t->id = ids[i]; t->index = i; t->work = work + i * 11; t->sh = &sh; t->payload = (u64)i;
      tasks.push_back(t);
    }
    if (form == 0) pool->LegacyExecuteAndDestroyTasks(tasks);
    else pool->Execute(tasks);
  } else {
    sim_probe(PR_ARRAY);
    PoolTask* tasks = new PoolTask[n];
    for (int i = 0; i < n; i++) { PoolTask* t = &tasks[i]; t->id = ids[i]; t->index = i; t->work = work + i * 11; t->sh = &sh; t->payload = (u64)i; }
    pool->Execute(n, tasks);
    check_done(ids, n, false, sim_tid(), 0);
    for (int i = 0; i < n; i++) if (tasks[i].payload != (u64)i) sim_fail("result", "array-form task object changed");
    delete[] tasks;
  }
  if (legacy) check_done(ids, n, true, sim_tid(), 0);
  for (int i = 0; i < n; i++)
    if (sh.out[i] != (i64)(work * 7 + 1) * 31 + i + i) sim_fail("result", "effect of task %d not visible after Execute", i);
  // `sh` dies here: any later access by a worker is a race or a stack smash the
  // shadow memory reports.
  for (int i = 0; i < kMaxTasks; i++) sh.out[i] = 0;
}

void check_limit(int before, int n, int* known_max, int caller_count) {
  // Only meaningful with one caller: thread creations are attributable.
  int now = sim_created_threads();
  int allowed = n - 1 > *known_max ? n - 1 - *known_max : 0;
  if (caller_count == 1 && now - before > allowed)
    sim_fail("threads", "Execute of %d tasks created %d threads; the pool already had %d workers", n, now - before, *known_max);
  if (caller_count == 1) {
    if (now > before && *known_max) sim_probe(PR_GROW);
    if (now == before && n > 1) sim_probe(PR_REUSE);
    *known_max += now - before;   // workers this pool really has
  }
}

int g_callers;

void caller(const Workload* w, int me) {
  for (int k = 1; k < w->nops; k++) {
    const Op& o = w->op[k];
    if (umod(o.a[1], g_callers) != me) continue;
    int n = (int)clampi(o.a[3], 1, kMaxTasks);
    int slot = me * 2 + (int)umod(o.a[2], 2);
    PoolSlot& s = slots[slot];
    switch (umod(o.a[0], 6)) {
      case 0: case 4: {
        if (sim_created_threads() + n > 56) break;
        int ids[kMaxTasks];
        int form = (int)umod(o.a[4], 3);
        for (int i = 0; i < n; i++) ids[i] = new_rec(form != 2);
        if (umod(o.a[0], 6) == 4) {
          sim_probe(PR_SHARED);
          pthread_mutex_lock(&shared_mu);
          if (!shared_pool) { shared_pool = new WorkersPool; shared_max = 0; }
          int before = sim_created_threads();
          do_exec(shared_pool, n, form, (int)umod(o.a[5], 100000), ids);
          check_limit(before, n, &shared_max, g_callers);
          pthread_mutex_unlock(&shared_mu);
        } else {
          if (!s.pool) { s.pool = new WorkersPool; s.created_at_most = 0; }
          int before = sim_created_threads();
          do_exec(s.pool, n, form, (int)umod(o.a[5], 100000), ids);
          s.used = 1;
          check_limit(before, n, &s.created_at_most, g_callers);
        }
        break;
      }
      case 5: if (g_callers == 1) { sim_probe(PR_QUIET); quiet_check(); } break;
      case 1:
        if (w->prop == 17) break;
        if (s.pool) {
          sim_probe(PR_DESTROY);
          WorkersPool* p = s.pool;
          s.pool = nullptr;
          int live = sim_live_threads();
          int had = s.created_at_most;
          delete p;
          if (g_callers == 1 && live - sim_live_threads() != had)
            sim_fail("teardown", "pool with %d workers: %d of them ended on destruction", had, live - sim_live_threads());
        } else {
          sim_probe(PR_NOTASK_DESTROY);
          WorkersPool p;
          (void)p;
        }
        break;
      case 2: sim_probe(PR_PASSIVE); sim_idle_us(clampi(o.a[3], 0, 30000)); break;
      case 3: for (int i = 0; i < clampi(o.a[3], 0, 50); i++) sim_point(); break;
    }
  }
  if (w->prop != 17) for (int i = 0; i < 2; i++) { delete slots[me * 2 + i].pool; slots[me * 2 + i].pool = nullptr; }
}

void exec(const Workload* w) {
  g_callers = w->nops ? (int)clampi(w->op[0].a[1], 1, 3) : 1;
  u64 blocks0 = sim_live_blocks();
  int mutexes0 = sim_live_mutexes();
  if (w->prop == 17) {
    g_callers = 1;
    Growth g; memset((void*)&g, 0, sizeof g);
    for (int i = 0; i < 5; i++) { caller(w, 0); if (i) growth_note(&g, "pool"); }
    sim_probe(PR_PASSES);
    for (int i = 0; i < 2; i++) { delete slots[i].pool; slots[i].pool = nullptr; }
  } else {
    run_callers(w, g_callers, caller);
  }
  delete shared_pool;
  shared_pool = nullptr;
  if (sim_live_threads() != 0) sim_fail("teardown", "%d worker threads outlive their destroyed pools", sim_live_threads());
  if (sim_unjoined_threads() != 0) sim_fail("teardown", "%d worker threads were never joined", sim_unjoined_threads());
  if (sim_live_blocks() != blocks0) sim_fail("leak", "%lld heap blocks leaked after all pools were destroyed", (long long)(sim_live_blocks() - blocks0));
  if (sim_live_mutexes() != mutexes0) sim_fail("leak", "%d mutexes or condition variables never destroyed", sim_live_mutexes() - mutexes0);
}

void gen(Rng& r, Workload* w, SimCfg* cfg) {
  Op& h = w->add();
  h.a[1] = r.chance(650) ? 1 : r.range(2, 3);
  if (w->prop == 17 || w->prop == 18) h.a[1] = 1;
  int n = (int)r.range(w->prop == 18 ? 2 : 1, 9);
  // now and then a long history: whatever the pool or its workers count or adapt
  int longrun = r.chance(w->prop == 18 ? 300 : w->prop == 3 || w->prop == 4 || w->prop == 17 ? 30 : 0);
  if (longrun) n = (int)r.range(15, 45);
  int maxt = (int)r.range(1, 5);
  for (int i = 0; i < n; i++) {
    Op& o = w->add();
    u64 k = r.below(100);
    int destroy_w = w->prop == 7 ? 25 : 10;
    o.a[0] = k < 60 ? 0 : k < 60 + (u64)destroy_w ? 1 : k < 88 ? 2 : k < 92 ? 3 : 4;
    if (w->prop == 18 && (r.chance(longrun ? 40 : 300) || i == n - 1)) o.a[0] = 5;
    else if (longrun && r.chance(700)) o.a[0] = 0;
    o.a[1] = r.below(3);
    o.a[2] = r.chance(700) ? 0 : 1;
    o.a[3] = o.a[0] == 2 ? r.range(0, 9000) : r.range(1, maxt);
    o.a[4] = r.below(3);
    o.a[5] = r.below(100000);
  }
  cfg->budget = 60000000;
}
}  // namespace

extern const Scenario kScenPool = {"pool", gen, exec, kProbes};
