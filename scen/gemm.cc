// Scenario "gemm": histories of matrix products through the public interface,
// on one or more contexts, from one or more caller threads.
#include "gemm_data.h"
#include "public/gemmlowp.h"

extern const Combo* const* const kCombos1;
extern const Combo* const* const kCombos2;
extern const Combo* const* const kCombos3;
extern const Combo* const* const kCombos4;
extern const Combo* const* const kCombos5;
extern const Combo* const* const kCombos6;
extern const Combo* const* const kCombos7;

namespace {
using gemmlowp::GemmContext;

enum { PR_GEMM, PR_PARALLEL, PR_SINGLE, PR_SWAPPED, PR_STRIDED, PR_CACHE, PR_HW, PR_RECREATE, PR_SHAREDCTX, PR_SHAREDIN, PR_EMPTY, PR_REUSE, PR_CALLERS, PR_T2, PR_T3, PR_T4, PR_T5PLUS, PR_LOWERED, PR_EDGES, PR_QUIET, PR_PASSES };
const char* const kProbes[] = {"products", "parallel_products", "sequential_products", "transposed_products", "strided_products", "cache_settings_changed", "hardware_thread_count", "context_recreated", "context_handed_between_threads", "operands_shared_between_callers", "empty_products", "workers_reused", "several_callers", "ran_on_2_threads", "ran_on_3_threads", "ran_on_4_threads", "ran_on_5_or_more_threads", "thread_limit_lowered", "operands_at_page_edges", "long_idle_observed", "calls_repeated", nullptr};

const Combo* combos[64]; int ncombos;
HARNESS void load_combos() {
  if (ncombos) return;
  const Combo* const* const* const l[] = {&kCombos1, &kCombos2, &kCombos3, &kCombos4, &kCombos5, &kCombos6, &kCombos7};
  for (int i = 0; i < 7; i++) for (int k = 0; (*l[i])[k]; k++) combos[ncombos++] = (*l[i])[k];
}

const int kCallers = 4, kCtx = 3;
struct Slot { GemmContext* ctx; int limit; int workers; int prev_live; };
Slot slots[kCallers * kCtx + 1];
GemmData data[kCallers];
pthread_mutex_t shared_mu = PTHREAD_MUTEX_INITIALIZER;
int g_callers;
// operands two callers use at the same time
GemmData shared_in; int shared_ready;

HARNESS i64 limit_of(i64 setting) { return setting == 0 ? g_cfg.ncpu : setting; }

HARNESS void prep(GemmData* d, const Combo* c, const Op& o, int parallel_ok) {
  i64 rows = clampi(o.a[4], 0, 700), cols = clampi(o.a[5], 0, 700), depth = clampi(o.a[6], 0, 5000);
  while (rows * cols * depth > 3000000) depth /= 2;
  if (rows * cols > 200000) cols = 200000 / rows;
  gd_prepare(d, c, (int)rows, (int)cols, (int)depth, (int)clampi(o.a[7], 0, 70), (int)clampi(o.a[8], 0, 70), (int)clampi(o.a[9], 0, 70), (u64)o.a[10], (int)umod(o.a[11], 64));
  if (!rows || !cols || !depth) sim_probe(PR_EMPTY);
  if (rows < cols) sim_probe(PR_SWAPPED);
  if (o.a[7] || o.a[8] || o.a[9]) sim_probe(PR_STRIDED);
  sim_probe(PR_GEMM);
}
HARNESS void after(GemmData* d, Slot* s, const Op& o, int before_created, int before_live, const char* who) {
  gd_check(d, who);
  if (g_callers != 1) return;
  int created = sim_created_threads() - before_created;
  i64 lim = limit_of(s->limit);
  // The pool may hold workers from a time the limit was higher, but it must
  // not grow beyond what the current limit allows, and it must reuse them.
  int allowed = lim - 1 > s->workers ? (int)(lim - 1 - s->workers) : 0;
  if (created > allowed) sim_fail("threads", "a product with a limit of %d threads created %d workers although %d existed", (int)lim, created, s->workers);
  if (created == 0 && s->workers > 0 && sim_writers() > 1) sim_probe(PR_REUSE);
  s->workers += created;
  int nw = sim_writers();
  if (nw > lim) sim_fail("threads", "a product with a limit of %d threads was computed by %d threads", (int)lim, nw);
  if (nw > 1) sim_probe(PR_PARALLEL); else sim_probe(PR_SINGLE);
  if (nw == 2) sim_probe(PR_T2); else if (nw == 3) sim_probe(PR_T3); else if (nw == 4) sim_probe(PR_T4); else if (nw > 4) sim_probe(PR_T5PLUS);
  if (sim_live_threads() > before_live + created) sim_fail("threads", "threads appeared");
}

HARNESS void own_result(GemmData* d, int me) {
  *d = shared_in;
  d->g.res = gd_matrix(d->g.cols, d->g.rows, d->g.rows + 3, 1, me, SIM_RW | SIM_WATCH, "own result", &d->res_mem, &d->res_bytes);
  d->g.res_stride = d->g.rows + 3;
  for (size_t i = 0; i < d->res_bytes; i++) d->res_mem[i] = (u8)(0xA5 ^ (i * 7));
}

void run_one(Slot* s, GemmData* d, const Combo* c, const Op& o, const char* who) {
  int created = sim_created_threads(), live = sim_live_threads();
  if (g_callers == 1) sim_writers_reset();
  c->fn(s->ctx, &d->g);
  after(d, s, o, created, live, who);
}

void fresh(Slot* s) {
  s->ctx = new GemmContext; s->limit = 1; s->workers = 0;
}
void drop(Slot* s) {
  if (!s->ctx) return;
  int live = sim_live_threads(), had = s->workers;
  GemmContext* c = s->ctx;
  s->ctx = nullptr;
  delete c;
  if (g_callers == 1 && live - sim_live_threads() != had)
    sim_fail("teardown", "context with %d workers: %d of them ended on destruction", had, live - sim_live_threads());
}

void caller(const Workload* w, int me) {
  for (int k = 1; k < w->nops; k++) {
    const Op& o = w->op[k];
    if (umod(o.a[1], g_callers) != me) continue;
    int which = (int)umod(o.a[2], kCtx);
    Slot* s = &slots[me * kCtx + which];
    switch (umod(o.a[0], 8)) {
      case 0: {
        const Combo* c = combos[umod(o.a[3], ncombos)];
        if (!s->ctx) fresh(s);
        // keep the total number of simulated threads within the simulator's table
        if (sim_created_threads() + limit_of(s->limit) > 60 - 8 * g_callers && limit_of(s->limit) > s->workers + 1) break;
        prep(&data[me], c, o, 1);
        run_one(s, &data[me], c, o, "product");
        break;
      }
      case 1:
        if (!s->ctx) fresh(s);
        if (limit_of(clampi(o.a[3], 0, 12)) < limit_of(s->limit)) sim_probe(PR_LOWERED);
        s->limit = (int)clampi(o.a[3], 0, 12);
        if (!s->limit) sim_probe(PR_HW);
        s->ctx->set_max_num_threads(s->limit);
        break;
      case 2: {
        if (!s->ctx) fresh(s);
        static const int l1[] = {32768, 64, 700, 2048, 8192, 16384, 131072};
        static const int l2[] = {393216, 256, 1024, 6000, 20000, 100000, 1 << 22};
        static const float f[] = {0.75f, 1.0f, 0.5f, 0.1f, 0.9f};
        sim_probe(PR_CACHE);
        s->ctx->set_l1_bytes_to_use(l1[umod(o.a[3], 7)]);
        s->ctx->set_l2_bytes_to_use(l2[umod(o.a[4], 7)]);
        s->ctx->set_l2_rhs_factor(f[umod(o.a[5], 5)]);
        break;
      }
      case 7: if (g_callers == 1) { sim_probe(PR_QUIET); quiet_check(); } break;
      case 3:
        if (w->prop == 17) break;
        sim_probe(PR_RECREATE);
        drop(s);
        break;
      case 4: sim_idle_us(clampi(o.a[3], 0, 20000)); break;
      case 5: {
        // one context used by several threads, one at a time
        const Combo* c = combos[umod(o.a[3], ncombos)];
        Slot* sh = &slots[kCallers * kCtx];
        if (sim_created_threads() > 40) break;
        pthread_mutex_lock(&shared_mu);
        sim_probe(PR_SHAREDCTX);
        if (!sh->ctx) { fresh(sh); sh->ctx->set_max_num_threads(4); sh->limit = 4; }
        prep(&data[me], c, o, 1);
        // the lock is the caller's: release it for the accounting
        c->fn(sh->ctx, &data[me].g);
        gd_check(&data[me], "product on a context handed between threads");
        if (g_callers == 1) sh->workers = 0;
        pthread_mutex_unlock(&shared_mu);
        break;
      }
      case 6: {
        // operands shared with the other callers, own result
        if (!shared_ready) break;
        const Combo* c = combos[0];
        if (!s->ctx) fresh(s);
        if (sim_created_threads() + limit_of(s->limit) > 60 - 8 * g_callers && limit_of(s->limit) > s->workers + 1) break;
        sim_probe(PR_SHAREDIN);
        GemmData& d = data[me];
        own_result(&d, me);
        run_one(s, &d, c, o, "product with operands another caller reads too");
        break;
      }
    }
  }
  if (g_callers != 1) for (int i = 0; i < kCtx; i++) { GemmContext* c = slots[me * kCtx + i].ctx; slots[me * kCtx + i].ctx = nullptr; delete c; }
}

void exec(const Workload* w) {
  load_combos();
#if defined(GEMMLOWP_NEON)
  gd_edges = w->nops && (w->prop == 1 || w->prop == 2) && w->op[0].a[12];
  if (gd_edges) sim_probe(PR_EDGES);
#endif
  g_callers = w->nops ? (int)clampi(w->op[0].a[1], 1, kCallers) : 1;
  if (g_callers > 1) sim_probe(PR_CALLERS);
  if (w->nops && w->op[0].a[4]) {
    prep(&shared_in, combos[0], w->op[0], 1);
    shared_ready = 1;
  }
  u64 blocks0 = sim_live_blocks();
  int mutexes0 = sim_live_mutexes();
  if (w->prop == 17) {
    g_callers = 1;
    Growth g; memset((void*)&g, 0, sizeof g);
    for (int i = 0; i < 4; i++) { caller(w, 0); if (i) growth_note(&g, "context"); }
    sim_probe(PR_PASSES);
  } else {
    run_callers(w, g_callers, caller);
  }
  Slot* sh = &slots[kCallers * kCtx];
  { GemmContext* c = sh->ctx; sh->ctx = nullptr; delete c; }
  for (int i = 0; i < kCallers * kCtx; i++) drop(&slots[i]);
  if (sim_live_threads() != 0) sim_fail("teardown", "%d worker threads outlive their contexts", sim_live_threads());
  if (sim_unjoined_threads() != 0) sim_fail("teardown", "%d worker threads were never joined", sim_unjoined_threads());
  if (sim_live_blocks() != blocks0) sim_fail("leak", "%lld heap blocks leaked after all contexts were destroyed", (long long)(sim_live_blocks() - blocks0));
  if (sim_live_mutexes() != mutexes0) sim_fail("leak", "%d mutexes or condition variables never destroyed", sim_live_mutexes() - mutexes0);
}

// Shapes: mostly just above the sizes where the parallel path starts.
HARNESS void draw_shape(Rng& r, Op& o, int heavy, int fast) {
  i64 rows, cols, depth;
  u64 k = r.below(100);
  if (!heavy || k < 8) {
    if (r.chance(30)) { rows = r.range(0, 3); cols = r.range(0, 3); depth = r.range(0, 3); }
    else if (r.chance(500)) { rows = r.range(1, 18); cols = r.range(1, 18); depth = r.range(1, 40); }
    else { rows = r.range(1, 60); cols = r.range(1, 40); depth = r.range(1, 90); }
    if (r.chance(60)) { rows = r.range(1, 9); cols = r.range(1, 5); depth = r.range(100, 1500); }
  } else {
    i64 per = r.chance(60) ? 1 : r.range(2, fast ? 8 : 5);               // threads the size allows
    i64 cubic = per * 65536 + (i64)r.below(fast ? 120000 : 50000);
    u64 q = r.below(10);
    if (q < 1) { cols = 1; rows = r.range(33, 200); depth = cubic / rows + 1; }
    else if (q < 2) { cols = r.range(1, 4); rows = r.range(17, 160); depth = cubic / (rows * cols) + 1; }
    else { rows = r.range(17, 40 + 20 * per); cols = r.range(4, rows); depth = cubic / (rows * cols) + 1; }
    if (depth > 4000) { depth = 4000; cols = cubic / (rows * depth) + 1; if (cols > rows) cols = rows; }
    if (r.chance(300)) { i64 t = rows; rows = cols; cols = t; }
  }
  o.a[4] = rows; o.a[5] = cols; o.a[6] = depth;
}
void gen(Rng& r, Workload* w, SimCfg* cfg) {
  load_combos();
  int fast = 0;
#if defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_AVX2) || defined(GEMMLOWP_NEON)
  fast = 1;
#endif
  int multi = w->prop == 5 ? 800 : w->prop == 9 ? 500 : 150;
  Op& h = w->add();
  if (w->prop == 1 || w->prop == 2) h.a[12] = r.chance(350);
  h.a[1] = r.chance(multi) ? r.range(2, 3) : 1;
  if (w->prop == 17 || w->prop == 18) h.a[1] = 1;
  if (r.chance(h.a[1] > 1 ? 500 : 60)) { draw_shape(r, h, 1, fast); h.a[10] = (i64)r.below(1 << 30); h.a[11] = 0; }
  int n = (int)r.range(w->prop == 18 ? 2 : 1, w->prop == 9 ? 14 : w->prop == 8 || w->prop == 7 ? 8 : 5);
  int heavy_left = fast ? 3 : 2;
  // now and then a long run of small products: shapes, layouts and offsets
  // rather than schedules
  int small = r.chance(w->prop == 1 || w->prop == 2 ? 150 : 40);
  if (w->prop == 17 && small) n = (int)r.range(4, 12), heavy_left = 0;
  else if (small) { n = (int)r.range(15, 60); heavy_left = 0; }
  int first_threads = (int)r.range(2, 6);
  for (int c = 0; c < h.a[1]; c++) {
    Op& t = w->add(); t.a[0] = 1; t.a[1] = c; t.a[2] = 0; t.a[3] = r.chance(120) ? 0 : first_threads;
  }
  for (int i = 0; i < n; i++) {
    Op& o = w->add();
    u64 k = r.below(100);
    o.a[0] = k < 58 ? 0 : k < 68 ? 1 : k < 80 ? 2 : k < 86 ? 3 : k < 89 ? 4 : k < 94 ? 5 : 6;
    if (small) o.a[0] = k < 85 ? 0 : 2;
    if (w->prop == 18 && (r.chance(250) || i == n - 1)) o.a[0] = 7;
    if (w->prop == 7 && k >= 30 && k < 50) o.a[0] = 3;
    o.a[1] = r.below(3);
    o.a[2] = r.chance(700) ? 0 : (i64)r.below(kCtx);
    if (o.a[0] == 0 || o.a[0] == 5) {
      o.a[3] = r.below(1000);
      int heavy = heavy_left > 0 && r.chance(850);
      if (heavy) heavy_left--;
      draw_shape(r, o, heavy, fast);
      if (r.chance(400)) { o.a[7] = r.range(0, 20); o.a[8] = r.range(0, 20); o.a[9] = r.range(0, 20); }
      o.a[10] = (i64)r.below(1 << 30);
      o.a[11] = r.chance(600) ? 0 : (i64)r.below(64);
    } else if (o.a[0] == 1) {
      o.a[3] = r.chance(150) ? 0 : r.range(1, 8);
    } else if (o.a[0] == 2) {
      o.a[3] = r.below(7); o.a[4] = r.below(7); o.a[5] = r.below(5);
    } else if (o.a[0] == 4) {
      o.a[3] = r.range(0, 9000);
    }
  }
  if (cfg->mem_mean && cfg->mem_mean < 1000) cfg->mem_mean = 5000;
  static const u64 pl[] = {5000, 60000, 1000000, 5000000};
  cfg->pct_len = pl[r.below(4)];
  cfg->horizon = r.chance(500) ? 20000000 : 500000;
  cfg->budget = 400000000;
}
}  // namespace

extern const Scenario kScenGemm = {"gemm", gen, exec, kProbes};
