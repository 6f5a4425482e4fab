// Scenario "custom": products through contexts whose workers pool is the user's.
#include "custom_pool.h"
#include "gemm_data.h"

extern const Combo kCustom0, kCustom1, kCustom2, kCustom3;

namespace {
enum { PR_GEMM, PR_BATCHES, PR_INORDER, PR_REVERSE, PR_SHUFFLE, PR_FRESH, PR_THREADPER, PR_FEW, PR_OTHER, PR_MULTIBATCH, PR_CALLERS };
const char* const kProbes[] = {"products", "batches", "pool_in_order", "pool_reversed", "pool_shuffled", "pool_fresh_allocators", "pool_thread_per_task", "pool_fewer_threads_than_tasks", "pool_on_another_thread", "several_batches_per_product", "several_callers", nullptr};
const int kCallers = 3;
GemmData data[kCallers];
int g_callers;

HARNESS const Combo* pick(i64 v) { static const Combo* const c[] = {&kCustom0, &kCustom1, &kCustom2, &kCustom3}; return c[umod(v, 4)]; }
HARNESS void prep(GemmData* d, const Combo* c, const Op& o) {
  i64 rows = clampi(o.a[4], 1, 400), cols = clampi(o.a[5], 1, 400), depth = clampi(o.a[6], 1, 3000);
  while (rows * cols * depth > 2000000) depth = depth / 2 + 1;
  gd_prepare(d, c, (int)rows, (int)cols, (int)depth, (int)clampi(o.a[7], 0, 40), (int)clampi(o.a[8], 0, 40), (int)clampi(o.a[9], 0, 40), (u64)o.a[10], (int)umod(o.a[11], 64));
  sim_probe(PR_GEMM);
}
void caller(const Workload* w, int me) {
  CustomContext* ctx = new CustomContext;
  int limit = 1;
  for (int k = 1; k < w->nops; k++) {
    const Op& o = w->op[k];
    if (umod(o.a[1], g_callers) != me) continue;
    switch (umod(o.a[0], 4)) {
      case 0: {
        const Combo* c = pick(o.a[3]);
        CustomPool* p = ctx->workers_pool();
        p->kind = (int)umod(o.a[12], CP_NKINDS); p->seed = (u64)o.a[10];
        int b0 = p->batches;
        p->max_batch = 0;
        prep(&data[me], c, o);
        c->fn(ctx, &data[me].g);
        gd_check(&data[me], "product on a user-supplied pool");
        int lim = limit == 0 ? g_cfg.ncpu : limit;
        if (p->max_batch > lim) sim_fail("threads", "a batch of %d tasks although the limit is %d threads", p->max_batch, lim);
        if (p->batches > b0) { sim_probe(PR_BATCHES); sim_probe(PR_INORDER + p->kind); }
        if (p->batches > b0 + 1) sim_probe(PR_MULTIBATCH);
        break;
      }
      case 1: limit = (int)clampi(o.a[3], 0, 8); ctx->set_max_num_threads(limit); break;
      case 2: {
        static const int l1[] = {32768, 64, 700, 2048, 8192};
        static const int l2[] = {393216, 256, 1024, 6000, 20000};
        ctx->set_l1_bytes_to_use(l1[umod(o.a[3], 5)]);
        ctx->set_l2_bytes_to_use(l2[umod(o.a[4], 5)]);
        break;
      }
      case 3: delete ctx; ctx = new CustomContext; limit = 1; break;
    }
  }
  delete ctx;
}
void exec(const Workload* w) {
  g_callers = w->nops ? (int)clampi(w->op[0].a[1], 1, kCallers) : 1;
  if (g_callers > 1) sim_probe(PR_CALLERS);
  u64 blocks0 = sim_live_blocks();
  run_callers(w, g_callers, caller);
  if (sim_live_blocks() != blocks0) sim_fail("leak", "%lld heap blocks leaked", (long long)(sim_live_blocks() - blocks0));
  if (sim_live_threads()) sim_fail("teardown", "threads left");
}
void gen(Rng& r, Workload* w, SimCfg* cfg) {
  Op& h = w->add();
  h.a[1] = r.chance(700) ? 1 : r.range(2, kCallers);
  for (int c = 0; c < h.a[1]; c++) { Op& t = w->add(); t.a[0] = 1; t.a[1] = c; t.a[3] = r.chance(100) ? 0 : r.range(2, 6); }
  int n = (int)r.range(1, 5), heavy = 3;
  for (int i = 0; i < n; i++) {
    Op& o = w->add();
    u64 k = r.below(100);
    o.a[0] = k < 65 ? 0 : k < 75 ? 1 : k < 94 ? 2 : 3;
    o.a[1] = r.below(h.a[1]);
    if (o.a[0] == 0) {
      o.a[3] = r.below(4);
      if (heavy > 0 && r.chance(850)) {
        heavy--;
        i64 per = r.range(2, 5), cubic = per * 65536 + (i64)r.below(50000);
        o.a[4] = r.range(17, 60 + 15 * per); o.a[5] = r.range(4, o.a[4]); o.a[6] = cubic / (o.a[4] * o.a[5]) + 1;
        if (r.chance(300)) { i64 t = o.a[4]; o.a[4] = o.a[5]; o.a[5] = t; }
      } else { o.a[4] = r.range(1, 30); o.a[5] = r.range(1, 30); o.a[6] = r.range(1, 60); }
      if (r.chance(400)) { o.a[7] = r.range(0, 20); o.a[8] = r.range(0, 20); o.a[9] = r.range(0, 20); }
      o.a[10] = (i64)r.below(1 << 30);
      o.a[11] = r.chance(600) ? 0 : (i64)r.below(64);
      o.a[12] = (i64)r.below(CP_NKINDS);
    } else if (o.a[0] == 1) o.a[3] = r.chance(150) ? 0 : r.range(1, 8);
    else if (o.a[0] == 2) { o.a[3] = r.below(5); o.a[4] = r.below(5); }
  }
  if (cfg->mem_mean && cfg->mem_mean < 1000) cfg->mem_mean = 5000;
  cfg->horizon = r.chance(500) ? 20000000 : 500000;
  cfg->budget = 400000000;
}
}  // namespace

extern const Scenario kScenCustom = {"custom", gen, exec, kProbes};
