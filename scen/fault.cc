// Scenario "fault": products while thread creation or memory allocation fails.
// Whatever happens, a call either delivers the exact product or ends visibly
// (an exception out of the call, or termination with a diagnostic).
#include <new>
#include <system_error>

#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
#include "gemm_data.h"
#include "internal/multi_thread_gemm.h"
#include "public/gemmlowp.h"

extern const Combo* const* const kCombos1;
extern const Combo* const* const kCombos3;

namespace {
// The library's own thread layer keeps the process-wide lock on the heap until the
// process ends.
#ifndef _WIN32
const u64 kLockBlocks = 0;
#else
const u64 kLockBlocks = 1;
#endif
using gemmlowp::GemmContext;
namespace e8 = gemmlowp::eight_bit_int_gemm;

enum { PR_ARMED, PR_NOFIRE, PR_EXACT, PR_EXC, PR_AGAIN, PR_WARM, PR_GLOBAL, PR_POOL, PR_EXC_USABLE, PR_DESTROYED };
const char* const kProbes[] = {"calls_with_faults_armed", "fault_not_reached", "exact_result_despite_fault", "exception_left_the_call", "products_after_the_fault", "context_was_warm", "global_interface", "pool_alone", "lock_free_after_exception", "destroyed_after_exception", nullptr};

GemmData data;
int g_dead;   // an exception left the context in an unspecified state

struct CountTask : gemmlowp::Task {
  int* slot; int v;
  void Run() override { *slot += v; }
};

HARNESS void prep(const Combo* c, const Op& o) {
  i64 rows = clampi(o.a[4], 1, 300), cols = clampi(o.a[5], 1, 300), depth = clampi(o.a[6], 1, 2000);
  while (rows * cols * depth > 900000) depth /= 2;
  if (depth < 1) depth = 1;
  gd_prepare(&data, c, (int)rows, (int)cols, (int)depth, (int)clampi(o.a[7], 0, 20), 0, (int)clampi(o.a[9], 0, 20), (u64)o.a[10], 0);
}
HARNESS void after_call(int threw, int armed, int what) {
  int fired = sim_fault_fired();
  if (threw && !fired) sim_fail("result", "an exception left a call although nothing had failed");
  if (armed) {
    sim_probe(PR_ARMED);
    if (!fired) sim_probe(PR_NOFIRE);
    else if (threw) sim_probe(PR_EXC);
    else sim_probe(PR_EXACT);
  } else if (fired) {
    sim_probe(PR_AGAIN);
  }
}

void exec(const Workload* w) {
  GemmContext* ctx = nullptr;
  gemmlowp::WorkersPool* pool = nullptr;
  u64 blocks0 = sim_live_blocks();
  int limit = 1;
  for (int k = 0; k < w->nops && !g_dead; k++) {
    const Op& o = w->op[k];
    int armed = (int)umod(o.a[1], 2);
    int threw = 0;
    int what = (int)umod(o.a[0], 5);
    if (what == 3) { limit = (int)clampi(o.a[3], 0, 6); if (ctx) ctx->set_max_num_threads(limit); continue; }
    if (what == 4) { if (!sim_fault_fired()) { delete ctx; ctx = nullptr; } continue; }
    if (what == 0) {
      const Combo* c = (o.a[3] & 1) ? kCombos1[1] : kCombos1[0];
      if (!ctx) { ctx = new GemmContext; ctx->set_max_num_threads(limit); } else sim_probe(PR_WARM);
      prep(c, o);
      sim_allow_failstop(1); if (armed) sim_arm_faults(1);
      try { c->fn(ctx, &data.g); } catch (const std::bad_alloc&) { threw = 1; } catch (const std::system_error&) { threw = 1; }
      sim_arm_faults(0);
      if (!threw) gd_check(&data, sim_fault_fired() ? "product during which a resource request failed" : "product");
      after_call(threw, armed, what);
      if (threw) g_dead = 1;
    } else if (what == 1) {
      sim_probe(PR_GLOBAL);
      Combo c; memset((void*)&c, 0, sizeof c);
      c.kind = PK_STANDARD; c.l = 1;
      prep(&c, o);
      GemmCall& g = data.g;
      if (!sim_fault_fired()) e8::SetMaxNumThreads(limit);
      sim_allow_failstop(1); if (armed) sim_arm_faults(1);
      try {
        e8::EightBitIntGemm(g.lhs_rowmajor, g.rhs_rowmajor, g.res_rowmajor, g.rows, g.cols, g.depth, g.lhs, g.lhs_offset, g.lhs_stride, g.rhs, g.rhs_offset, g.rhs_stride,
                            (std::uint8_t*)g.res, g.q_offset, g.q_mult, g.q_shift, g.res_stride, e8::BitDepthSetting::A8B8);
      } catch (const std::bad_alloc&) { threw = 1; } catch (const std::system_error&) { threw = 1; }
      sim_arm_faults(0);
      if (!threw) gd_check(&data, sim_fault_fired() ? "8-bit product during which a resource request failed" : "8-bit product");
      after_call(threw, armed, what);
      // the interface must not stay locked
      if (threw) { try { e8::SetMaxNumThreads(2); } catch (const std::bad_alloc&) {} sim_probe(PR_EXC_USABLE); g_dead = 1; }
    } else {
      sim_probe(PR_POOL);
      if (!pool) pool = new gemmlowp::WorkersPool;
      int n = (int)clampi(o.a[3], 1, 5);
      int out[8] = {0};
      CountTask* t = new CountTask[n];
      for (int i = 0; i < n; i++) { t[i].slot = &out[i]; t[i].v = i + 3; }
      sim_allow_failstop(1); if (armed) sim_arm_faults(1);
      try { pool->Execute(n, t); } catch (const std::bad_alloc&) { threw = 1; } catch (const std::system_error&) { threw = 1; }
      sim_arm_faults(0);
      if (!threw) for (int i = 0; i < n; i++) if (out[i] != i + 3) sim_fail("result", "task %d of %d ran %d times although Execute returned", i, n, out[i] / (i + 3));
      after_call(threw, armed, what);
      if (threw) g_dead = 1; else delete[] t;
    }
  }
  // After an exception the context may refuse to go on, but only visibly.
  delete ctx;
  delete pool;
  if (g_dead) sim_probe(PR_DESTROYED);
  e8::FreePersistentResources();
  if (sim_live_threads() != 0) sim_fail("teardown", "%d worker threads are left", sim_live_threads());
  if (!sim_fault_fired() && sim_live_blocks() - blocks0 > kLockBlocks) sim_fail("leak", "%lld heap blocks leaked", (long long)(sim_live_blocks() - blocks0));
}

void gen(Rng& r, Workload* w, SimCfg* cfg) {
  { Op& t = w->add(); t.a[0] = 3; t.a[3] = r.range(1, 5); }
  int n = (int)r.range(1, 4), at = (int)r.below(n);
  for (int i = 0; i < n; i++) {
    Op& o = w->add();
    u64 k = r.below(100);
    o.a[0] = k < 55 ? 0 : k < 75 ? 1 : 2;
    o.a[1] = i == at;
    if (o.a[0] == 2) o.a[3] = r.range(1, 5);
    else {
      o.a[3] = r.below(2);
      if (r.chance(800)) { o.a[4] = r.range(33, 90); o.a[5] = r.range(16, 60); o.a[6] = r.range(2, 3) * 65536 / (o.a[4] * o.a[5]) + 2; }
      else { o.a[4] = r.range(1, 30); o.a[5] = r.range(1, 30); o.a[6] = r.range(1, 40); }
      o.a[7] = r.below(8); o.a[9] = r.below(8); o.a[10] = (i64)r.below(1 << 30);
    }
  }
  int kind = (int)r.below(10);
  if (kind < 5) { cfg->fail_create = (u64)r.range(1, 4); cfg->fail_create_len = r.chance(500) ? 1 : 0; }
  if (kind >= 4) { cfg->fail_alloc = (u64)r.range(1, r.chance(600) ? 8 : 40); cfg->fail_alloc_len = r.chance(600) ? 1 : 0; }
  if (cfg->mem_mean && cfg->mem_mean < 1000) cfg->mem_mean = 5000;
  cfg->horizon = r.chance(500) ? 20000000 : 500000;
  cfg->budget = 200000000;
}
}  // namespace

extern const Scenario kScenFault = {"fault", gen, exec, kProbes};
