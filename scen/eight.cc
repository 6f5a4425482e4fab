// Scenario "eight": the global 8-bit interface, called from several threads.
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"

#include "gemm_data.h"

#ifndef EIGHT_CUBIC   // work per task from which a product is split
#define EIGHT_CUBIC 65536
#endif

namespace {
// The library's own thread layer keeps the process-wide lock on the heap until the
// process ends.
#ifndef _WIN32
const u64 kLockBlocks = 0;
#else
const u64 kLockBlocks = 1;
#endif
namespace e8 = gemmlowp::eight_bit_int_gemm;

enum { PR_U8, PR_FLOAT, PR_SET, PR_FREE, PR_CALLERS, PR_OVERLAP, PR_PAR, PR_EMPTYK, PR_FREE_IN_USE, PR_STRIDED, PR_A5B7, PR_VECTOR };
const char* const kProbes[] = {"quantised_products", "float_products", "thread_limit_set", "resources_freed", "several_callers", "calls_overlapped", "parallel_products", "zero_depth", "freed_while_another_caller_was_inside", "strided", "five_by_seven_bits", "vector_operands", nullptr};

const int kCallers = 4;
GemmData data[kCallers];
int g_callers, g_inside, g_workers, g_limit, g_limit_known;

HARNESS void enter(int is_free) {
  if (g_inside > 0) { sim_probe(PR_OVERLAP); if (is_free) sim_probe(PR_FREE_IN_USE); }
  g_inside++;
}
HARNESS void note_limit(int n) { g_limit = n; g_limit_known = n >= 0; }
HARNESS void leave() { g_inside--; }

HARNESS int alloc_res_float(GemmData* d, int spad, int mis) {
  GemmCall& g = d->g;
  int si = g.res_rowmajor ? g.cols : g.rows, so = g.res_rowmajor ? g.rows : g.cols;
  g.res_stride = si + spad;
  g.res = gd_matrix(so, si, g.res_stride, 4, mis * 4, SIM_RW | SIM_WATCH, "float result", &d->res_mem, &d->res_bytes);
  for (size_t i = 0; i < d->res_bytes; i++) d->res_mem[i] = (u8)(0xA5 ^ (i * 7));
  return 0;
}
HARNESS void check_float(GemmData* d, float scale) {
  GemmCall& g = d->g;
  for (int r = 0; r < g.rows; r++)
    for (int c = 0; c < g.cols; c++) {
      size_t i = g.res_rowmajor ? (size_t)r * g.res_stride + c : (size_t)c * g.res_stride + r;
      float want = (float)d->acc[(size_t)r * g.cols + c] * scale, got = ((float*)g.res)[i];
      if (g.depth == 0) {
        // a vacuous product: either left alone or zero, never anything else
        u32 bits, w2 = 0; memcpy(&bits, &got, 4);
        u8 orig[4]; for (int q = 0; q < 4; q++) orig[q] = (u8)(0xA5 ^ ((i * 4 + q) * 7));
        memcpy(&w2, orig, 4);
        if (bits != w2 && got != 0.0f) sim_fail("result", "float product of depth 0: element (%d,%d) became %g, which no operand of this call determines", r, c, (double)got);
        continue;
      }
      if (memcmp(&want, &got, 4)) sim_fail("result", "float product %dx%dx%d: element (%d,%d) is %.9g, expected %.9g", g.rows, g.depth, g.cols, r, c, (double)got, (double)want);
    }
  int k = g.kind; g.kind = PK_RAW;   // 4-byte elements: padding and operand checks
  int dep = g.depth; g.depth = 0;
  gd_check(d, "float product");
  g.kind = k; g.depth = dep;
}
HARNESS void account(int created0, GemmData* d, int is_u8) {
  if (g_callers != 1) return;
  int created = sim_created_threads() - created0;
  int lim = !g_limit_known || g_limit == 0 ? g_cfg.ncpu : g_limit;
  int allowed = lim - 1 > g_workers ? lim - 1 - g_workers : 0;
  if (created > allowed) sim_fail("threads", "with a limit of %d threads a product created %d workers although %d existed", lim, created, g_workers);
  g_workers += created;
  int nw = sim_writers();
  if (is_u8 && nw > lim) sim_fail("threads", "with a limit of %d threads %d threads computed the product", lim, nw);
}
HARNESS Combo make_combo(const Op& o) {
  Combo c; memset((void*)&c, 0, sizeof c);
  c.kind = umod(o.a[0], 6) == 1 ? PK_RAW : PK_STANDARD;
  c.l = o.a[12] & 1; c.r = (o.a[12] >> 1) & 1; c.s = (o.a[12] >> 2) & 1;
  return c;
}
HARNESS int prep(GemmData* d, const Op& o, const Combo* c) {
  i64 rows = clampi(o.a[4], 1, 400), cols = clampi(o.a[5], 1, 400), depth = clampi(o.a[6], 0, 3000);
  while (rows * cols * depth > 1500000) depth /= 2;
  int depth_d = (int)depth;
  gd_prepare(d, c, (int)rows, (int)cols, depth_d < 1 ? 1 : depth_d, (int)clampi(o.a[7], 0, 70), (int)clampi(o.a[8], 0, 70), (int)clampi(o.a[9], 0, 70), (u64)o.a[10], (int)umod(o.a[11], 64));
  if (o.a[7] || o.a[8] || o.a[9]) sim_probe(PR_STRIDED);
  if (rows == 1 || cols == 1) sim_probe(PR_VECTOR);
  return depth_d;
}

void product(const Op& o, int me) {
  GemmData* d = &data[me];
  Combo c = make_combo(o);
  int depth = prep(d, o, &c);
  GemmCall& g = d->g;
  int created = sim_created_threads();
  e8::BitDepthSetting bd = (o.a[12] & 8) ? e8::BitDepthSetting::A5B7 : e8::BitDepthSetting::A8B8;
  if (o.a[12] & 8) sim_probe(PR_A5B7);
  if (g_callers == 1) sim_writers_reset();
  if (c.kind == PK_STANDARD) {
    sim_probe(PR_U8);
    enter(0);
    e8::EightBitIntGemm(g.lhs_rowmajor, g.rhs_rowmajor, g.res_rowmajor, g.rows, g.cols, g.depth, g.lhs, g.lhs_offset, g.lhs_stride, g.rhs, g.rhs_offset, g.rhs_stride,
                        (std::uint8_t*)g.res, g.q_offset, g.q_mult, g.q_shift, g.res_stride, bd);
    leave();
    if (g_callers == 1 && sim_writers() > 1) sim_probe(PR_PAR);
    gd_check(d, "8-bit product");
    account(created, d, 1);
  } else {
    sim_probe(PR_FLOAT);
    static const float sc[] = {1.0f, 0.5f, 0.0371f, -3.25f, 1e-7f};
    float scale = sc[umod(o.a[13], 5)];
    alloc_res_float(d, (int)clampi(o.a[9], 0, 70), (int)umod(o.a[10], 8));
    if (depth == 0) { sim_probe(PR_EMPTYK); g.depth = 0; }
    enter(0);
    e8::EightBitIntGemm(g.lhs_rowmajor, g.rhs_rowmajor, g.res_rowmajor, g.rows, g.cols, g.depth, g.lhs, g.lhs_offset, g.lhs_stride, g.rhs, g.rhs_offset, g.rhs_stride,
                        (float*)g.res, scale, g.res_stride, bd);
    leave();
    check_float(d, scale);
    account(created, d, 0);
  }
}

void caller(const Workload* w, int me) {
  for (int k = 1; k < w->nops; k++) {
    const Op& o = w->op[k];
    if (umod(o.a[1], g_callers) != me) continue;
    switch (umod(o.a[0], 7)) {
      case 0: case 1: case 5:
        if (sim_created_threads() > 36) { e8::SetMaxNumThreads(1); note_limit(1); }
        product(o, me);
        break;
      case 2: {
        int n = (int)clampi(o.a[3], 0, 8);
        if (sim_created_threads() > 36) n = 1;
        sim_probe(PR_SET);
        enter(0); e8::SetMaxNumThreads(n); leave();
        note_limit(n);
        break;
      }
      case 6: if (g_callers == 1) quiet_check(); break;
      case 3: {
        if (w->prop == 17) break;
        sim_probe(PR_FREE);
        int live = sim_live_threads();
        enter(1); e8::FreePersistentResources(); leave();
        if (g_callers == 1) {
          if (live - sim_live_threads() != g_workers) sim_fail("teardown", "%d of %d workers ended when the persistent resources were freed", live - sim_live_threads(), g_workers);
          g_workers = 0; note_limit(-1);
        }
        break;
      }
      case 4: sim_idle_us(clampi(o.a[3], 0, 9000)); break;
    }
  }
}

void exec(const Workload* w) {
  g_callers = w->nops ? (int)clampi(w->op[0].a[1], 1, kCallers) : 1;
  if (g_callers > 1) sim_probe(PR_CALLERS);
  u64 blocks0 = sim_live_blocks();
  if (w->prop == 17) {
    g_callers = 1;
    Growth g; memset((void*)&g, 0, sizeof g);
    for (int i = 0; i < 4; i++) { caller(w, 0); if (i) growth_note(&g, "8-bit interface"); }
  } else {
    run_callers(w, g_callers, caller);
  }
  e8::FreePersistentResources();
  if (sim_live_threads() != 0) sim_fail("teardown", "%d worker threads are left after the persistent resources were freed", sim_live_threads());
  if (sim_unjoined_threads() != 0) sim_fail("teardown", "%d worker threads were never joined", sim_unjoined_threads());
  if (sim_live_blocks() - blocks0 > kLockBlocks) sim_fail("leak", "%lld heap blocks are still held after the persistent resources were freed", (long long)(sim_live_blocks() - blocks0));
  if (w->nops && (w->op[0].a[2] & 1) && sim_created_threads() < 36) {
    // one more use and release: works again, and nothing accumulates
    int mutexes = sim_live_mutexes(), keys = sim_live_keys();
    g_callers = 1; g_workers = 0; g_limit_known = 1; g_limit = 3;
    e8::SetMaxNumThreads(3);
    Op o; memset((void*)&o, 0, sizeof o);
    o.a[0] = (w->op[0].a[2] >> 1) & 1; o.a[4] = 48; o.a[5] = 40; o.a[6] = 70; o.a[10] = w->op[0].a[3]; o.a[12] = w->op[0].a[3] & 7;
    product(o, 0);
    e8::FreePersistentResources();
    if (sim_live_threads() != 0 || sim_unjoined_threads() != 0) sim_fail("teardown", "worker threads left after the second release");
    if (sim_live_blocks() - blocks0 > kLockBlocks) sim_fail("leak", "%lld heap blocks are still held after the second release", (long long)(sim_live_blocks() - blocks0));
    if (sim_live_mutexes() != mutexes) sim_fail("leak", "a use and release left %d more mutexes or condition variables", sim_live_mutexes() - mutexes);
    if (sim_live_keys() != keys) sim_fail("leak", "a use and release left %d more thread-specific keys", sim_live_keys() - keys);
  }
}

void gen(Rng& r, Workload* w, SimCfg* cfg) {
  int fast = 0;
#if defined(__SSE4_1__) || defined(__aarch64__) || defined(__arm__) || defined(__AVX2__)
  fast = 1;
#endif
  Op& h = w->add();
  int single = w->prop == 8 ? 900 : 200;
  h.a[1] = r.chance(single) ? 1 : r.range(2, kCallers);
  if (w->prop == 17 || w->prop == 18) h.a[1] = 1;
  h.a[2] = r.chance(w->prop == 7 ? 700 : 150) ? 1 + 2 * (i64)r.below(2) : 0;
  h.a[3] = (i64)r.below(1 << 20);
  int n = (int)r.range(h.a[1], 4 + 2 * h.a[1]);
  int heavy = fast ? 3 : 2;
  { Op& s = w->add(); s.a[0] = 2; s.a[1] = r.below(4); s.a[3] = r.chance(150) ? 0 : r.range(1, 5); }
  for (int i = 0; i < n; i++) {
    Op& o = w->add();
    u64 k = r.below(100);
    o.a[0] = k < 34 ? 0 : k < 66 ? 1 : k < 78 ? 2 : k < 92 ? 3 : 4;
    if (w->prop == 18 && (r.chance(250) || i == n - 1)) o.a[0] = 6;
    o.a[1] = r.below(h.a[1]);
    if (o.a[0] <= 1) {
      if (heavy > 0 && r.chance(600)) {
        heavy--;
        i64 per = r.range(2, 4);
        i64 cubic = per * EIGHT_CUBIC + (i64)r.below(EIGHT_CUBIC * 5 / 8);
        i64 rows = r.range(33, 120), cols = r.range(4, rows);
        if (r.chance(200)) { cols = 1; rows = r.range(60, 300); }
        i64 depth = cubic / (rows * cols) + 1;
        if (depth > 2048) depth = 2048;
        if (r.chance(300)) { i64 t = rows; rows = cols; cols = t; }
        o.a[4] = rows; o.a[5] = cols; o.a[6] = depth;
      } else {
        o.a[4] = r.range(1, 20); o.a[5] = r.range(1, 20); o.a[6] = r.range(1, 60);
        if (r.chance(150)) o.a[4] = 1;
        if (r.chance(150)) o.a[5] = 1;
        if (r.chance(60)) o.a[6] = 0;
      }
      if (r.chance(350)) { o.a[7] = r.range(0, 20); o.a[8] = r.range(0, 20); o.a[9] = r.range(0, 20); }
      o.a[10] = (i64)r.below(1 << 30);
      o.a[11] = r.chance(600) ? 0 : (i64)r.below(64);
      o.a[12] = (i64)r.below(16);
      if (r.chance(300)) o.a[12] = 1;   // the layout the fast path accepts
      o.a[13] = (i64)r.below(5);
    } else {
      o.a[3] = o.a[0] == 2 ? (r.chance(150) ? 0 : r.range(1, 6)) : r.range(0, 6000);
    }
  }
  if (cfg->mem_mean && cfg->mem_mean < 1000) cfg->mem_mean = 5000;
  static const u64 pl[] = {5000, 60000, 1000000, 5000000};
  cfg->pct_len = pl[r.below(4)];
  cfg->horizon = r.chance(500) ? 20000000 : 500000;
  cfg->budget = 400000000;
}
}  // namespace

#ifndef EIGHT_NAME
#define EIGHT_NAME "eight"
#define EIGHT_SYM kScenEight
#endif
extern const Scenario EIGHT_SYM = {EIGHT_NAME, gen, exec, kProbes};
