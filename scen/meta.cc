// Scenario "meta": the parallel fast path (present and older interface) and the
// parallel transforms, with one pool per caller or one pool handed around.
#include "gemm_data.h"
#include "meta_call.h"

namespace {
enum { PR_NEW, PR_LEGACY, PR_TRANSFORM, PR_SPLIT, PR_PAR, PR_VECTOR, PR_CACHE, PR_U8, PR_I32, PR_FLOAT, PR_COL, PR_STRIDED, PR_SHARED, PR_OVERLAP, PR_POOL_RENEWED, PR_LIMIT0 };
const char* const kProbes[] = {"products_present_interface", "products_older_interface", "transforms", "task_splits", "parallel_calls", "vectors", "cache_friendly_executor", "quantised", "int32", "float", "rhs_column_major", "strided", "pool_shared_by_callers", "calls_overlapped", "pool_renewed", "limit_zero", nullptr};

const int kCallers = 3;
pthread_mutex_t g_mu[kCallers];
void* g_pool[kCallers];
int g_workers[kCallers];     // of each pool; known while there is one caller
int g_callers, g_shared, g_inside;

struct Bufs { u8 *lhs, *rhs, *res, *scratch; size_t lb, rb, sb, scb; u64 lh, rh; };
HARNESS u8* matrix(int outer, int inner, int stride, int esz, int misalign, int perm, const char* name, u8** mem, size_t* bytes, u64 at) {
#if defined(__aarch64__) || defined(__arm__)
  // assembly accesses are invisible: put the memory next to an unmapped page
  size_t n = outer > 0 ? ((size_t)(outer - 1) * stride + inner) * esz : 0;
  u8* p = (u8*)sim_edge_buf(n, at & 1, esz);
  *mem = p; *bytes = n;
  return p;
#else
  (void)at;
  return gd_matrix(outer, inner, stride, esz, misalign, perm, name, mem, bytes);
#endif
}
HARNESS u8* scratch_mem(size_t n, u64 at) {
#if defined(__aarch64__) || defined(__arm__)
  return (u8*)sim_edge_buf(n, at & 1, 64);
#else
  u8* p = (u8*)sim_buf(n, (64 - 64 % 64) % 64);
  sim_region_name(p, n, "scratch");
  return p;
#endif
}
HARNESS int ncpu_limit(int t) { return t == 0 ? g_cfg.ncpu : t; }
HARNESS void enter() { if (g_inside++) sim_probe(PR_OVERLAP); }
HARNESS void leave() { g_inside--; }
HARNESS void account(int pool, int threads, int created0, int watch) {
  if (g_callers != 1) return;
  int created = sim_created_threads() - created0, lim = ncpu_limit(threads);
  int allowed = lim - 1 > g_workers[pool] ? lim - 1 - g_workers[pool] : 0;
  if (created > allowed) sim_fail("threads", "with a limit of %d threads a call created %d workers although %d existed", lim, created, g_workers[pool]);
  g_workers[pool] += created;
  if (watch) {
    if (sim_writers() > lim) sim_fail("threads", "with a limit of %d threads %d threads wrote the result", lim, sim_writers());
    if (sim_writers() > 1) sim_probe(PR_PAR);
  }
}

HARNESS void draw(const Op& o, int legacy, MetaCall* c, Bufs* b, int esz) {
  Rng r((u64)o.a[10] * 31 + 7);
  int m = c->m, n = c->n, k = c->k;
  int lp = legacy ? 0 : (int)clampi(o.a[7], 0, 40), rp = legacy ? 0 : (int)clampi(o.a[8], 0, 40), op = legacy ? 0 : (int)clampi(o.a[9], 0, 40);
  if (lp || rp || op) sim_probe(PR_STRIDED);
  if (m == 1 || n == 1) sim_probe(PR_VECTOR);
  c->lstride = k + lp; c->rstride = (c->rhs_col ? n : k) + rp; c->ostride = n + op;
  c->lhs = matrix(m, k, c->lstride, 1, (int)r.below(16), SIM_NOWRITE, "lhs", &b->lhs, &b->lb, r.below(2));
  c->rhs = c->rhs_col ? matrix(k, n, c->rstride, 1, (int)r.below(16), SIM_NOWRITE, "rhs", &b->rhs, &b->rb, r.below(2))
                      : matrix(n, k, c->rstride, 1, (int)r.below(16), SIM_NOWRITE, "rhs", &b->rhs, &b->rb, r.below(2));
  c->res = matrix(m, n, c->ostride, esz, (int)r.below(16) * esz, SIM_RW | SIM_WATCH, "result", &b->res, &b->sb, r.below(2));
  int mode = (int)umod(o.a[11], 5);
  for (size_t i = 0; i < b->lb; i++) b->lhs[i] = gd_val(r, mode, 0, 0);
  for (size_t i = 0; i < b->rb; i++) b->rhs[i] = gd_val(r, mode == 3 ? 3 : 0, 0, 0);
  for (size_t i = 0; i < b->sb; i++) b->res[i] = (u8)(0xA5 ^ (i * 7));
  b->lh = gd_hash(b->lhs, b->lb); b->rh = gd_hash(b->rhs, b->rb);
  c->loff = (int)r.range(-255, 0); c->roff = (int)r.range(-255, 0);
  if (mode == 3) { c->loff = -(int)r.below(3); c->roff = -(int)r.below(3); }
  static const float sc[] = {1.0f, 0.5f, 0.0371f, -3.25f, 1e-7f};
  c->scale = sc[r.below(5)];
  // spread of the accumulators
  i64 lo = 0, hi = 0; bool first = true;
  for (int i = 0; i < m; i += m / 8 + 1) for (int j = 0; j < n; j += n / 8 + 1) {
    i64 s = 0;
    for (int d = 0; d < k; d++) s += ((i64)c->lhs[(size_t)i * c->lstride + d] + c->loff) * ((i64)(c->rhs_col ? c->rhs[(size_t)d * c->rstride + j] : c->rhs[(size_t)j * c->rstride + d]) + c->roff);
    if (first || s < lo) lo = s;
    if (first || s > hi) hi = s;
    first = false;
  }
  i64 half = (hi - lo) / 2 + 1;
  c->mult = (int)r.range(1, half < 1000000 ? 40 : 3);
  int sh = 0; while (sh < 28 && ((half * c->mult) >> sh) > 150) sh++;
  c->shift = r.chance(100) ? (int)r.range(0, 8) : sh;
  c->sum = (int)(-(lo + hi) / 2 + (((i64)128 << c->shift) / c->mult));
}
HARNESS void verify(const MetaCall* c, const Bufs* b, const char* what) {
  int esz = c->out == 0 ? 1 : 4, wrong = 0, fr = 0, fc = 0; double fg = 0, fw = 0;
  static int acc_row[4096];
  for (int i = 0; i < c->m; i++) {
    sim_ignore_push(); for (int j = 0; j < c->n; j++) acc_row[j] = 0; sim_ignore_pop();
    if (c->rhs_col) {
      for (int d = 0; d < c->k; d++) { int l = c->lhs[(size_t)i * c->lstride + d] + c->loff; const u8* rr = c->rhs + (size_t)d * c->rstride; for (int j = 0; j < c->n; j++) acc_row[j] += l * (rr[j] + c->roff); }
    } else {
      const u8* l = c->lhs + (size_t)i * c->lstride;
      for (int j = 0; j < c->n; j++) { const u8* rr = c->rhs + (size_t)j * c->rstride; int s = 0; for (int d = 0; d < c->k; d++) s += (l[d] + c->loff) * (rr[d] + c->roff); acc_row[j] = s; }
    }
    for (int j = 0; j < c->n; j++) {
      const u8* p = b->res + ((size_t)i * c->ostride + j) * esz;
      double got, want;
      if (c->out == 0) {
        int v = (int)((u32)(acc_row[j] + c->sum) * (u32)c->mult + (u32)(c->shift < 1 ? 0 : 1 << (c->shift - 1))) >> c->shift;
        want = v < 0 ? 0 : v > 255 ? 255 : v; got = *p;
      } else if (c->out == 1) { int32_t g; memcpy(&g, p, 4); want = acc_row[j]; got = g; }
      else { float g, w = (float)acc_row[j] * c->scale; memcpy(&g, p, 4); want = w; got = g; }
      if (got != want) { if (!wrong++) { fr = i; fc = j; fg = got; fw = want; } }
    }
    for (size_t q = ((size_t)i * c->ostride + c->n) * esz; q < ((size_t)(i + 1) * c->ostride) * esz && q < b->sb; q++)
      if (b->res[q] != (u8)(0xA5 ^ (q * 7))) sim_fail("mem", "%s %dx%dx%d: padding after row %d of the result was overwritten", what, c->m, c->k, c->n, i);
  }
  if (wrong) sim_fail("result", "%s %dx%dx%d (out %d, executor %d): element (%d,%d) is %.9g, expected %.9g (%d wrong)", what, c->m, c->k, c->n, c->out, c->exec, fr, fc, fg, fw, wrong);
  if (gd_hash(b->lhs, b->lb) != b->lh || gd_hash(b->rhs, b->rb) != b->rh) sim_fail("mem", "%s changed its operands", what);
}
HARNESS void setup(const Op& o, int legacy, MetaCall* c, Bufs* b, void* pool) {
  memset((void*)c, 0, sizeof *c); memset((void*)b, 0, sizeof *b);
  c->out = (int)umod(o.a[2], 3);
  c->exec = legacy ? 0 : (int)umod(o.a[3], kMetaExecs);
  // the instantiated combinations: see meta_new_*.cc
  c->rhs_col = legacy ? 0 : c->out == 1;
  i64 k = clampi(o.a[6], 1, 2048), m = clampi(o.a[4], 1, 2000), n = clampi(o.a[5], 1, 4000);
  if (!legacy && (c->exec == 2 || c->exec == 3) && k > 600) k = 600;
  while (m * n > 60000) { if (m > n) m /= 2; else n /= 2; }
  while (m * n * k > 3000000) { if (m >= n) m = (m + 1) / 2; else n = (n + 1) / 2; }
  c->m = (int)m; c->n = (int)n; c->k = (int)k;
  c->threads = (int)clampi(o.a[13], 0, 6);
  if (sim_created_threads() > 40) c->threads = 1;
  if (c->threads == 0) { sim_probe(PR_LIMIT0); if (g_cfg.ncpu > 8) c->threads = 1; }
  c->pool = pool;
  sim_probe(c->out == 0 ? PR_U8 : c->out == 1 ? PR_I32 : PR_FLOAT);
  if (c->rhs_col) sim_probe(PR_COL);
  if (!legacy && c->exec >= 2) sim_probe(PR_CACHE);
  draw(o, legacy, c, b, c->out == 0 ? 1 : 4);
}

Bufs bufs[kCallers]; MetaCall calls[kCallers];
void product(const Op& o, int me, int p, int legacy) {
  MetaCall& c = calls[me];
  setup(o, legacy, &c, &bufs[me], g_pool[p]);
  sim_probe(legacy ? PR_LEGACY : PR_NEW);
  size_t need = legacy ? meta_legacy_scratch(c) : meta_scratch(c, ncpu_limit(c.threads));
  c.scratch = scratch_mem(need, (u64)o.a[10]);
  int created = sim_created_threads();
  if (g_callers == 1) sim_writers_reset();
  enter();
  if (legacy) meta_legacy_gemm(c); else meta_gemm(c);
  leave();
  verify(&c, &bufs[me], legacy ? "product (older interface)" : "product");
  account(p, c.threads, created, 1);
}

struct TrBufs { u8 *in, *out, *ref; size_t ib, ob, rb; u64 ih; };
TrBufs trb[kCallers]; MetaTransform trs[kCallers];
HARNESS void tr_setup(const Op& o, MetaTransform* t, TrBufs* b, void* pool) {
  Rng r((u64)o.a[10] * 31 + 9);
  memset((void*)t, 0, sizeof *t);
  t->kind = (int)umod(o.a[2], 4);
  t->count = (int)clampi(o.a[4], 1, 80000);
  t->threads = (int)clampi(o.a[13], 0, 6);
  if (sim_created_threads() > 40) t->threads = 1;
  t->pool = pool;
  int ie = t->kind == 0 || t->kind == 2 ? 4 : 1, oe = t->kind == 1 ? 4 : 1;
  t->in = matrix(1, t->count, t->count, ie, (int)r.below(4) * ie, SIM_NOWRITE, "input", &b->in, &b->ib, r.below(2));
  t->out = matrix(1, t->count, t->count, oe, (int)r.below(4) * oe, SIM_RW | SIM_WATCH, "output", &b->out, &b->ob, r.below(2));
  b->ref = (u8*)matrix(1, t->count, t->count, oe, 0, SIM_RW, "reference", &b->ref, &b->rb, 0);
  for (int i = 0; i < t->count; i++) {
    if (t->kind == 0) ((float*)b->in)[i] = (float)(int)r.range(-70000, 70000) / 64.0f;
    else if (t->kind == 2) ((int32_t*)b->in)[i] = (int32_t)r.range(-100000, 100000);
    else b->in[i] = (u8)(r.next() >> 56);
  }
  for (size_t i = 0; i < b->ob; i++) b->out[i] = (u8)(0xA5 ^ (i * 7));
  b->ih = gd_hash(b->in, b->ib);
  float lo = (float)(int)r.range(-1200, 0), sp = (float)(int)r.range(100, 2400);
  switch (t->kind) {
    case 0: t->p[0] = lo; t->p[1] = r.chance(500) ? 0 : (float)(int)r.range(-40, 40) / 4; t->p[2] = 255.0f / sp; break;
    case 1: t->p[0] = lo; t->p[1] = r.chance(500) ? 0 : (float)(int)r.range(-200, 200); t->p[2] = sp / 255.0f; break;
    case 2:
      t->p[0] = -1000.0f; t->p[1] = r.chance(500) ? 0 : (float)(int)r.range(-9000, 9000); t->p[2] = 2000.0f / 200000.0f;
      t->p[3] = lo - 1000; t->p[4] = r.chance(500) ? 0 : (float)(int)r.range(-40, 40) / 4; t->p[5] = 255.0f / (sp * 2); break;
    default: t->p[0] = (float)r.below(100); t->p[1] = (float)r.range(120, 255);
  }
}
HARNESS void tr_verify(const MetaTransform* t, const TrBufs* b) {
  if (gd_hash(b->in, b->ib) != b->ih) sim_fail("mem", "a transform changed its input");
  for (size_t i = 0; i < b->ob; i++) if (b->out[i] != b->ref[i]) sim_fail("result", "transform %d of %d elements: byte %zu of the output differs from the sequential result", t->kind, t->count, i);
  // an independent look at the values; how fractions are rounded is left open
  // (the kernels differ in it), nearest and towards zero both pass
  if (t->kind < 3) for (int i = 0; i < t->count; i++) {
    const float* q = t->p; double want, got;
    if (t->kind == 0) want = ((double)((const float*)b->in)[i] - q[0]) * q[2] + q[1];
    else if (t->kind == 1) want = ((double)b->in[i] - q[1]) * q[2] + q[0];
    else want = (((double)((const int32_t*)b->in)[i] - q[1]) * q[2] + q[0] - q[3]) * q[5] + q[4];
    double slack = 0.01, low;
    if (t->kind == 1) { got = ((const float*)b->out)[i]; slack = 1e-5 * ((512.0) * q[2] + (q[0] < 0 ? -q[0] : q[0])) + 1e-5; low = slack; }
    else { got = b->out[i]; want = want < 0 ? 0 : want > 255 ? 255 : want; low = 0.5 + slack; slack += 1; }
    if (got - want > low || want - got > slack) sim_fail("result", "transform %d of %d elements: element %d is %.9g, expected %.9g", t->kind, t->count, i, got, want);
  }
  if (t->kind == 3) for (int i = 0; i < t->count; i++) { int v = b->in[i], lo = (int)t->p[0], hi = (int)t->p[1]; v = v < lo ? lo : v > hi ? hi : v; if (b->out[i] != v) sim_fail("result", "clamping transform of %d elements: element %d is %d, expected %d", t->count, i, b->out[i], v); }
}
void transform(const Op& o, int me, int p) {
  MetaTransform& t = trs[me];
  tr_setup(o, &t, &trb[me], g_pool[p]);
  sim_probe(PR_TRANSFORM);
  int created = sim_created_threads();
  if (g_callers == 1) sim_writers_reset();
  enter();
  meta_transform(t, 1);
  leave();
  account(p, t.threads, created, 1);
  MetaTransform ref = t;
  ref.out = trb[me].ref;
  sim_ignore_push();
  meta_transform(ref, 0);
  sim_ignore_pop();
  tr_verify(&t, &trb[me]);
}

MetaSplit sps[kCallers]; Bufs spb[kCallers];
HARNESS void split_setup(const Op& o, MetaSplit* s, Bufs* b, void* pool) {
  Rng r((u64)o.a[10] * 31 + 11);
  s->m = (int)clampi(o.a[4], 1, 200); s->n = (int)clampi(o.a[5], 1, 200); s->k = (int)clampi(o.a[6], 1, 300);
  s->stride = s->n + (int)clampi(o.a[9], 0, 40);
  s->threads = (int)clampi(o.a[13], 0, 6);
  if (sim_created_threads() > 40) s->threads = 1;
  s->pool = pool; s->per_thread = 64;
  s->lhs = gd_matrix(s->m, s->k, s->k, 1, 0, SIM_NOWRITE, "lhs", &b->lhs, &b->lb);
  s->rhs = gd_matrix(s->n, s->k, s->k, 1, 0, SIM_NOWRITE, "rhs", &b->rhs, &b->rb);
  s->res = (int*)gd_matrix(s->m, s->n, s->stride, 4, 0, SIM_RW | SIM_WATCH, "result", &b->res, &b->sb);
  for (size_t i = 0; i < b->lb; i++) b->lhs[i] = (u8)(r.next() >> 56);
  for (size_t i = 0; i < b->rb; i++) b->rhs[i] = (u8)(r.next() >> 56);
  sim_ignore_push(); memset(b->res, 0, b->sb); sim_ignore_pop();
  size_t n = (size_t)s->per_thread * ncpu_limit(s->threads);
  s->scratch = (u8*)sim_buf(n, 0);
  sim_region_name(s->scratch, n, "scratch");
}
HARNESS void split_verify(const MetaSplit* s, const Bufs* b) {
  for (int i = 0; i < s->m; i++) for (int j = 0; j < s->n; j++) {
    int want = 65536 + s->lhs[i * s->k] + 256 * s->rhs[j * s->k + s->k - 1], got = s->res[i * s->stride + j];
    if (got != want) sim_fail("result", "split of a %dx%dx%d product over %d threads: element (%d,%d) was covered %d times or from the wrong operands", s->m, s->k, s->n, s->threads, i, j, got >> 16);
  }
  (void)b;
}
void split(const Op& o, int me, int p) {
  split_setup(o, &sps[me], &spb[me], g_pool[p]);
  sim_probe(PR_SPLIT);
  int created = sim_created_threads();
  if (g_callers == 1) sim_writers_reset();
  enter();
  meta_legacy_split(sps[me]);
  leave();
  split_verify(&sps[me], &spb[me]);
  account(p, sps[me].threads, created, 1);
}

HARNESS void renewed(int p) { g_workers[p] = 0; sim_probe(PR_POOL_RENEWED); }
void caller(const Workload* w, int me) {
  int p = g_shared ? 0 : me;
  for (int k = 1; k < w->nops; k++) {
    const Op& o = w->op[k];
    if (umod(o.a[1], g_callers) != me) continue;
    int what = (int)umod(o.a[0], 6);
    if (what == 4) { sim_idle_us(clampi(o.a[3], 0, 9000)); continue; }
    pthread_mutex_lock(&g_mu[p]);
    switch (what) {
      case 0: product(o, me, p, 0); break;
      case 1: product(o, me, p, 1); break;
      case 2: transform(o, me, p); break;
      case 3: split(o, me, p); break;
      case 5: meta_pool_delete(g_pool[p]); g_pool[p] = meta_pool_new(); renewed(p); break;
    }
    pthread_mutex_unlock(&g_mu[p]);
  }
}

void exec(const Workload* w) {
  g_callers = w->nops ? (int)clampi(w->op[0].a[1], 1, kCallers) : 1;
  g_shared = w->nops ? (int)(w->op[0].a[2] & 1) : 0;
  if (g_shared && g_callers > 1) sim_probe(PR_SHARED);
  u64 blocks0 = sim_live_blocks();
  for (int i = 0; i < kCallers; i++) { pthread_mutex_init(&g_mu[i], 0); g_pool[i] = meta_pool_new(); }
  run_callers(w, g_callers, caller);
  for (int i = 0; i < kCallers; i++) { meta_pool_delete(g_pool[i]); pthread_mutex_destroy(&g_mu[i]); }
  if (sim_live_threads() != 0) sim_fail("teardown", "%d worker threads are left after the pools were destroyed", sim_live_threads());
  if (sim_unjoined_threads() != 0) sim_fail("teardown", "%d worker threads were never joined", sim_unjoined_threads());
  if (sim_live_blocks() != blocks0) sim_fail("leak", "%lld heap blocks are left after the pools were destroyed", (long long)(sim_live_blocks() - blocks0));
}

void gen(Rng& r, Workload* w, SimCfg* cfg) {
  Op& h = w->add();
  h.a[1] = r.chance(600) ? 1 : r.range(2, kCallers);
  h.a[2] = (i64)r.below(2);
  int n = (int)r.range(1, 5), big = 1;
  for (int i = 0; i < n; i++) {
    Op& o = w->add();
    u64 q = r.below(100);
    o.a[0] = q < 40 ? 0 : q < 62 ? 1 : q < 78 ? 2 : q < 90 ? 3 : q < 95 ? 4 : 5;
    o.a[1] = r.below(kCallers);
    o.a[2] = (i64)r.below(4);
    o.a[3] = o.a[0] == 4 ? r.range(0, 6000) : (i64)r.below(kMetaExecs);
    if (o.a[0] == 0 && o.a[3] >= 4 && !r.chance(100)) o.a[3] = 2 + (i64)r.below(2);
    i64 cubic = r.range(1, 5) * 16000 + (i64)r.below(16000);
    i64 m = r.range(1, 60), nn = r.range(1, 60);
    if (r.chance(200)) { m = 1; nn = r.range(8, 200); }
    else if (r.chance(150)) { nn = 1; m = r.range(8, 200); }
    else if (r.chance(200)) { nn = r.range(60, 300); m = r.range(1, 12); }
    i64 k = cubic / (m * nn) + 1;
    if (r.chance(250)) k = r.range(1, 40);
    if (k > 500) k = r.range(300, 600);
    if (o.a[0] == 0 && o.a[3] >= 4 && big) { big--; k = r.range(1200, 2048); nn = r.range(200, 600); m = r.range(1, 6); if (r.chance(500)) { i64 t = m; m = nn; nn = t; } }
    if (o.a[0] == 3 && m * nn * k < 32000) k = 40000 / (m * nn) + 1;
    o.a[4] = m; o.a[5] = nn; o.a[6] = k;
    if (o.a[0] == 2) {
      // the split starts at a cost of 192000
      static const int cost[] = {8, 12, 12, 4};
      i64 c = 160000 / cost[umod(o.a[2], 4)];
      o.a[4] = r.chance(200) ? r.range(1, 400) : c + (i64)r.below(c) + r.range(0, 40);
    }
    if (r.chance(400)) { o.a[7] = r.range(0, 20); o.a[8] = r.range(0, 20); o.a[9] = r.range(0, 20); }
    o.a[10] = (i64)r.below(1 << 30);
    o.a[11] = (i64)r.below(5);
    o.a[12] = (i64)r.below(2);
    o.a[13] = r.chance(100) ? 0 : r.range(1, 6);
  }
  if (cfg->mem_mean && cfg->mem_mean < 500) cfg->mem_mean = 2000;
  static const u64 pl[] = {5000, 60000, 500000};
  cfg->pct_len = pl[r.below(3)];
  cfg->horizon = r.chance(500) ? 20000000 : 500000;
  cfg->budget = 200000000;
}
}  // namespace

extern const Scenario kScenMeta = {"meta", gen, exec, kProbes};
