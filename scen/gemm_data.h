// gemm_data.h: draws one matrix product (operands, offsets, pipeline) from a
// seed, lays it out in permission-checked caller buffers, and checks the result
// against the model.  Everything here is uninstrumented harness code.
#ifndef GEMM_DATA_H_
#define GEMM_DATA_H_
#include "gemm_combo.h"
#include "harness.h"

struct GemmData {
  GemmCall g;
  int32_t* acc;
  int64_t lo, hi;
  u8 *res_mem; size_t res_bytes;  // whole allocation, for the padding check
  u8 *lhs_mem, *rhs_mem; size_t lhs_bytes, rhs_bytes;
  u64 lhs_sum, rhs_sum;
};

HARNESS static u64 gd_hash(const u8* p, size_t n) {
  u64 h = 1469598103934665603ull;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { u64 v; memcpy(&v, p + i, 8); h = (h ^ v) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; }
  for (; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ull;
  return h;
}
HARNESS static u8 gd_val(Rng& r, int mode, int nonzero, int sgn) {
  int v;
  switch (mode) {
    case 1: { static const u8 ex[] = {0, 1, 127, 128, 254, 255}; v = ex[r.below(6)]; break; }
    case 2: v = r.chance(900) ? 128 : (int)r.below(256); break;
    case 3: v = 255; break;
    case 4: v = r.chance(500) ? 0 : 255; break;
    default: v = (int)(r.next() >> 56);
  }
  if (nonzero && !sgn && v == 0) v = 1;
  if (nonzero && sgn && v == 128) v = 129;   // -128 excluded
  return (u8)v;
}
// Vector loads and stores of the NEON builds are not seen by the simulator.  In
// some runs there, caller memory ends (or starts) at an unmapped page instead.
static int gd_edges;
HARNESS static u8* gd_edge(size_t n, int esz, int at_start) { return (u8*)sim_edge_buf(n, !at_start, (size_t)esz); }
// A strided matrix in caller memory: only the elements may be touched.
HARNESS static u8* gd_matrix(int outer, int inner, int stride, int esz, int misalign, int perm, const char* name, u8** mem, size_t* bytes) {
  size_t n = outer > 0 ? ((size_t)(outer - 1) * stride + inner) * esz : 0;
  if (gd_edges) return *mem = gd_edge(n, esz, misalign / esz % 5 == 0), *bytes = n, *mem;
  u8* p = (u8*)sim_buf(n, (size_t)misalign);
  sim_region_name(p, n, name);
  *mem = p; *bytes = n;
  if (stride != inner) {
    sim_perm(p, n, SIM_NONE);
    for (int i = 0; i < outer; i++) sim_perm(p + (size_t)i * stride * esz, (size_t)inner * esz, perm);
  } else {
    sim_perm(p, n, perm);
  }
  return p;
}
HARNESS static const int32_t* gd_vec(Rng& r, int n, i64 lo, i64 hi, const char* name) {
  size_t mis = (size_t)r.below(4);
  int32_t* p = (int32_t*)(gd_edges ? gd_edge((size_t)n * 4, 4, mis == 3) : sim_buf((size_t)n * 4, mis * 4));
  for (int i = 0; i < n; i++) p[i] = (int32_t)r.range(lo, hi);
  if (gd_edges) return p;
  sim_perm(p, (size_t)n * 4, SIM_NOWRITE);
  sim_region_name(p, (size_t)n * 4, name);
  return p;
}

HARNESS static int32_t* gd_raw(int n, int mis) { return (int32_t*)(gd_edges ? gd_edge((size_t)n * 4, 4, 0) : sim_buf((size_t)n * 4, (size_t)mis)); }

// Shared operands: several callers may multiply with the same lhs/rhs memory.
HARNESS static void gd_prepare(GemmData* d, const Combo* c, int rows, int cols, int depth, int lpad, int rpad, int spad, u64 seed, int mode) {
  Rng r(seed * 77 + 5);
  memset((void*)d, 0, sizeof *d);
  GemmCall& g = d->g;
  g.rows = rows; g.cols = cols; g.depth = depth;
  g.kind = c->kind;
  g.lhs_rowmajor = c->l; g.rhs_rowmajor = c->r; g.res_rowmajor = c->s; g.in_signed = c->is_signed;
  int li = c->l ? depth : rows, lo_ = c->l ? rows : depth;
  int ri = c->r ? cols : depth, ro_ = c->r ? depth : cols;
  int si = c->s ? cols : rows, so_ = c->s ? rows : cols;
  g.lhs_stride = li + lpad; g.rhs_stride = ri + rpad; g.res_stride = si + spad;
  int esz = out_size(pipe_out(c->kind));
  g.lhs = gd_matrix(lo_, li, g.lhs_stride, 1, (int)r.below(16), SIM_NOWRITE, "lhs", &d->lhs_mem, &d->lhs_bytes);
  g.rhs = gd_matrix(ro_, ri, g.rhs_stride, 1, (int)r.below(16), SIM_NOWRITE, "rhs", &d->rhs_mem, &d->rhs_bytes);
  g.res = gd_matrix(so_, si, g.res_stride, esz, (int)r.below(16) * esz, SIM_RW | SIM_WATCH, "result", &d->res_mem, &d->res_bytes);
  for (size_t i = 0; i < d->lhs_bytes; i++) d->lhs_mem[i] = gd_val(r, mode & 7, c->nonzero_lhs, c->is_signed);
  int rmode = (mode >> 3) & 7;
  // With rows < cols the operands change sides inside; both then need the range
  // the interface asks of the left one.
  for (size_t i = 0; i < d->rhs_bytes; i++) d->rhs_mem[i] = gd_val(r, rmode, c->nonzero_lhs, c->is_signed);
  for (size_t i = 0; i < d->res_bytes; i++) d->res_mem[i] = (u8)(0xA5 ^ (i * 7));
  d->lhs_sum = gd_hash(d->lhs_mem, d->lhs_bytes);
  d->rhs_sum = gd_hash(d->rhs_mem, d->rhs_bytes);
  int om = (int)r.below(5);
  int base = c->is_signed ? 0 : -128;
  g.lhs_offset = om == 0 ? 0 : om == 1 ? base : (int)r.range(-300, 300);
  g.rhs_offset = om == 0 ? 0 : om == 1 ? base : (int)r.range(-300, 300);
  if (c->vec_offsets) {
    g.lhs_offset_vec = gd_vec(r, rows, om == 1 ? -140 : -300, om == 1 ? -110 : 300, "lhs offsets");
    g.rhs_offset_vec = gd_vec(r, cols, om == 1 ? -140 : -300, om == 1 ? -110 : 300, "rhs offsets");
  }
  d->acc = (int32_t*)model_alloc(sizeof(int32_t) * ((size_t)rows * cols + 1));
  model_accumulate(&g, d->acc, &d->lo, &d->hi);
  if (d->lo < -2000000000ll || d->hi > 2000000000ll) sim_fail("harness", "accumulators do not fit");
  // Scale so that most results are not saturated.
  i64 mid = (d->lo + d->hi) / 2, half = (d->hi - d->lo) / 2 + 1;
  i64 want = pipe_out(g.kind) == OT_I16 ? 40000 : 150;
  int bias_span = (int)(half < 1000000 ? half / 4 + 1 : 250000);
  g.bias_col = gd_vec(r, rows, -bias_span, bias_span, "column bias");
  g.bias_row = gd_vec(r, cols, -bias_span, bias_span, "row bias");
  // legacy: ((x + off) * mult) >> shift
  int s = (int)r.range(0, 21);
  g.q_offset = (int32_t)(-mid + (i64)r.range(-half / 8, half / 8));
  i64 m = ((want << s) / half);
  if (m < 1) { m = 1; }
  i64 maxabs = half + half / 8 + 2;
  while (m > 1 && maxabs * m > 1900000000ll) m /= 2;
  // shift that maps half*m to about `want`
  int sh = 0; while (sh < 30 && ((half * m) >> sh) > want) sh++;
  if (r.chance(100)) sh = (int)r.range(0, 8);
  g.q_mult = (int32_t)m; g.q_shift = sh;
  if (r.chance(150)) { g.q_mult = -g.q_mult; }
  // centre on 128 for unsigned outputs
  if (pipe_out(g.kind) == OT_U8) { i64 o = g.q_offset + (((i64)128 << sh) / g.q_mult); if (o > -1000000000 && o < 1000000000 && (half + (o + mid < 0 ? -(o + mid) : o + mid)) * (m < 0 ? -m : m) < 2000000000ll) g.q_offset = (int32_t)o; }
  // fixed point
  i64 reach = (mid < 0 ? -mid : mid) + half + bias_span;
  int fs = 0; while (fs < 30 && (half >> fs) > want) fs++;
  g.f_mult = (int32_t)r.range(1 << 30, 0x7fffffff);
  if (r.chance(100)) g.f_mult = 0x7fffffff;
  g.f_shift = fs;
  g.f_after = (int32_t)(-(((mid * (i64)g.f_mult) >> 31) >> fs) + (pipe_out(g.kind) == OT_U8 ? 128 : 0));
  int e = -fs;
  if (fs == 0) { while (e < 12 && (half << (e + 1)) < want && (reach << (e + 1)) < 1000000000ll) e++; }
  g.f_exp = e;
  if (g.kind == PK_EXP_TRUNC) { i64 x = e > 0 ? mid << e : mid; i64 a = (x * (i64)g.f_mult) >> 31; if (e < 0) a >>= -e; g.f_after = (int32_t)(128 - a); }
  g.clamp_min = (int32_t)r.range(0, 60); g.clamp_max = (int32_t)r.range(180, 255);
  if (g.kind == PK_BIAS_RAW) { g.clamp_min = (int32_t)(d->lo - half / 8); g.clamp_max = (int32_t)(d->hi - half / 8); }
  if (g.kind == PK_SIX) g.vec_a = gd_vec(r, rows, -60, 60, "second bias");
  if (g.kind == PK_FIVE) { int32_t* p = (int32_t*)g.bias_col; for (int i = 0; i < rows; i++) p[i] = (int32_t)r.range(-9000, 9000); g.clamp_min = (int32_t)r.range(-40000, -20000); g.clamp_max = (int32_t)r.range(15000, 32000); }
  // tanh over most of its interesting range, with some inputs beyond the cutoff
  i64 amp = half / (i64)r.range(1, 12);
  if (amp < 4) amp = 4;
  if (amp > 1 << 27) amp = 1 << 27;
  if (r.chance(400)) { i64 q = 4; while (q * 2 <= amp) q *= 2; amp = q; }
  g.t_zero = (int32_t)mid; g.t_amp = (int32_t)amp;
  int n = (g.kind == PK_QPC_COL || g.kind == PK_EXPPC_COL) ? rows : cols;
  if (g.kind == PK_QPC_COL || g.kind == PK_QPC_ROW) {
    int32_t* a = gd_raw(n, 0); int32_t* b = gd_raw(n, 4);
    for (int i = 0; i < n; i++) {
      b[i] = (int32_t)(m > 3 ? m - (i64)r.below((u64)(m / 3)) : m);
      a[i] = (int32_t)(g.q_offset / (b[i] ? 1 : 1) + (i64)r.range(-half / 16, half / 16));
    }
    if (!gd_edges) { sim_perm(a, (size_t)n * 4, SIM_NOWRITE); sim_perm(b, (size_t)n * 4, SIM_NOWRITE); }
    if (!gd_edges) sim_region_name(a, (size_t)n * 4, "per-channel offsets"); if (!gd_edges) sim_region_name(b, (size_t)n * 4, "per-channel multipliers");
    g.vec_a = a; g.vec_b = b;
  } else if (g.kind == PK_EXPPC_COL || g.kind == PK_EXPPC_ROW) {
    int32_t* a = gd_raw(n, 0); int32_t* b = gd_raw(n, 4);
    for (int i = 0; i < n; i++) {
      a[i] = (int32_t)r.range(1 << 30, 0x7fffffff);
      b[i] = e + (int)r.range(-2, 0);
    }
    if (!gd_edges) { sim_perm(a, (size_t)n * 4, SIM_NOWRITE); sim_perm(b, (size_t)n * 4, SIM_NOWRITE); }
    if (!gd_edges) sim_region_name(a, (size_t)n * 4, "per-channel multipliers"); if (!gd_edges) sim_region_name(b, (size_t)n * 4, "per-channel exponents");
    g.vec_a = a; g.vec_b = b;
    i64 x = e > 0 ? mid << e : mid; i64 av = (x * 3 / 4); if (e < 0) av >>= -e;
    g.f_after = (int32_t)(-av + (g.kind == PK_EXPPC_COL ? 128 : 0));
    if (g.kind == PK_EXPPC_COL) { int32_t* p = (int32_t*)g.bias_col; for (int i = 0; i < rows; i++) p[i] = (int32_t)r.range(-60, 60); }
  }
}

// Result equals the model, nothing outside the result changed.
HARNESS static void gd_check(GemmData* d, const char* who) {
  GemmCall& g = d->g;
  char msg[300];
  if (g.depth > 0) {
    int bad = model_compare(&g, d->acc, msg, sizeof msg);
    if (bad) sim_fail("result", "%s: %s (%d of %d elements wrong)", who, msg, bad, g.rows * g.cols);
  }
  int esz = out_size(pipe_out(g.kind));
  int si = g.res_rowmajor ? g.cols : g.rows, so = g.res_rowmajor ? g.rows : g.cols;
  if (g.res_stride != si)
    for (int o = 0; o + 1 < so; o++)
      for (size_t i = (size_t)si * esz; i < (size_t)g.res_stride * esz; i++) {
        size_t k = (size_t)o * g.res_stride * esz + i;
        if (d->res_mem[k] != (u8)(0xA5 ^ (k * 7))) sim_fail("mem", "%s: padding of the result matrix was overwritten (line %d, byte %zu)", who, o, i);
      }
  if (gd_hash(d->lhs_mem, d->lhs_bytes) != d->lhs_sum) sim_fail("mem", "%s: the left operand was modified", who);
  if (gd_hash(d->rhs_mem, d->rhs_bytes) != d->rhs_sum) sim_fail("mem", "%s: the right operand was modified", who);
}
#endif
