#include "model.h"
#include <math.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>

extern "C" void* model_alloc(size_t bytes) {
  static char* p; static size_t left;
  bytes = (bytes + 63) & ~(size_t)63;
  if (bytes > left) {
    left = bytes > (16u << 20) ? bytes : (16u << 20);
    p = (char*)mmap(nullptr, left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  void* r = p; p += bytes; left -= bytes;
  return r;
}

extern "C" int32_t model_srdhm(int32_t a, int32_t b) {
  if (a == b && a == INT32_MIN) return INT32_MAX;
  int64_t ab = (int64_t)a * b;
  // nearest integer to ab / 2^31, ties towards plus infinity for positive
  // products and towards zero's far side for negative ones, as the hardware does
  int64_t nudge = ab >= 0 ? (1ll << 30) : (1 - (1ll << 30));
  return (int32_t)((ab + nudge) / (1ll << 31));
}
extern "C" int32_t model_rdpot(int32_t x, int e) {   // ties away from zero
  if (e == 0) return x;
  int64_t half = 1ll << (e - 1);
  int64_t v = x;
  return (int32_t)(v >= 0 ? (v + half) >> e : -((-v + half) >> e));
}
static int64_t sat(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }

extern "C" void model_accumulate(const GemmCall* g, int32_t* acc, int64_t* lo, int64_t* hi) {
  int R = g->rows, C = g->cols, D = g->depth;
  int64_t mn = INT64_MAX, mx = INT64_MIN;
  int32_t* a = (int32_t*)model_alloc(sizeof(int32_t) * ((size_t)D + 1));
  int32_t* bt = (int32_t*)model_alloc(sizeof(int32_t) * ((size_t)D * C + 1));
  for (int c = 0; c < C; c++) {
    int32_t ro = g->rhs_offset_vec ? g->rhs_offset_vec[c] : g->rhs_offset;
    for (int k = 0; k < D; k++) {
      size_t i = g->rhs_rowmajor ? (size_t)k * g->rhs_stride + c : (size_t)c * g->rhs_stride + k;
      bt[(size_t)c * D + k] = (g->in_signed ? (int8_t)g->rhs[i] : g->rhs[i]) + ro;
    }
  }
  for (int r = 0; r < R; r++) {
    int32_t lofs = g->lhs_offset_vec ? g->lhs_offset_vec[r] : g->lhs_offset;
    for (int k = 0; k < D; k++) {
      size_t i = g->lhs_rowmajor ? (size_t)r * g->lhs_stride + k : (size_t)k * g->lhs_stride + r;
      a[k] = (g->in_signed ? (int8_t)g->lhs[i] : g->lhs[i]) + lofs;
    }
    for (int c = 0; c < C; c++) {
      int64_t s = 0;
      const int32_t* b = bt + (size_t)c * D;
      for (int k = 0; k < D; k++) s += (int64_t)a[k] * b[k];
      acc[(size_t)r * C + c] = (int32_t)s;
      if (s < mn) mn = s;
      if (s > mx) mx = s;
    }
  }
  *lo = mn; *hi = mx;
}

extern "C" int64_t model_pipeline(const GemmCall* g, int32_t acc, int r, int c) {
  int64_t x = acc;
  switch (g->kind) {
    case PK_STANDARD:
      return sat(model_rdpot((int32_t)((x + g->q_offset) * g->q_mult), g->q_shift), 0, 255);
    case PK_RAW: return x;
    case PK_FIXED_U8:
      x += g->bias_col[r];
      x = (int64_t)model_rdpot(model_srdhm((int32_t)x, g->f_mult), g->f_shift) + g->f_after;
      return sat(sat(x, g->clamp_min, g->clamp_max), 0, 255);
    case PK_FIXED_I16:
      x += g->bias_row[c];
      x = (int64_t)model_rdpot(model_srdhm((int32_t)x, g->f_mult), g->f_shift) + g->f_after;
      return sat(x, -32768, 32767);
    case PK_FIXED_I8:
      x = (int64_t)model_rdpot(model_srdhm((int32_t)x, g->f_mult), g->f_shift) + g->f_after;
      return sat(x, -128, 127);
    case PK_QPC_COL: case PK_QPC_ROW: {
      int i = g->kind == PK_QPC_COL ? r : c;
      return sat(model_rdpot((int32_t)((x + g->vec_a[i]) * g->vec_b[i]), g->q_shift), 0, 255);
    }
    case PK_EXPPC_COL: case PK_EXPPC_ROW: case PK_EXP_TRUNC: {
      int i = g->kind == PK_EXPPC_COL ? r : c;
      int32_t m = g->kind == PK_EXP_TRUNC ? g->f_mult : g->vec_a[i];
      int32_t e = g->kind == PK_EXP_TRUNC ? g->f_exp : g->vec_b[i];
      int ls = e > 0 ? e : 0, rs = e < 0 ? -e : 0;
      x = (int64_t)model_rdpot(model_srdhm((int32_t)(x * (1ll << ls)), m), rs) + g->f_after;
      if (g->kind == PK_EXPPC_COL) return sat(x + g->bias_col[r], 0, 255);
      if (g->kind == PK_EXPPC_ROW) return sat(x, -32768, 32767);
      return sat(x, g->clamp_min, g->clamp_max) & 255;
    }
    case PK_BIAS_RAW:
      return sat(x + g->bias_row[c] + g->bias_col[r], g->clamp_min, g->clamp_max);
    case PK_FIVE:
      x = (int64_t)model_rdpot(model_srdhm((int32_t)(x + g->bias_row[c]), g->f_mult), g->f_shift) + g->f_after;
      return sat(sat(x + g->bias_col[r], g->clamp_min, g->clamp_max), -32768, 32767);
    case PK_SIX:
      x = (int64_t)model_rdpot(model_srdhm((int32_t)(x + g->bias_col[r] + g->bias_row[c]), g->f_mult), g->f_shift) + g->f_after;
      return sat(sat(x, g->clamp_min, g->clamp_max) + g->vec_a[r], 0, 255);
    case PK_TANH:
      return (int64_t)llround(g->t_zero + g->t_amp * tanh((double)(x - g->t_zero) / g->t_amp));
  }
  return 0;
}

extern "C" int model_compare(const GemmCall* g, const int32_t* acc, char* msg, size_t n) {
  int bad = 0, ot = pipe_out(g->kind);
  // tanh: the fixed-point evaluation is accurate to about 2e-4 of the amplitude
  // plus the rounding of its integer input and output
  int64_t tol = g->kind == PK_TANH ? 4 + (int64_t)(3e-4 * g->t_amp) : 0;
  for (int r = 0; r < g->rows; r++)
    for (int c = 0; c < g->cols; c++) {
      size_t i = g->res_rowmajor ? (size_t)r * g->res_stride + c : (size_t)c * g->res_stride + r;
      int64_t got = ot == OT_U8 ? ((uint8_t*)g->res)[i] : ot == OT_I8 ? ((int8_t*)g->res)[i] : ot == OT_I16 ? ((int16_t*)g->res)[i] : ((int32_t*)g->res)[i];
      int64_t want = model_pipeline(g, acc[(size_t)r * g->cols + c], r, c);
      if ((got > want + tol || got < want - tol) && !bad++)
        snprintf(msg, n, "element (%d,%d) of the %dx%dx%d product (pipeline %d) is %lld, expected %lld", r, c, g->rows, g->depth, g->cols, g->kind, (long long)got, (long long)want);
    }
  return bad;
}
