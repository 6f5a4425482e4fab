// model.h: the executable reference model of a quantised matrix product.
// Written from the documentation (doc/*.md, public/output_stages.h,
// fixedpoint/fixedpoint.h comments), never instrumented, single-threaded.
#ifndef MODEL_H_
#define MODEL_H_
#include <stdint.h>
#include <stddef.h>

enum PipeKind {
  PK_STANDARD,      // quantise down, saturate to uint8
  PK_RAW,           // int32 accumulators
  PK_FIXED_U8,      // bias(col), fixed point, clamp, saturate uint8
  PK_FIXED_I16,     // bias(row), fixed point, saturate int16
  PK_QPC_COL,       // per-row quantise down, saturate uint8
  PK_QPC_ROW,       // per-column quantise down, saturate uint8
  PK_EXPPC_COL,     // per-row fixed point + exponent, bias(col), saturate uint8
  PK_EXPPC_ROW,     // per-column fixed point + exponent, saturate int16
  PK_EXP_TRUNC,     // fixed point + exponent, clamp [0,255], truncate to uint8
  PK_FIXED_I8,      // fixed point, saturate int8
  PK_BIAS_RAW,      // bias(row), bias(col), clamp, int32
  PK_FIVE,          // bias(row), fixed point, bias(col), clamp, saturate int16
  PK_SIX,           // bias(col), bias(row), fixed point, clamp, bias(col), saturate uint8
  PK_TANH,          // tanh, int32 (known up to a tolerance)
  PK_NKINDS
};
enum OutType { OT_U8, OT_I8, OT_I16, OT_I32 };
static inline int out_size(int t) { return t == OT_U8 || t == OT_I8 ? 1 : t == OT_I16 ? 2 : 4; }
static inline int pipe_out(int k) {
  switch (k) {
    case PK_RAW: case PK_BIAS_RAW: case PK_TANH: return OT_I32;
    case PK_FIXED_I16: case PK_EXPPC_ROW: case PK_FIVE: return OT_I16;
    case PK_FIXED_I8: return OT_I8;
    default: return OT_U8;
  }
}

// One matrix product, as the caller specifies it.
struct GemmCall {
  int rows, cols, depth;
  int lhs_rowmajor, rhs_rowmajor, res_rowmajor;
  int in_signed;                      // int8 operands
  const uint8_t *lhs, *rhs;           // (signed operands: reinterpret)
  int lhs_stride, rhs_stride, res_stride;
  void* res;
  int lhs_offset, rhs_offset;         // used when the vectors are null
  const int32_t *lhs_offset_vec, *rhs_offset_vec;
  int kind;                           // PipeKind
  int32_t q_offset, q_mult, q_shift;  // quantise down
  int32_t f_mult, f_shift, f_after;   // fixed point (f_shift: right shift)
  int32_t f_exp;                      // exponent form
  int32_t t_zero, t_amp;              // tanh
  int32_t clamp_min, clamp_max;
  const int32_t *vec_a, *vec_b;       // per-channel offset+mult, or mult+exponent
  const int32_t *bias_row, *bias_col; // row vector (cols), column vector (rows)
};

extern "C" {
// Scratch for the exact accumulators; results go to acc[rows*cols] row-major.
void model_accumulate(const GemmCall* g, int32_t* acc, int64_t* lo, int64_t* hi);
// Value of one output element given its accumulator.
int64_t model_pipeline(const GemmCall* g, int32_t acc, int r, int c);
// Compares the result buffer with the model; 0 when equal, otherwise the number
// of wrong elements, with the first one described in msg.
int model_compare(const GemmCall* g, const int32_t* acc, char* msg, size_t n);
void* model_alloc(size_t bytes);   // uninstrumented scratch, never freed
int32_t model_srdhm(int32_t a, int32_t b);
int32_t model_rdpot(int32_t x, int e);
}
#endif
