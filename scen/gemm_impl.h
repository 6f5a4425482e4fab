// gemm_impl.h: calls the public interface for one combination of types.
#ifndef GEMM_IMPL_H_
#define GEMM_IMPL_H_
#include "gemm_combo.h"
#include "public/gemmlowp.h"

namespace gi {
using namespace gemmlowp;
typedef VectorMap<const std::int32_t, VectorShape::Col> ColV;
typedef VectorMap<const std::int32_t, VectorShape::Row> RowV;
typedef VectorDup<const std::int32_t, VectorShape::Col> ColD;
typedef VectorDup<const std::int32_t, VectorShape::Row> RowD;

template <int K> struct Pipe;
inline OutputStageQuantizeDownInt32ByFixedPoint fixed_stage(const GemmCall* g) {
  OutputStageQuantizeDownInt32ByFixedPoint s;
  s.result_fixedpoint_multiplier = g->f_mult; s.result_shift = g->f_shift; s.result_offset_after_shift = g->f_after;
  return s;
}
template <VectorShape S> OutputStageQuantizeDownInt32ToUint8ScalePC<S> qpc_stage(const GemmCall* g, int n) {
  OutputStageQuantizeDownInt32ToUint8ScalePC<S> s;
  s.result_offset = VectorMap<const std::int32_t, S>(g->vec_a, n);
  s.result_mult_int = VectorMap<const std::int32_t, S>(g->vec_b, n);
  s.result_shift = g->q_shift;
  return s;
}
template <VectorShape S> OutputStageScaleInt32ByFixedPointAndExponentPC<S> exppc_stage(const GemmCall* g, int n) {
  OutputStageScaleInt32ByFixedPointAndExponentPC<S> s;
  s.result_fixedpoint_multiplier = VectorMap<const std::int32_t, S>(g->vec_a, n);
  s.result_exponent = VectorMap<const std::int32_t, S>(g->vec_b, n);
  s.result_offset_after_shift = g->f_after;
  return s;
}
inline OutputStageClamp clamp_stage(const GemmCall* g) { OutputStageClamp c; c.min = g->clamp_min; c.max = g->clamp_max; return c; }
inline OutputStageBiasAddition<ColV> bias_col(const GemmCall* g) { OutputStageBiasAddition<ColV> b; b.bias_vector = ColV(g->bias_col, g->rows); return b; }
inline OutputStageBiasAddition<RowV> bias_row(const GemmCall* g) { OutputStageBiasAddition<RowV> b; b.bias_vector = RowV(g->bias_row, g->cols); return b; }

#define PIPE(K, OUT, EXPR) \
  template <> struct Pipe<K> { typedef OUT Out; static auto make(const GemmCall* g) -> decltype(EXPR) { return EXPR; } };
PIPE(PK_STANDARD, std::uint8_t, MakeStandardOutputPipeline(g->q_offset, g->q_mult, g->q_shift))
PIPE(PK_RAW, std::int32_t, std::make_tuple())
PIPE(PK_FIXED_U8, std::uint8_t, std::make_tuple(bias_col(g), fixed_stage(g), clamp_stage(g), OutputStageSaturatingCastToUint8()))
PIPE(PK_FIXED_I16, std::int16_t, std::make_tuple(bias_row(g), fixed_stage(g), OutputStageSaturatingCastToInt16()))
PIPE(PK_FIXED_I8, std::int8_t, std::make_tuple(fixed_stage(g), OutputStageSaturatingCastToInt8()))
PIPE(PK_QPC_COL, std::uint8_t, std::make_tuple(qpc_stage<VectorShape::Col>(g, g->rows), OutputStageSaturatingCastToUint8()))
PIPE(PK_QPC_ROW, std::uint8_t, std::make_tuple(qpc_stage<VectorShape::Row>(g, g->cols), OutputStageSaturatingCastToUint8()))
PIPE(PK_EXPPC_COL, std::uint8_t, std::make_tuple(exppc_stage<VectorShape::Col>(g, g->rows), bias_col(g), OutputStageSaturatingCastToUint8()))
PIPE(PK_EXPPC_ROW, std::int16_t, std::make_tuple(exppc_stage<VectorShape::Row>(g, g->cols), OutputStageSaturatingCastToInt16()))
PIPE(PK_BIAS_RAW, std::int32_t, std::make_tuple(bias_row(g), bias_col(g), clamp_stage(g)))
inline OutputStageBiasAddition<ColV> bias_col2(const GemmCall* g) { OutputStageBiasAddition<ColV> b; b.bias_vector = ColV(g->vec_a, g->rows); return b; }
PIPE(PK_FIVE, std::int16_t, std::make_tuple(bias_row(g), fixed_stage(g), bias_col(g), clamp_stage(g), OutputStageSaturatingCastToInt16()))
PIPE(PK_SIX, std::uint8_t, std::make_tuple(bias_col(g), bias_row(g), fixed_stage(g), clamp_stage(g), bias_col2(g), OutputStageSaturatingCastToUint8()))
inline OutputStageTanh tanh_stage(const GemmCall* g) { OutputStageTanh t; t.real_zero_as_int32 = g->t_zero; t.real_amplitude_as_int32 = g->t_amp; return t; }
PIPE(PK_TANH, std::int32_t, std::make_tuple(tanh_stage(g)))
inline OutputStageScaleInt32ByFixedPointAndExponent exp_stage(const GemmCall* g) {
  OutputStageScaleInt32ByFixedPointAndExponent s;
  s.result_fixedpoint_multiplier = g->f_mult; s.result_exponent = g->f_exp; s.result_offset_after_shift = g->f_after;
  return s;
}
#if defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_NEON)  // no truncating cast there; after the clamp it is the same
PIPE(PK_EXP_TRUNC, std::uint8_t, std::make_tuple(exp_stage(g), clamp_stage(g), OutputStageSaturatingCastToUint8()))
#else
PIPE(PK_EXP_TRUNC, std::uint8_t, std::make_tuple(exp_stage(g), clamp_stage(g), OutputStageTruncatingCastToUint8()))
#endif
#undef PIPE

constexpr MapOrder ord(int rm) { return rm ? MapOrder::RowMajor : MapOrder::ColMajor; }

// A: 0 plain offsets through GemmWithOutputPipeline (or Gemm for the standard
// pipeline), 1 per-channel offset vectors through GemmWithOutputPipelinePC.
template <int K, int L, int R, int S, int A, typename In, typename BD, typename Ctx>
struct Call {
  static void run(void* context, const GemmCall* g) {
    typedef typename Pipe<K>::Out Out;
    MatrixMap<const In, ord(L)> lhs((const In*)g->lhs, g->rows, g->depth, g->lhs_stride);
    MatrixMap<const In, ord(R)> rhs((const In*)g->rhs, g->depth, g->cols, g->rhs_stride);
    MatrixMap<Out, ord(S)> res((Out*)g->res, g->rows, g->cols, g->res_stride);
    if (A == 1) {
      ColV lo(g->lhs_offset_vec, g->rows);
      RowV ro(g->rhs_offset_vec, g->cols);
      GemmWithOutputPipelinePC<In, Out, BD>((Ctx*)context, lhs, rhs, &res, lo, ro, Pipe<K>::make(g));
    } else if (A == 2) {
      ColD lo(g->lhs_offset, g->rows);
      RowD ro(g->rhs_offset, g->cols);
      GemmWithOutputPipelinePC<In, Out, BD>((Ctx*)context, lhs, rhs, &res, lo, ro, Pipe<K>::make(g));
    } else {
      GemmWithOutputPipeline<In, Out, BD>((Ctx*)context, lhs, rhs, &res, g->lhs_offset, g->rhs_offset, Pipe<K>::make(g));
    }
  }
};
template <int L, int R, int S, typename BD, typename Ctx>
struct CallPlain {
  static void run(void* context, const GemmCall* g) {
    MatrixMap<const std::uint8_t, ord(L)> lhs(g->lhs, g->rows, g->depth, g->lhs_stride);
    MatrixMap<const std::uint8_t, ord(R)> rhs(g->rhs, g->depth, g->cols, g->rhs_stride);
    MatrixMap<std::uint8_t, ord(S)> res((std::uint8_t*)g->res, g->rows, g->cols, g->res_stride);
    Gemm<std::uint8_t, BD>((Ctx*)context, lhs, rhs, &res, g->lhs_offset, g->rhs_offset, g->q_offset, g->q_mult, g->q_shift);
  }
};
}  // namespace gi

#define COMBO(N, K, L, R, S, A, BD) \
  extern const Combo kCombo##N = {K, L, R, S, (A) == 1, 0, 0, gi::Call<K, L, R, S, ((A) == 1 ? 1 : 0), std::uint8_t, gemmlowp::BD, gemmlowp::GemmContext>::run};
#define COMBO_NZ(N, K, L, R, S, A, BD) \
  extern const Combo kCombo##N = {K, L, R, S, (A) == 1, 1, 0, gi::Call<K, L, R, S, ((A) == 1 ? 1 : 0), std::uint8_t, gemmlowp::BD, gemmlowp::GemmContext>::run};
#define COMBO_PLAIN(N, L, R, S, BD) \
  extern const Combo kCombo##N = {PK_STANDARD, L, R, S, 0, 0, 0, gi::CallPlain<L, R, S, gemmlowp::BD, gemmlowp::GemmContext>::run};
#endif
