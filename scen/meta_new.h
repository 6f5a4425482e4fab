// meta_new.h: the fast path's present interface (products).
#ifndef META_NEW_H_
#define META_NEW_H_
#include "meta_port.h"
#include "meta/multi_thread_gemm.h"
#include "meta/multi_thread_transform.h"
#include "meta/quantized_mul_kernels.h"
#include "meta/streams.h"
#include "meta/transform_kernels.h"
#include "meta_call.h"

using namespace gemmlowp::meta;
typedef gemmlowp::WorkersPool Pool;
typedef SimpleContext<Pool> Context;


namespace {
inline void Fused(const MetaCall& c, QuantizedStaticPreprocessed* k) {
  k->count = c.k; k->multiplicative_offset = c.mult; k->rounding_offset = c.shift < 1 ? 0 : 1 << (c.shift - 1); k->shift = -c.shift;
}
inline void Fused(const MetaCall& c, QuantizedStaticPreprocessedAsInt32* k) { k->count = c.k; }
inline void Fused(const MetaCall& c, QuantizedStaticPreprocessedAsFloat* k) { k->count = c.k; k->scale = c.scale; }

template <typename Out, typename Right, typename Kernel>
GemmParams<std::uint8_t, Out, RowMajorWithSum, Right, Kernel, RowMajor> Fill(const MetaCall& c) {
  GemmParams<std::uint8_t, Out, RowMajorWithSum, Right, Kernel, RowMajor> p;
  p.m = c.m; p.n = c.n; p.k = c.k;
  p.lhs = c.lhs; p.rhs = c.rhs; p.result = (Out*)c.res; p.scratch = c.scratch;
  p.left_stream.count = c.k; p.left_stream.stride = c.lstride;
  p.left_stream.multiplicative_sum_offset = c.roff;
  p.left_stream.additive_sum_offset = (c.out == 0 ? c.sum : 0) + c.k * c.loff * c.roff;
  p.right_stream.count = c.k; p.right_stream.stride = c.rstride;
  p.right_stream.multiplicative_sum_offset = c.loff; p.right_stream.additive_sum_offset = 0;
  Fused(c, &p.fused_kernel.kernel);
  p.fused_kernel.output_stream.count = 0;
  p.fused_kernel.output_stream.stride = c.ostride * (int)sizeof(Out);
  return p;
}
template <typename Out, typename Right, typename Kernel, typename Executor, int km, int kn>
struct Go {
  static std::size_t Run(const MetaCall& c, int estimate) {
    auto p = Fill<Out, Right, Kernel>(c);
    typedef decltype(p) Params;
    if (estimate) return (std::size_t)Executor::template EstimateScratchSize<Params>(p, km, kn, 8);
    Context ctx(c.threads, (Pool*)c.pool);
    MultiThreadGemm<Context, Executor, Params, km, kn, 8>(&ctx, p);
    return 0;
  }
};
}  // namespace
// Runs (or sizes the scratch of) the calls of one group of executors; each group
// is a translation unit of its own.
std::size_t meta_execs_a(const MetaCall& c, int est);
std::size_t meta_execs_b(const MetaCall& c, int est);
std::size_t meta_execs_c(const MetaCall& c, int est);
#endif
