// The fast path's present interface: parallel products and transforms.
#include "meta_new.h"

void* meta_pool_new() { return new Pool; }
void meta_pool_delete(void* p) { delete (Pool*)p; }

namespace {
std::size_t Execs(const MetaCall& c, int est) { return c.exec < 2 ? meta_execs_b(c, est) : c.exec < 4 ? meta_execs_a(c, est) : meta_execs_c(c, est); }
template <typename In, typename Out, typename K>
void Tr(const MetaTransform& t, const K& k, int parallel) {
  Transform1DParams<In, Out, K> p;
  p.input = (const In*)t.in; p.output = (Out*)t.out; p.scratch = nullptr; p.kernel = k; p.kernel.count = t.count;
  if (!parallel) { Transform1D<decltype(p), 16>(p); return; }
  Context ctx(t.threads, (Pool*)t.pool);
  MultiThreadTransform1D<Context, decltype(p), 16>(&ctx, p);
}
}  // namespace

// What a caller has to provide for `threads` tasks: every task may get as much
// as the executor asks for the whole product.
std::size_t meta_scratch(const MetaCall& c, int threads) { return Execs(c, 1) * (std::size_t)threads; }
void meta_gemm(const MetaCall& c) { Execs(c, 0); }
void meta_transform(const MetaTransform& t, int parallel) {
  switch (t.kind) {
    case 0: { Quantize k; k.range_min = t.p[0]; k.range_offset = t.p[1]; k.range_scale = t.p[2]; Tr<float, std::uint8_t>(t, k, parallel); break; }
    case 1: { Dequantize k; k.range_min = t.p[0]; k.range_offset = t.p[1]; k.range_scale = t.p[2]; Tr<std::uint8_t, float>(t, k, parallel); break; }
    case 2: {
      Requantize k; k.input_range_min = t.p[0]; k.input_range_offset = t.p[1]; k.input_range_scale = t.p[2];
      k.output_range_min = t.p[3]; k.output_range_offset = t.p[4]; k.one_over_output_range_scale = t.p[5];
      Tr<std::int32_t, std::uint8_t>(t, k, parallel); break;
    }
    default: { MinMax<std::uint8_t> k; k.min = (std::uint8_t)t.p[0]; k.max = (std::uint8_t)t.p[1]; Tr<std::uint8_t, std::uint8_t>(t, k, parallel); break; }
  }
}
