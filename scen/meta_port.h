// meta_port.h: stand-ins for the NEON assembly of the fast path, so that its
// portable parts (splitting, executors, scratch layout, legacy wrappers) run as
// real code on x86 with every access visible to the simulator.  Only the
// members the NEON headers specialise are specialised here.
#ifndef META_PORT_H_
#define META_PORT_H_
#include "internal/common.h"
#include "internal/multi_thread_gemm.h"
#include "public/gemmlowp.h"
#ifndef GEMMLOWP_NEON
#include "meta/streams.h"
#include "meta/quantized_mul_kernels.h"
#include "meta/transform_kernels.h"

namespace gemmlowp {
namespace meta {
namespace port {
// Packed layout: groups of eight depth levels, each with eight bytes per lane,
// then one 32-bit sum per lane (written in units of 16 bytes, as NEON does).
inline void PackSums(const int* sums, int lanes, int mult, int add, std::uint8_t* out) {
  int n = lanes > 4 ? 8 : 4;
  for (int i = 0; i < n; i++) reinterpret_cast<std::int32_t*>(out)[i] = i < lanes ? (int)((unsigned)sums[i] * (unsigned)mult + (unsigned)add) : 0;
}
__attribute__((noinline)) inline void Pack(const std::uint8_t* in, int count, int lane_step, int depth_step, int mult, int add, int lanes, int leftovers, std::uint8_t* out) {
  int sums[8] = {0};
  int full = count - leftovers;   // the caller's dispatch, not the count, decides
  int d = 0;
  for (; d < full; d += 8)
    for (int l = 0; l < lanes; l++) {
      std::uint8_t v[8];
      if (depth_step == 1) std::memcpy(v, in + l * lane_step + d, 8);
      else for (int i = 0; i < 8; i++) v[i] = in[l * lane_step + (d + i) * depth_step];
      for (int i = 0; i < 8; i++) sums[l] += v[i];
      std::memcpy(out, v, 8); out += 8;
    }
  if (leftovers)
    for (int l = 0; l < lanes; l++) {
      std::uint8_t v[8] = {0};
      for (int i = 0; i < leftovers; i++) { v[i] = in[l * lane_step + (d + i) * depth_step]; sums[l] += v[i]; }
      std::memcpy(out, v, 8); out += 8;
    }
  PackSums(sums, lanes, mult, add, out);
}
inline std::uint64_t Load8(const std::uint8_t* p) { return *reinterpret_cast<const std::uint64_t*>(p); }
template <int m, int n>
inline void Dot(const std::uint8_t* lhs, const std::uint8_t* rhs, int count, int acc[m][n]) {
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) acc[i][j] = 0;
  for (int d = count; d > 0; d -= 8) {
    std::uint64_t a[m], b[n];
    for (int i = 0; i < m; i++) a[i] = Load8(lhs + 8 * i);
    for (int j = 0; j < n; j++) b[j] = Load8(rhs + 8 * j);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++)
      for (int q = 0; q < 64; q += 8) acc[i][j] += (int)((a[i] >> q) & 255) * (int)((b[j] >> q) & 255);
    lhs += 8 * m; rhs += 8 * n;
  }
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++)
    acc[i][j] = (int)((unsigned)acc[i][j] + (unsigned)reinterpret_cast<const std::int32_t*>(lhs)[i] + (unsigned)reinterpret_cast<const std::int32_t*>(rhs)[j]);
}
template <int m, int n>
__attribute__((noinline)) inline void Mul(const std::uint8_t* lhs, const std::uint8_t* rhs, const FusedKernelParams<QuantizedStaticPreprocessed, RowMajor>& p, std::uint8_t* result) {
  int acc[m][n];
  Dot<m, n>(lhs, rhs, p.kernel.count, acc);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    int v = (int)((unsigned)acc[i][j] * (unsigned)p.kernel.multiplicative_offset + (unsigned)p.kernel.rounding_offset) >> -p.kernel.shift;
    result[i * p.output_stream.stride + j] = v < 0 ? 0 : v > 255 ? 255 : v;
  }
}
template <int m, int n>
__attribute__((noinline)) inline void Mul(const std::uint8_t* lhs, const std::uint8_t* rhs, const FusedKernelParams<QuantizedStaticPreprocessedAsInt32, RowMajor>& p, std::int32_t* result) {
  int acc[m][n];
  Dot<m, n>(lhs, rhs, p.kernel.count, acc);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) *reinterpret_cast<std::int32_t*>(reinterpret_cast<std::uint8_t*>(result) + i * p.output_stream.stride + j * 4) = acc[i][j];
}
template <int m, int n>
__attribute__((noinline)) inline void Mul(const std::uint8_t* lhs, const std::uint8_t* rhs, const FusedKernelParams<QuantizedStaticPreprocessedAsFloat, RowMajor>& p, float* result) {
  int acc[m][n];
  Dot<m, n>(lhs, rhs, p.kernel.count, acc);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) *reinterpret_cast<float*>(reinterpret_cast<std::uint8_t*>(result) + i * p.output_stream.stride + j * 4) = (float)acc[i][j] * p.kernel.scale;
}
inline int Rnd(float f) { return f < 0 ? (int)(f - 0.5f) : (int)(f + 0.5f); }
inline std::uint8_t Sat(int v) { return v < 0 ? 0 : v > 255 ? 255 : v; }
__attribute__((noinline)) inline void Tr(const float* in, const Quantize& p, std::uint8_t* out) { for (int i = 0; i < p.count; i++) out[i] = Sat(Rnd((in[i] - p.range_min) * p.range_scale + p.range_offset)); }
__attribute__((noinline)) inline void Tr(const std::int32_t* in, const Requantize& p, std::uint8_t* out) {
  for (int i = 0; i < p.count; i++) {
    float f = ((float)in[i] - p.input_range_offset) * p.input_range_scale + p.input_range_min;
    out[i] = Sat(Rnd((f - p.output_range_min) * p.one_over_output_range_scale + p.output_range_offset));
  }
}
__attribute__((noinline)) inline void Tr(const std::uint8_t* in, const Dequantize& p, float* out) { for (int i = 0; i < p.count; i++) out[i] = ((float)in[i] - p.range_offset) * p.range_scale + p.range_min; }
__attribute__((noinline)) inline void Tr(const std::uint8_t* in, const MinMax<std::uint8_t>& p, std::uint8_t* out) { for (int i = 0; i < p.count; i++) { std::uint8_t v = in[i]; v = v < p.min ? p.min : v; out[i] = v > p.max ? p.max : v; } }
}  // namespace port

#define PORT_STREAM(L, LO) \
  template <> inline void Stream<std::uint8_t, L, 8, LO, RowMajorWithSum>::Pack(const std::uint8_t* in, const RowMajorWithSum& p, std::uint8_t* out) { \
    port::Pack(in, p.count, p.stride, 1, p.multiplicative_sum_offset, p.additive_sum_offset, L, LO, out); } \
  template <> inline void Stream<std::uint8_t, L, 8, LO, ColumnMajorWithSum>::Pack(const std::uint8_t* in, const ColumnMajorWithSum& p, std::uint8_t* out) { \
    port::Pack(in, p.count, 1, p.stride, p.multiplicative_sum_offset, p.additive_sum_offset, L, LO, out); }
#define PORT_STREAMS(L) PORT_STREAM(L, 0) PORT_STREAM(L, 1) PORT_STREAM(L, 2) PORT_STREAM(L, 3) PORT_STREAM(L, 4) PORT_STREAM(L, 5) PORT_STREAM(L, 6) PORT_STREAM(L, 7)
PORT_STREAMS(1) PORT_STREAMS(2) PORT_STREAMS(3) PORT_STREAMS(4) PORT_STREAMS(5) PORT_STREAMS(6) PORT_STREAMS(7) PORT_STREAMS(8)
#define PORT_MUL1(OUT, K, M, N) \
  template <> inline void MulKernel<std::uint8_t, OUT, K, RowMajor, M, N, 8>::Multiply(const std::uint8_t* lhs, const std::uint8_t* rhs, const FusedKernelParams<K, RowMajor>& p, OUT* r) { port::Mul<M, N>(lhs, rhs, p, r); }
#define PORT_MUL(M, N) PORT_MUL1(std::uint8_t, QuantizedStaticPreprocessed, M, N) PORT_MUL1(std::int32_t, QuantizedStaticPreprocessedAsInt32, M, N) PORT_MUL1(float, QuantizedStaticPreprocessedAsFloat, M, N)
PORT_MUL(1, 1) PORT_MUL(1, 2) PORT_MUL(1, 3) PORT_MUL(1, 4) PORT_MUL(1, 5) PORT_MUL(1, 6) PORT_MUL(1, 7) PORT_MUL(1, 8)
PORT_MUL(2, 1) PORT_MUL(2, 2) PORT_MUL(2, 3) PORT_MUL(2, 4) PORT_MUL(3, 1) PORT_MUL(3, 2) PORT_MUL(3, 3)
#define PORT_TR1(IN, OUT, K, LO) template <> inline void Transform1DKernel<IN, OUT, K, 16, LO>::Transform(const IN* in, const K& p, OUT* out) { port::Tr(in, p, out); }
#define PORT_TR(LO) PORT_TR1(float, std::uint8_t, Quantize, LO) PORT_TR1(std::int32_t, std::uint8_t, Requantize, LO) PORT_TR1(std::uint8_t, float, Dequantize, LO) PORT_TR1(std::uint8_t, std::uint8_t, MinMax<std::uint8_t>, LO)
PORT_TR(0) PORT_TR(1) PORT_TR(2) PORT_TR(3) PORT_TR(4) PORT_TR(5) PORT_TR(6) PORT_TR(7) PORT_TR(8) PORT_TR(9) PORT_TR(10) PORT_TR(11) PORT_TR(12) PORT_TR(13) PORT_TR(14) PORT_TR(15)
}  // namespace meta
}  // namespace gemmlowp
#define GEMMLOWP_NEON
#endif
#endif
