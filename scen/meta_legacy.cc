// The fast path's older interface.
#include "meta_port.h"
#include "meta/legacy_multi_thread_gemm.h"
#include "harness.h"
#include "meta_call.h"

using namespace gemmlowp::meta;
typedef gemmlowp::WorkersPool Pool;

std::size_t meta_legacy_scratch(const MetaCall& c) {
  return c.out == 0 ? gemm_q8_scratch(c.m, c.n, c.k, c.threads) : c.out == 1 ? gemm_i32_scratch(c.m, c.n, c.k, c.threads) : gemm_f_scratch(c.m, c.n, c.k, c.threads);
}
void meta_legacy_gemm(const MetaCall& c) {
  Pool* pool = (Pool*)c.pool;
  switch (c.out) {
    case 0: multi_thread_gemm_q8(pool, c.threads, c.scratch, c.lhs, c.rhs, c.m, c.n, c.k, c.loff, c.roff, c.sum, c.mult, c.shift, (std::uint8_t*)c.res); break;
    case 1: multi_thread_gemm_i32(pool, c.threads, c.scratch, c.lhs, c.rhs, c.m, c.n, c.k, c.loff, c.roff, (std::int32_t*)c.res); break;
    default: multi_thread_gemm_f(pool, c.threads, c.scratch, c.lhs, c.rhs, c.m, c.n, c.k, c.loff, c.roff, c.scale, (float*)c.res); break;
  }
}

namespace {
// An operation that knows whether it is still alive, and works like a real one:
// reads its operands, uses its scratch, writes its part of the result.
struct SplitOp {
  const MetaSplit* s; int alive;
  explicit SplitOp(const MetaSplit* s) : s(s), alive(0x600d) {}
  SplitOp(const SplitOp& o) : s(o.s), alive(o.alive) {}
  ~SplitOp() { bury(); }
  HARNESS void bury() { *(volatile int*)&alive = 0xdead; *(MetaSplit* volatile*)&s = nullptr; }
  HARNESS static void dead() { sim_fail("mem", "a task used the operation object after it had been destroyed"); }
  HARNESS static int peek(const int* p) { return *(const volatile int*)p; }
  void ExecuteMatrixMatrix(std::uint8_t* scratch, const std::uint8_t* lhs, const std::uint8_t* rhs, std::int32_t m, std::int32_t n, std::int32_t k, int* result, std::int32_t stride) const {
    if (peek(&alive) != 0x600d) dead();
    int per = s->per_thread;
    for (int i = 0; i < per; i += 8) scratch[i] = (std::uint8_t)(m + n + i);
    for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++) {
        int v = result[i * stride + j];
        result[i * stride + j] = v + lhs[i * k] + 256 * rhs[j * k + k - 1] + 65536;
      }
    for (int i = 0; i < per; i += 8) if (scratch[i] != (std::uint8_t)(m + n + i)) sim_fail("result", "scratch memory of a task was overwritten");
  }
  std::int32_t ScratchPerThread(std::int32_t, std::int32_t, std::int32_t) const { return s->per_thread; }
};
}  // namespace
void meta_legacy_split(const MetaSplit& s) {
  SplitOp op(&s);
  internal::MultiThreadedMatrixMatrix((Pool*)s.pool, s.threads, s.scratch, s.lhs, s.rhs, s.m, s.n, s.k, s.res, s.stride, op);
}
