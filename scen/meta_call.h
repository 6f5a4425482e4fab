// meta_call.h: one call of the fast path's own interfaces, as the scenario
// "meta" hands it to the two translation units (the old and the new headers
// share include guards and cannot meet in one).
#ifndef META_CALL_H_
#define META_CALL_H_
#include <cstddef>
#include <cstdint>
struct MetaCall {
  int m, n, k, lstride, rstride, ostride;   // strides in elements
  int out;          // 0 uint8, 1 int32, 2 float
  int rhs_col;      // right operand column major (stride along the depth)
  int exec;         // executor
  int loff, roff, sum, mult, shift; float scale;
  const std::uint8_t *lhs, *rhs; void* res; std::uint8_t* scratch;
  int threads;
  void* pool;
};
struct MetaTransform {
  int kind, count, threads;
  const void* in; void* out; void* pool;
  float p[6];
};
void* meta_pool_new();
void meta_pool_delete(void*);
std::size_t meta_scratch(const MetaCall& c, int threads);
void meta_gemm(const MetaCall& c);
void meta_transform(const MetaTransform& t, int parallel);
std::size_t meta_legacy_scratch(const MetaCall& c);
void meta_legacy_gemm(const MetaCall& c);
// Drives the old interface's task split with an operation of the harness's own.
struct MetaSplit {
  int m, n, k, threads, stride;
  std::uint8_t *scratch; const std::uint8_t *lhs, *rhs; int* res;
  int per_thread;
  void* pool;
};
void meta_legacy_split(const MetaSplit& s);
enum { kMetaExecs = 6 };
#endif
