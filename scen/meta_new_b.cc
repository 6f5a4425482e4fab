#include "meta_new.h"
namespace {
template <typename Executor, int km, int kn>
std::size_t Types(const MetaCall& c, int est) {
  switch (c.out) {
    case 0: return Go<std::uint8_t, RowMajorWithSum, QuantizedStaticPreprocessed, Executor, km, kn>::Run(c, est);
    case 1: return Go<std::int32_t, ColumnMajorWithSum, QuantizedStaticPreprocessedAsInt32, Executor, km, kn>::Run(c, est);
    default: return Go<float, RowMajorWithSum, QuantizedStaticPreprocessedAsFloat, Executor, km, kn>::Run(c, est);
  }
}
}  // namespace
std::size_t meta_execs_b(const MetaCall& c, int est) {
  switch (c.exec) {
    case 0: return Types<GemmExecutorPackRHS, 2, 4>(c, est);
    default: return Types<GemmExecutorPackLHS, 2, 4>(c, est);
  }
}
