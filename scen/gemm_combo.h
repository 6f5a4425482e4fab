// gemm_combo.h: the public-API instantiations the product scenarios exercise.
#ifndef GEMM_COMBO_H_
#define GEMM_COMBO_H_
#include "../sim/model.h"

typedef void (*combo_fn)(void* context, const GemmCall* g);
struct Combo {
  int kind;                 // PipeKind
  int l, r, s;              // row-major flags
  int vec_offsets;          // per-channel operand offsets
  int nonzero_lhs;          // operand range excludes the lowest value
  int is_signed;
  combo_fn fn;              // for gemmlowp::GemmContext
};
extern const Combo* const g_combos[];   // null-terminated list of pointers
#endif
