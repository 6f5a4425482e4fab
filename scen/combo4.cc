#include "gemm_impl.h"
// Stages without an SSE4 implementation do not compile there.
#ifndef GEMMLOWP_SSE4
COMBO(6, PK_EXPPC_COL, 0, 0, 1, 1, DefaultL8R8BitDepthParams)
COMBO(7, PK_EXPPC_ROW, 1, 1, 0, 0, DefaultL8R8BitDepthParams)
const Combo* const kCombosTU4[] = {&kCombo6, &kCombo7, nullptr};
#else
COMBO(6, PK_RAW, 0, 0, 1, 1, DefaultL8R8BitDepthParams)
const Combo* const kCombosTU4[] = {&kCombo6, nullptr};
#endif
extern const Combo* const* const kCombos4 = kCombosTU4;
