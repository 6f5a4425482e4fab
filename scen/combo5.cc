#include "gemm_impl.h"
COMBO(8, PK_EXP_TRUNC, 0, 1, 0, 0, DefaultL8R8BitDepthParams)
COMBO(13, PK_TANH, 1, 0, 0, 0, DefaultL8R8BitDepthParams)
#ifndef GEMMLOWP_SSE4
COMBO(9, PK_FIXED_I8, 1, 0, 0, 0, DefaultL8R8BitDepthParams)
const Combo* const kCombosTU5[] = {&kCombo8, &kCombo9, &kCombo13, nullptr};
#else
const Combo* const kCombosTU5[] = {&kCombo8, &kCombo13, nullptr};
#endif
extern const Combo* const* const kCombos5 = kCombosTU5;
