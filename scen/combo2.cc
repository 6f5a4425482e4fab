#include "gemm_impl.h"
COMBO(2, PK_FIXED_U8, 1, 0, 1, 0, DefaultL8R8BitDepthParams)
COMBO(3, PK_FIXED_I16, 0, 0, 0, 0, DefaultL8R8BitDepthParams)
const Combo* const kCombosTU2[] = {&kCombo2, &kCombo3, nullptr};
extern const Combo* const* const kCombos2 = kCombosTU2;
