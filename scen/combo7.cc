#include "gemm_impl.h"
COMBO(14, PK_FIVE, 0, 1, 1, 0, DefaultL8R8BitDepthParams)
COMBO(15, PK_SIX, 1, 0, 0, 1, DefaultL8R8BitDepthParams)
const Combo* const kCombosTU7[] = {&kCombo14, &kCombo15, nullptr};
extern const Combo* const* const kCombos7 = kCombosTU7;
