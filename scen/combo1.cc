#include "gemm_impl.h"
COMBO_PLAIN(0, 1, 0, 0, DefaultL8R8BitDepthParams)
COMBO(1, PK_RAW, 1, 1, 1, 0, DefaultL8R8BitDepthParams)
const Combo* const kCombosTU1[] = {&kCombo0, &kCombo1, nullptr};
extern const Combo* const* const kCombos1 = kCombosTU1;
