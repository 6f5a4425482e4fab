#include "gemm_impl.h"
COMBO(4, PK_QPC_COL, 1, 0, 0, 1, DefaultL8R8BitDepthParams)
COMBO(5, PK_QPC_ROW, 0, 1, 1, 1, DefaultL8R8BitDepthParams)
const Combo* const kCombosTU3[] = {&kCombo4, &kCombo5, nullptr};
extern const Combo* const* const kCombos3 = kCombosTU3;
