#include "gemm_impl.h"
COMBO(10, PK_BIAS_RAW, 1, 0, 0, 1, DefaultL8R8BitDepthParams)
COMBO_NZ(11, PK_STANDARD, 1, 0, 1, 0, L8R8WithLhsNonzeroBitDepthParams)
#ifdef GEMMLOWP_NEON
extern const Combo kCombo12 = {PK_FIXED_I8, 1, 0, 0, 0, 1, 1, gi::Call<PK_FIXED_I8, 1, 0, 0, 0, std::int8_t, gemmlowp::SignedL8R8WithLhsNonzeroBitDepthParams, gemmlowp::GemmContext>::run};
const Combo* const kCombosTU6[] = {&kCombo10, &kCombo11, &kCombo12, nullptr};
#else
const Combo* const kCombosTU6[] = {&kCombo10, &kCombo11, nullptr};
#endif
extern const Combo* const* const kCombos6 = kCombosTU6;
