#include "custom_pool.h"
#include "gemm_impl.h"
extern const Combo kCustom2 = {PK_FIXED_U8, 1, 0, 1, 0, 0, 0, gi::Call<PK_FIXED_U8, 1, 0, 1, 0, std::uint8_t, gemmlowp::DefaultL8R8BitDepthParams, CustomContext>::run};
extern const Combo kCustom3 = {PK_BIAS_RAW, 0, 0, 0, 1, 0, 0, gi::Call<PK_BIAS_RAW, 0, 0, 0, 1, std::uint8_t, gemmlowp::DefaultL8R8BitDepthParams, CustomContext>::run};
