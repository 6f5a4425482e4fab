#include "custom_pool.h"
#include "gemm_impl.h"
extern const Combo kCustom0 = {PK_STANDARD, 1, 0, 0, 0, 0, 0, gi::CallPlain<1, 0, 0, gemmlowp::DefaultL8R8BitDepthParams, CustomContext>::run};
extern const Combo kCustom1 = {PK_RAW, 0, 1, 1, 0, 0, 0, gi::Call<PK_RAW, 0, 1, 1, 0, std::uint8_t, gemmlowp::DefaultL8R8BitDepthParams, CustomContext>::run};
