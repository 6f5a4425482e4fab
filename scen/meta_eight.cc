// The global 8-bit interface built with the fast path switched on.
#include "meta_port.h"
#ifndef GEMMLOWP_USE_META_FASTPATH
#define GEMMLOWP_USE_META_FASTPATH
#endif
#include "eight_bit_int_gemm/eight_bit_int_gemm.cc"
