// element-wise, statistics and structural group for element type ET
#include "ops.h"
namespace {
using namespace ops;
struct Init { Init() {
  Svc<ET>::install();
  any_real<ET, 1, 1>(); any_real<ET, 2, 2>(); any_real<ET, 3, 3>(); any_real<ET, 4, 4>(); any_real<ET, 5, 5>();
  rect_real<ET, 1, 4>(); rect_real<ET, 3, 1>(); rect_real<ET, 2, 3>(); rect_real<ET, 3, 2>(); rect_real<ET, 4, 6>(); rect_real<ET, 7, 5>();
  square_ring<ET, 1>(); square_ring<ET, 2>(); square_ring<ET, 3>(); square_ring<ET, 4>(); square_ring<ET, 5>(); square_ring<ET, 6>();
  shape_mult<ET, 2, 3, 2>(); shape_mult<ET, 1, 4, 1>(); shape_mult<ET, 4, 1, 3>(); shape_mult<ET, 3, 2, 5>(); shape_mult<ET, 5, 7, 4>();
#ifndef ET_SLOW
  any_real<ET, 8, 8>(); any_real<ET, 9, 3>(); any_real<ET, 16, 16>();
  square_ring<ET, 8>(); square_ring<ET, 11>(); shape_mult<ET, 16, 16, 16>(); shape_mult<ET, 9, 17, 6>();
#endif
#ifdef ET_BIG
  any_real<ET, 33, 33>(); rect_real<ET, 20, 31>(); square_ring<ET, 32>(); square_ring<ET, 20>(); shape_mult<ET, 64, 64, 64>(); shape_mult<ET, 33, 5, 34>(); shape_trans<ET, 64, 64>(); shape_add<ET, 64, 64>(); shape_ring<ET, 100, 100>(); shape_mean<ET, 100, 100>(); shape_var<ET, 100, 100>(); shape_abs<ET, 100, 100>(); shape_div<ET, 100, 100>(); shape_mult<ET, 48, 48, 48>();
#endif
} } init;
}
