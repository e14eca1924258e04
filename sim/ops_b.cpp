// bytes (grey-scale images); not printed, because they print as characters
#include "ops.h"
namespace {
using namespace ops;
typedef unsigned char B;
template <size_t r, size_t c> void some() { shape_add<B, r, c>(); shape_sub<B, r, c>(); shape_scale<B, r, c>(); shape_trans<B, r, c>(); shape_conv<B, r, c>(); shape_swap<B, r, c>(); shape_make<B, r, c>(); shape_stat<B, r, c>(); shape_abs<B, r, c>(); shape_div<B, r, c>(); }
struct Init { Init() {
  Svc<B>::install();
  some<1, 1>(); some<3, 3>(); some<5, 3>(); shape_vh<B, 5, 3>(); some<8, 8>(); shape_stat<B, 4, 7>(); shape_stat<B, 16, 16>();
  square_ring<B, 2>(); square_ring<B, 3>(); square_ring<B, 5>(); shape_mult<B, 2, 3, 4>(); square_minor<B, 4>(); square_valid<B, 5>(); square_valid<B, 8>(); square_sym<B, 4>(); square_det<B, 2>(); square_det<B, 3>(); square_strassen<B>();
} } init;
}
