// double: the sizes between those of the other units
#include "ops.h"
namespace {
using namespace ops;
template <size_t n> void sq() { square_ring<double, n>(); shape_add<double, n, n>(); shape_sub<double, n, n>(); shape_trans<double, n, n>(); square_sym<double, n>(); square_minor<double, n>(); square_valid<double, n>(); shape_median<double, n, n>(); shape_mean<double, n, n>(); shape_var<double, n, n>(); shape_hist<double, n, n>(); shape_div<double, n, n>(); shape_abs<double, n, n>(); shape_conv<double, n, n>(); }
struct Init { Init() {
  Svc<double>::install();
  sq<7>(); sq<9>(); sq<10>(); sq<12>(); sq<15>(); sq<24>();
  any_real<double, 1, 40>(); any_real<double, 40, 1>(); rect_real<double, 2, 64>();
  square_lu<double, 10>(); square_lu<double, 16>(); square_chol<double, 10>(); square_chol<double, 16>(); square_det<double, 11>(); square_det<double, 16>(); square_inv<double, 11>(); square_pow<double, 8>(); square_pow<double, 10>(); square_inv<double, 16>();
  shape_mult<double, 7, 7, 3>(); shape_mult<double, 10, 3, 8>(); shape_mult<double, 1, 32, 1>(); shape_mult<double, 12, 1, 12>();
} } init;
}
