// larger matrices of the fault-injecting element type
#include "ops.h"
#include "rat.h"
namespace {
using namespace ops;
struct Init { Init() {
  Svc<Rat>::install();
  any_real<Rat, 8, 8>(); any_real<Rat, 9, 3>(); rect_real<Rat, 10, 11>(); rect_real<Rat, 1, 20>();
  square_ring<Rat, 8>(); square_ring<Rat, 9>(); shape_mult<Rat, 8, 9, 7>();
  square_sym<Rat, 7>(); square_sym<Rat, 10>(); square_minor<Rat, 7>(); square_minor<Rat, 10>(); square_valid<Rat, 7>(); square_valid<Rat, 9>();
  square_det<Rat, 7>(); square_det<Rat, 8>(); square_lu<Rat, 7>(); square_lu<Rat, 8>(); square_inv<Rat, 7>(); square_pow<Rat, 7>(); square_chol<Rat, 8>();
} } init;
}
