// linear-algebra group for element type ET
#include "ops.h"
namespace {
using namespace ops;
template <size_t n> void one(bool big) {
  sq_lin<ET, n>(); minor_if<ET, n>::go(); valid_if<ET, n>::go(); square_inv<ET, n>(); square_pow<ET, n>();
#ifdef ET_CHOL
  square_chol<ET, n>();
#endif
}
struct Init { Init() {
  Svc<ET>::install();
  one<1>(0); one<2>(0); one<3>(0); one<4>(0); one<5>(0);
#ifdef ET_INT
  square_sym<ET, 6>(); square_sym<ET, 9>(); square_minor<ET, 7>(); square_minor<ET, 12>(); square_valid<ET, 8>();
#else
  one<6>(0);
#endif
#if !defined(ET_SLOW) && !defined(ET_INT)
  one<7>(0); one<9>(0);
  square_det<ET, 12>(); square_lu<ET, 12>(); square_det<ET, 20>(); square_lu<ET, 20>(); square_sym<ET, 33>(); square_minor<ET, 33>(); square_sym<ET, 16>(); square_minor<ET, 13>();
#ifdef ET_BIG
  square_inv<ET, 8>(); square_inv<ET, 10>(); square_inv<ET, 12>(); square_pow<ET, 12>(); square_det<ET, 8>(); square_det<ET, 10>(); square_det<ET, 32>(); square_lu<ET, 8>(); square_lu<ET, 32>(); square_lu<ET, 48>(); square_chol<ET, 8>(); square_chol<ET, 32>(); square_sym<ET, 64>(); square_minor<ET, 64>(); square_valid<ET, 20>(); square_valid<ET, 40>();
#endif
#ifdef ET_CHOL
  square_chol<ET, 12>(); square_chol<ET, 20>();
#endif
#endif
  square_strassen<ET>();
} } init;
}
