// further built-in element types on a few shapes: long double, long, short
#include "ops.h"
namespace {
using namespace ops;
template <class T, size_t n> void lin() { sq_lin<T, n>(); minor_if<T, n>::go(); valid_if<T, n>::go(); square_inv<T, n>(); square_pow<T, n>(); }
template <class T> void common() {
  Svc<T>::install();
  any_real<T, 1, 1>(); any_real<T, 3, 3>(); rect_real<T, 2, 4>(); rect_real<T, 5, 3>();
  square_ring<T, 2>(); square_ring<T, 3>(); square_ring<T, 5>(); shape_mult<T, 2, 3, 4>();
}
struct Init { Init() {
  common<long double>(); common<long>(); common<short>();
  any_real<long double, 8, 8>(); any_real<long, 8, 8>();
  lin<long double, 1>(); lin<long double, 2>(); lin<long double, 3>(); lin<long double, 4>(); lin<long double, 5>(); lin<long double, 7>();
  square_chol<long double, 2>(); square_chol<long double, 3>(); square_chol<long double, 5>();
  lin<long, 1>(); lin<long, 2>(); lin<long, 3>(); lin<long, 4>();
  lin<short, 1>(); lin<short, 2>(); lin<short, 3>(); lin<short, 4>(); any_real<short, 8, 8>(); square_strassen<short>();
  square_strassen<long double>(); square_strassen<long>();
} } init;
}
