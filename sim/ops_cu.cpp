// element types that support only part of the library: complex and unsigned
#include "ops.h"
namespace {
using namespace ops;
typedef std::complex<double> C;
template <class T> void common() {
  Svc<T>::install();
  shape_ring<T, 1, 1>(); shape_ring<T, 2, 2>(); shape_ring<T, 3, 3>(); shape_ring<T, 2, 4>(); shape_ring<T, 5, 3>(); shape_ring<T, 6, 6>();
  shape_vh<T, 2, 4>(); shape_vh<T, 5, 3>();
  square_ring<T, 1>(); square_ring<T, 2>(); square_ring<T, 3>(); square_ring<T, 5>();
  shape_mult<T, 2, 3, 4>(); square_strassen<T>(); square_minor<T, 3>(); square_minor<T, 5>(); square_valid<T, 4>();
  square_sym<T, 3>(); square_sym<T, 5>();
  square_det<T, 1>(); square_det<T, 2>(); square_det<T, 3>();
}
struct Init { Init() {
  common<C>(); common<unsigned>();
  shape_abs<C, 2, 2>(); shape_abs<C, 3, 4>();
  shape_stat<unsigned, 2, 2>(); shape_stat<unsigned, 3, 4>(); shape_stat<unsigned, 5, 5>();
  shape_div<unsigned, 2, 3>(); shape_div<unsigned, 4, 4>();
  shape_onesu<2, 2>(); shape_onesu<3, 5>(); shape_onesu<7, 2>(); shape_onesu<16, 16>();
  square_ident<1>(); square_ident<2>(); square_ident<3>(); square_ident<6>();
} } init;
}
