#define ET double
#define ET_CHOL 1
#define ET_BIG 1
#include "ops_lin.inc"
