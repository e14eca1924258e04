#define ET float
#define ET_CHOL 1
#include "ops_lin.inc"
