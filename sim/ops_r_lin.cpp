#define ET Rat
#define ET_SLOW 1
#define ET_CHOL 1
#include "ops_lin.inc"
