#define ET int
#define ET_INT 1

#include "ops_lin.inc"
