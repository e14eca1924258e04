#define ET double
#define ET_BIG 1
#include "ops_any.inc"
