#define ET int
#include "ops_any.inc"
