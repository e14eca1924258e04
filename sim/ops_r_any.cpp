#define ET Rat
#define ET_SLOW 1
#include "ops_any.inc"
