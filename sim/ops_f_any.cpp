#define ET float
#include "ops_any.inc"
