#define GFWX_NS GFWX_T
#define GFWX_TRUNC
#define FN(x) reft_##x
#include "oracle.inc"
