#include "c24casts.h"
CAST (i32_i64, int, intmax_t)
CAST (flt_i32, float, int)
