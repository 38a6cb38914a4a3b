#include "c24casts.h"
CAST (i64_i32, intmax_t, int)
CAST (dbl_i64, double, intmax_t)
CAST (i32_flt, int, float)
