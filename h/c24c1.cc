#include "c24casts.h"
CAST (i64_i64, intmax_t, intmax_t)
CAST (i8_i16, int8_t, int16_t)
CAST (dbl_dbl, double, double)
