#include "c24casts.h"
CAST (i64_i8, intmax_t, int8_t)
CAST (i64_dbl, intmax_t, double)
