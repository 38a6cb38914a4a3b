// Reference for C07: the C++ standard library's own algorithms.
#include <algorithm>
#include <numeric>
#define C07_TYPES
#define NS std
#define C07_CALL call_std
#include "c07ops.h"
Res c07_ref (int op, P* a, int n, P* b, int nb, P* o, int v, int m) { return call_std (op, a, n, b, nb, o, v, m); }
