#define PART 3
#include "c22matrix.h"
