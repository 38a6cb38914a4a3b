#define PART 2
#include "c22matrix.h"
