#define PART 1
#include "c22matrix.h"
