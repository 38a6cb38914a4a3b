#define PART 4
#include "c22matrix.h"
