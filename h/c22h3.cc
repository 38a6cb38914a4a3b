#define PART 3
#include "c22hist.h"
