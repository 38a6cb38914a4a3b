#define PART 2
#include "c22hist.h"
