#define PART 1
#include "c22hist.h"
