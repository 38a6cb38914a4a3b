#define PART 4
#include "c22hist.h"
