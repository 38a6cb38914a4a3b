#define PART 1
#include "c22packed.h"
