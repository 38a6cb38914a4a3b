#define PART 2
#include "c22packed.h"
