#define PART 3
#include "c22packed.h"
