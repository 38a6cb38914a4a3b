#define PART 4
#include "c22packed.h"
