#define FRESH fresh_O2
#include "c22fresh.h"
