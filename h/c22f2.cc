#pragma GCC optimize ("O3")
#define FRESH fresh_O3
#include "c22fresh.h"
