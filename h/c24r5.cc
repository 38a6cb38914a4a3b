#define MORE_RATIOS
#include "c24.h"
namespace {	// the templates differ from those of the other files
#include "c24ratio.h"
template <int I> struct RAll { static void run (int i) { if (i == I-1) RPair<I-1,NR>::run(); else RAll<I-1>::run (i); } };
template <> struct RAll<0> { static void run (int) {} };
}
MC_SCENARIO (ratios5, NR) { RAll<NR>::run (shard); mc_state (shard); }
