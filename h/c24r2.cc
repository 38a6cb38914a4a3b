#include "c24ratio.h"
enum { LO = 15, HI = 30 };
template <int I> struct RAll { static void run (int i) { if (i == I-1) RPair<I-1,NR>::run(); else RAll<I-1>::run (i); } };
template <> struct RAll<LO> { static void run (int) {} };
MC_SCENARIO (ratios2, HI-LO) { RAll<HI>::run (shard+LO); mc_state (shard+LO); }
