#include "c24ratio.h"
enum { LO = 45, HI = 60 };
template <int I> struct RAll { static void run (int i) { if (i == I-1) RPair<I-1,NR>::run(); else RAll<I-1>::run (i); } };
template <> struct RAll<LO> { static void run (int) {} };
MC_SCENARIO (ratios4, HI-LO) { RAll<HI>::run (shard+LO); mc_state (shard+LO); }
