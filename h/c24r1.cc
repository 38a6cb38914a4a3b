#include "c24ratio.h"
enum { LO = 0, HI = 15 };
template <int I> struct RAll { static void run (int i) { if (i == I-1) RPair<I-1,NR>::run(); else RAll<I-1>::run (i); } };
template <> struct RAll<LO> { static void run (int) {} };
MC_SCENARIO (ratios1, HI-LO) { RAll<HI>::run (shard+LO); mc_state (shard+LO); }
MC_SCENARIO (prefixes, 1)
{
    static const struct { intmax_t n, d; int e; } P[] = { {atto::num,atto::den,-18},{femto::num,femto::den,-15},{pico::num,pico::den,-12},{nano::num,nano::den,-9},{micro::num,micro::den,-6},{milli::num,milli::den,-3},{centi::num,centi::den,-2},{deci::num,deci::den,-1},
	{deca::num,deca::den,1},{hecto::num,hecto::den,2},{kilo::num,kilo::den,3},{mega::num,mega::den,6},{giga::num,giga::den,9},{tera::num,tera::den,12},{peta::num,peta::den,15},{exa::num,exa::den,18} };
    for (int i = 0; i < 16; ++i) { intmax_t p = 1; for (int k = 0; k < (P[i].e < 0 ? -P[i].e : P[i].e); ++k) p *= 10; MC_CHECK (P[i].e < 0 ? (P[i].n == 1 && P[i].d == p) : (P[i].n == p && P[i].d == 1), "prefix %d", P[i].e); mc_step(); }
    static const struct { intmax_t n, d; } U[] = { {nanoseconds::period::num,nanoseconds::period::den},{microseconds::period::num,microseconds::period::den},{milliseconds::period::num,milliseconds::period::den},{seconds::period::num,seconds::period::den},{minutes::period::num,minutes::period::den},{hours::period::num,hours::period::den},{days::period::num,days::period::den},{weeks::period::num,weeks::period::den},{years::period::num,years::period::den},{months::period::num,months::period::den},{centuries::period::num,centuries::period::den},{millenia::period::num,millenia::period::den} };
    static const struct { intmax_t n, d; } X[] = { {1,1000000000},{1,1000000},{1,1000},{1,1},{60,1},{3600,1},{86400,1},{604800,1},{31557600,1},{2629800,1},{3155760000,1},{31557600000,1} };
    for (int i = 0; i < 12; ++i) { MC_CHECK (U[i].n == X[i].n && U[i].d == X[i].d, "standard duration %d has the period %lld/%lld", i, (long long) U[i].n, (long long) U[i].d); mc_step(); }
    // large ones that cancel
    { typedef ratio_multiply<atto,exa> M; MC_CHECK (M::num == 1 && M::den == 1, "atto * exa"); typedef ratio_divide<exa,exa> D; MC_CHECK (D::num == 1 && D::den == 1, "exa / exa"); typedef ratio_add<atto,atto> A; MC_CHECK (A::num == 1 && A::den == 500000000000000000, "atto + atto");
      typedef ratio<9223372036854775807,9223372036854775807> W; MC_CHECK (W::num == 1 && W::den == 1, "max/max"); typedef ratio_multiply<ratio<9223372036854775807,2>,ratio<2,9223372036854775807> > X2; MC_CHECK (X2::num == 1 && X2::den == 1, "max/2 * 2/max");
      typedef ratio_subtract<ratio<1,3>,ratio<1,3> > Z; MC_CHECK (Z::num == 0 && Z::den == 1, "1/3 - 1/3"); mc_steps (6); }
}
