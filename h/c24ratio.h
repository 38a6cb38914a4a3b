// C24: ratios.
#include "c24.h"

//--- ratios -----------------------------------------------------------------
static i128 igcd (i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a%b; a = b; b = t; } return a; }
static void rcheck (const char* op, i128 n, i128 d, i128 gn, i128 gd)
{
    if (d < 0) n = -n, d = -d;
    i128 g = igcd (n, d);
    MC_CHECK (gn*g == n && gd*g == d, "%s is %s/%s instead of %s/%s", op, s128(gn), s128(gd), s128(n/g), s128(d/g));
    mc_step();
}
#ifdef MORE_RATIOS	// denominators that share factors of all kinds
static constexpr intmax_t RN[] = { 1, 5, -7 }, RD[] = { 8, 9, 12, -15, 16, 18, 20, 24, 30, 60, 1000, 1024, 1000000 };
enum { NRN = 3, NRD = 13, NR = NRN*NRD };
#else
static constexpr intmax_t RN[] = { 0, 1, -1, 2, 3, -4, 6, -10, 1000003, -6000018 }, RD[] = { 1, 2, -3, 4, 6, -10 };
enum { NRN = 10, NRD = 6, NR = NRN*NRD };
#endif
template <int I> struct Rat : public ratio<RN[I%NRN],RD[I/NRN]> { static constexpr intmax_t n = RN[I%NRN], d = RD[I/NRN]; };
template <int I, int J, bool Z> struct Div { static void run (void) { typedef ratio_divide<Rat<I>,Rat<J> > Q; rcheck ("/", (i128) Rat<I>::n*Rat<J>::d, (i128) Rat<I>::d*Rat<J>::n, Q::num, Q::den); } };
template <int I, int J> struct Div<I,J,true> { static void run (void) {} };
template <int I, int J> struct RPair { static void run (void) {
    RPair<I,J-1>::run();
    typedef Rat<I> A; typedef Rat<J-1> B;
    mc_at ("%lld/%lld and %lld/%lld", (long long) A::n, (long long) A::d, (long long) B::n, (long long) B::d);
    i128 an = A::n, ad = A::d, bn = B::n, bd = B::d;
    typedef ratio_add<A,B> S; rcheck ("+", an*bd+bn*ad, ad*bd, S::num, S::den);
    typedef ratio_subtract<A,B> D; rcheck ("-", an*bd-bn*ad, ad*bd, D::num, D::den);
    typedef ratio_multiply<A,B> M; rcheck ("*", an*bn, ad*bd, M::num, M::den);
    Div<I,J-1,B::n == 0>::run();
    int c = an*bd*(ad*bd < 0 ? -1 : 1) < bn*ad*(ad*bd < 0 ? -1 : 1) ? -1 : an*bd != bn*ad;
    MC_CHECK ((ratio_less<A,B>::value == (c < 0) && ratio_greater<A,B>::value == (c > 0) && ratio_equal<A,B>::value == !c && ratio_not_equal<A,B>::value == !!c
	&& ratio_less_equal<A,B>::value == (c <= 0) && ratio_greater_equal<A,B>::value == (c >= 0)), "%lld/%lld and %lld/%lld compare wrong", (long long) A::n, (long long) A::d, (long long) B::n, (long long) B::d);
} };
template <int I> struct RPair<I,0> { static void run (void) { rcheck ("itself", Rat<I>::n, Rat<I>::d, Rat<I>::num, Rat<I>::den); ostringstream os; ratio<Rat<I>::n,Rat<I>::d>().text_write (os); char b[64]; i128 g = igcd (Rat<I>::n, Rat<I>::d); int sg = Rat<I>::d < 0 ? -1 : 1; sprintf (b, "%lld/%lld", (long long)(Rat<I>::n/g*sg), (long long)(Rat<I>::d/g*sg)); text (b, os.str()); } };
