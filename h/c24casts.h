// C24: casts between all pairs of periods.
#include "c24.h"
//--- type lists -------------------------------------------------------------
template <typename... T> struct L {};
typedef ratio<nanoseconds::period::num,nanoseconds::period::den> rns;
typedef L<nano, micro, milli, centi, ratio<1,3>, ratio<1>, ratio<3,2>, ratio<7,5>, ratio<60>, ratio<3600>, ratio<86400>, ratio<604800>, months::period, years::period, centuries::period, millenia::period> Periods;
enum { NPER = 16 };
template <int I, typename T, typename... R> struct Nth { typedef typename Nth<I-1,R...>::type type; };
template <typename T, typename... R> struct Nth<0,T,R...> { typedef T type; };
template <int I, typename X> struct At; template <int I, typename... T> struct At<I,L<T...> > { typedef typename Nth<I,T...>::type type; };

//--- casts ------------------------------------------------------------------
template <typename To, typename From> static void cast_one (const From& f, i128 n, i128 d, const char* how, const To& t)	// f is n/d ticks
{
    typedef typename From::period P; typedef typename To::period Q; typedef typename To::rep R;
    i128 num = n * P::num * Q::den, den = d * P::den * Q::num;
    if (is_floating_point<R>::value) {
	long double e = (long double) num / (long double) den, g = (long double) t.count(), tol = (sizeof(R) == 4 ? 4e-7L : 1e-15L) * (e < 0 ? -e : e);
	MC_CHECK (g-e <= tol && e-g <= tol, "%s of %s/%s ticks of %lld/%lld s to %s is %.20Lg instead of %.20Lg", how, s128(n), s128(d), (long long) P::num, (long long) P::den, dname<To>(), g, e);
    } else {
	i128 e = rnd0 (num, den), g = (i128) t.count();
	MC_CHECK (e == g, "%s of %s/%s ticks of %lld/%lld s to %s is %s instead of %s", how, s128(n), s128(d), (long long) P::num, (long long) P::den, dname<To>(), s128(g), s128(e));
    }
}
// is To implicitly constructible: then it has to be the same
template <typename To, typename From, bool Ok> struct Implicit { static void check (const From& f, i128 n, i128 d) { To t (f); cast_one<To> (f, n, d, "conversion", t); To u = f; MC_CHECK (!(u < t) && u == t, "conversions differ"); } };
template <typename To, typename From> struct Implicit<To,From,false> { static void check (const From&, i128, i128) {} };
template <typename To, typename From> static void cast_pair (void)
{
    typedef typename From::rep R; typedef typename To::rep S; typedef typename From::period P; typedef typename To::period Q;
    typedef typename ratio_divide<P,Q>::type C;
    i128 num = (i128) P::num*Q::den, den = (i128) P::den*Q::num;	// with their common factors
    { i128 a = num, b = den; while (b) { i128 t = a%b; a = b; b = t; } num /= a; den /= a; }
    MC_CHECK (C::num == num && C::den == den, "ratio of %lld/%lld and %lld/%lld is %lld/%lld", (long long) P::num, (long long) P::den, (long long) Q::num, (long long) Q::den, (long long) C::num, (long long) C::den);
    const int dn = is_floating_point<R>::value ? 8 : 1;
    for (int i = 0; i < NV; ++i) for (int fr = 0; fr < dn; ++fr) {
	i128 n = (i128) V[i]*dn + fr;
	if (dn == 1 && !fits<R> (V[i])) continue;
	if (dn > 1 && (n > (1ll<<(sizeof(R) == 4 ? 22 : 40)) || n < -(1ll<<(sizeof(R) == 4 ? 22 : 40)))) continue;
	i128 prod = n*num/dn;
	if (!fits<int64_t> (prod) || prod < -numeric_limits<int64_t>::max()) continue;	// the product has to be representable
	if (dn > 1 && !is_floating_point<S>::value && (n*num > (1ll<<(sizeof(R) == 4 ? 24 : 52)) || n*num < -(1ll<<(sizeof(R) == 4 ? 24 : 52)))) continue;	// and exact
	i128 res = rnd0 (n*num, den*dn);
	if (!is_floating_point<S>::value && !fits<S> (res)) continue;
	From f (R (V[i]) + R(fr)/R(dn));
	To t = duration_cast<To> (f);
	cast_one<To> (f, n, dn, "duration_cast", t);
	Implicit<To,From,is_convertible<From,To>::value>::check (f, n, dn);
	// through time points
	typedef time_point<system_clock,From> TF; typedef time_point<system_clock,To> TT;
	TF a (f); TT b = time_point_cast<To> (a); cast_one<To> (f, n, dn, "time_point_cast", b.time_since_epoch());
	mc_step();
    }
    mc_state (mc_mix (mc_mix (P::num, P::den), mc_mix (Q::num, Q::den)));
}
// a pair of periods whose ratio does not overflow
template <typename P, typename Q> struct RatioFits { static constexpr i128 g1 = gcd<intmax_t>(P::num,Q::num), g2 = gcd<intmax_t>(P::den,Q::den);
    static constexpr bool value = (i128)(P::num/g1)*(Q::den/g2) < ((i128)1<<63) && (i128)(P::den/g2)*(Q::num/g1) < ((i128)1<<63); };
template <typename P, typename Q, typename R, typename S, bool Ok> struct CastIf { static void run (void) { cast_pair<duration<S,Q>,duration<R,P> >(); } };
template <typename P, typename Q, typename R, typename S> struct CastIf<P,Q,R,S,false> { static void run (void) {} };
template <typename P, typename R, typename S, int I> struct CastTo { static void run (void) {
    typedef typename At<I-1,Periods>::type Q;
    CastTo<P,R,S,I-1>::run(); CastIf<P,Q,R,S,RatioFits<P,Q>::value>::run();
} };
template <typename P, typename R, typename S> struct CastTo<P,R,S,0> { static void run (void) {} };
template <typename R, typename S, int I> struct CastFrom { static void run (int i) { if (i == I-1) CastTo<typename At<I-1,Periods>::type,R,S,NPER>::run(); else CastFrom<R,S,I-1>::run (i); } };
template <typename R, typename S> struct CastFrom<R,S,0> { static void run (int) {} };
#define CAST(nm,R,S) MC_SCENARIO (cast_##nm, NPER) { CastFrom<R,S,NPER>::run (shard); if (mc_want_sample()) mc_sample ("casts of durations, " #R " to " #S ", period %d to all", shard); }
