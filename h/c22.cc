// C22: conversions, one operand operations, registers, and tuples of objects.
#include "u.h"
#include "c22.h"
//{{{ one operand, conversions
template <typename C, typename T, size_t N> static void unary (void)
{
    const Vals<T>& V = vals<T>();
    for (int p = 0; p < V.n; ++p) for (int f = 0; f < 6; ++f) {
	static const char* const fn[] = { "precip", "psqrt", "precipsqrt", "psin", "pcos", "ptan" };
	Fenced<C> a; C x;
	for (size_t l = 0; l < N; ++l) { T v = V.v[(p+l)%V.n]; if (f < 3 && v == 0) v = 4; if (f && v < 0 && f < 3) v = -v; x[l] = a.c[l] = v; }
	switch (f) { case 0: simd::precip (a.c); break; case 1: simd::psqrt (a.c); break; case 2: simd::precipsqrt (a.c); break; case 3: simd::psin (a.c); break; case 4: simd::pcos (a.c); break; case 5: simd::ptan (a.c); break; }
	for (size_t l = 0; l < N; ++l) {
	    volatile T v = x[l]; T e = 0, s = 0;
	    switch (f) { case 0: e = 1/v; s = simd::srecip (T(v)); break; case 1: e = T(sqrt (v)); s = simd::ssqrt (T(v)); break; case 2: e = 1/T(sqrt (v)); s = simd::srecipsqrt (T(v)); break;
		case 3: e = T(sin (v)); s = simd::ssin (T(v)); break; case 4: e = T(cos (v)); s = simd::scos (T(v)); break; case 5: e = T(tan (v)); s = simd::stan (T(v)); break; }
	    MC_CHECK (same (T(a.c[l]), e), "%s of %s[%zu]: of %.9g is %.9g, expected %.9g", fn[f], tn<T>(), N, D (x[l]), D (a.c[l]), D (e));
	    MC_CHECK (same (s, e), "s%s of %s: of %.9g is %.9g, expected %.9g", fn[f]+1, tn<T>(), D (x[l]), D (s), D (e));
	}
	a.check (fn[f]); mc_eval();
    }
}
static double round2even (double v) { double f = floor (v), d = v-f; return d < .5 ? f : d > .5 ? f+1 : fmod (f, 2) == 0 ? f : f+1; }
template <typename S, typename T, size_t N> static void convert (bool rnd)
{
    static const double X[] = { 0, 1, -1, 0.25, -0.25, 0.5, -0.5, 0.75, 1.5, -1.5, 2.5, -2.5, 3.5, 4.5, 100.75, -100.75, 127, -128, 255, 32767, -32768, 65535, 8388607.5, 16777216, 16777217, -16777217, 2147483520., 2147483647., -2147483648., 3e9, 4294967040., 4294967295., 1e12+1, -1e12-1, 9007199254740991. };
    mc_note ("%s of %s[%zu] to %s", rnd ? "pround" : "conversion", tn<S>(), N, tn<T>());
    S v[64]; int n = 0;
    for (double x : X) { S s; if (TI<S>::FLT) s = S(x); else { double y = trunc (x); if (!TI<S>::SGN && y < 0) continue; if (y < ldexp (-1, TI<S>::BITS-TI<S>::SGN) || y >= ldexp (1, TI<S>::BITS-TI<S>::SGN)) continue; s = S(y); }
	double q = rnd ? round2even (double (s)) : trunc (double (s));
	if (!TI<T>::FLT && (q < (TI<T>::SGN ? ldexp (-1, TI<T>::BITS-1) : 0) || q >= ldexp (1, TI<T>::BITS-TI<T>::SGN))) continue;	// does not fit
	if (!TI<T>::SGN && double (s) < 0) continue;
	v[n++] = s; }
    for (int p = 0; p < n; ++p) {
	Fenced<tuple<N,S>> a; Fenced<tuple<N,T>> b;
	for (size_t l = 0; l < N; ++l) { a.c[l] = v[(p+l*5)%n]; b.c[l] = T(9); }
	if (rnd) simd::pround (a.c, b.c); else b.c = a.c;
	Fenced<tuple<N,T>> c (a.c);
	for (size_t l = 0; l < N; ++l) {
	    T e = rnd ? T(round2even (double (a.c[l]))) : T(S(a.c[l]));
	    MC_CHECK (same (T(b.c[l]), e), "%s of %s[%zu] to %s: %.17g is %.17g, expected %.17g", rnd ? "pround" : "=", tn<S>(), N, tn<T>(), D (a.c[l]), D (b.c[l]), D (e));
	    T ce = T(S(a.c[l])); if (!rnd) MC_CHECK (same (T(c.c[l]), ce), "constructor of %s[%zu] from %s: %.17g is %.17g", tn<T>(), N, tn<S>(), D (a.c[l]), D (c.c[l]));
	    if (rnd && sizeof(T) == 4 && TI<T>::SGN && !TI<T>::FLT) MC_CHECK (simd::sround (S(a.c[l])) == int32_t (e), "sround of %s: %.17g is %d, expected %d", tn<S>(), D (a.c[l]), simd::sround (S(a.c[l])), int (e));
	    MC_CHECK (same (S(a.c[l]), v[(p+l*5)%n]), "conversion changes its source");
	}
	a.check ("conversion"); b.check ("conversion"); c.check ("conversion"); mc_eval();
    }
}
template <typename S, size_t N> static void cvts (bool r)
{
    switch (mc_choose (8)) { case 0: convert<S,int32_t,N> (r); break; case 1: convert<S,uint32_t,N> (r); break; case 2: convert<S,float,N> (r); break; case 3: convert<S,double,N> (r); break;
	case 4: convert<S,int64_t,N> (r); break; case 5: convert<S,int16_t,N> (r); break; case 6: convert<S,uint16_t,N> (r); break; case 7: convert<S,uint8_t,N> (r); break; }
}
template <size_t N> static void cvtn (bool r)
{
    switch (mc_choose (7)) { case 0: cvts<float,N> (r); break; case 1: cvts<double,N> (r); break; case 2: cvts<int32_t,N> (r); break; case 3: cvts<uint32_t,N> (r); break; case 4: cvts<int16_t,N> (r); break; case 5: cvts<uint16_t,N> (r); break; case 6: cvts<int64_t,N> (r); break; }
}
MC_SCENARIO (conversions, 2)
{
    bool r = mc_choose (2);
    switch (mc_choose (5)) { case 0: cvtn<4> (r); break; case 1: cvtn<2> (r); break; case 2: cvtn<1> (r); break; case 3: cvtn<3> (r); break; case 4: cvtn<8> (r); break; }
}
MC_SCENARIO (unaries, 1)
{
    switch (mc_choose (6)) { case 0: unary<tuple<4,float>,float,4>(); break; case 1: unary<tuple<2,float>,float,2>(); break; case 2: unary<tuple<2,double>,double,2>(); break; case 3: unary<tuple<3,double>,double,3>(); break; case 4: unary<array<float,4>,float,4>(); break; case 5: unary<array<double,1>,double,1>(); break; }
}
//}}}
//{{{ nothing else changes: values the caller keeps in registers
#define LIVE(stmt) do { \
    volatile float s[12]; volatile long double q[6]; for (int i = 0; i < 12; ++i) s[i] = i*3+1; for (int i = 0; i < 6; ++i) q[i] = i*5+2; \
    float f0=s[0],f1=s[1],f2=s[2],f3=s[3],f4=s[4],f5=s[5],f6=s[6],f7=s[7]; long double l0=q[0],l1=q[1],l2=q[2],l3=q[3],l4=q[4],l5=q[5]; \
    stmt; \
    s[0]=f0*2;s[1]=f1*2;s[2]=f2*2;s[3]=f3*2;s[4]=f4*2;s[5]=f5*2;s[6]=f6*2;s[7]=f7*2; q[0]=l0*2;q[1]=l1*2;q[2]=l2*2;q[3]=l3*2;q[4]=l4*2;q[5]=l5*2; \
    for (int i = 0; i < 8; ++i) MC_CHECK (s[i] == (i*3+1)*2, "%s: a float of the caller became %g, expected %d", #stmt, D (s[i]/2), i*3+1); \
    for (int i = 0; i < 6; ++i) MC_CHECK (q[i] == (i*5+2)*2, "%s: a long double of the caller became %g, expected %d", #stmt, D ((double) q[i]/2), i*5+2); \
    mc_eval(); } while (0)
template <size_t N, typename T> static NOINL void live (void)
{
    tuple<N,T> a (T(3)), b (T(9)), r; mc_note ("tuple<%zu,%s>", N, tn<T>());
    LIVE (simd::padd (a, b)); LIVE (simd::psub (a, b)); LIVE (simd::pmul (a, b)); LIVE (simd::pdiv (a, b)); LIVE (simd::pmin (a, b)); LIVE (simd::pmax (a, b)); LIVE (simd::pavg (a, b));
    LIVE (simd::passign (a, b)); LIVE (a += b); LIVE (a -= b); LIVE (a = a*b); LIVE (b = a/b); LIVE (a.swap (b)); LIVE (r = a); LIVE (a = (tuple<N,T>()));
    LIVE (simd::passign (tuple<N,T> (T(1)), a)); LIVE (simd::ipassign (a.begin(), b));
    for (size_t i = 0; i < N; ++i) MC_CHECK (a[i] == T(1) && b[i] == T(1), "passign or ipassign of tuple<%zu,%s> gives %g and %g", N, tn<T>(), D (a[i]), D (b[i]));
}
MC_SCENARIO (registers, 1)
{
    switch (mc_choose (13)) {
	case 0: live<4,float>(); break; case 1: live<2,float>(); break; case 2: live<4,int32_t>(); break; case 3: live<4,uint32_t>(); break; case 4: live<2,int32_t>(); break; case 5: live<4,int16_t>(); break;
	case 6: live<8,uint8_t>(); break; case 7: live<8,int8_t>(); break; case 8: live<16,float>(); break; case 9: live<2,uint16_t>(); break;
	case 10: { matrix<4,4,float> m, n; mc_note ("identity of matrices"); LIVE (load_identity (m)); LIVE (n = m*m); LIVE (m = n); matrix<3,3,float> k; LIVE (load_identity (k)); } break;
	case 11: { tuple<4,float> f (1.5f); tuple<4,int32_t> i; mc_note ("rounding"); LIVE (simd::pround (f, i)); LIVE (simd::pround (i, f)); for (int k = 0; k < 4; ++k) MC_CHECK (i[k] == 2 && f[k] == 2, "pround"); } break;
	case 12: { tuple<2,double> f (1.5); tuple<2,int32_t> i; mc_note ("rounding"); LIVE (simd::pround (f, i)); LIVE (simd::pround (i, f)); LIVE (simd::psqrt (f)); for (int k = 0; k < 2; ++k) MC_CHECK (i[k] == 2 && f[k] == sqrt (2), "pround"); } break;
    }
}
//}}}
MC_SCENARIO (elements, 1)	// elements that are objects
{
    tuple<3,E> a, b; E z; int v[3], u[3];
    for (int i = 0; i < 3; ++i) { a[i] = E (v[i] = mc_choose (3)); b[i] = E (u[i] = 5+i); }
    switch (mc_choose (6)) {
	case 0: a.swap (b); swap_ranges (v, v+3, u); break; case 1: b = a; memcpy (u, v, sizeof(u)); break; case 2: { tuple<3,E> c (a); a = b; b = c; swap_ranges (v, v+3, u); } break;
	case 3: { tuple<3,E> c (E (9)); a = c; fill (v, v+3, 9); } break; case 4: { tuple<3,E> c (E(1), E(2)); a = c; v[0] = 1; v[1] = v[2] = 2; } break; case 5: { array<E,3> p, q; for (int i = 0; i < 3; ++i) { p[i] = a[i]; q[i] = b[i]; } p.swap (q); for (int i = 0; i < 3; ++i) { a[i] = p[i]; b[i] = q[i]; } swap_ranges (v, v+3, u); } break;
    }
    for (int i = 0; i < 3; ++i) MC_CHECK (a[i].v == v[i] && b[i].v == u[i], "element %d is %d and %d, expected %d and %d", i, a[i].v, b[i].v, v[i], u[i]);
    mc_step();
}
