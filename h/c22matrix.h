// C22: matrices, part PART of the sizes.
#include "c22.h"
//{{{ matrices
template <size_t X, size_t Y, typename T> static void mshow (char* o, const T* m) { for (size_t i = 0; i < X*Y; ++i) o += sprintf (o, "%g ", D (m[i])); }
template <size_t X, size_t Y, typename T> static void mcmp (const matrix<X,Y,T>& c, const T* m, const char* w)
{
    char s[512], t[512];
    for (size_t y = 0; y < Y; ++y) for (size_t x = 0; x < X; ++x) if (!same (T(c[y][x]), m[y*X+x])) { mshow<X,Y> (s, c.begin()); mshow<X,Y> (t, m); mc_fail ("%s of a %zu by %zu matrix of %s: element (%zu,%zu) is %g, expected %g; is %s, expected %s", w, X, Y, tn<T>(), x, y, D (c[y][x]), D (m[y*X+x]), s, t); }
    MC_CHECK (c.columns() == X && c.rows() == Y && c.size() == X*Y, "%s: dimensions", w);
    for (size_t y = 0; y < Y; ++y) { typename matrix<X,Y,T>::row_type r (c.row (y)); MC_CHECK (r.size() == X, "row size"); for (size_t x = 0; x < X; ++x) MC_CHECK (same (T(r[x]), m[y*X+x]) && c.at (y)+x == &c[y][x], "%s: row %zu", w, y); }
    for (size_t x = 0; x < X; ++x) { typename matrix<X,Y,T>::column_type r (c.column (x)); MC_CHECK (r.size() == Y, "column size"); for (size_t y = 0; y < Y; ++y) MC_CHECK (same (T(r[y]), m[y*X+x]), "%s: column %zu", w, x); }
}
template <size_t X, size_t Y, typename T> static void mset (matrix<X,Y,T>& c, T* m, int k)	// k-th filling
{
    const int n = X*Y;
    for (int i = 0; i < n; ++i) m[i] = T(0);
    if (k < n) m[k] = T(3); else if (k < 2*n) for (int i = 0; i < n; ++i) m[i] = T((i+k*3)%7+1); else if (k < 3*n) { for (int i = 0; i < n; ++i) m[i] = T(1); m[k-2*n] = T(5); } else for (int i = 0; i < n; ++i) m[i] = T(i*i%11+1);
    for (int i = 0; i < n; ++i) c.begin()[i] = m[i];
}
template <size_t X, size_t Y, typename T> static void product (int k)
{
    mc_note ("%zu by %zu matrix of %s", X, Y, tn<T>());
    Fenced<matrix<X,Y,T>> a; Fenced<matrix<Y,X,T>> b; T m[X*Y], n[X*Y], r[Y*Y]; mset (a.c, m, k);
    for (size_t j = 0; j <= 3*X*Y; ++j) {
	mset (b.c, n, j);
	Fenced<matrix<Y,Y,T>> p (a.c*b.c);
	for (size_t y = 0; y < Y; ++y) for (size_t x = 0; x < Y; ++x) { T s (0); for (size_t i = 0; i < X; ++i) s += m[y*X+i]*n[i*Y+x]; r[y*Y+x] = s; }
	mcmp (p.c, r, "product"); mcmp (a.c, m, "operand"); mcmp (b.c, n, "operand"); p.check ("product"); mc_eval();
	T v[X]; tuple<X,T> t; for (size_t i = 0; i < X; ++i) t[i] = v[i] = T((i*5+k)%6);
	Fenced<tuple<Y,T>> q (t*b.c);
	for (size_t x = 0; x < Y; ++x) { T s (0); for (size_t i = 0; i < X; ++i) s += v[i]*n[i*Y+x]; MC_CHECK (same (T(q.c[x]), s), "vector by a %zu by %zu matrix of %s: element %zu is %g, expected %g", Y, X, tn<T>(), x, D (q.c[x]), D (s)); }
	q.check ("vector product");
    }
    mc_steps (2*(3*X*Y+1));
}
template <size_t N, typename T> static void tpose (const int k) { matrix<N,N,T> a; T m[N*N], r[N*N]; mset (a, m, k); transpose (a); for (size_t y = 0; y < N; ++y) for (size_t x = 0; x < N; ++x) r[y*N+x] = m[x*N+y]; mcmp (a, r, "transpose"); matrix<N,N,T> i; load_identity (i); mcmp (a*i, r, "product by identity"); mcmp (i*a, r, "product of identity"); }
template <size_t X, size_t Y, typename T> static void identity_ (void)
{
    mc_note ("identity %zu by %zu of %s", X, Y, tn<T>()); T m[X*Y]; for (size_t i = 0; i < X*Y; ++i) m[i] = T(i/X == i%X);
    Fenced<matrix<X,Y,T>> a, b, c; for (size_t i = 0; i < X*Y; ++i) a.c.begin()[i] = b.c.begin()[i] = T(9);
    load_identity (a.c); load_identity (b.c); load_identity (c.c); mcmp (a.c, m, "identity"); mcmp (b.c, m, "second identity"); mcmp (c.c, m, "third identity"); a.check ("identity"); b.check ("identity"); c.check ("identity");
    volatile float one = 1; float f = one; matrix<X,Y,T> d; d *= T(f); load_identity (d); volatile float o2 = 1.0f; mcmp (d, m, "identity"); MC_CHECK (f == one && o2 == 1, "identity changes a register");
    matrix<X,Y,T> z; for (size_t i = 0; i < X*Y; ++i) MC_CHECK (z.begin()[i] == T(0), "new matrix is not 0"); mc_eval();
}
template <size_t X, size_t Y, typename T> static void mhist (void)
{
    mc_note ("matrix<%zu,%zu,%s>", X, Y, tn<T>()); Fenced<matrix<X,Y,T>> fa, fb; matrix<X,Y,T> &a = fa.c, &b = fb.c; const int n = X*Y; T m[n], k[n], r[n]; mset (a, m, 3*n); mset (b, k, n+2);
    for (int s = 0; s < MC_TIER (2,3); ++s) {
	const char* w = "?";
	switch (mc_choose (9)) {
	    case 0: { int o = mc_choose (4); T v = small<T> (mc_choose (5)), q[n]; for (auto& x : q) x = v; if (!all (o, m, q, r, n)) return; w = "op= scalar"; switch (o) { case 0: a += v; break; case 1: a -= v; break; case 2: a *= v; break; case 3: a /= v; break; } memcpy (m, r, sizeof(m)); } break;
	    case 1: { int o = mc_choose (4); T v = small<T> (mc_choose (5)), q[n]; for (auto& x : q) x = v; if (!all (o, m, q, r, n)) return; w = "op scalar"; switch (o) { case 0: b = a + v; break; case 1: b = a - v; break; case 2: b = a * v; break; case 3: b = a / v; break; } memcpy (k, r, sizeof(m)); } break;
	    case 2: { int o = mc_choose (4); if (!all (o, m, k, r, n)) return; w = "op= matrix"; switch (o) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a /= b; break; } memcpy (m, r, sizeof(m)); } break;
	    case 3: w = "="; a = b; memcpy (m, k, sizeof(m)); break;
	    case 4: { w = "swap"; a.swap (b); for (int i = 0; i < n; ++i) { T t = m[i]; m[i] = k[i]; k[i] = t; } } break;
	    case 5: { w = "copy"; matrix<X,Y,T> c (a); b = c; memcpy (k, m, sizeof(m)); } break;
	    case 6: { w = "element"; int i = mc_choose (n); a[i/X][i%X] = m[i] = T(4); b.at (i/X)[i%X] = k[i] = T(6); } break;
	    case 7: { w = "other type"; matrix<X,Y,double> d; for (int i = 0; i < n; ++i) d.begin()[i] = i+1; a = d; for (int i = 0; i < n; ++i) m[i] = T(i+1); matrix<X,Y,T> e (d); b = e; memcpy (k, m, sizeof(m)); } break;
	    case 8: w = "identity"; load_identity (a); for (int i = 0; i < n; ++i) m[i] = T(i/X == i%X); break;
	}
	mc_note ("%s", w); mc_step(); mcmp (a, m, w); mcmp (b, k, w); fa.check (w); fb.check (w); bool eq = true; for (int i = 0; i < n; ++i) eq &= m[i] == k[i]; MC_CHECK ((a == b) == eq, "matrix =="); mc_state (mc_hash (X*8+Y, m, sizeof(m)));
    }
}
template <size_t X, size_t Y> static void xy (int what)
{
    const int k = what < 2 ? mc_choose (3*X*Y+1) : 0;
    switch (what) { case 0: product<X,Y,int> (k); break; case 1: product<X,Y,float> (k); break; case 2: identity_<X,Y,int>(); identity_<X,Y,float>(); identity_<X,Y,double>(); break; case 3: mhist<X,Y,int>(); break; case 4: mhist<X,Y,float>(); break; }
}
template <size_t X> static void xx (int what, int y) { switch (y) { case 0: xy<X,1> (what); break; case 1: xy<X,2> (what); break; case 2: xy<X,3> (what); break; case 3: xy<X,4> (what); break; case 4: xy<X,5> (what); break; } }
#define MS(n,p) MC_SCENARIO (matrices##n, 8) { int what = mc_choose (5), y = mc_choose (5); xx<n> (what, y); }
#if PART == 1
MS (1, 1) MS (2, 1)
#elif PART == 2
MS (3, 2)
#elif PART == 3
MS (4, 3)
#elif PART == 4
MS (5, 4)
MC_SCENARIO (squares, 1)
{
    switch (mc_choose (6)) { case 0: tpose<1,int> (mc_choose (4)); break; case 1: tpose<2,int> (mc_choose (13)); break; case 2: tpose<3,float> (mc_choose (28)); break; case 3: tpose<4,float> (mc_choose (49)); break; case 4: tpose<4,int> (mc_choose (49)); break; case 5: tpose<5,double> (mc_choose (76)); break; }
    mc_step();
}
#endif
