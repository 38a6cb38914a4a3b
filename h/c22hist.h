// C22: histories of tuples and arrays, part PART of the types.
#include "c22.h"
//{{{ histories of tuples and arrays
template <size_t N, typename T> static bool inlist (int o, T x, T y, T& r) { return ref (o, x, y, r); }
template <typename C, size_t N, typename T> static void cmp (const C& c, const T* m, const char* w)
{
    MC_CHECK (c.size() == N && c.max_size() == N && size_t (c.end()-c.begin()) == N && !c.empty(), "%s[%zu]: size", tn<T>(), N);
    for (size_t i = 0; i < N; ++i) {
	MC_CHECK (same (T(c[i]), m[i]), "%s[%zu] after %s: element %zu is %.9g, expected %.9g", tn<T>(), N, w, i, D (c[i]), D (m[i]));
	MC_CHECK (same (T(c.at (i)), m[i]) && same (T(c.begin()[i]), m[i]) && &c[i] == c.begin()+i, "%s[%zu] after %s: at or begin", tn<T>(), N, w);
    }
}
// what the two kinds have of their own
template <size_t N, typename T> static void own (tuple<N,T>& c, T* m, T* z)
{
    static const T x = T(5), y = T(-3), u = T(8), w = T(1); T e[4] = { x, y, u, w }; int k = mc_choose (12);
    switch (k) {
	case 0: mc_note ("tuple()"); c = tuple<N,T>(); for (size_t i = 0; i < N; ++i) m[i] = T(0); break;
	case 1: mc_note ("tuple (x)"); c = tuple<N,T> (x); for (size_t i = 0; i < N; ++i) m[i] = x; break;
	case 2: if (N < 2) return; mc_note ("tuple (x,y)"); c = tuple<N,T> (x, y); for (size_t i = 0; i < N; ++i) m[i] = e[i<1?i:1]; break;
	case 3: if (N < 3) return; mc_note ("tuple (x,y,u)"); c = tuple<(N<3?3:N),T> (x, y, u).begin(); for (size_t i = 0; i < N; ++i) m[i] = e[i<2?i:2]; break;
	case 4: if (N < 4) return; mc_note ("tuple (x,y,u,w)"); c = tuple<(N<4?4:N),T> (x, y, u, w).begin(); for (size_t i = 0; i < N; ++i) m[i] = e[i<3?i:3]; break;
	case 5: { mc_note ("tuple of a pointer"); T s[N+8]; for (size_t i = 0; i < N+8; ++i) s[i] = T(i+2); c = tuple<N,T> ((const T*) s); memcpy (m, s, N*sizeof(T)); } break;
	case 6: { mc_note ("copy"); tuple<N,T> d (c); c = d; } break;
	case 7: mc_note ("= {3 elements}"); c = {x, y, u}; for (size_t i = 0; i < N; ++i) m[i] = i < 3 ? e[i] : T(0); break;
	case 8: { mc_note ("{1 element}"); tuple<N,T> d ({y}); c = d; for (size_t i = 0; i < N; ++i) m[i] = i ? T(0) : y; } break;
	case 9: mc_note ("= {}"); c.assign (std::initializer_list<T>()); for (size_t i = 0; i < N; ++i) m[i] = T(0); break;
	case 10: mc_note ("= itself"); c = *&c; break;
	case 11: { mc_note ("fill"); fill (c, x); for (size_t i = 0; i < N; ++i) m[i] = x; } break;
    }
}
template <size_t N, typename T> static void own (array<T,N>& c, T* m, T* z)
{
    switch (mc_choose (5)) {
	case 4: { int o = mc_choose (4); T q[N], r[N]; for (size_t i = 0; i < N; ++i) q[i] = i < 2 ? T(i+2) : T(o > 1); if (!all (o, m, q, r, N)) return; mc_note ("c = c %c {2, 3}", "+-*/"[o]);
	    switch (o) { case 0: c = c.operator+ ({T(2),T(3)}); break; case 1: c = c.operator- ({T(2),T(3)}); break; case 2: c = c.operator* ({T(2),T(3)}); break; case 3: c = c.operator/ ({T(2),T(3)}); break; } memcpy (m, r, sizeof(r)); } break;
	case 0: mc_note ("fill"); c.fill (T(5)); for (size_t i = 0; i < N; ++i) m[i] = T(5); break;
	case 1: { mc_note ("= {7}"); array<T,N> d = {{ T(7) }}; c = d; for (size_t i = 0; i < N; ++i) m[i] = i ? T(0) : T(7); } break;
	case 2: { mc_note ("copy"); array<T,N> d (c); c = d; } break;
	case 3: mc_note ("= itself"); c = *&c; break;
    }
}
template <typename C, size_t N, typename T, typename C2, typename T2> static void hist (int depth)
{
    Fenced<C> fa, fb; C &a = fa.c, &b = fb.c; C2 d; T m[N], n[N], r[N]; T2 k[N];
    for (size_t i = 0; i < N; ++i) { a[i] = m[i] = T(i*3+1); b[i] = n[i] = T(50-i*2); d[i] = k[i] = T2(i+2+(TI<T2>::FLT ? 0.5 : 0)); }
    for (int s = 0; s < depth; ++s) {
	int op = mc_choose (10); const char* w = "?";
	switch (op) {
	    case 0: { int o = mc_choose (4); T v = small<T> (mc_choose (6)), q[N]; for (auto& x : q) x = v; if (!all (o, m, q, r, N)) return; w = "op= scalar"; mc_note ("a %c= %g", "+-*/"[o], D (v));
		C& t = o == 0 ? a += v : o == 1 ? a -= v : o == 2 ? a *= v : a /= v; MC_CHECK (&t == &a, "%s returns something else", w); memcpy (m, r, sizeof(m)); } break;
	    case 1: { int o = mc_choose (4); T v = small<T> (mc_choose (6)), q[N]; for (auto& x : q) x = v; if (!all (o, m, q, r, N)) return; w = "op scalar"; mc_note ("b = a %c %g", "+-*/"[o], D (v));
		switch (o) { case 0: b = a+v; break; case 1: b = a-v; break; case 2: b = a*v; break; case 3: b = a/v; break; } memcpy (n, r, sizeof(m)); } break;
	    case 2: { int o = mc_choose (4); if (!all (o, m, n, r, N)) return; w = "op= container"; mc_note ("a %c= b", "+-*/"[o]);
		switch (o) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a /= b; break; } memcpy (m, r, sizeof(m)); } break;
	    case 3: { int o = mc_choose (4); if (!all (o, n, m, r, N)) return; w = "op container"; mc_note ("a = b %c a", "+-*/"[o]);
		switch (o) { case 0: a = b+a; break; case 1: a = b-a; break; case 2: a = b*a; break; case 3: a = b/a; break; } memcpy (m, r, sizeof(m)); } break;
	    case 4: { int o = mc_choose (4); if (!all (o, m, m, r, N)) return; w = "op= itself"; mc_note ("a %c= a", "+-*/"[o]);
		switch (o) { case 0: a += a; break; case 1: a -= a; break; case 2: a *= a; break; case 3: a /= a; break; } memcpy (m, r, sizeof(m)); } break;
	    case 5: { int o = mc_choose (4); bool eq = mc_choose (2); w = "op container of another type"; mc_note ("a %c%s d", "+-*/"[o], eq ? "=" : "");
		for (size_t i = 0; i < N; ++i) { double x = double (m[i]), y = double (k[i]), z = o == 0 ? x+y : o == 1 ? x-y : o == 2 ? x*y : x/y; if (fabs (z) > 1e6 || (!TI<T>::FLT && (z < 0 || trunc (z) >= ldexp (1, TI<T>::BITS-TI<T>::SGN)))) return;
		    r[i] = o == 0 ? T(m[i]+k[i]) : o == 1 ? T(m[i]-k[i]) : o == 2 ? T(m[i]*k[i]) : T(m[i]/k[i]); }
		if (eq) switch (o) { case 0: a += d; break; case 1: a -= d; break; case 2: a *= d; break; case 3: a /= d; break; }
		else switch (o) { case 0: a = a+d; break; case 1: a = a-d; break; case 2: a = a*d; break; case 3: a = a/d; break; } memcpy (m, r, sizeof(m)); } break;
	    case 6: { int o = mc_choose (4); w = "op= list"; size_t l = mc_choose (3); l = l == 0 ? N : l == 1 ? N/2 : N+1; T q[16]; const T L[16] = { T(2),T(3),T(1),T(4),T(5),T(2),T(7),T(1),T(2),T(3),T(4),T(5),T(6),T(7),T(8),T(9) };
		if (N > 8) return; for (size_t i = 0; i < N; ++i) q[i] = i < l ? L[i] : T(o > 1); if (!all (o, m, q, r, N)) return; mc_note ("a %c= {%zu elements}", "+-*/"[o], l);
		#define LST(...) do { switch (o) { case 0: a += {__VA_ARGS__}; break; case 1: a -= {__VA_ARGS__}; break; case 2: a *= {__VA_ARGS__}; break; case 3: a /= {__VA_ARGS__}; break; } } while (0)
		switch (l) { case 0: return; case 1: LST (L[0]); break; case 2: LST (L[0],L[1]); break; case 3: LST (L[0],L[1],L[2]); break; case 4: LST (L[0],L[1],L[2],L[3]); break; case 5: LST (L[0],L[1],L[2],L[3],L[4]); break; case 8: LST (L[0],L[1],L[2],L[3],L[4],L[5],L[6],L[7]); break; case 9: LST (L[0],L[1],L[2],L[3],L[4],L[5],L[6],L[7],L[8]); break; default: return; }
		memcpy (m, r, sizeof(m)); } break;
	    case 7: w = "swap"; mc_note ("swap"); if (mc_choose (2)) a.swap (b); else { C t (a); a = b; b = t; } for (size_t i = 0; i < N; ++i) { T t = m[i]; m[i] = n[i]; n[i] = t; } break;
	    case 8: w = "own"; own (a, m, n); break;
	    case 9: { w = "elements"; mc_note ("elements"); for (size_t i = 0; i < N; ++i) a.at (i) = m[i] = T(m[i]/2+1); a.begin()[N-1] = m[N-1] = T(2); } break;
	}
	mc_step(); cmp<C,N,T> (a, m, w); cmp<C,N,T> (b, n, w); cmp<C2,N,T2> (d, k, w); fa.check (w); fb.check (w);
	bool eq = true, lt = false; for (size_t i = 0; i < N && eq; ++i) if (m[i] != n[i]) { eq = false; lt = m[i] < n[i]; }
	MC_CHECK ((a == b) == eq && (a != b) == !eq && (a < b) == lt && (a == a) && !(a < a), "%s[%zu]: comparison", tn<T>(), N);
	mc_state (mc_mix (mc_hash (N*2+sizeof(T), m, sizeof(m)), mc_hash (7, n, sizeof(n))));
    }
}
template <size_t N, typename T, typename T2> static void thist (void) { mc_note ("tuple<%zu,%s>", N, tn<T>()); hist<tuple<N,T>,N,T,tuple<N,T2>,T2> (MC_TIER (2,3)); }
template <size_t N, typename T, typename T2> static void ahist (void) { mc_note ("array<%s,%zu>", tn<T>(), N); hist<array<T,N>,N,T,array<T2,N>,T2> (MC_TIER (2,3)); }
typedef void (*hfn)(void);
#if PART == 1
MC_SCENARIO (histories1, 4) { static const hfn TH[] = { thist<4,float,int>, thist<2,float,double>, thist<2,double,float>, thist<4,int32_t,uint32_t>, thist<4,uint32_t,int16_t>, thist<4,int16_t,uint16_t>, thist<4,uint16_t,uint8_t> }; TH[mc_choose (sizeof(TH)/sizeof(TH[0]))](); }
#elif PART == 2
MC_SCENARIO (histories2, 4) { static const hfn TH[] = { thist<2,int32_t,float>, thist<2,uint32_t,int32_t>, thist<8,int8_t,uint8_t>, thist<8,uint8_t,int>, thist<2,int16_t,uint16_t>, thist<2,uint16_t,int16_t>, thist<16,float,int> }; TH[mc_choose (sizeof(TH)/sizeof(TH[0]))](); }
#elif PART == 3
MC_SCENARIO (histories3, 4) { static const hfn TH[] = { thist<16,int32_t,uint32_t>, thist<16,uint32_t,float>, thist<3,int,short>, thist<1,int64_t,int>, thist<5,double,int>, thist<1,uint8_t,int>, thist<3,int16_t,int> }; TH[mc_choose (sizeof(TH)/sizeof(TH[0]))](); }
#elif PART == 4
MC_SCENARIO (histories4, 4) { static const hfn TH[] = { ahist<4,float,int>, ahist<2,float,double>, ahist<4,int32_t,uint32_t>, ahist<3,uint8_t,int>, ahist<1,int64_t,int>, ahist<5,double,float>, ahist<8,int16_t,uint16_t>, ahist<2,uint32_t,int> }; TH[mc_choose (sizeof(TH)/sizeof(TH[0]))](); }
#endif
#if PART == 1
template <typename C, typename C2, int N> static void order (void)
{
    C a; C2 b; int ma[N], mb[N]; for (int i = 0; i < N; ++i) { a[i] = ma[i] = mc_choose (3); b[i] = mb[i] = mc_choose (3); }
    bool eq = true, lt = false, gt = false; for (int i = 0; i < N && eq; ++i) if (ma[i] != mb[i]) { eq = false; lt = ma[i] < mb[i]; gt = !lt; }
    MC_CHECK ((a == b) == eq, "== of %d elements", N); MC_CHECK ((a < b) == lt, "< of %d elements", N); MC_CHECK ((b < a) == gt, "< of %d elements", N); MC_CHECK ((b == a) == eq, "== of %d elements", N); mc_eval();
}
MC_SCENARIO (orders, 1)
{
    switch (mc_choose (6)) { case 0: order<tuple<2,int>,tuple<2,float>,2>(); break; case 1: order<tuple<4,float>,tuple<4,float>,4>(); break; case 2: order<tuple<3,uint8_t>,tuple<3,int>,3>(); break;
	case 3: order<array<int,2>,array<float,2>,2>(); break; case 4: order<array<int,4>,array<int,4>,4>(); break; case 5: order<tuple<1,int>,tuple<1,short>,1>(); break; }
}
#endif
