// C22: packed operations, part PART of the types.
#include "c22.h"
template <int OP> struct Op;
#define OPD(o,f,fn) template <> struct Op<o> { template <typename C> static NOINL void two (const C& a, C& b) { simd::f (a, b); } template <typename C> static NOINL void three (const C& a, const C& b, C& r) { simd::f (a, b, r); } };
OPD (ADD,padd,plus) OPD (SUB,psub,minus) OPD (MUL,pmul,multiplies) OPD (DIV,pdiv,divides) OPD (AND,pand,bitwise_and) OPD (OR,por,bitwise_or) OPD (XOR,pxor,bitwise_xor)
OPD (SHL,pshl,simd::fpshl) OPD (SHR,pshr,simd::fpshr) OPD (SUBS,psubs,simd::fpsubs) OPD (MIN,pmin,simd::fpmin) OPD (MAX,pmax,simd::fpmax) OPD (AVG,pavg,simd::fpavg)
template <> struct Op<ADDS> { template <typename C> static NOINL void two (const C& a, C& b) { simd::packop (a, b, simd::fpadds<typename C::value_type>()); } template <typename C> static NOINL void three (const C& a, const C& b, C& r) { simd::padds (a, b, r); } };
// every pair of values in every lane
template <int OP, typename C> static void pairs (size_t n)
{
    typedef typename C::value_type T; const Vals<T>& V = vals<T>();
    static struct { T x, y; } P[256*256]; int np = 0;	// those that are defined
    for (int i = 0; i < V.n; ++i) for (int j = 0; j < V.n; ++j) { T z; if (ref (OP, V.v[i], V.v[j], z) && ref (OP, V.v[j], V.v[i], z)) { P[np].x = V.v[j]; P[np++].y = V.v[i]; } }
    Fenced<C> a, b, r; size_t evals = 0;
    for (int p = 0; p < np; ++p) {
	for (size_t l = 0; l < n; ++l) { int q = (p + int(l)*37) % np; a.c[l] = P[q].x; b.c[l] = P[q].y; }
	C a0 (a.c), b0 (b.c); const C& ca = a.c;
	for (size_t l = 0; l < n; ++l) r.c[l] = T(77);
	Op<OP>::three (ca, b.c, r.c);
	for (size_t l = 0; l < n; ++l) { T e; ref (OP, a0[l], b0[l], e);
	    MC_CHECK (same (T(r.c[l]), e), "%s of three %s[%zu], element %zu: %g, %g give %.9g, expected %.9g", ON[OP], tn<T>(), n, l, D (a0[l]), D (b0[l]), D (r.c[l]), D (e));
	    MC_CHECK (same (T(a.c[l]), T(a0[l])) && same (T(b.c[l]), T(b0[l])), "%s of three changes its arguments", ON[OP]); }
	Op<OP>::two (ca, b.c);
	for (size_t l = 0; l < n; ++l) { T e; ref (OP, b0[l], a0[l], e);
	    MC_CHECK (same (T(b.c[l]), e), "%s of %s[%zu], element %zu: %g, %g give %.9g, expected %.9g", ON[OP], tn<T>(), n, l, D (b0[l]), D (a0[l]), D (b.c[l]), D (e));
	    MC_CHECK (same (T(a.c[l]), T(a0[l])), "%s changes its argument", ON[OP]); }
	++evals;
	if (!(p & 255)) { a.check (ON[OP]); b.check (ON[OP]); r.check (ON[OP]); mc_eval(); }
    }
    a.check (ON[OP]); b.check (ON[OP]); r.check (ON[OP]); mc_steps (evals*n*2);
}
template <typename C> static void ops (bool ints, size_t n, int op);
template <typename C, bool INT> struct Ops { static void run (size_t n, int op) {
    switch (op) { case ADD: pairs<ADD,C>(n); break; case SUB: pairs<SUB,C>(n); break; case MUL: pairs<MUL,C>(n); break; case DIV: pairs<DIV,C>(n); break;
	case AND: pairs<AND,C>(n); break; case OR: pairs<OR,C>(n); break; case XOR: pairs<XOR,C>(n); break; case SHL: pairs<SHL,C>(n); break; case SHR: pairs<SHR,C>(n); break;
	case ADDS: pairs<ADDS,C>(n); break; case SUBS: pairs<SUBS,C>(n); break; case MIN: pairs<MIN,C>(n); break; case MAX: pairs<MAX,C>(n); break; case AVG: pairs<AVG,C>(n); break; } } };
template <typename C> struct Ops<C,false> { static void run (size_t n, int op) {
    switch (op) { case ADD: pairs<ADD,C>(n); break; case SUB: pairs<SUB,C>(n); break; case MUL: pairs<MUL,C>(n); break; case DIV: pairs<DIV,C>(n); break;
	case ADDS: pairs<ADDS,C>(n); break; case SUBS: pairs<SUBS,C>(n); break; case MIN: pairs<MIN,C>(n); break; case MAX: pairs<MAX,C>(n); break; case AVG: pairs<AVG,C>(n); break; default: break; } } };
template <size_t N, typename T> static void tops (int op) { mc_note ("%s of tuple<%zu,%s>", ON[op], N, tn<T>()); Ops<tuple<N,T>,!TI<T>::FLT>::run (N, op); }
typedef void (*opfn)(int);
#if PART == 1
MC_SCENARIO (packed1, 4)
{
    static const opfn PK[] = { tops<8,uint8_t>, tops<8,int8_t>, tops<16,uint8_t>, tops<1,uint8_t>, tops<3,int8_t>, tops<2,int16_t> };
    int c = mc_choose (sizeof(PK)/sizeof(PK[0])), op = mc_choose (NOPS);
    PK[c] (op);
}
#elif PART == 2
MC_SCENARIO (packed2, 4)
{
    static const opfn PK[] = { tops<4,uint16_t>, tops<4,int16_t>, tops<2,uint16_t>, tops<5,int16_t>, tops<1,uint64_t>, tops<1,int64_t>, tops<2,uint64_t> };
    int c = mc_choose (sizeof(PK)/sizeof(PK[0])), op = mc_choose (NOPS);
    PK[c] (op);
}
#elif PART == 3
MC_SCENARIO (packed3, 4)
{
    static const opfn PK[] = { tops<2,uint32_t>, tops<2,int32_t>, tops<4,uint32_t>, tops<4,int32_t>, tops<7,uint32_t> };
    int c = mc_choose (sizeof(PK)/sizeof(PK[0])), op = mc_choose (NOPS);
    PK[c] (op);
}
#elif PART == 4
MC_SCENARIO (packed4, 4)
{
    static const opfn PK[] = { tops<2,float>, tops<4,float>, tops<2,double>, tops<3,float>, tops<5,double>, tops<16,float> };
    int c = mc_choose (sizeof(PK)/sizeof(PK[0])), op = mc_choose (NOPS);
    PK[c] (op);
}
#endif
#if PART == 4
MC_SCENARIO (packed_array_vector, 4)	// the same templates on the other containers
{
    int op = mc_choose (NOPS);
    switch (mc_choose (4)) {
	case 0: mc_note ("%s of array<uint8,3>", ON[op]); Ops<array<uint8_t,3>,true>::run (3, op); break;
	case 1: mc_note ("%s of array<int,4>", ON[op]); Ops<array<int,4>,true>::run (4, op); break;
	case 2: mc_note ("%s of array<float,4>", ON[op]); Ops<array<float,4>,false>::run (4, op); break;
	case 3: mc_note ("%s of array<int64,2>", ON[op]); Ops<array<int64_t,2>,true>::run (2, op); break;
    }
}
#endif
