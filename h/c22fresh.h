// C22: small functions that make, copy, swap and convert tuples, arrays and matrices on a stack full of other
// values. What a compiler assumes about memory at its level of optimization must not show in the elements.
#include "c22.h"
namespace {
__attribute__((noinline)) void poison (void) { volatile char b[1024]; for (size_t i = 0; i < sizeof(b); ++i) b[i] = 0x5a; }
template <class C, typename T> __attribute__((noinline)) int f_make (void) { C z; int bad = 0; for (size_t i = 0; i < sizeof(C)/sizeof(T); ++i) bad += z.begin()[i] != T(0); return bad; }
template <class C, typename T> __attribute__((noinline)) int f_make2 (void) { C z, y; int bad = 0; for (auto i = z.begin(), j = y.begin(); i < z.end(); ++i, ++j) bad += *i != T(0) || *j != T(0); return bad; }
template <class C, typename T> __attribute__((noinline)) int f_sum (T a) { C z; z.begin()[0] = a; T s = T(0); for (auto e : z) s += e; return s != a; }
template <class C, typename T> __attribute__((noinline)) int f_swap (T a) { C x, y; for (size_t i = 0; i < x.size(); ++i) { x.begin()[i] = T(a+i); y.begin()[i] = T(a+20+i); } x.swap (y); int bad = 0; for (size_t i = 0; i < x.size(); ++i) bad += x.begin()[i] != T(a+20+i) || y.begin()[i] != T(a+i); return bad; }
template <class C, typename T> __attribute__((noinline)) int f_swap2 (T a) { C x, y; for (size_t i = 0; i < x.size(); ++i) x.begin()[i] = T(a+i); x.swap (y); int bad = 0; for (size_t i = 0; i < x.size(); ++i) bad += y.begin()[i] != T(a+i) || x.begin()[i] != T(0); return bad; }
template <class C, typename T> __attribute__((noinline)) int f_copy (T a) { C x; for (size_t i = 0; i < x.size(); ++i) x.begin()[i] = T(a+i); C y (x); x.begin()[0] = T(0); int bad = 0; for (size_t i = 0; i < x.size(); ++i) bad += y.begin()[i] != T(a+i); return bad; }
template <class C, typename T> __attribute__((noinline)) int f_assign (T a) { C x, y; for (size_t i = 0; i < x.size(); ++i) x.begin()[i] = T(a+i); y = x; x.begin()[0] = T(99); int bad = 0; for (size_t i = 0; i < x.size(); ++i) bad += y.begin()[i] != T(a+i); y.begin()[0] = T(1); x = y; return bad + (x.begin()[0] != T(1)); }
template <class C, typename T> __attribute__((noinline)) C f_value (T a) { C x; x.begin()[0] = a; return x; }
template <class C, typename T> __attribute__((noinline)) int f_return (T a) { C x (f_value<C,T> (a)); int bad = x.begin()[0] != a; for (size_t i = 1; i < x.size(); ++i) bad += x.begin()[i] != T(0); return bad; }
template <class C, typename T> __attribute__((noinline)) int f_plus (T a) { C x, y; x.begin()[0] = a; y += x; y += a; int bad = y.begin()[0] != T(a+a); for (size_t i = 1; i < x.size(); ++i) bad += y.begin()[i] != a; return bad; }
template <class C, class D, typename T> __attribute__((noinline)) int f_conv (T a) { D d; for (size_t i = 0; i < d.size(); ++i) d.begin()[i] = a+i; C x (d), y; y = d; d.begin()[0] = 0; int bad = 0; for (size_t i = 0; i < x.size(); ++i) bad += x.begin()[i] != T(a+i) || y.begin()[i] != T(a+i); return bad; }
template <class C, typename T> void all1 (const char* what, bool zero = true)
{
    for (int a = 1; a < 4; ++a) {
#define F_(f,...) poison(); { int bad = f<C,T> (__VA_ARGS__); mc_eval(); MC_CHECK (!bad, #f " of %s of %zu %s: %d elements are wrong", what, sizeof(C)/sizeof(T), tn<T>(), bad); }
	if (zero) { F_(f_make) F_(f_make2) F_(f_sum,T(a)) F_(f_swap2,T(a)) F_(f_return,T(a)) }
	F_(f_swap,T(a)) F_(f_copy,T(a)) F_(f_assign,T(a))
#undef F_
    }
    mc_steps (3*8);
}
template <size_t N, typename T> void all (void)
{
    all1<tuple<N,T>,T> ("a tuple"); all1<matrix<N,1,T>,T> ("a matrix"); all1<matrix<1,N,T>,T> ("a column"); all1<array<T,N>,T> ("an array", false);
    for (int a = 1; a < 4; ++a) {
	int bad;
#define F_(f,...) poison(); bad = f<__VA_ARGS__> (T(a)); mc_eval(); MC_CHECK (!bad, #f " of %zu %s: %d elements are wrong", N, tn<T>(), bad);
	F_(f_plus,tuple<N,T>,T) F_(f_conv,tuple<N,T>,tuple<N,int32_t>,T) F_(f_conv,tuple<N,T>,tuple<N,uint8_t>,T) F_(f_conv,tuple<N,T>,tuple<N,float>,T) F_(f_conv,tuple<N,T>,tuple<N,double>,T) F_(f_conv,tuple<N,T>,tuple<N,int16_t>,T)
#undef F_
    }
    mc_steps (3*6);
}
template <typename T> void sizes_ (void) { all<1,T>(); all<2,T>(); all<3,T>(); all<4,T>(); all<5,T>(); all<6,T>(); all<8,T>(); all<9,T>(); all<16,T>(); mc_state (sizeof(T)); }
}
MC_SCENARIO (FRESH, 9)
{
    switch (shard) { case 0: sizes_<int8_t>(); break; case 1: sizes_<uint8_t>(); break; case 2: sizes_<int16_t>(); break; case 3: sizes_<uint16_t>(); break; case 4: sizes_<int32_t>(); break;
	case 5: sizes_<uint32_t>(); break; case 6: sizes_<float>(); break; case 7: sizes_<double>(); break; case 8: sizes_<int64_t>(); break; }
}
