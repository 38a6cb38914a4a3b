// C25: numeric and bit utilities against their definitions.
#include "u.h"
#include <limits>
#include <type_traits>
typedef unsigned __int128 u128; typedef __int128 i128;
// boundary patterns of a type: all runs of bits, their complements and neighbours, and pairs of bits
template <typename T> struct Pats {
    T v[2400]; int n;
    Pats (void) : n (0) {
	const int B = sizeof(T)*8;
	for (int a = 0; a <= B; ++a) for (int b = 0; b < (a == B ? B : a) || (!a && !b); ++b) { u128 r = ((u128(1) << a) - (u128(1) << b)); for (int d = a == B || b < 2 || b == a-1 ? -1 : 0; d <= (a == B || b < 2 || b == a-1 ? 1 : 0); ++d) add (T(r+d)); if (a == B && !b) break; }
	for (uint64_t k : { UINT64_C(0x0123456789ABCDEF), UINT64_C(0x5555555555555555), UINT64_C(0xAAAAAAAAAAAAAAAA), UINT64_C(0xFEDCBA9876543210), UINT64_C(1000000007), UINT64_C(3600), UINT64_C(0x8000000100000001) }) add (T(k));
	for (int k = 0; k < 70; ++k) { add (T(k)); add (T(-k)); }
    }
    void add (T x) { for (int i = 0; i < n; ++i) if (v[i] == x) return; if (n < 2400) v[n++] = x; else mc_fail ("harness: too many patterns"); }
};
template <typename T> static const Pats<T>& pats (void) { static const Pats<T> p; return p; }
// every value of an 8 or 16-bit type, the patterns of a wider one
template <typename T> static uint64_t nvals (void) { return sizeof(T) <= 2 ? uint64_t(1) << sizeof(T)*8 : pats<T>().n; }
template <typename T> static T val (uint64_t i) { return sizeof(T) <= 2 ? T(i) : pats<T>().v[i]; }
template <typename T> static const char* tn (void) { return std::is_signed<T>::value ? sizeof(T) == 1 ? "int8" : sizeof(T) == 2 ? "int16" : sizeof(T) == 4 ? "int32" : "int64" : sizeof(T) == 1 ? "uint8" : sizeof(T) == 2 ? "uint16" : sizeof(T) == 4 ? "uint32" : "uint64"; }
#define LL(x) ((long long)(x))
//{{{ byte order, sign
template <typename T> static T rev (T v) { T r; const uint8_t* s = (const uint8_t*) &v; uint8_t* d = (uint8_t*) &r; for (size_t i = 0; i < sizeof(T); ++i) d[i] = s[sizeof(T)-1-i]; return r; }
template <typename T> static void bytes (void)
{
    for (uint64_t i = 0; i < nvals<T>(); ++i) {
	const T v = val<T>(i), e = rev (v); mc_state (mc_hash (sizeof(T), &v, sizeof(v)));
	MC_CHECK (bswap (v) == e, "bswap of %s %llx is %llx, expected %llx", tn<T>(), LL(v), LL(bswap (v)), LL(e));
	MC_CHECK (le_to_native (v) == v && native_to_le (v) == v, "little endian %s %llx converted to %llx, %llx", tn<T>(), LL(v), LL(le_to_native (v)), LL(native_to_le (v)));
	MC_CHECK (be_to_native (v) == e && native_to_be (v) == e, "big endian %s %llx converted to %llx, %llx", tn<T>(), LL(v), LL(be_to_native (v)), LL(native_to_be (v)));
	mc_steps (5);
    }
}
template <typename T> static void fixed (T (*f)(T), const char* n) { for (uint64_t i = 0; i < nvals<T>(); ++i) { const T v = val<T>(i); MC_CHECK (f (v) == rev (v), "%s (%llx) is %llx", n, LL(v), LL(f (v))); mc_step(); } }
template <typename T> static void signs (void)
{
    for (uint64_t i = 0; i < nvals<T>(); ++i) {
	const T v = val<T>(i); mc_step();
	const int s = v > 0 ? 1 : i128(v) < 0 ? -1 : 0; const i128 a = i128(v) < 0 ? -i128(v) : i128(v);
	MC_CHECK (sign (v) == T(s), "sign of %s %lld is %lld", tn<T>(), LL(v), LL(sign (v)));
	MC_CHECK (is_negative (v) == (s < 0), "is_negative of %s %lld", tn<T>(), LL(v));
	if (a <= i128(std::numeric_limits<T>::max())) MC_CHECK (i128(absv (v)) == a, "absv of %s %lld is %lld", tn<T>(), LL(v), LL(absv (v)));
    }
}
template <typename T> static void fsigns (void)
{
    const T inf = std::numeric_limits<T>::infinity(), mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max(), dn = std::numeric_limits<T>::denorm_min();
    for (T v : { T(0), -T(0), T(1), T(-1), T(0.5), T(-0.5), inf, -inf, mn, -mn, mx, -mx, dn, -dn, T(1e10), T(-1e10) }) {
	MC_CHECK (absv (v) == (v < 0 ? -v : v), "absv of %g is %g", double(v), double(absv (v)));
	MC_CHECK (sign (v) == T(v < 0 ? -1 : v > 0 ? 1 : 0), "sign of %g is %g", double(v), double(sign (v)));
	mc_step();
    }
}
MC_SCENARIO (byte_order_and_sign, 16)
{
    switch (shard) {
	case 0: bytes<uint8_t>(); break; case 1: bytes<int8_t>(); break; case 2: bytes<uint16_t>(); break; case 3: bytes<int16_t>(); break;
	case 4: bytes<uint32_t>(); break; case 5: bytes<int32_t>(); break; case 6: bytes<uint64_t>(); break; case 7: bytes<int64_t>(); break;
	case 8: fixed<uint8_t> (bswap_8, "bswap_8"); fixed<uint16_t> (bswap_16, "bswap_16"); fixed<uint32_t> (bswap_32, "bswap_32"); fixed<uint64_t> (bswap_64, "bswap_64"); break;
	case 9: signs<int8_t>(); signs<uint8_t>(); break; case 10: signs<int16_t>(); signs<uint16_t>(); break; case 11: signs<int32_t>(); signs<uint32_t>(); break;
	case 12: signs<int64_t>(); signs<uint64_t>(); signs<long long>(); signs<unsigned long long>(); break; case 13: signs<char>(); signs<wchar_t>(); break;
	case 14: fsigns<float>(); break; case 15: fsigns<double>(); fsigns<long double>(); break;
    }
}
//}}}
//{{{ bit scan, powers, rotation, masks, packing
static uint64_t hibit (uint64_t v) { uint64_t n = 0; while (v >>= 1) ++n; return n; }
static void scan32 (uint32_t v)
{
    static const uoff_t NB[] = { 0, 31, 75, 0xFFFFFFFF, 0x123456789, uoff_t(-1) };
    if (v) { const uoff_t e = hibit (v); MC_CHECK (FirstBit (v, 75) == e && FirstBit (v, uoff_t(-1)) == e && FirstBit (uint64_t(v), uoff_t(-1)) == e, "FirstBit (%x) is %zu, %zu, %zu, expected %zu", v, FirstBit (v, 75), FirstBit (v, uoff_t(-1)), FirstBit (uint64_t(v), uoff_t(-1)), e); }
    unsigned ones = 0; for (uint32_t b = v; b; b &= b-1) ++ones;
    MC_CHECK (popcount (v) == ones && popcount (uint64_t(v) << 32 | v) == 2*ones, "popcount (%x) is %zu, twice %zu", v, popcount (v), popcount (uint64_t(v) << 32 | v));
    if (!v) for (uoff_t nb : NB) MC_CHECK (FirstBit (v, nb) == nb && FirstBit (uint64_t(v), nb) == nb, "FirstBit (0, %zx) is %zx for 32 and %zx for 64 bits", nb, FirstBit (v, nb), FirstBit (uint64_t(v), nb));
}
static void pow32 (uint32_t v)	// NextPow2(1) is 2 by the existing tests; 2^31 may count as out of range
{
    if (v == 1 || v == 0x80000000u) return;
    uint32_t e = 1; if (v && v < 0x80000000u) while (e < v) e <<= 1;
    MC_CHECK (NextPow2 (v) == e, "NextPow2 (%u) is %u, expected %u", v, NextPow2 (v), e);
}
MC_SCENARIO (bit_scan, 64)
{
    const uint64_t s = shard;
    if (!s) {
	const Pats<uint32_t>& p = pats<uint32_t>(); for (int i = 0; i < p.n; ++i) { scan32 (p.v[i]); pow32 (p.v[i]); mc_steps (4); }
	const Pats<uint64_t>& q = pats<uint64_t>(); for (int i = 0; i < q.n; ++i) if (q.v[i]) { mc_step(); MC_CHECK (FirstBit (q.v[i], 75) == hibit (q.v[i]), "FirstBit (%llx) is %zu", LL(q.v[i]), FirstBit (q.v[i], 75)); }
    }
    const uint64_t per = MC_TIER (UINT64_C(1) << 19, UINT64_C(1) << 26), from = s * per;	// all below 2^25, or all 32-bit values
    for (uint64_t v = from; v < from + per; ++v) { scan32 (uint32_t(v)); pow32 (uint32_t(v)); }
    mc_steps (4*per);
}
// the same with arguments known at compile time, which take another path
template <unsigned K> struct ConstBits { static inline __attribute__((always_inline)) void go (void) {
    const uint32_t v = (K < 32 ? UINT32_C(1) << (K&31) : K < 64 ? (UINT32_C(2) << (K&31)) - 1 : K < 96 ? (UINT32_C(1) << (K&31)) + (K > 64) : K*37); const uint64_t w = K < 64 ? UINT64_C(1) << (K&63) : (UINT64_C(2) << (K&63)) - 1;
    MC_CHECK (v == 0 || FirstBit (v, 75) == hibit (v), "FirstBit (constant %x) is %zu", v, FirstBit (v, 75));
    MC_CHECK (FirstBit (w, 75) == hibit (w), "FirstBit (constant %llx) is %zu", LL(w), FirstBit (w, 75));
    uint32_t e = 1; if (v < 0x80000000u) while (e < v) e <<= 1;
    if (v != 1 && v != 0x80000000u) MC_CHECK (NextPow2 (v) == e, "NextPow2 (constant %x) is %x", v, NextPow2 (v));
    mc_steps (3); ConstBits<K-1>::go();
} };
template <> struct ConstBits<unsigned(-1)> { static inline void go (void) {} };
template <typename T> static void rot (void)
{
    const unsigned B = sizeof(T)*8; const uint64_t step = sizeof(T) == 2 ? MC_TIER (7, 1) : 1;
    for (uint64_t i = 0; i < nvals<T>(); i += step) for (unsigned n = 0; n < B; ++n) {
	const T v = val<T>(i); T l = 0, r = 0; for (unsigned b = 0; b < B; ++b) if ((v >> b) & 1) { l |= T(1) << ((b+n)%B); r |= T(1) << ((b+B-n)%B); }
	MC_CHECK (Rol (v, n) == l, "Rol (%s %llx, %u) is %llx, expected %llx", tn<T>(), LL(v), n, LL(Rol (v, n)), LL(l));
	MC_CHECK (Ror (v, n) == r, "Ror (%s %llx, %u) is %llx, expected %llx", tn<T>(), LL(v), n, LL(Ror (v, n)), LL(r));
	mc_steps (2);
    }
}
template <typename T> static void mask (void)
{
    for (unsigned n = 0; n <= sizeof(T)*8; ++n) { T e = 0; for (unsigned b = 0; b < n; ++b) e |= T(1) << b; const T g = BitMask(T,n); MC_CHECK (g == e, "BitMask (%s, %u) is %llx", tn<T>(), n, LL(g)); mc_step(); }
    MC_CHECK (BitsInType(T) == sizeof(T)*8, "BitsInType");
}
template <typename S, typename D> static void pack (void)
{
    for (uint64_t i = 0; i < nvals<S>(); ++i) {
	const S s = val<S>(i); D e; for (size_t k = 0; k < sizeof(D); k += sizeof(S)) memcpy ((char*) &e + k, &s, sizeof(S));
	D d = D(0xCDCDCDCDCDCDCDCD); pack_type (s, d); mc_step();
	MC_CHECK (d == e, "pack_type (%s %llx) into %s is %llx, expected %llx", tn<S>(), LL(s), tn<D>(), LL(d), LL(e));
    }
}
MC_SCENARIO (rotate_mask_pack, 8)
{
    switch (shard) {
	case 0: ConstBits<160>::go(); break;
	case 1: rot<uint8_t>(); rot<uint32_t>(); break; case 2: rot<uint16_t>(); break; case 3: rot<uint64_t>(); break;
	case 4: mask<uint8_t>(); mask<uint16_t>(); mask<uint32_t>(); mask<uint64_t>(); break;
	case 5: pack<uint8_t,uint8_t>(); pack<uint8_t,uint16_t>(); pack<uint8_t,uint32_t>(); pack<uint8_t,uint64_t>(); break;
	case 6: pack<uint16_t,uint32_t>(); pack<uint16_t,uint64_t>(); pack<uint32_t,uint64_t>(); pack<uint64_t,uint64_t>(); break;
	case 7: pack<int8_t,uint16_t>(); pack<int8_t,uint32_t>(); pack<int8_t,uint64_t>(); pack<int16_t,uint32_t>(); pack<int16_t,uint64_t>(); pack<int32_t,uint64_t>(); break;
    }
}
//}}}
//{{{ alignment, division, divisors
template <typename T> static void aligns (uint64_t n, size_t g)
{
    if (n > uint64_t(std::numeric_limits<T>::max())) return;
    const T v = T(n); const uint64_t dn = n / g * g; const u128 up = (u128(n) + g - 1) / g * g;
    MC_CHECK (uint64_t(AlignDown (v, g)) == dn, "AlignDown (%s %llu, %zu) is %llu, expected %llu", tn<T>(), LL(n), g, LL(AlignDown (v, g)), LL(dn));
    if (u128(n) + g - 1 <= ~uint64_t(0) && up <= u128(uint64_t(std::numeric_limits<T>::max()))) MC_CHECK (uint64_t(Align (v, g)) == uint64_t(up), "Align (%s %llu, %zu) is %llu, expected %llu", tn<T>(), LL(n), g, LL(Align (v, g)), LL(up));
    mc_steps (2);
}
static void align (uint64_t n, size_t g) { aligns<uint8_t>(n,g); aligns<uint16_t>(n,g); aligns<uint32_t>(n,g); aligns<uint64_t>(n,g); aligns<int8_t>(n,g); aligns<int16_t>(n,g); aligns<int32_t>(n,g); aligns<int64_t>(n,g); }
MC_SCENARIO (alignment, 16)
{
    const unsigned s = shard;
    for (size_t g = 1 + s; g <= 272; g += 16) for (uint64_t n = 0; n <= MC_TIER (600u, 5000u); ++n) align (n, g);
    const Pats<uint64_t>& p = pats<uint64_t>();
    for (int i = s; i < p.n; i += 16) for (size_t g : { 1, 2, 3, 4, 5, 7, 8, 12, 16, 64, 100, 4095, 4096, 65536 }) align (p.v[i], g);
    if (!s) for (uint64_t n = 0; n < 5000; ++n) {
	MC_CHECK (Align (n) == (n+7)/8*8 && AlignDown (n) == n/8*8, "Align (%llu) is %llu", LL(n), LL(Align (n)));
	mc_steps (2);
    }
}
template <typename A, typename B> static void divs (i128 a, i128 b)
{
    if (b <= 0 || a < i128(std::numeric_limits<A>::min()) || a > i128(std::numeric_limits<A>::max()) || b > i128(std::numeric_limits<B>::max())) return;
    const i128 e = a < 0 ? -((-a + b-1) / b) : (a + b-1) / b;	// away from zero
    const A g = DivRU (A(a), B(b)); mc_step();
    MC_CHECK (i128(g) == e, "DivRU (%s %lld, %s %lld) is %lld, expected %lld", tn<A>(), LL(a), tn<B>(), LL(b), LL(g), LL(e));
}
MC_SCENARIO (division, 16)
{
    const unsigned s = shard;
    for (int a = -128 + int(s); a < 256; a += 16) for (int b = 1; b < 256; ++b) { divs<uint8_t,uint8_t>(a,b); divs<int8_t,int8_t>(a,b); divs<int16_t,int8_t>(a,b); divs<int32_t,int32_t>(a,b); divs<uint32_t,uint8_t>(a,b); divs<size_t,size_t>(a,b); divs<size_t,uint16_t>(a,b); divs<int64_t,int32_t>(a,b); }
    const Pats<uint64_t>& p = pats<uint64_t>(); const Pats<uint16_t>& q = pats<uint16_t>();
    for (int i = s; i < p.n; i += 16) {
	for (int j = 0; j < p.n; j += MC_TIER (5, 1)) { divs<uint64_t,uint64_t>(p.v[i],p.v[j]); divs<uint32_t,uint32_t>(p.v[i],p.v[j]); divs<int64_t,int64_t>(int64_t(p.v[i]),int64_t(p.v[j])); divs<int32_t,int32_t>(int64_t(p.v[i]),int64_t(p.v[j])); }
	for (int j = 0; j < q.n; ++j) { divs<uint16_t,uint16_t>(uint16_t(p.v[i]),q.v[j]); divs<int16_t,int16_t>(int16_t(p.v[i]),int16_t(q.v[j])); divs<uint64_t,uint16_t>(p.v[i],q.v[j]); divs<int64_t,int16_t>(int64_t(p.v[i]),int16_t(q.v[j])); }
    }
}
template <typename T> static void divisors (T a, T b)
{
    if (std::is_signed<T>::value && (a == std::numeric_limits<T>::min() || b == std::numeric_limits<T>::min())) return;
    const u128 ua = i128(a) < 0 ? -i128(a) : i128(a), ub = i128(b) < 0 ? -i128(b) : i128(b);
    u128 x = ua, y = ub; while (y) { u128 t = x % y; x = y; y = t; }
    const T g = gcd (a, b); mc_step();
    MC_CHECK (i128(g) == i128(x), "gcd (%s %lld, %lld) is %lld, expected %lld", tn<T>(), LL(a), LL(b), LL(g), LL(x));
    if (sizeof(T) < 8 || ua <= UINT64_C(1) << 31 || ub <= UINT64_C(1) << 31 ) {
	const u128 m = x ? ua / x * ub : 0; if (m > u128(std::numeric_limits<T>::max())) return;
	const T l = lcm (a, b); const i128 al = i128(l) < 0 ? -i128(l) : i128(l);
	MC_CHECK (al == i128(m), "lcm (%s %lld, %lld) is %lld, expected %lld", tn<T>(), LL(a), LL(b), LL(l), LL(m));
	mc_step();
    }
}
MC_SCENARIO (common_divisors, 16)
{
    const int s = shard, N = MC_TIER (300, 1000);
    for (int a = -N + s; a <= N; a += 16) for (int b = -N; b <= N; ++b) { divisors<int32_t>(a,b); if (a >= 0 && b >= 0) divisors<uint32_t>(a,b); if (b%3 == 0) divisors<int64_t>(a,b); }
    for (int a = -128 + s; a < 256; a += 16) for (int b = -128; b < 256; ++b) { if (a < 128 && b < 128) divisors<int8_t>(a,b); if (a >= 0 && b >= 0) divisors<uint8_t>(a,b); divisors<int16_t>(a*127,b*125); if (a >= 0 && b >= 0) divisors<uint16_t>(a*257,b*255); }
    const Pats<uint64_t>& p = pats<uint64_t>();
    for (int i = s; i < p.n; i += 16) for (int j = 0; j < p.n; j += MC_TIER (11, 1)) { divisors<uint64_t>(p.v[i],p.v[j]); divisors<int64_t>(p.v[i],p.v[j]); divisors<uint32_t>(p.v[i],p.v[j]); divisors<int32_t>(p.v[i],p.v[j]); }
}
//}}}
//{{{ limits, selection, ranges
template <typename T> static void ilimits (const char* n)
{
    typedef numeric_limits<T> U; typedef std::numeric_limits<T> S;
    MC_CHECK (U::min() == S::min() && U::max() == S::max() && U::lowest() == S::lowest(), "numeric_limits<%s>: min %lld, max %lld, lowest %lld", n, LL(U::min()), LL(U::max()), LL(U::lowest()));
    MC_CHECK (U::is_specialized && U::is_bounded && U::is_signed == S::is_signed, "numeric_limits<%s>: signed is %d", n, U::is_signed);
    MC_CHECK (U::radix == 2 && !U::has_infinity && !U::has_quiet_NaN && U::digits == sizeof(T)*8, "numeric_limits<%s>: digits", n);
    mc_steps (8); mc_state (mc_hash (1, n, strlen (n)));
}
template <typename T> static void flimits (const char* n)
{
    typedef numeric_limits<T> U; typedef std::numeric_limits<T> S;
    MC_CHECK (U::min() == S::min() && U::max() == S::max() && U::lowest() == S::lowest() && U::epsilon() == S::epsilon() && U::infinity() == S::infinity() && U::denorm_min() == S::denorm_min() && U::round_error() == S::round_error(), "numeric_limits<%s>: values", n);
    MC_CHECK (U::quiet_NaN() != U::quiet_NaN() && U::signaling_NaN() != U::signaling_NaN(), "numeric_limits<%s>: NaN", n);
    MC_CHECK (U::is_specialized && U::is_signed && !U::is_integer && !U::is_exact && U::is_iec559 && U::is_bounded && U::has_infinity && U::has_quiet_NaN && U::has_denorm == denorm_present && U::round_style == round_to_nearest, "numeric_limits<%s>: kind", n);
    MC_CHECK (U::radix == S::radix && int(U::digits) == S::digits && int(U::digits10) == S::digits10 && U::min_exponent == S::min_exponent && U::min_exponent10 == S::min_exponent10 && U::max_exponent == S::max_exponent && U::max_exponent10 == S::max_exponent10, "numeric_limits<%s>: exponents", n);
    mc_steps (24); mc_state (mc_hash (2, n, strlen (n)));
}
template <typename T> static void plimits (void)
{
    typedef numeric_limits<T*> U; MC_CHECK (!U::min() && !U::lowest() && uintptr_t(U::max()) == UINTPTR_MAX && !U::is_signed, "limits of a pointer"); mc_steps (3);
}
template <typename T, size_t N> static void tlimits (void)
{
    typedef numeric_limits<tuple<N,T> > U; const tuple<N,T> a (U::min()), b (U::max()); MC_CHECK (U::is_signed == std::numeric_limits<T>::is_signed && U::is_integer == std::numeric_limits<T>::is_integer, "limits of a tuple");
    for (size_t i = 0; i < N; ++i) MC_CHECK (a[i] == std::numeric_limits<T>::min() && b[i] == std::numeric_limits<T>::max(), "limits of element %zu of a tuple of %zu", i, N); mc_steps (N);
}
template <typename A, typename B> static void select (void)
{
    const uint64_t sa = sizeof(A) > 2 ? 7 : sizeof(A) == 2 ? 131 : 1, sb = sizeof(B) > 2 ? 11 : sizeof(B) == 2 ? 173 : 1;
    for (uint64_t i = 0; i < nvals<A>(); i += sa) for (uint64_t j = 0; j < nvals<B>(); j += sb) {
	const A a = val<A>(i); const B b = val<B>(j); const i128 lo = i128(b) < i128(a) ? i128(b) : i128(a), hi = i128(b) < i128(a) ? i128(a) : i128(b);
	if (lo >= i128(std::numeric_limits<A>::min())) MC_CHECK (i128(min (a, b)) == lo, "min of %s %lld and %s %lld is %lld", tn<A>(), LL(a), tn<B>(), LL(b), LL(min (a, b)));
	if (hi <= i128(std::numeric_limits<A>::max())) MC_CHECK (i128(max (a, b)) == hi, "max of %s %lld and %s %lld is %lld", tn<A>(), LL(a), tn<B>(), LL(b), LL(max (a, b)));
	mc_steps (2);
    }
}
struct Odd { int v; Odd (int k = 0) : v (k) {} Odd* operator& (void) { return nullptr; } const Odd* operator& (void) const { return nullptr; } };
template <typename T, size_t N> static void ranges (void)
{
    T a[N]; for (size_t i = 0; i < N; ++i) a[i] = T(i*3+1);
    const T (&c)[N] = a;
    MC_CHECK (VectorSize(a) == N && ustl::size (a) == N && ustl::begin (a) == a && ustl::end (a) == a+N && ustl::cbegin (c) == a && ustl::cend (c) == a+N && VectorEnd (a) == a+N && ustl::data (a) == a, "range of an array of %zu elements", N);
    for (size_t i = 0; i < N+300; ++i) { MC_CHECK (&VectorElement (a, i) == a + (i < N ? i : N-1), "VectorElement (%zu) of %zu", i, N); mc_step(); }
    size_t n = 0; foreach (T*, i, a) { MC_CHECK (*i == T(n*3+1), "foreach"); ++n; } MC_CHECK (n == N, "foreach visits %zu of %zu", n, N);
    vector<T> v (VectorRange (a)); MC_CHECK (v.size() == N && ustl::size (v) == N && ustl::data (v) == v.begin() && !ustl::empty (v) && ustl::end (v) == v.end() && ustl::crbegin (v).base() == v.end() && ustl::crend (v).base() == v.begin(), "range of a vector of %zu", N);
    n = N; eachfor (typename vector<T>::reverse_iterator, i, v) { --n; MC_CHECK (*i == T(n*3+1), "eachfor"); } MC_CHECK (!n, "eachfor leaves %zu", n);
    for (size_t k = 0; k < 1000; k += 37) MC_CHECK (size_of_elements (k, a) == k*sizeof(T), "size_of_elements (%zu)", k);
    for (size_t i = 0; i <= N; ++i) for (size_t j = 0; j <= N; ++j) {
	T* p = a + i; const T* q = a + j; mc_steps (4);
	MC_CHECK (distance (p, a+j) == ptrdiff_t(j)-ptrdiff_t(i) && distance (q, (const T*) p) == ptrdiff_t(i)-ptrdiff_t(j), "distance of elements %zu and %zu", i, j);
	MC_CHECK (abs_distance (p, a+j) == (i < j ? j-i : i-j), "abs_distance of elements %zu and %zu", i, j);
	T* r = p; MC_CHECK (advance (r, ptrdiff_t(j)-ptrdiff_t(i)) == q && r == q, "advance from %zu to %zu", i, j);
	void* vp = p; const void* vq = q; MC_CHECK (distance (vp, vq) == (ptrdiff_t(j)-ptrdiff_t(i))*ptrdiff_t(sizeof(T)) && distance (vq, vp) == -distance (vp, vq) && abs_distance (vp, vq) == (i < j ? j-i : i-j)*sizeof(T), "distance of void pointers");
	const ptrdiff_t d = distance (vp, vq); void* vr = vp; MC_CHECK (advance (vr, d) == vq && vr == vq, "advance of a void pointer"); const void* cr = vq; MC_CHECK (advance (cr, -d) == vp && cr == vp && advance_ptr (vp, d) == vq, "advance of a const void pointer");
    }
}
MC_SCENARIO (limits_and_ranges, 8)
{
    switch (shard) {
	case 0:
	    #define L(t) ilimits<t>(#t);
	    L(bool) L(char) L(signed char) L(unsigned char) L(short) L(unsigned short) L(int) L(unsigned) L(long) L(unsigned long) L(long long) L(unsigned long long) L(wchar_t)
	    flimits<float>("float"); flimits<double>("double"); flimits<long double>("long double");
	    plimits<char>(); plimits<const int>(); plimits<string>(); tlimits<int8_t,4>(); tlimits<uint16_t,4>(); tlimits<int,2>(); tlimits<int,3>(); tlimits<float,4>(); tlimits<uint64_t,5>(); tlimits<double,1>(); break;
	case 1: select<uint8_t,uint8_t>(); select<int8_t,int8_t>(); select<int16_t,int8_t>(); select<int8_t,int16_t>(); select<int32_t,int16_t>(); break;
	case 2: select<int32_t,int32_t>(); select<int64_t,int32_t>(); select<int32_t,int64_t>(); break;
	case 3: select<uint64_t,uint32_t>(); select<uint32_t,uint64_t>(); select<uint64_t,uint64_t>(); select<int64_t,int64_t>(); break;
	case 4: ranges<char,1>(); ranges<char,2>(); ranges<char,9>(); ranges<short,1>(); ranges<short,7>(); break;
	case 5: ranges<int,1>(); ranges<int,12>(); ranges<double,3>(); ranges<uint64_t,33>(); break;
	case 6: {
	    Odd o[3]; for (int i = 0; i < 3; ++i) MC_CHECK (ustl::addressof (o[i]) == reinterpret_cast<Odd*>((char*) o + i*sizeof(Odd)), "addressof"); const Odd& c = o[1]; MC_CHECK (ustl::addressof (c) == reinterpret_cast<const Odd*>((char*) o + sizeof(Odd)), "addressof a constant");
	    for (uint64_t i = 0; i < nvals<uint32_t>(); ++i) { uint32_t v = val<uint32_t>(i); float f = noalias_cast<float>(v); uint32_t w; memcpy (&w, &f, 4); if (f == f) MC_CHECK (w == v, "noalias_cast of %x is %x", v, w); float g = noalias (float(), &v); memcpy (&w, &g, 4); if (g == g) MC_CHECK (w == v, "noalias of %x is %x", v, w); mc_steps (2);
		int32_t si = v; const uint8_t* bp = pointer_cast<uint8_t>(&si); MC_CHECK ((const void*) bp == (const void*) &si, "pointer_cast"); }
	    } break;
	case 7:
	    for (int n = 0; n < 5; ++n) { E* p = n ? new E (n) : nullptr; Delete (p); MC_CHECK (!p, "Delete leaves the pointer"); E* q = n ? new E[n] : nullptr; DeleteVector (q); MC_CHECK (!q, "DeleteVector leaves the pointer"); mc_steps (2); }
	    for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) {
		E x (a), y (b); ustl::swap (x, y); MC_CHECK (x.v == b && y.v == a, "swap"); ustl::iter_swap (&x, &y); MC_CHECK (x.v == a && y.v == b, "iter_swap");
		int i = a; const int o = ustl::exchange (i, b); MC_CHECK (o == a && i == b, "exchange of %d and %d: returned %d, left %d", a, b, o, i); string s ("one", 3), t (ustl::exchange (s, string ("two"))); MC_CHECK (t == "one" && s == "two", "exchange of strings"); mc_steps (4);
	    } break;
    }
}
//}}}
//{{{ powers
struct Mod { unsigned m; unsigned operator() (unsigned a, unsigned b) const { return a*b % m; } };
MC_SCENARIO (powers, 4)
{
    const unsigned s = shard;
    const Pats<uint32_t>& p = pats<uint32_t>();	// large exponents, the reference going from the highest bit down
    for (int i = s; i < p.n; i += 4) for (unsigned x : { 0u, 1u, 2u, 3u, 7u, 1008u }) {
	const uint32_t n = p.v[i]; unsigned e = 1; uint32_t w = 1; uint64_t q = 1; const uint64_t y = x*UINT64_C(0x100000001)+2;
	for (int b = 31; b >= 0; --b) { e = e*e % 1009; w = w*w; q = q*q; if ((n >> b) & 1) { e = e*x % 1009; w = w*x; q = q*y; } }
	const Mod f = { 1009 }; MC_CHECK (power (x, n, f) == e, "power (%u, %u) modulo 1009 is %u, expected %u", x, n, power (x, n, f), e);
	MC_CHECK (power (x, n) == w && power (y, n) == q, "power (%u, %u) is %x, expected %x", x, n, power (x, n), w); mc_steps (3);
    }
    for (unsigned n = s; n < MC_TIER (300u, 3000u); n += 4) {
	for (uint64_t x = 0; x < 40; ++x) { uint64_t e = 1; for (unsigned k = 0; k < n; ++k) e *= x; MC_CHECK (power (x, n) == e, "power (%llu, %u) is %llu, expected %llu", LL(x), n, LL(power (x, n)), LL(e)); mc_step(); }
	for (unsigned m = 2; m < 12; ++m) for (unsigned x = 0; x < m; ++x) { unsigned e = 1; for (unsigned k = 0; k < n; ++k) e = e*x % m; const Mod f = { m }; MC_CHECK (power (x, n, f) == e, "power (%u, %u) modulo %u is %u, expected %u", x, n, m, power (x, n, f), e); mc_step(); }
	for (int x : { -3, -2, -1, 0, 1, 2 }) if (n < 19) { int e = 1; for (unsigned k = 0; k < n; ++k) e *= x; MC_CHECK (power (x, n) == e, "power (%d, %u) is %d", x, n, power (x, n)); MC_CHECK (power (double(x)/2, n) == double(e)/double(1u << n), "power (%d/2, %u)", x, n); mc_steps (2); }
    }
}
//}}}
