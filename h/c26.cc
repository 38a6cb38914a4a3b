// C26: numbers to text and back.
#include "u.h"
#include <stdlib.h>
#include <limits.h>
#include <float.h>
#include <math.h>
#include <errno.h>
// ---- reference conversions, written out by hand -------------------------------
typedef unsigned long long ull; typedef long long ll;
static int rdigits (char* o, ull m, unsigned base, bool upper) { char d[80]; int n = 0, w = 0; do { unsigned k = m % base; d[n++] = k < 10 ? '0'+k : (upper ? 'A' : 'a')+k-10; } while (m /= base); while (n) o[w++] = d[--n]; o[w] = 0; return w; }
static int rdec (char* o, bool neg, ull m) { int w = 0; if (neg) o[w++] = '-'; return w + rdigits (o+w, m, 10, false); }
static int dig (char c) { return c >= '0' && c <= '9' ? c-'0' : c >= 'a' && c <= 'z' ? c-'a'+10 : c >= 'A' && c <= 'Z' ? c-'A'+10 : 99; }
// returns the number of characters that make the number
static int rparse (const char* t, int n, int base, bool& neg, ull& mag, bool& over)
{
    int p = 0, b = base; neg = over = false; mag = 0;
    while (p < n && (t[p] == ' ' || (t[p] >= '\t' && t[p] <= '\r'))) ++p;
    if (p < n && (t[p] == '-' || t[p] == '+')) neg = t[p++] == '-';
    if ((b == 0 || b == 16) && p+2 < n && t[p] == '0' && (t[p+1]|0x20) == 'x' && dig (t[p+2]) < 16) { p += 2; b = 16; }
    else if (!b) b = p < n && t[p] == '0' ? 8 : 10;
    int q = p; for (; q < n && dig (t[q]) < b; ++q) { if (mag > (~0ull - dig (t[q]))/b) over = true; mag = mag*b + dig (t[q]); }
    return q > p ? q : 0;
}
template <typename T> struct N {}; 
#define NUM(T,name,conv) template <> struct N<T> { static const char* nm (void) { return name; } static T from (const string& s, size_t* p, int b) { return conv (s, p, b); } static T from (const string& s) { return conv (s); } };
NUM (int, "int", stoi) NUM (long, "long", stol) NUM (unsigned long, "unsigned long", stoul) NUM (ll, "long long", stoll) NUM (ull, "unsigned long long", stoull)
template <> struct N<unsigned> { static const char* nm (void) { return "unsigned"; } static unsigned from (const string& s, size_t* p, int b) { return stoul (s, p, b); } static unsigned from (const string& s) { return stoul (s); } };
#define IS_NEG(v) ((v) < T(1) && (v) != T(0))
template <typename T> static ull magof (T v) { return IS_NEG (v) ? 0-ull(ll(v)) : ull(v); }
// ---- integers: to_string and back ---------------------------------------------
template <typename T> static void one (T v)
{
    char e[80]; const bool ng = IS_NEG (v); int n = rdec (e, ng, magof (v));
    string s = to_string (v);
    MC_CHECK (int(s.size()) == n && !memcmp (s.c_str(), e, n+1), "to_string of %s %s is '%s' of %u characters", N<T>::nm(), e, s.c_str(), unsigned(s.size()));
    T b = N<T>::from (s); size_t p = 999;
    MC_CHECK (b == v, "'%s' converted back to %s is %lld", e, N<T>::nm(), ll(b));
    b = N<T>::from (s, &p, 10); MC_CHECK (b == v && int(p) == n, "'%s' converted back to %s is %lld and ends at %u", e, N<T>::nm(), ll(b), unsigned(p));
    b = N<T>::from (s, nullptr, 0); MC_CHECK (b == v, "'%s' converted back to %s with base 0 is %lld", e, N<T>::nm(), ll(b));
    mc_eval();
}
template <typename T> static void bases (T v)
{
    char e[120]; const bool ng = IS_NEG (v);
    for (int base = 2; base <= 36; ++base) for (int up = 0; up < 2; ++up) {
	int w = 0; if (up) e[w++] = ' '; if (ng) e[w++] = '-'; else if (up) e[w++] = '+';
	if (up && base == 16) { e[w++] = '0'; e[w++] = 'X'; }
	w += rdigits (e+w, magof (v), base, up); int n = w; if (up) { e[w++] = base < 10 ? '0'+base : base < 36 ? 'A'+base-10 : '.'; e[w] = 0; }
	size_t p = 999; string s; s = e; T b = N<T>::from (s, &p, base);
	MC_CHECK (b == v && int(p) == n, "'%s' of base %d converted to %s is %lld and ends at %u, expected %lld and %d", e, base, N<T>::nm(), ll(b), unsigned(p), ll(v), n);
	b = N<T>::from (s, nullptr, base); MC_CHECK (b == v, "'%s' of base %d converted to %s is %lld, expected %lld", e, base, N<T>::nm(), ll(b), ll(v));
	if ((base == 16 && up) || base == 10 || base == 8) {
	    if (base == 8) { char z[130]; int k = up || ng ? (up ? 2 : 1) : 0; memcpy (z, e, k); z[k] = '0'; strcpy (z+k+1, e+k); s = z; if (b) { b = N<T>::from (s, &p, 0); MC_CHECK (b == v && int(p) == n+1, "'%s' of base 0 converted to %s is %lld and ends at %u, expected %lld and %d", z, N<T>::nm(), ll(b), unsigned(p), ll(v), n+1); } }
	    else if (!(base == 10 && up && !v)) { b = N<T>::from (s, &p, 0); MC_CHECK (b == v && int(p) == n, "'%s' of base 0 converted to %s is %lld and ends at %u, expected %lld and %d", e, N<T>::nm(), ll(b), unsigned(p), ll(v), n); }
	}
	mc_eval();
    }
}
template <typename T> static void ints (void)
{
    const int part = mc_choose (66); mc_state (part); mc_step();
    if (part == 65) { const int M = MC_TIER (70000, 5000000); for (int i = 0; i < M; ++i) { one (T(i)); one (T(0-ull(i))); one (T(T(0)-T(1)-T(i))); one (T(numeric_limits<T>::max() - i)); one (T(numeric_limits<T>::min() + i)); } }
    else if (part == 64) { ull m = 1; for (int d = 0; d < 20; ++d, m *= 10) for (int k = 1; k <= 9; ++k) for (int o = -3; o <= 3; ++o) { one (T(m*k+o)); one (T(0-(m*k+o))); bases (T(m*k+o)); bases (T(0-(m*k+o))); } }
    else for (int len = 0; len <= 64; ++len) {	// a run of bits
	ull m = len == 64 ? ~0ull : ((1ull << len)-1); m <<= part;
	for (int o = -2; o <= 2; ++o) { one (T(m+o)); one (T(0-m+o)); one (T(~m+o)); bases (T(m+o)); if (!(len&3)) { bases (T(0-m+o)); } }
    }
    if (mc_want_sample()) mc_sample ("%s, pattern %d", N<T>::nm(), part);
}
MC_SCENARIO (integers, 6) { switch (shard) { case 0: ints<int>(); break; case 1: ints<unsigned>(); break; case 2: ints<long>(); break; case 3: ints<unsigned long>(); break; case 4: ints<ll>(); break; case 5: ints<ull>(); break; } }
// ---- all short texts -----------------------------------------------------------
MC_SCENARIO2 (texts, 12, 24)
{
    static const char A[] = "01789-+ xaFzZ.\t"; enum { NA = sizeof(A)-1 };
    const int L = MC_TIER (4, 5), nsh = MC_TIER (12, 24); char t[16];
    int n = mc_range (0, L), lead = n ? 1 : 0; mc_state (n);
    if (lead) t[0] = A[mc_choose (NA)];
    long tot = 1; for (int i = lead; i < n; ++i) tot *= NA;
    static const int BASES[] = { 0, 2, 3, 8, 10, 11, 16, 36 };
    for (long c = shard; c < tot; c += nsh) {
	for (long i = lead, r = c; i < n; ++i, r /= NA) t[i] = A[r % NA];
	t[n] = 0; string s; s = t;
	for (int bi = 0; bi < 8; ++bi) {
	    bool ng, ov; ull mag; int e = rparse (t, n, BASES[bi], ng, mag, ov), b = BASES[bi];
	    #define TX(T) { size_t p = 999; typedef T t_t; t_t w = e ? t_t(ng ? 0-mag : mag) : t_t(0); T v = N<T>::from (s, &p, b); MC_CHECK (v == w && int(p) == e, "'%s' of base %d converted to %s is %lld and ends at %u, expected %lld and %d", t, b, N<T>::nm(), ll(v), unsigned(p), ll(w), e); v = N<T>::from (s, nullptr, b); MC_CHECK (v == w, "'%s' of base %d converted to %s is %lld, expected %lld", t, b, N<T>::nm(), ll(v), ll(w)); if (b == 10) { v = N<T>::from (s); MC_CHECK (v == w, "'%s' converted to %s is %lld, expected %lld", t, N<T>::nm(), ll(v), ll(w)); } }
	    TX (int) TX (long) TX (unsigned long) TX (ll) TX (ull)
	    mc_eval(); mc_outcome (mc_mix (mc_mix (e, ng), mag));
	}
    }
    mc_step();
    if (mc_want_sample()) mc_sample ("all texts of %d characters", n);
}
MC_SCENARIO2 (real_texts, 12, 24)
{
    static const char A[] = "019.eE-+ xpnai"; enum { NA = sizeof(A)-1 };
    const int L = MC_TIER (5, 6), nsh = MC_TIER (12, 24); char t[16];
    int n = mc_range (0, L), lead = n ? 1 : 0; mc_state (n);
    if (lead) t[0] = A[mc_choose (NA)];
    long tot = 1; for (int i = lead; i < n; ++i) tot *= NA;
    for (long c = shard; c < tot; c += nsh) {
	for (long i = lead, r = c; i < n; ++i, r /= NA) t[i] = A[r % NA];
	t[n] = 0; string s; s = t; char* ep; size_t p = 999;
	#define RT(T,f,lf) { T w = lf (t, &ep), v = f (s, &p); MC_CHECK ((v == w || (v != v && w != w)) && signbit (v) == signbit (w) && int(p) == ep-t, "%s of '%s' is %Lg and ends at %u, expected %Lg and %d", #f, t, (long double) v, unsigned(p), (long double) w, int(ep-t)); v = f (s); MC_CHECK (v == w || (v != v && w != w), "%s of '%s' without a position is %Lg, expected %Lg", #f, t, (long double) v, (long double) w); }
	RT (float, stof, strtof) RT (double, stod, strtod) RT (long double, stold, strtold)
	mc_eval();
    }
    mc_step();
}
// ---- floating point: to_string denotes the number to six decimals ----------------------------
template <typename T> struct F {};
template <> struct F<float> { enum { prec = 9 }; static const char* nm (void) { return "float"; } static float from (const string& s, size_t* p) { return stof (s, p); } };
template <> struct F<double> { enum { prec = 17 }; static const char* nm (void) { return "double"; } static double from (const string& s, size_t* p) { return stod (s, p); } };
template <> struct F<long double> { enum { prec = 21 }; static const char* nm (void) { return "long double"; } static long double from (const string& s, size_t* p) { return stold (s, p); } };
template <typename T> static T mkreal (int exp, ull mant, bool neg) { T v = ldexpl (1 + ldexpl ((long double) mant, -64), exp); return neg ? -v : v; }
template <typename T> static void onereal (T v)
{
    static char e[6000]; string s = to_string (v); size_t p = 99999; int n = snprintf (e, sizeof(e), "%.6Lf", (long double) v);
    MC_CHECK (int(s.size()) == n && !memcmp (s.c_str(), e, n+1), "to_string of %s %La is '%s' of %u characters, expected '%s'", F<T>::nm(), (long double) v, s.c_str(), unsigned(s.size()), e);
    T b = F<T>::from (s, &p); T ulp = nextafter (fabsl (v) < 1 ? T(1) : T(fabsl (v)), T(INFINITY)) - (fabsl (v) < 1 ? T(1) : T(fabsl (v)));
    MC_CHECK (int(p) == n, "'%s' converted back to %s ends at %u", e, F<T>::nm(), unsigned(p));
    if (ulp > T(1.1e-6)) { MC_CHECK (b == v, "%s %La has the text '%s', which converts back to %La", F<T>::nm(), (long double) v, e, (long double) b); }
    else MC_CHECK (fabsl ((long double) b - (long double) v) <= 0.51e-6L + ulp*0.51L, "%s %La has the text '%s', which converts back to %La", F<T>::nm(), (long double) v, e, (long double) b);
    mc_eval();
}
// and through the text streams with enough digits
template <typename T> static void stream1 (T v, int prec, int width, int how, bool exact)
{
    ostringstream os; os.precision (prec); os.width (width); if (how & 1) os << ios::scientific; if (how & 2) os << ios::left; if (how & 4) os.fill ('0');
    os << v; if (how & 8) { os.width (0); os << " ;7"; }
    const string& s = os.str(); istringstream is (s); T b = 77; is >> b;
    mc_at ("%s '%s'", F<T>::nm(), s.c_str());
    if (exact) MC_CHECK (b == v && signbit (b) == signbit (v), "%s %La was written as '%s' and read back as %La", F<T>::nm(), (long double) v, s.c_str(), (long double) b);
    MC_CHECK (!is.fail(), "reading %s from '%s' failed", F<T>::nm(), s.c_str());
    if (how & 8) { int i = 0; is >> i; MC_CHECK (i == 7, "the number after '%s' was read as %d", s.c_str(), i); }
    mc_eval();
}
template <typename T> static void reals (void)
{
    const int EM = numeric_limits<T>::is_integer ? 0 : sizeof(T) == 4 ? 127 : sizeof(T) == 8 ? 1023 : 16383, step = sizeof(T) > 8 ? MC_TIER (97, 13) : sizeof(T) == 8 ? MC_TIER (7, 1) : 1;
    static const ull M[] = { 0, ~0ull, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x8000000000000000ull, 0x1999999999999999ull, 1ull<<41, 1ull<<12, 1ull<<1, ~0ull<<42, ~0ull<<12, ~0ull << 1, 0x123456789abcdef0ull };
    int m = mc_choose (sizeof(M)/sizeof(M[0])), neg = mc_choose (2); mc_state (mc_mix (m, neg)); mc_step();
    const int MB = sizeof(T) == 4 ? 41 : sizeof(T) == 8 ? 12 : 1; ull mant = M[m] & (~0ull << MB);
    for (int e = -EM-3; e <= EM; ++e) {
	const bool near = (e > -70 && e < 70) || e > EM-3 || e < -EM+3; if (!near && (e+EM) % step) continue;
	T v = mkreal<T> (e, mant, neg); if (isinf (v)) continue;
	onereal (v);
	for (int how = 0; how < 16; ++how) for (int w = 0; w < 2; ++w) { if (!(how & 1) && e < 0) continue; if (!(how & 1) && e > 200) continue; stream1 (v, how & 1 ? F<T>::prec : F<T>::prec+3, w ? 40 : 0, how, (how & 1) || e >= 0); }
	if (near) for (int k = 1; k <= 40; ++k) { T u = v; int kk = k; while (kk--) u = nextafter (u, T(INFINITY)); if (isinf (u)) break; onereal (u); stream1 (u, F<T>::prec, 0, 1, true); }
    }
    if (mc_want_sample()) mc_sample ("%s, mantissa pattern %d, every exponent", F<T>::nm(), m);
}
MC_SCENARIO (reals, 3) { switch (shard) { case 0: reals<float>(); break; case 1: reals<double>(); break; case 2: reals<long double>(); break; } }
// all floats (thorough), every 4001st (quick)
MC_SCENARIO2 (all_floats, 8, 128)
{
    const int nsh = MC_TIER (8, 128); const ull step = MC_TIER (4001, 11); ull per = (1ull<<32)/nsh, from = per*shard;
    mc_state (shard); mc_step();
    for (ull u = from; u < from+per; u += step) {
	unsigned b = u; float v; memcpy (&v, &b, 4); if (v != v || isinf (v)) continue;
	string s; s.format ("%.9g", v); float r = stof (s); MC_CHECK (r == v && signbit (r) == signbit (v), "float %a was formatted as '%s', which converts back to %a", v, s.c_str(), r);
	if (fabsf (v) >= 16 || !(b & 63)) { s = to_string (v); r = stof (s); MC_CHECK (fabsf (v) < 16 ? fabs (double(r)-double(v)) <= 0.51e-6 + fabs (double(v))*6e-8 : r == v, "float %a was converted to '%s', which converts back to %a", v, s.c_str(), r); }
	mc_eval();
    }
}
// ---- integers through the text streams --------------------------------------------
static const int WID[] = { 0, 1, 5, 11, 24 };
template <typename T> static void streamint (T v, const char* nm, int base, int fl, int width, char fill)
{
    if (IS_NEG (v) && base != 10 && sizeof(T) == 8) return;	// written as the pattern of bits, which is beyond the type
    ostringstream os; istringstream is;
    if (base == 16) { os << ios::hex; is.iread (ios::hex); } else if (base == 8) { os << ios::oct; is.iread (ios::oct); }
    else if (fill == '0' && width) is.iread (ios::dec);	// zeros in front would mean octal
    if (fl & 1) os << ios::showbase;
    if (fl & 2) os << setiosflags (ios::showpos);
    if (fl & 4) os << ios::uppercase;
    if (fl & 8) os << ios::left;
    os.width (width); if (fill) os.fill (fill);
    os << v; os.width (0); os << ';' << v;
    const string& s = os.str(); is.str (s); T a = 77, b = 77; is >> a >> b;
    MC_CHECK (a == v && b == v, "%s %lld with base %d, flags %d, width %d and fill %d is written as '%s' and read back as %lld and %lld", nm, ll(v), base, fl, width, fill, s.c_str(), ll(a), ll(b));
    mc_eval();
}
template <typename T> static void streamints (const char* nm)
{
    static const int B[] = { 10, 16, 8 }; static const char FI[] = { 0, ' ', '0' };
    int base = B[mc_choose (3)], fl = mc_choose (16), w = WID[mc_choose (5)]; char fill = FI[mc_choose (3)]; mc_state (mc_mix (mc_mix (base, fl), w*3+fill)); mc_step();
    for (int k = 0; k < 64; ++k) for (int len = 0; len <= 64; len += MC_TIER (3, 1)) for (int o = -1; o <= 1; ++o) {
	ull m = (len == 64 ? ~0ull : ((1ull << len)-1)) << k; streamint (T(m+o), nm, base, fl, w, fill); streamint (T(0-m+o), nm, base, fl, w, fill);
    }
    ull m = 1; for (int d = 0; d < 20; ++d, m *= 10) for (int o = -1; o <= 1; ++o) { streamint (T(m+o), nm, base, fl, w, fill); streamint (T(0-(m+o)), nm, base, fl, w, fill); }
    if (sizeof(T) == 2 && !w && !fill) for (unsigned i = 0; i < 65536; ++i) streamint (T(i), nm, base, fl, w, fill);
    if (mc_want_sample()) mc_sample ("%s, base %d, flags %d, width %d", nm, base, fl, w);
}
MC_SCENARIO (streamed, 8)
{
    switch (shard) { case 0: streamints<int> ("int"); break; case 1: streamints<unsigned> ("unsigned"); break; case 2: streamints<long> ("long"); break; case 3: streamints<unsigned long> ("unsigned long"); break;
	case 4: streamints<short> ("short"); break; case 5: streamints<unsigned short> ("unsigned short"); break; case 6: streamints<ll> ("long long"); break; case 7: streamints<ull> ("unsigned long long"); break; }
}
// ---- sequences of values of all kinds, written one after the other and read back -----------------------
struct Val { int kind; ll i; double d; };
static const Val VALS[] = { {0,0,0}, {0,-2147483648ll,0}, {0,2147483647,0}, {1,4294967295u,0}, {2,LLONG_MIN,0}, {3,-1,0}, {4,0,2.5}, {4,0,-1e300}, {5,0,0.1}, {6,1,0}, {6,0,0}, {7,'x',0}, {7,0xe9,0}, {7,0x1f600,0}, {8,0,0}, {8,1,0}, {9,'Q',0}, {10,-32768,0}, {11,65535,0} };
enum { NVALS = sizeof(VALS)/sizeof(VALS[0]) };
static const char* const WORDS[] = { "word", "a'b\"c" };
MC_SCENARIO (sequences, NVALS)
{
    const int K = MC_TIER (3, 4); int idx[4], dl[4]; static const char* const DL[] = { " ", ",", "\n\t ", ";;" };
    for (int k = 0; k < K; ++k) { idx[k] = k ? mc_choose (NVALS) : shard; dl[k] = k < 2 ? mc_choose (4) : 0; }
    mc_state (mc_mix (mc_hash (0, idx, sizeof(int)*K), mc_hash (0, dl, sizeof(int)*K)));
    ostringstream os; os.precision (17); os << ios::scientific;
    for (int k = 0; k < K; ++k) { const Val& v = VALS[idx[k]];
	switch (v.kind) { case 0: os << int(v.i); break; case 1: os << unsigned(v.i); break; case 2: os << long(v.i); break; case 3: os << (unsigned long) v.i; break; case 4: os << v.d; break; case 5: os << float(v.d); break; case 6: os << bool(v.i); break; case 7: os << wchar_t(v.i); break; case 8: os << WORDS[v.i]; break; case 9: os << char(v.i); break; case 10: os << short(v.i); break; case 11: os << (unsigned short) v.i; break; }
	os << DL[dl[k]]; }
    const string& s = os.str(); istringstream is (s);
    for (int k = 0; k < K; ++k) { const Val& v = VALS[idx[k]]; bool ok = false;
	#define RD(T,w) { typedef T t; t x = t(5); is >> x; ok = x == t(w); }
	switch (v.kind) { case 0: RD (int, v.i) break; case 1: RD (unsigned, v.i) break; case 2: RD (long, v.i) break; case 3: RD (unsigned long, v.i) break; case 4: RD (double, v.d) break; case 5: RD (float, v.d) break; case 6: RD (bool, v.i) break; case 7: RD (wchar_t, v.i) break; case 8: { string x; is >> x; ok = x == WORDS[v.i]; } break; case 9: RD (char, v.i) break; case 10: RD (short, v.i) break; case 11: RD (unsigned short, v.i) break; }
	MC_CHECK (ok && !is.fail(), "value %d (kind %d) of '%s' was not read back as it was written", k, v.kind, s.c_str()); mc_eval(); mc_step(); }
    if (mc_want_sample()) mc_sample ("'%s'", s.c_str());
}
