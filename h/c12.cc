// C12: text output.
#include "u.h"
#include <limits.h>
#include <stdlib.h>
// ---- reference formatting of integers, written out by hand -----------------
struct Fmt { unsigned flags; int width; char fill; int prec; };
enum { F_HEX = 1, F_OCT = 2, F_SHOWBASE = 4, F_SHOWPOS = 8, F_UPPER = 16, F_LEFT = 32, F_SCI = 64 };
static int fmt_int (char* o, bool neg, unsigned long long mag, bool is_signed, int bits, const Fmt& f)
{
    char d[80]; int n = 0; unsigned base = f.flags & F_HEX ? 16 : f.flags & F_OCT ? 8 : 10;
    if (base != 10 && neg) { mag = -mag; if (bits < 64) mag &= (1ull<<bits)-1; neg = false; }
    const char* dig = f.flags & F_UPPER ? "0123456789ABCDEF" : "0123456789abcdef";
    unsigned long long m = mag; do { d[n++] = dig[m % base]; } while (m /= base);
    char pre[4]; int np = 0;
    if (base == 10 && is_signed) { if (neg) pre[np++] = '-'; else if (f.flags & F_SHOWPOS) pre[np++] = '+'; }
    if (f.flags & F_SHOWBASE && mag) { if (base == 16) { pre[np++] = '0'; pre[np++] = f.flags & F_UPPER ? 'X' : 'x'; } else if (base == 8) pre[np++] = '0'; }
    int pad = f.width > n+np ? f.width-n-np : 0, w = 0;
    if (pad && !(f.flags & F_LEFT) && f.fill != '0') while (pad) { o[w++] = ' '; --pad; }
    for (int i = 0; i < np; ++i) o[w++] = pre[i];
    if (pad && !(f.flags & F_LEFT)) while (pad) { o[w++] = '0'; --pad; }
    while (n) o[w++] = d[--n];
    while (pad) { o[w++] = ' '; --pad; }
    return w;
}
static int fmt_dbl (char* o, long double v, const Fmt& f)
{
    char c[32]; snprintf (c, sizeof(c), "%%%s%s*.*L%c", f.flags & F_LEFT ? "-" : "", f.fill == '0' ? "0" : "", f.flags & F_SCI ? 'E' : 'f');
    return sprintf (o, c, f.width, f.prec, v);
}
static void apply (ostringstream& os, const Fmt& f)
{
    if (f.flags & F_HEX) os << ios::hex; else if (f.flags & F_OCT) os << ios::oct;
    if (f.flags & F_SHOWBASE) os.setf (ios::showbase);
    if (f.flags & F_SHOWPOS) os << setiosflags (ios::showpos);
    if (f.flags & F_UPPER) os << ios::uppercase;
    if (f.flags & F_LEFT) os << ios::left;
    if (f.flags & F_SCI) os << ios::scientific;
    os << setw (f.width); if (f.fill) os << setfill (f.fill); os << setprecision (f.prec);
}
static const int WIDTHS[] = { 0, 1, 3, 8, 9, 10, 11, 12, 20, 21, 64, 100, 123 };
enum { NW = sizeof(WIDTHS)/sizeof(WIDTHS[0]) };
template <typename T> static void ints (const char* tname)
{
    static const long long V[] = { 0, 1, 2, 7, 8, 9, 10, 15, 16, 99, 100, 127, 128, 255, 256, 1234, 32767, 32768, 65535, 65536, 99999, 0x7fffffff, 0x80000000ll, 0xffffffffll, 123456789012ll, LLONG_MAX };
    Fmt f; f.flags = (mc_choose (3)) | mc_choose (16)*4; f.flags = (f.flags & ~0x40); f.prec = 2; f.width = WIDTHS[mc_choose (NW)]; static const char FI[] = { 0, ' ', '0' }; f.fill = FI[mc_choose (3)];
    if ((f.flags & 3) == 3) return;
    const bool sg = T(-1) < T(0); char e[200];
    mc_state (mc_mix (mc_mix (f.flags, f.width), f.fill));
    for (unsigned i = 0; i < sizeof(V)/sizeof(V[0]); ++i) for (int neg = 0; neg < 3; ++neg) {
	T v = neg == 0 ? T(V[i]) : neg == 1 ? T(0-(unsigned long long)V[i]) : T(~(unsigned long long)V[i]);
	const bool isneg = sg && v < T(0); unsigned long long mag = isneg ? 0-(unsigned long long)(long long)v : (unsigned long long)v;
	int n = fmt_int (e, isneg, mag, sg, sizeof(T)*8, f);
	mc_at ("%s %lld flags %x width %d fill %d", tname, (long long) v, f.flags, f.width, f.fill);
	ostringstream os; apply (os, f); os << v;
	const string& s = os.str();
	MC_CHECK (int(s.size()) == n && !memcmp (s.data(), e, n) && !s.c_str()[n], "%s %lld with flags %x, width %d, fill %d is '%s', expected '%.*s'", tname, (long long) v, f.flags, f.width, f.fill, s.c_str(), n, e);
	mc_outcome (mc_hash (0, e, n)); mc_eval();
    }
    mc_step();
    if (mc_want_sample()) mc_sample ("%s, flags %x, width %d, fill %d", tname, f.flags, f.width, f.fill);
}
MC_SCENARIO (integers, 8)
{
    switch (shard) { case 0: ints<int> ("int"); break; case 1: ints<unsigned> ("unsigned"); break; case 2: ints<long> ("long"); break; case 3: ints<unsigned long> ("unsigned long"); break;
	case 4: ints<short> ("short"); break; case 5: ints<unsigned short> ("unsigned short"); break; case 6: ints<long long> ("long long"); break; case 7: ints<unsigned long long> ("unsigned long long"); break; }
}
template <typename T> static void floats (const char* tname)
{
    static const double V[] = { 0, 1, 0.5, 0.05, 0.005, 1.005, 2.5, 9.995, 99.9999, 123456.789, 1e-7, 1e10, 12345678901234.5, 3e38, 1e300 };
    static const int PR[] = { 0, 1, 2, 3, 6, 9, 10, 12, 15, 17, 20, 34, 120 };
    Fmt f; f.flags = mc_choose (2)*F_LEFT | mc_choose (2)*F_SCI; f.width = WIDTHS[mc_choose (NW)]; static const char FI[] = { 0, ' ', '0' }; f.fill = FI[mc_choose (3)]; f.prec = PR[mc_choose (13)];
    static char e[1000];
    mc_state (mc_mix (mc_mix (f.flags, f.width), f.fill*256+f.prec));
    for (unsigned i = 0; i < sizeof(V)/sizeof(V[0]); ++i) for (int neg = 0; neg < 2; ++neg) {
	T v = neg ? -V[i] : V[i]; int n = fmt_dbl (e, v, f);
	mc_at ("%s %Lg flags %x width %d fill %d precision %d", tname, (long double) v, f.flags, f.width, f.fill, f.prec);
	ostringstream os; apply (os, f); os << v; const string& s = os.str();
	MC_CHECK (int(s.size()) == n && !memcmp (s.data(), e, n), "%s %Lg with flags %x, width %d, fill %d, precision %d is '%s', expected '%s'", tname, (long double) v, f.flags, f.width, f.fill, f.prec, s.c_str(), e);
	mc_outcome (mc_hash (0, e, n)); mc_eval();
    }
    mc_step();
}
MC_SCENARIO (reals, 3) { switch (shard) { case 0: floats<float> ("float"); break; case 1: floats<double> ("double"); break; case 2: floats<long double> ("long double"); break; } }
//---- characters: every narrow one, and wide ones around every change of length. Settings for numbers do not apply to them
static int utf (uint32_t v, uint8_t* o)
{
    int n = 1; static const uint32_t lim[] = { 0x7f, 0x7ff, 0xffff, 0x1fffff, 0x3ffffff, 0x7fffffff, 0xffffffffu }; while (v > lim[n-1]) ++n;
    if (n == 1) { o[0] = v; return 1; }
    uint64_t w = v; for (int i = n-1; i > 0; --i, w >>= 6) o[i] = 0x80|(w&0x3f); o[0] = uint8_t (0xff<<(8-n))|uint8_t (w); return n;
}
MC_SCENARIO (characters, 4)
{
    Fmt f; f.flags = mc_choose (128); f.width = WIDTHS[mc_choose (5)]; f.fill = mc_choose (2) ? '0' : 0; f.prec = 5; if ((f.flags & 3) == 3) return;
    ostringstream os; apply (os, f); static uint8_t e[4096]; int n = 0;
    switch (shard) {
	case 0: for (int i = 0; i < 256; ++i) { os << char(i) << (unsigned char)(255-i); e[n++] = i; e[n++] = 255-i; } break;
	case 1: for (int i = 0; i < 256; ++i) { os << (signed char)(i); e[n++] = i; os.put (char(i)); e[n++] = i; } break;
	case 2: for (int b = 0; b < 32; ++b) for (int d = -1; d < 2; ++d) for (int neg = 0; neg < 2; ++neg) { uint32_t v = (1u<<b)+d; if (neg) v = ~v; os << wchar_t(v); n += utf (v, e+n); } break;
	case 3: os << true << false << "text" << "\xe9\xff" << string ("s") << '\0' << L'\0'; memcpy (e, "truefalsetext\xe9\xffs\0\0", n = 18); break;
    }
    os.flush(); const string& s = os.str(); mc_step(); mc_state (mc_mix (f.flags, f.width*256+f.fill*8+shard)); mc_outcome (shard);
    MC_CHECK (int(s.size()) == n, "%u bytes written with flags %x, width %d, fill %d, expected %d", unsigned(s.size()), f.flags, f.width, f.fill, n);
    for (int i = 0; i < n; ++i) if (uint8_t(s[i]) != e[i]) mc_fail ("byte %d is %02x, expected %02x (flags %x)", i, uint8_t(s[i]), e[i], f.flags);
}
//---- flags -------------------------------------------------------------------
MC_SCENARIO (flags, 1)
{
    ostringstream os; istringstream is; unsigned m = 0, im = 0;
    static const unsigned A[] = { ios::hex, ios::oct, ios::dec, ios::left, ios::scientific, ios::showbase, ios::showpos, ios::uppercase };
    for (int k = 0; k < 3; ++k) {
	int op = mc_choose (6); unsigned a = A[mc_choose (8)], r = m, field = a & ios::basefield ? ios::basefield : a & ios::adjustfield ? ios::adjustfield : a & ios::floatfield ? ios::floatfield : a;
	switch (op) {
	    case 0: r = os.setf (a); is.setf (a); break;
	    case 1: r = os.unsetf (a); is.unsetf (a); break;
	    case 2: r = os.setf (a, field); { unsigned ir = is.setf (a, field); MC_CHECK (ir == im, "input setf with a mask returned %x, expected %x", ir, im); } break;
	    case 3: r = os.flags (a); is.flags (a); break;
	    case 4: os << ios_base::fmtflags_bits (a); is.iread (ios_base::fmtflags_bits (a)); break;
	    case 5: os << resetiosflags (ios_base::fmtflags (a)); is.unsetf (a); break;
	}
	MC_CHECK (r == m, "operation %d with %x returned flags %x, expected the previous %x", op, a, r, m);
	switch (op) { case 0: m |= a; break; case 1: case 5: m &= ~a; break; case 2: case 4: m = (m & ~field) | a; break; case 3: m = a; break; }
	im = m;
	MC_CHECK (os.flags() == m && is.flags() == m, "flags are %x and %x after operation %d with %x, expected %x", os.flags(), is.flags(), op, a, m);
	mc_step(); mc_state (m);
    }
    { ostringstream n; char tb[4]; ostringstream l (tb, sizeof(tb)); MC_CHECK (!n.width() && n.precision() == 2 && !n.fill() && !n.flags() && n.good(), "settings of a new stream"); MC_CHECK (!l.width() && l.precision() == 2 && !l.fill() && !l.flags() && l.good(), "settings of a new linked stream"); }
    os.width (5); os.fill ('0'); os.precision (3); MC_CHECK (os.width() == 5 && os.fill() == '0' && os.precision() == 3, "settings do not read back");
    os.set_width (7); os.set_precision (4); MC_CHECK (os.width() == 7 && os.precision() == 4, "settings do not read back"); os << ios::width (9); MC_CHECK (os.width() == 9, "width manipulator");
    os.flags (0); os << ios::base (16); MC_CHECK (os.flags() == ios::hex, "base manipulator"); os << ios::base (8); MC_CHECK (os.flags() == ios::oct, "base manipulator"); os << ios::base (10); MC_CHECK (os.flags() == ios::dec, "base manipulator");
}
//---- histories ----------------------------------------------------------------
struct Txt { char d[4096]; int n; Txt (void) : n (0) {} void add (const char* p, int k) { if (n+k > 4096) mc_fail ("harness error: text too long"); memcpy (d+n, p, k); n += k; } void add (const char* s) { add (s, strlen (s)); } };
static char longtext[400];
static void op (ostringstream& os, Txt& t, int o, int step)
{
    char b[512]; int n;
    switch (o) {
	case 0: os << 'a'; t.add ("a"); break;
	case 1: os << "word"; t.add ("word"); break;
	case 2: n = 17+step*40; longtext[n] = 0; os << (const char*) longtext; t.add (longtext); longtext[n] = 'L'; break;
	case 3: os << -1234567; t.add ("-1234567"); break;
	case 4: n = os.format ("<%*d|%s>", 3+step*9, 5, "x"); { int e = sprintf (b, "<%*d|%s>", 3+step*9, 5, "x"); t.add (b, e); MC_CHECK (n == e, "format returned %d, expected %d", n, e); } break;
	case 5: os << string ("st\0r", 4); t.add ("st\0r", 4); break;
	case 6: os.write (longtext, step*33); t.add (longtext, step*33); break;
	case 7: os.put ('\xe9'); t.add ("\xe9"); break;
	case 8: { const string& s = os.str(); MC_CHECK (int(s.size()) == t.n && !memcmp (s.data(), t.d, t.n) && !s.c_str()[t.n], "str() in between gives '%s' (%u), expected %d bytes '%.*s'", s.c_str(), unsigned(s.size()), t.n, t.n, t.d); } break;
	case 9: os << endl; t.add ("\n"); break;
	case 10: os << 1.5; t.add ("1.50"); break;
	case 11: os << (step & 1); t.add (step & 1 ? "1" : "0"); os << bool (step & 1); t.add (step & 1 ? "true" : "false"); break;
	case 12: { string s ("restart"); if (step & 1) s.append (60, 'r'); os.str (s); t.n = 0; t.add (s.data(), s.size()); } break;
	case 13: os << (const void*) 0x1234; t.add ("4660"); break;
	case 14: { vector<int> v; v.push_back (1); v.push_back (-2); os << v; t.add ("(1,-2)"); } break;
	case 15: os.flush(); break;
	case 16: os << flush; os << (unsigned char) 'u'; t.add ("u"); break;
	case 18: { int h = t.n/2; t.n = h; os.seekp (h); MC_CHECK (int(os.tellp()) == h, "seekp (%d) went to %d", h, int(os.tellp())); n = h+4; cmemlink l (longtext, n); os.write (l); t.add (longtext, n); } break;
	case 19: os.write (cmemlink (longtext, 3)); t.add (longtext, 3); if (t.n > 1) { os.seekp (-2, ios_base::cur); t.n -= 2; os << "zz"; t.add ("zz"); } break;
	case 17: os << make_pair (7, string ("p")); t.add ("(7,p)"); break;
    }
}
enum { NOPS = 20 };
MC_SCENARIO2 (histories, NOPS*5, NOPS*5)
{
    memset (longtext, 'L', sizeof(longtext)-1);
    const int kind = shard / NOPS, len = MC_TIER (4, 5); Txt t;
    static const int SZ[] = { 0, 1, 16, 100 };
    int bs = kind == 1 ? SZ[mc_choose (4)] : 0; char* ub = kind == 1 ? (char*) mc_guard (0, bs) : 0; if (ub) memset (ub, 0xA5, bs);
    void* lit = kind == 2 || kind == 4 ? mc_guard_ro ("literal", 8) : 0;
    {
	string init; if (kind == 2) init.link ((const char*) lit, 7); else if (kind == 3) init = "owned text";
	// an initial text gives the buffer, which is written from the start
	ostringstream a, b (ub, bs), c (init); ostringstream& os = kind == 1 ? b : kind == 2 || kind == 3 ? c : a;
	if (kind == 4) { string s; s.link ((const char*) lit, 7); os.str (s); t.add ("literal"); }
	for (int k = 0; k < len; ++k) {
	    int o = k == 0 ? shard % NOPS : mc_choose (NOPS);
	    op (os, t, o, k);
	    MC_CHECK (os.good() && int(os.pos()) == t.n, "after operation %d the stream is at %d in state %x, expected %d", o, int(os.pos()), os.rdstate(), t.n);
	    mc_step(); mc_state (mc_hash (kind, t.d, t.n));
	}
	op (os, t, 8, 0);
	if (kind == 1 && bs >= t.n) { bool restarted = false; (void) restarted; }
	op (os, t, 0, 0); op (os, t, 8, 0);
	if (kind == 2) MC_CHECK (init == "literal", "the text given to the constructor changed"); else if (kind == 3) MC_CHECK (init == "owned text", "the text given to the constructor changed");
    }
    if (ub) mc_guard_free (ub);
    if (lit) mc_guard_free (lit);
    if (mc_want_sample()) mc_sample ("kind %d, %d operations, %d bytes of text", kind, len, t.n);
}
// text written to a buffer of the user's is in that buffer as long as it fits
MC_SCENARIO (user_buffers, 40)
{
    const int size = shard, n = mc_range (0, size), chunk = mc_range (1, 6), fl = mc_choose (3); char* ub = (char*) mc_guard (0, size); memset (ub, 0xA5, size);
    {
	memlink l (ub, size); ostringstream os; os.link (l); char e[64]; int w = 0;
	while (w < n) { int k = min (chunk, n-w); for (int i = 0; i < k; ++i) e[w+i] = 'a'+(w+i)%26; os.write (e+w, k); w += k; if (fl == 1) os.flush(); else if (fl == 2) os.str(); }
	MC_CHECK (!memcmp (ub, e, n) && os.good(), "a buffer of %d has '%.*s' after writing %d", size, size, ub, n);
	for (int i = n; i < size; ++i) MC_CHECK ((unsigned char) ub[i] == 0xA5, "byte %d of the buffer was written after %d of text", i, n);
	const string& s = os.str(); MC_CHECK (int(s.size()) == n && !memcmp (s.data(), e, n), "str() has '%s' after writing %d", s.c_str(), n);
	// a stream that is not good does not grow, and keeps what fits
	os.setstate (ios_base::failbit); os << "0123456789012345678901234567890123456789"; MC_CHECK (int(os.pos()) <= max (size, int(s.capacity())) , "a failed stream grew to %d", int(os.pos()));
	MC_CHECK (!memcmp (os.begin(), e, n), "text before the failure changed");
    }
    mc_guard_free (ub); mc_step(); mc_state (mc_mix (mc_mix (size, n), chunk*4+fl));
}
// values and texts longer than 8 and 16 bits count
MC_SCENARIO (long_texts, 12)
{
    static const int L[] = { 255, 256, 257, 511, 65534, 65535, 65536, 65537, 70001, 131072, 4095, 4096 }; const int n = L[shard], how = mc_choose (8), lead = mc_choose (2);
    string t (size_t(n), 'x'), e; for (int i = 0; i < n; ++i) t[i] = 'a'+i%26; vector<int> v; ostringstream os; if (lead) { os << "abc "; e = "abc "; }
    switch (how) {
	case 0: os << t; e += t; break; case 1: os << t.c_str(); e += t; break; case 2: os.write (t.data(), n); e += t; break; case 3: for (int i = 0; i < n; ++i) os << t[i]; e += t; break;
	case 4: os.format ("%s", t.c_str()); e += t; break; case 5: os << memblock (t.data(), n); e += t; break;
	case 6: { static char b[1000000]; char* q = b; *q++ = '('; for (int i = 0; i < n; ++i) { v.push_back (i); q += sprintf (q, i ? ",%d" : "%d", i); } *q++ = ')'; os << v; e.append (b, q-b); } break;
	case 7: os.width (0); os << cmemlink (t.data(), n); e += t; break;
    }
    os << '|'; e += '|'; const string& r = os.str(); MC_CHECK (os.good() && r.size() == e.size() && !memcmp (r.data(), e.data(), e.size()), "way %d: a text of %d is written as %u bytes, expected %u", how, n, unsigned(r.size()), unsigned(e.size())); MC_CHECK (!r.c_str()[r.size()], "not terminated"); mc_step(); mc_state (mc_mix (n, how*2+lead));
    // and written over at any place
    const int z = e.size(); for (int p : { 0, 1, 255, 256, 257, 32766, 32768, 65535, 65536, 65537, z-1 }) { if (p < 0 || p >= z) continue;
	for (int w = 0; w < 3; ++w) { switch (w) { case 0: os.seekp (p); break; case 1: os.seekp (0); os.seekp (p, ios_base::cur); break; case 2: os.seekp (z-p, ios_base::end); break; }
	MC_CHECK (int(os.tellp()) == p, "seekp to %d of %d by way %d goes to %d", p, z, w, int(os.tellp())); const char c = e[p]; os << '@'; MC_CHECK (os.good() && int(os.pos()) == p+1 && os.begin()[p] == '@', "writing over character %d of %d", p, z); os.seekp (p); os << c; MC_CHECK (!memcmp (os.begin(), e.data(), z), "writing over character %d of %d", p, z); os.seekp (z); mc_step(); } }
}
//---- composite values ---------------------------------------------------------
enum Dir { NORTH, EAST, SOUTH };
static const char* const c_Dirs[] = { "north", "east", "south" };
LOOKUP_TEXT_STREAMABLE (Dir, c_Dirs, 3)
#define TXT(v, e) do { ostringstream os; os << v; const string& s = os.str(); MC_CHECK (s == e, "%s is written as '%s', expected '%s'", #v, s.c_str(), e); mc_step(); } while (0)
MC_SCENARIO (composites, 1)
{
    vector<int> v; TXT (v, "()"); v.push_back (5); TXT (v, "(5)"); v.push_back (-6); v.push_back (0); TXT (v, "(5,-6,0)");
    vector<string> vs; vs.push_back ("a"); vs.push_back (""); TXT (vs, "(a,)");
    vector<uint8_t> vb; vb.push_back ('a'); vb.push_back (0); vb.push_back (255); TXT (vb, "('a',0,255)");
    vector<int8_t> vc; vc.push_back (-1); vc.push_back ('~'); TXT (vc, "(-1,'~')");
    vector<vector<int>> vv; vv.push_back (v); vv.push_back (vector<int>()); TXT (vv, "((5,-6,0),())");
    pair<int,string> p (3, "x"); TXT (p, "(3,x)");
    map<string,int> m; m["k"] = 2; m["a"] = 1; TXT (m, "((a,1),(k,2))");
    set<int> st; st.insert (3); st.insert (1); TXT (st, "(1,3)");
    tuple<3,int> t; t[0] = 1; t[1] = 2; t[2] = 3; TXT (t, "(1,2,3)");
    array<short,2> a; a[0] = -1; a[1] = 9; TXT (a, "(-1,9)");
    matrix<2,2,int> x; x[0][0] = 1; x[0][1] = 2; x[1][0] = 3; x[1][1] = 4; TXT (x, "((1,2)(3,4))");
    bitset<5> bs; bs.set (1); bs.set (4); TXT (bs, "10010");
    TXT (NORTH, "north"); TXT (SOUTH, "south"); TXT (Dir(7), "south");
    memblock mb; mb.resize (3); memcpy (mb.data(), "xyz", 3); TXT (mb, "xyz"); cmemlink cl ("pqr", 3); TXT (cl, "pqr");
    char arr[] = "arr"; TXT (arr, "arr"); const unsigned char* us = (const unsigned char*) "us"; { ostringstream os; os.iwrite (us); MC_CHECK (os.str() == "us", "unsigned char string"); }
    { uint8_t b[4] = { 'a','b','c','d' }; ostream o (b, 4); o.skip (2); ostringstream w; o.text_write (w); MC_CHECK (w.str() == "ab", "a stream is written as %s", w.str().c_str()); istream i (b, 4); i.skip (1); ostringstream w2; i.text_write (w2); MC_CHECK (w2.str() == "bcd", "a stream is written as %s", w2.str().c_str()); }
    { ostringstream os; os << 1 << ends << 2; MC_CHECK (os.str().size() == 3 && !memcmp (os.str().data(), "1\0" "2", 3), "ends"); }
    { ostringstream os; copy (v.begin(), v.end(), ostream_iterator<int,ostringstream> (os)); MC_CHECK (os.str() == "5-60", "ostream_iterator over text gives '%s'", os.str().c_str()); }
    mc_state (1);
}
