// C13: text input.
#include "u.h"
#include <limits.h>
#include "text.h"
// ---- numbers in all short texts ---------------------------------------------
template <typename T> static void num (istringstream& is, TM& m, const char* tn)
{
    bool neg, over; unsigned long long mag; int at = m.pos; m.rint (neg, mag, over);
    T v = T(77); is >> v; T e = T(neg ? 0-mag : mag);
    mc_at ("%s from '%s' at %d", tn, vis (m.t, m.n), at);
    MC_CHECK (v == e, "%s read from '%s' at %d is %lld, expected %lld", tn, vis (m.t, m.n), at, (long long) v, (long long) e);
    settle (is, m, tn); mc_outcome (mc_mix (v, m.pos-at)); mc_eval(); mc_step();
}
static void numkind (istringstream& is, TM& m, int k) {
    switch (k) {
	case 0: num<int> (is, m, "int"); break;			case 1: num<unsigned> (is, m, "unsigned int"); break;
	case 2: num<short> (is, m, "short"); break;		case 3: num<unsigned short> (is, m, "unsigned short"); break;
	case 4: num<long> (is, m, "long"); break;		case 5: num<unsigned long> (is, m, "unsigned long"); break;
	case 6: num<long long> (is, m, "long long"); break;	case 7: num<unsigned long long> (is, m, "unsigned long long"); break;
	case 8: { int at = m.pos; double v = 7, e = m.rdbl(); is >> v; mc_at ("double from '%s' at %d", vis (m.t, m.n), at); MC_CHECK (!memcmp (&v, &e, sizeof(v)), "double read from '%s' at %d is %g, expected %g", vis (m.t, m.n), at, v, e); settle (is, m, "double"); mc_eval(); } break;
	case 9: { int at = m.pos; float v = 7, e = m.rdbl(); is >> v; mc_at ("float from '%s' at %d", vis (m.t, m.n), at); MC_CHECK (!memcmp (&v, &e, sizeof(v)), "float read from '%s' at %d is %g, expected %g", vis (m.t, m.n), at, v, e); settle (is, m, "float"); mc_eval(); } break;
    }
}
MC_SCENARIO2 (numbers, 10*3, 10*3)
{
    static const char A[] = "019-+xa .e"; const int kind = shard/3, L = MC_TIER (5, 7); char b[8];
    int n = mc_range (0, L), lead = n < 2 ? n : 2;
    for (int i = 0; i < lead; ++i) b[i] = A[mc_choose (10)];
    int tot = 1; for (int i = lead; i < n; ++i) tot *= 10;
    mc_state (mc_hash (n, b, lead));
    for (int c = 0; c < tot; ++c) {
	for (int i = lead, r = c; i < n; ++i, r /= 10) b[i] = A[r % 10];
	char* t = (char*) mc_guard (b, n);
	istringstream is (t, n); TM m (t, n);
	if (shard%3 == 1) { is.iread (ios::hex); m.base = 16; } else if (shard%3 == 2) { is.iread (ios::oct); m.base = 8; }
	numkind (is, m, kind); numkind (is, m, kind);
	if (n < 4) { int v; is >> v; is.clear(); is >> v; }	// whatever is left
	mc_guard_free (t);
    }
    if (mc_want_sample()) mc_sample ("kind %d from all %d-character texts starting with '%.*s'", kind, n, lead, b);
}
// ---- the values at the limits of the types, in every base and position ---------
MC_SCENARIO2 (limits, 10, 10)
{
    static const unsigned long long V[] = { 0, 1, 7, 8, 9, 10, 15, 16, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647u, 2147483648u, 4294967295u, 4294967296ull, 9007199254740993ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull };
    static const int BITS[] = { 31, 32, 15, 16, 63, 64, 63, 64 };
    unsigned long long v = V[mc_choose (24)]; int neg = mc_choose (2), base = mc_choose (3), pre = mc_choose (2), up = mc_choose (2), post = mc_choose (5); char b[80], *p = b;
    if (shard < 8) { unsigned long long lim = (BITS[shard] == 64 ? 0 : 1ull << BITS[shard]); if (neg ? (BITS[shard] & 1 ? v > lim : true) : lim && v >= lim) return; } else if (base) return;
    if (pre) p += sprintf (p, " ;\t");
    if (neg) *p++ = '-'; else if (up) *p++ = '+';
    p += base == 0 ? sprintf (p, "%llu", v) : base == 1 ? sprintf (p, up ? "0X%llX" : "0x%llx", v) : sprintf (p, "0%llo", v);
    static const char* POST[] = { "", " ", ",", "g", "\n9" }; p += sprintf (p, "%s", POST[post]);
    char* t = (char*) mc_guard_ro (b, p-b);
    for (int f = 0; f < 2; ++f) {
	istringstream is (t, p-b); TM m (t, p-b); if (f) { m.base = base == 1 ? 16 : base == 2 ? 8 : 0; if (m.base == 16) is.setf (ios::hex); else if (m.base == 8) is.setf (ios::oct); }
	numkind (is, m, shard); numkind (is, m, shard);
    }
    { string s (b, p-b); istringstream is (s); TM m (b, p-b); numkind (is, m, shard); }
    { istringstream is (b); TM m (b, p-b); numkind (is, m, shard); numkind (is, m, shard); }
    mc_guard_free (t);
}
// ---- words, with quotes and escapes, in all short texts ------------------------------
static void words (const char* A, int na, int L)
{
    char b[10], o[16]; int n = mc_range (0, L), lead = n < 2 ? n : 2;
    for (int i = 0; i < lead; ++i) b[i] = A[mc_choose (na)];
    int tot = 1; for (int i = lead; i < n; ++i) tot *= na;
    mc_state (mc_hash (n, b, lead));
    for (int c = 0; c < tot; ++c) {
	for (int i = lead, r = c; i < n; ++i, r /= na) b[i] = A[r % na];
	char* t = (char*) mc_guard (b, n);
	istringstream is (t, n); TM m (t, n); string s ("before");
	for (int k = 0; k < n+2; ++k) {
	    int at = m.pos, l = m.rword (o); is >> s;
	    mc_at ("word from '%s' at %d", vis (t, n), at);
	    MC_CHECK (int(s.size()) == l && !memcmp (s.data(), o, l), "word read from '%s' at %d is '%s', expected '%s'", vis (t, n), at, vis (s.data(), s.size()), vis (o, l));
	    bool done = m.fail; settle (is, m, "word"); mc_step(); mc_outcome (mc_hash (l, o, l)); if (done) break;
	}
	mc_guard_free (t); mc_eval();
    }
}
MC_SCENARIO (words, 2) { if (shard) words ("a\\\"\'n \n", 7, MC_TIER (6, 7)); else words ("t\\\" \0\xe9" "rbE;.", 11, MC_TIER (5, 6)); }
// ---- booleans, characters and wide characters ----------------------------------------
MC_SCENARIO (others, 3)
{
    static const char* PB[] = { "t", "true", "f", "false", "tr", "1", "0", " ", "x", "fal", "e" };
    static const char* PW[] = { "a", "\x7f", "\xc2\x80", "\xd0\x96", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " ", "\xdf\xbf", ",", "\xc3", "\xe2\x82" };
    static const char PC[] = "a\xff\x80 ;\0z\t";
    char b[40]; int n = 0, k = mc_range (0, MC_TIER (4, 5));
    for (int i = 0; i < k; ++i) {
	if (shard == 2) { static const int L[] = { 1,1,1,1,1,1,1,1 }; int c = mc_choose (8); b[n] = PC[c]; n += L[c]; }
	else { int c = mc_choose (shard == 0 || i == k-1 ? 11 : 9); const char* s = shard ? PW[c] : PB[c]; strcpy (b+n, s); n += strlen (s); }
    }
    mc_state (mc_hash (n, b, n));
    char* t = (char*) mc_guard_ro (b, n); istringstream is (t, n); TM m (t, n);
    for (int i = 0; i < n+2; ++i) {
	int at = m.pos; mc_at ("'%s' at %d", vis (t, n), at);
	if (shard == 0) { bool v, e = m.rbool(); is >> v; MC_CHECK (v == e, "bool read from '%s' at %d is %d", vis (t, n), at, v); }
	else if (shard == 1) { wchar_t v; long e = m.rwchar(); is >> v; MC_CHECK (m.fail || long(v) == e, "wchar_t read from '%s' at %d is %lx, expected %lx", vis (t, n), at, long(v), e); }
	else { int e = (unsigned char) m.rchar(); if (i%3 == 0) { char v; is >> v; MC_CHECK ((unsigned char) v == e, "char read from '%s' at %d is %d", vis (t, n), at, v); } else if (i%3 == 1) { unsigned char v; is >> v; MC_CHECK (v == e, "unsigned char read from '%s' at %d is %d", vis (t, n), at, v); } else { signed char v; is >> v; MC_CHECK ((unsigned char) v == e, "signed char read from '%s' at %d is %d", vis (t, n), at, v); } }
	bool done = m.fail; settle (is, m, "value"); mc_step(); if (done) break;
    }
    mc_guard_free (t);
}
// ---- histories of extractions -----------------------------------------------------------
MC_SCENARIO2 (histories, NOPS*NTXT, NOPS*NTXT)
{
    const int len = MC_TIER (4, 5); const char* src = TXT[shard/NOPS][0]; int n = strlen (src); if (shard/NOPS == 0) n = 13;
    char* t = (char*) mc_guard (src, n); { istringstream is (t, n); is.exceptions (ios::goodbit); TM m (t, n);
    for (int k = 0; k < len; ++k) { int o = k ? mc_choose (NOPS) : shard % NOPS; mc_note ("operation %d at %d", o, m.pos); op (is, m, false, o, k); mc_step(); mc_state (mc_mix (m.pos, k*NTXT+shard/NOPS)); } }
    mc_guard_free (t);
}
// ---- loops until nothing is left: as users write them -------------------------------------
MC_SCENARIO (loops, 20)
{
    static const char* W[] = { "a", "12", "\"q r\"", "-5", "zz" }; static const char* D[] = { " ", "\n", ",;", " \t " };
    char b[80]; int n = 0, k = mc_range (0, 4), nn = 0; b[0] = 0; const bool pre = shard & 1, post = shard & 2; const int first = shard / 4; if (!k && first) return; int allnum = 1; int N[4]; const char* X[4];
    if (pre) n += sprintf (b+n, "%s", D[3]);
    for (int i = 0; i < k; ++i) { int w = i ? mc_choose (5) : first; X[i] = W[w]; if (w == 1) N[nn++] = 12; else if (w == 3) N[nn++] = -5; else allnum = 0; n += sprintf (b+n, "%s", W[w]); if (i < k-1 || post) n += sprintf (b+n, "%s", D[mc_choose (4)]); }
    char* t = (char*) mc_guard_ro (b, n); mc_at ("'%s'", vis (t, n)); mc_state (mc_hash (0, b, n));
    { istringstream is (t, n); string s; int c = 0; while (is >> s) { MC_CHECK (c < k, "more words than there are in '%s'", vis (t, n)); const char* x = X[c++]; int l = strlen (x); if (*x == '"') { ++x; l -= 2; } MC_CHECK (int(s.size()) == l && !memcmp (s.data(), x, l), "word %d of '%s' is '%s'", c, vis (t, n), s.c_str()); } MC_CHECK (c == k && is.eof(), "%d words of '%s' were read, expected %d", c, vis (t, n), k); }
    { istringstream is (t, n); is.exceptions (ios_base::allbadbits); string s; int c = 0; bool thrown = false; try { for (; c < k+1; ++c) is >> s; } catch (stream_bounds_exception&) { thrown = true; } MC_CHECK (thrown && c == k, "with exceptions on, %d words of '%s' were read, expected %d", c, vis (t, n), k); }
    if (allnum) {
	istringstream is (t, n); int v, c = 0; while (is >> v) { MC_CHECK (c < k && v == N[c], "number %d of '%s' is %d", c, vis (t, n), v); ++c; } MC_CHECK (c == k, "%d numbers of '%s' were read, expected %d", c, vis (t, n), k);
	istringstream is2 (t, n); istream_iterator<int,istringstream> f (is2), l; vector<int> r; for (; f < l; ++f) { MC_CHECK (r.size() < 10, "endless iterator"); r.push_back (*f); } MC_CHECK (int(r.size()) == k && !memcmp (r.data(), N, k*sizeof(int)), "an istream_iterator gives %d numbers from '%s', expected %d", int(r.size()), vis (t, n), k);
	istringstream is3 (t, n); vector<int> r3; copy (istream_iterator<int,istringstream> (is3), istream_iterator<int,istringstream>(), back_inserter (r3)); MC_CHECK (int(r3.size()) == k && !memcmp (r3.data(), N, k*sizeof(int)), "copying from an istream_iterator gives %d numbers from '%s', expected %d", int(r3.size()), vis (t, n), k);
    }
    { istringstream is (t, n); string s; int c = 0, at = 0; for (; getline (is, s); ++c) { int l = 0; while (at+l < n && t[at+l] != '\n') ++l; MC_CHECK (int(s.size()) == l && !memcmp (s.data(), t+at, l), "line %d of '%s' is '%s'", c, vis (t, n), s.c_str()); at += l+1; MC_CHECK (at <= n+1, "more lines than text"); } MC_CHECK (at >= n, "lines of '%s' stopped at %d", vis (t, n), at); }
    { istringstream is (t, n); int c = 0, v; while ((v = is.get()) != EOF) { MC_CHECK (c < n && v == (unsigned char) t[c], "character %d of '%s' is %d", c, vis (t, n), v); ++c; } MC_CHECK (c == n, "%d characters of %d were read", c, n); }
    mc_guard_free (t); mc_step(); mc_eval();
}
// ---- delimiters ----------------------------------------------------------------------------
MC_SCENARIO (delimiters, 1)
{
    static const char ALL[] = "abcdefghijklmnopqrst"; int nd = mc_choose (21); char d[24]; memcpy (d, ALL, nd); d[nd] = 0;
    char* g = (char*) mc_guard_ro (d, nd+1); char b[24]; int n = mc_range (1, 20), at = mc_choose (3);
    for (int i = 0; i < n; ++i) b[i] = at == 0 ? ALL[i] : at == 1 ? ALL[19-i] : i & 1 ? ' ' : ALL[i];
    char* t = (char*) mc_guard_ro (b, n); istringstream is (t, n); is.set_delimiters (g); TM m (t, n); char dd[24]; strcpy (dd, d); dd[15] = 0; m.dl = dd;	// as many as there is room for
    mc_at ("delimiters '%s' in '%s'", d, vis (t, n)); char o[32]; string s;
    for (int k = 0; k < 24; ++k) { int l = m.rword (o); is >> s; MC_CHECK (int(s.size()) == l && !memcmp (s.data(), o, l), "with delimiters '%s', '%s' gives '%s', expected '%s'", d, vis (t, n), vis (s.data(), s.size()), vis (o, l)); bool done = m.fail; settle (is, m, "word"); mc_step(); if (done) break; }
    mc_guard_free (t); mc_guard_free (g); mc_state (mc_mix (nd, n*3+at));
}
// ---- words, lines and blocks longer than 8 and 16 bits count ---------------------------------
MC_SCENARIO (long_texts, 12)
{
    static const int L[] = { 255, 256, 257, 511, 65534, 65535, 65536, 65537, 70001, 131072, 4095, 4096 }; const int n = L[shard], how = mc_choose (10);
    static char b[400000], e[400000], r[400000]; int z = 0; for (int i = 0; i < n; ++i) b[z++] = 'a'+i%26; b[z++] = '\n'; b[z++] = '7'; b[z++] = ' '; for (int i = 0; i < n; ++i) b[z++] = 'A'+i%23; b[z++] = ' ';
    char* t = (char*) mc_guard_ro (b, z); istringstream is (t, z); TM m (t, z); string s; mc_at ("way %d of %d", how, n);
    for (int k = 0; k < 4; ++k) {
	int l = 0;
	switch (how) {
	    case 0: l = m.rword (e); is >> s; break; case 1: l = m.get (e, sizeof(e)-1, '\n', true); getline (is, s); break; case 2: l = m.get (e, n, '\n', true); is.getline (r, n+1); s = r; break; case 3: l = m.read (e, n+1); is.read (r, n+1); s.assign (r, is.gcount()); break;
	    case 4: m.ignore (n+1, 0); is.ignore (n+1); l = m.rword (e); is >> s; break; case 5: m.ignore (z, '\n'); is.ignore (z, '\n'); l = m.rword (e); is >> s; break; case 6: l = m.get (e, n+5, '\n', false); is.get (r, n+6); s = r; break;
	    case 7: l = m.get (e, sizeof(e)-1, 'Z'-9, true); getline (is, s, char('Z'-9)); break; case 8: { string c (size_t(n), 'q'); l = m.read (e, n); is.read (c.data(), n); s = c; s.resize (is.gcount()); } break;
	    case 9: is.seekg (k*(n/3)); m.pos = k*(n/3); l = m.rword (e); is >> s; break;
	}
	MC_CHECK (int(s.size()) == l && !memcmp (s.data(), e, l), "way %d, piece %d has %u bytes, expected %d", how, k, unsigned(s.size()), l); bool done = m.fail; MC_CHECK (done || int(is.tellg()) == m.pos, "position %d, expected %d", int(is.tellg()), m.pos); settle (is, m, "reading"); mc_step(); mc_state (mc_mix (how, mc_mix (n, m.pos))); if (done) break;
    }
    mc_guard_free (t);
}
// ---- the stream's source ---------------------------------------------------------------------
MC_SCENARIO (sources, 1)
{
    static const char* T[] = { "", "x", "12 34", "a longer text that does not fit in small places 77" };
    int a = mc_choose (4), b = mc_choose (4), how = mc_choose (4), used = mc_choose (3);
    string s (T[a]), s2 (T[b]);
    istringstream is0, is1 (T[a]), is2 (T[a], strlen (T[a])), is3 (s); istringstream& is = how == 0 ? is0 : how == 1 ? is1 : how == 2 ? is2 : is3;
    if (how == 0) { MC_CHECK (!is.remaining() && is.good(), "an empty stream has text"); is.str (s); }
    MC_CHECK (is.str() == T[a] && is.good() && is.exceptions() == ios::goodbit && is.flags() == 0, "a new stream holds '%s', expected '%s'", is.str().c_str(), T[a]);
    TM m (T[a], strlen (T[a])); char o[80]; string w;
    for (int k = 0; k < used; ++k) { int l = m.rword (o); is >> w; MC_CHECK (int(w.size()) == l && !memcmp (w.data(), o, l), "word"); settle (is, m, "word"); }
    is.seekg (0); is.str (s2); is.clear(); MC_CHECK (is.str() == T[b], "after str(s) the text is '%s', expected '%s'", is.str().c_str(), T[b]);
    TM m2 (T[b], strlen (T[b]));
    for (int k = 0; k < 12; ++k) { int l = m2.rword (o); is >> w; MC_CHECK (int(w.size()) == l && !memcmp (w.data(), o, l), "word"); settle (is, m2, "word"); mc_step(); }
    is.seekg (0); is.sync(); MC_CHECK (!is.remaining(), "sync leaves text to read"); char buf[4]; string ms ("abcd"); istringstream is4 (ms); memlink ml (buf, 4); is4.read (ml); MC_CHECK (!memcmp (buf, "abcd", 4) && is4.gcount() == 4, "read into a memlink");
    mc_state (a*64+b*16+how*4+used);
}
