// C09: UTF-8 encoding, decoding and iteration.
#include "big.h"
typedef uint32_t cp_t;
// Reference encoder, straight from the table at the top of utf8.h
static int enc (cp_t v, uint8_t* o)
{
    static const cp_t lim[] = { 0x7f, 0x7ff, 0xffff, 0x1fffff, 0x3ffffff, 0x7fffffff, 0xffffffffu };
    int n = 1; while (v > lim[n-1]) ++n;
    if (n == 1) { o[0] = v; return 1; }
    uint64_t w = v;
    for (int i = n-1; i > 0; --i) { o[i] = 0x80 | (w & 0x3f); w >>= 6; }
    o[0] = uint8_t (0xff << (8-n)) | uint8_t (w);
    return n;
}
static const cp_t BND[] = { 1, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xaaaaaaaau, 0x55555555, 0, 'x' };
enum { NBND = sizeof(BND)/sizeof(BND[0]) };

static void one (cp_t v)
{
    uint8_t e[8]; const int n = enc (v, e);
    mc_at ("code point %x", v);
    MC_CHECK (int(Utf8Bytes (wchar_t(v))) == n, "Utf8Bytes(%x) is %zu, the encoding has %d bytes", v, Utf8Bytes (wchar_t(v)), n);
    MC_CHECK (int(Utf8SequenceBytes (e[0])) == n && int(Utf8SequenceBytes (wchar_t(char(e[0])))) == n, "Utf8SequenceBytes(%02x) is %zu, expected %d", e[0], Utf8SequenceBytes (e[0]), n);
    uint8_t b[16]; memset (b, 0xA5, sizeof(b));
    utf8out_iterator<uint8_t*> o (b+2); *o = wchar_t(v); ++o;
    { uint8_t c[24]; memset (c, 0xA5, sizeof(c)); utf8out_iterator<uint8_t*> x (c), y (x); MC_CHECK (x == y && !(x < y), "copied output iterators differ"); *x++ = wchar_t(v); MC_CHECK (!(x == y) && y < x && !(x < y), "output iterators after writing %x compare wrong", v); *x++ = 'q'; MC_CHECK (x.base() == c+n+1 && !memcmp (c, e, n) && c[n] == 'q' && c[n+1] == 0xA5, "%x written with ++ after: %s", v, mc_hex (c, n+2)); }
    MC_CHECK (o.base() == b+2+n, "writing %x advanced by %d, expected %d", v, int(o.base()-b-2), n);
    MC_CHECK (!memcmp (b+2, e, n), "%x encoded as %s, expected %s", v, mc_hex (b+2, n), mc_hex (e, n));
    MC_CHECK (b[0] == 0xA5 && b[1] == 0xA5 && b[2+n] == 0xA5 && b[3+n] == 0xA5, "writing %x touched memory around it", v);
    b[2+n] = 'z'; b[3+n] = 0;
    utf8in_iterator<const uint8_t*> i (b+2);
    MC_CHECK (cp_t(*i) == v, "%s read as %x, expected %x", mc_hex (b+2,n), cp_t(*i), v);
    MC_CHECK (i.base() == b+2, "base() of the first character is off by %d", int(i.base()-b-2));
    ++i;
    MC_CHECK (*i == 'z' && i.base() == b+2+n, "stepping over %x went %d bytes, expected %d", v, int(i.base()-b-2), n);
    mc_outcome (n); mc_eval();
}
MC_SCENARIO2 (code_points, 64, 1024)
{
    if (mc_thorough) {	// every 32 bit value
	const cp_t sz = 1u<<22, first = cp_t(shard)*sz;
	for (cp_t k = 0; k < sz; ++k) { one (first+k); if (!(k & 0xffff)) mc_step(); }
    } else {
	for (cp_t v = shard; v < 0x220000; v += 64) one (v);
	// every pattern of 1 to 3 runs of bits
	for (int a = 0; a < 32; ++a) for (int b = a; b < 32; ++b) for (int c = b; c < 32; ++c) {
	    if ((a*32+b)%64 != shard) continue;
	    const cp_t w = (1u<<a)|(1u<<b)|(1u<<c), ones = (b == 31 ? 0 : ~0u<<(b+1)) ^ (~0u<<a);
	    one (w); one (~w); one (w-1); one (ones); one (ones ^ (1u<<c));
	}
	mc_step();
    }
    if (mc_want_sample()) mc_sample ("shard %d", shard);
}

static int build (const cp_t* c, int n, uint8_t* o, int* at) { int p = 0; for (int i = 0; i < n; ++i) { at[i] = p; p += enc (c[i], o+p); } at[n] = p; o[p] = 0; return p; }
static void same (const char* what, const string& s, const uint8_t* e, int n)
{
    MC_CHECK (int(s.size()) == n && !memcmp (s.data(), e, n), "%s gives %s (%u), expected %s (%d)", what, mc_hex (s.data(), s.size()), unsigned(s.size()), mc_hex (e,n), n);
    MC_CHECK (!s.c_str()[n], "%s left the string unterminated", what);
    mc_step();
}
// every sequence of up to 3 (4) characters: built in every way, iterated in every way
MC_SCENARIO2 (sequences, NBND, NBND*NBND)
{
    const int len = MC_TIER (mc_range (0, 3), mc_range (1, 4)); cp_t c[6]; uint8_t e[64]; int at[8];
    for (int i = 0; i < len; ++i) {
	if (i == 0) c[i] = BND[shard % NBND];
	else if (mc_thorough && i == 1) c[i] = BND[shard / NBND];
	else c[i] = BND[mc_choose (mc_thorough ? NBND-2 : NBND-4)];
    }
    const int n = build (c, len, e, at);
    mc_note ("%d characters: %s", len, mc_hex (e, n));
    mc_state (mc_hash (len, e, n));
    wchar_t w[6]; for (int i = 0; i < len; ++i) w[i] = c[i];
    MC_CHECK (int(Utf8Bytes (w, w+len)) == n, "Utf8Bytes of the range is %zu, expected %d", Utf8Bytes (w, w+len), n);
    {
	string s; copy (w, w+len, utf8out (back_inserter (s))); same ("utf8out(back_inserter)", s, e, n);
	string t; for (int i = 0; i < len; ++i) t.push_back (w[i]); same ("push_back of wide characters", t, e, n);
	string u; for (int i = 0; i < len; ++i) u += w[i]; same ("+= wide characters", u, e, n);
	string x; x.insert (0, w, w+len); same ("insert of a wide range", x, e, n);
	// insertion at every character boundary, once and twice
	for (int p = 0; p <= len; ++p) {
	    string y (x), z; z.insert (0, w, w+len);
	    uint8_t f[128]; int q = at[p]; memcpy (f, e, q); for (int k = 0; k < 2; ++k) q += enc (c[0], f+q); memcpy (f+q, e+at[p], n-at[p]); q += n-at[p];
	    if (len) { y.insert (string::pos_type(at[p]), 2, w[0]); same ("insert of two wide characters", y, f, q); }
	    q = at[p]; memcpy (f, e, q); for (int k = 0; k < 2; ++k) { memcpy (f+q, e, n); q += n; } memcpy (f+q, e+at[p], n-at[p]); q += n-at[p];
	    z.insert (string::pos_type(at[p]), w, w+len, 2); same ("insert of a wide range twice", z, f, q);
	}
	if (len) { uint8_t f[64]; int q = 0; for (int k = 0; k < 3; ++k) q += enc (c[0], f+q); string y ("old text"); y.assign (3, w[0]); same ("assign of three wide characters", y, f, q); }
	MC_CHECK (int(s.length()) == len, "length() is %zu, expected %d", size_t(s.length()), len);
	string::utf8_iterator its[6] = { s.utf8_begin(), s.utf8_begin(), s.utf8_begin(), s.utf8_begin(), s.utf8_begin(), s.utf8_begin() };
	string::utf8_iterator i = s.utf8_begin();
	for (int k = 0; k <= len; ++k) {
	    if (k < len) MC_CHECK (cp_t(*i) == c[k], "character %d is %x, expected %x", k, cp_t(*i), c[k]);
	    MC_CHECK (i.base() == s.begin()+at[k], "base() of character %d is %d, expected %d", k, int(i.base()-s.begin()), at[k]);
	    MC_CHECK (s.wiat(k) == s.begin()+at[k], "wiat(%d) is %d, expected %d", k, int(s.wiat(k)-s.begin()), at[k]);
	    MC_CHECK ((i == s.utf8_end()) == (k == len) && (i < s.utf8_end()) == (k < len), "character %d compares wrongly with the end", k);
	    its[k] = i;
	    string::utf8_iterator j = s.utf8_begin() + k; MC_CHECK (j == i && !(j < i) && !(i < j), "begin + %d is not character %d", k, k);
	    if (k < len) { string::utf8_iterator o = i++; MC_CHECK (o == its[k], "post-increment returned the wrong position"); }
	    mc_step();
	}
	for (int a = 0; a <= len; ++a) for (int b = a; b <= len; ++b) { MC_CHECK (its[b] - its[a] == b-a, "character %d - character %d is %d, expected %d", b, a, int(its[b]-its[a]), b-a); MC_CHECK (distance (its[a], its[b]) == b-a, "distance of characters %d and %d is %d", a, b, int(distance (its[a], its[b]))); }
	vector<wchar_t> v; copy (s.utf8_begin(), s.utf8_end(), back_inserter (v));
	MC_CHECK (int(v.size()) == len && !memcmp (v.data(), w, len*sizeof(wchar_t)), "copying the characters out gives %u", unsigned(v.size()));
	vector<wchar_t> v2 (s.length()); copy (s.utf8_begin(), s.utf8_end(), v2.begin());
	MC_CHECK (v == v2, "copying into place differs");
    }
    {	// binary streams, with the buffer exactly as long as the text
	void* m = n ? mc_guard (0, n) : 0;
	ostream os (m, n); utf8ostream_iterator o (utf8out (os));
	for (int i = 0; i < len; ++i, ++o) { *o = w[i]; MC_CHECK (int(os.pos()) == at[i+1], "stream at %u after character %d, expected %d", unsigned(os.pos()), i, at[i+1]); }
	MC_CHECK (!memcmp (m, e, n), "stream holds %s, expected %s", mc_hex (m, n), mc_hex (e, n));
	istream is (m, n); is.exceptions (ios_base::goodbit);
	if (len) {
	    utf8istream_iterator i (utf8in (is));
	    for (int k = 0; k < len; ++k, ++i) { MC_CHECK (cp_t(*i) == c[k], "character %d read from a stream is %x, expected %x", k, cp_t(*i), c[k]); if (k+1 < len) MC_CHECK (int(is.pos()) == at[k+1], "stream at %u after reading character %d, expected %d", unsigned(is.pos()), k, at[k+1]); mc_step(); }
	    MC_CHECK (int(is.pos()) == n, "stream at %u after the last character", unsigned(is.pos()));
	}
	mc_guard_free (m);
    }
    {	// text streams
	ostringstream os; for (int i = 0; i < len; ++i) os << w[i];
	same ("text output", os.str(), e, n);
	void* m = n ? mc_guard_ro (e, n) : 0;
	istringstream is (m, n); is.set_delimiters ("");
	if (n == 0 || !memchr (e, 0, n))	// NUL separates words in text input
	for (int i = 0; i < len; ++i) { wchar_t r = 0; is >> r; MC_CHECK (cp_t(r) == c[i] && int(is.pos()) == at[i+1], "text input of character %d gives %x at %u, expected %x at %d", i, cp_t(r), unsigned(is.pos()), c[i], at[i+1]); mc_step(); }
	mc_guard_free (m);
    }
    if (mc_want_sample()) mc_sample ("%d characters as %s", len, mc_hex (e, n));
}
// every byte string over the kinds of bytes there are: iteration ends at the end and reads nothing beyond the terminator
MC_SCENARIO2 (malformed, 12, 12)
{
    static const uint8_t B[12] = { 'a', 0x7f, 0x80, 0xbf, 0xc3, 0xdf, 0xe2, 0xf0, 0xf8, 0xfc, 0xfe, 0xff };
    const int n = mc_range (1, MC_TIER (4, 5)); uint8_t b[8]; b[0] = B[shard]; for (int i = 1; i < n; ++i) b[i] = B[mc_choose (12)]; b[n] = 0;
    mc_note ("bytes %s", mc_hex (b, n));
    mc_state (mc_hash (0, b, n));
    void* m = mc_guard_ro (b, n+1);
    string s; s.link ((const char*) m, n);
    int k = 0;
    for (string::utf8_iterator i = s.utf8_begin(); i < s.utf8_end(); ++i, ++k) { MC_CHECK (k < n, "more characters than bytes"); mc_step(); }
    int k2 = 0;
    for (string::utf8_iterator i = s.utf8_begin(); !(i == s.utf8_end()); ++i, ++k2) MC_CHECK (k2 <= n, "iteration stepped over the end");
    MC_CHECK (k == k2, "iteration by < and by == differ");
    MC_CHECK (int(s.length()) >= 0 && int(s.length()) <= n, "length() is %d of %d bytes", int(s.length()), n);
    // text input without a terminator
    void* g = mc_guard_ro (b, n);
    istringstream is (g, n); is.set_delimiters ("");
    for (int j = 0; j <= n && is.remaining() && is.good(); ++j) { wchar_t r = 0; is >> r; MC_CHECK (int(is.pos()) <= n, "text input moved to %u of %d", unsigned(is.pos()), n); }
    // binary input, where a cut character is an error
    istream bs (g, n);
    try { utf8istream_iterator i (utf8in (bs)); for (int j = 0; j < n && bs.remaining(); ++j) ++i; } catch (stream_bounds_exception&) {}
    MC_CHECK (int(bs.pos()) <= n, "binary input moved to %u of %d", unsigned(bs.pos()), n);
    istream gs (g, n); gs.exceptions (ios_base::goodbit);
    { utf8istream_iterator i (utf8in (gs)); for (int j = 0; j < n && gs.remaining(); ++j) ++i; }
    MC_CHECK (int(gs.pos()) <= n, "binary input moved to %u of %d", unsigned(gs.pos()), n);
    mc_guard_free (g); mc_guard_free (m);
    if (mc_want_sample()) mc_sample ("bytes %s: %d characters", mc_hex (b, n), k);
}

// long texts: n characters of one width or of all widths in turn, built and walked in every way
MC_SCENARIO (lengths, 8)
{
    int k = mc_choose (NBIGN-1); const int n = BIGN[k]; if (n > 70000) return;
    static const cp_t W[8] = { 'a', 0xe9, 0x20ac, 0x1f600, 0x3ffffff, 0x7fffffff, 0xffffffffu, 0 };
    static uint8_t e[500000]; static int at[70002]; static wchar_t w[70002]; int b = 0;
    for (int i = 0; i < n; ++i) { cp_t v = W[shard] ? W[shard] : W[i%7]; w[i] = v; at[i] = b; b += enc (v, e+b); } at[n] = b;
    mc_note ("%d characters of kind %d, %d bytes", n, shard, b); mc_step(); mc_state (mc_mix (n, shard));
    MC_CHECK (int(Utf8Bytes (w, w+n)) == b, "Utf8Bytes of %d is %zu, expected %d", n, Utf8Bytes (w, w+n), b);
    string s; if (n <= MC_TIER (5000, 9000)) { copy (w, w+n, utf8out (back_inserter (s))); same ("utf8out(back_inserter)", s, e, b); } else s.assign ((const char*) e, b);
    string x ("()"); x.insert (string::pos_type(1), w, w+n); MC_CHECK (int(x.size()) == b+2 && x[0] == '(' && x[b+1] == ')' && !memcmp (x.data()+1, e, b), "insert of %d wide characters", n);
    if (W[shard]) { string y ("()"); y.insert (string::pos_type(1), size_t(n), w[0]); MC_CHECK (n == 0 || y == x, "insert of %d times one wide character", n); string z ("old"); z.assign (size_t(n), w[0]); same ("assign of n wide characters", z, e, b); }
    if (n <= MC_TIER (5000, 9000)) { ostringstream os; for (int i = 0; i < n; ++i) os << w[i]; os.flush(); mc_step(); MC_CHECK (int(os.str().size()) == b && !memcmp (os.str().data(), e, b), "text output of %d characters", n); }	// this one grows by what is missing
    MC_CHECK (int(s.length()) == n, "length() is %zu, expected %d", size_t(s.length()), n);
    int c = 0; for (string::utf8_iterator i = s.utf8_begin(); i < s.utf8_end(); ++i, ++c) if (c >= n || cp_t(*i) != cp_t(w[c]) || i.base() != s.begin()+at[c]) mc_fail ("character %d of %d is %x", c, n, cp_t(*i));
    MC_CHECK (c == n, "%d characters walked, expected %d", c, n);
    for (int a = 0; a < NBIGN; ++a) if (BIGN[a] <= n) { const int p = BIGN[a]; MC_CHECK (s.wiat (p) == s.begin()+at[p], "wiat(%d) is %d, expected %d", p, int(s.wiat(p)-s.begin()), at[p]); string::utf8_iterator j = s.utf8_begin() + p; MC_CHECK (j.base() == s.begin()+at[p] && j - s.utf8_begin() == p, "character %d by addition", p); }
    vector<wchar_t> v (s.length()); copy (s.utf8_begin(), s.utf8_end(), v.begin()); MC_CHECK (int(v.size()) == n && !memcmp (v.data(), w, n*sizeof(wchar_t)), "copying %d characters out", n);
    istringstream is (s); is.set_delimiters (""); for (int i = 0; i < n; ++i) { wchar_t r = 0; is >> r; if (cp_t(r) != cp_t(w[i])) mc_fail ("text input of character %d of %d is %x", i, n, cp_t(r)); }
}
