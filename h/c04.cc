// C04: string search and comparison against their definitions, exhaustively over short strings.
#include "u.h"

struct H {	// a haystack surrounded by searchable bytes, ending at an unmapped page
    char b[40]; int n; char* mem;
    void set (const char* s, int len) { char t[64]; memcpy (t, "abcabc", 6); memcpy (t+6, s, len); n = len; memcpy (b, s, len); mem = (char*) mc_guard (t, len+6); }
    void done (void) { mc_guard_free (mem); }
    const char* p (void) const { return mem+6; }
};
typedef size_t P;
static const P NP = string::npos;
static bool at (const H& h, int i, const H& s) { return i >= 0 && i + s.n <= h.n && 0 == memcmp (h.b+i, s.b, s.n); }
static bool in (char c, const H& s) { for (int i = 0; i < s.n; ++i) if (s.b[i] == c) return true; return false; }
static int decode (char* o, int maxlen, long k, int alpha, const char* A)	// k-th string over A in length order
{
    int n = 0; long cnt = 1; (void) maxlen;
    while (k >= cnt) { k -= cnt; cnt *= alpha; ++n; }
    for (int i = 0; i < n; ++i) { o[i] = A[k%alpha]; k /= alpha; }
    return n;
}
static long total (int maxlen, int alpha) { long t = 0, c = 1; for (int i = 0; i <= maxlen; ++i) { t += c; c *= alpha; } return t; }

#define EXPECT(call, exp) do { P r_ = (call), e_ = (exp); MC_CHECK (r_ == e_, "\"%.*s\": " #call " with \"%.*s\" pos %zu is %zu, expected %zu", h.n, h.b, s.n, s.b, pos, r_, e_); } while (0)

enum { SH = 64 };
static int maxh (void) { return MC_TIER (6, 8); }
static int maxs (void) { return MC_TIER (4, 5); }

// haystacks over {a,b,c}; needles over {a,b,c}
MC_SCENARIO (find_substring, SH)
{
    const int A = 3; long nh = total (maxh(), A), ns = total (maxs(), A);
    for (long k = shard; k < nh; k += SH) {
	H h; char t[16]; int n = decode (t, 8, k, A, "abc"); h.set (t, n);
	string hs; hs.link (h.p(), h.n);
	for (long j = 0; j < ns; ++j) {
	    H s; int sn = decode (t, 8, j, A, "abc"); s.set (t, sn);
	    string ss; ss.link (s.p(), s.n);
	    for (int pi = -1; pi <= h.n+1; ++pi) {
		P pos = pi < 0 ? NP : P(pi);
		mc_at ("haystack \"%.*s\" needle \"%.*s\" pos %zu", h.n, h.b, s.n, s.b, pos);
		P f = NP, r = NP, fo = NP, fno = NP, lo = NP, lno = NP;
		for (int i = h.n; i >= 0; --i) if (P(i) >= pos && at (h,i,s)) f = i;
		for (int i = 0; i <= h.n; ++i) if (P(i+s.n) <= pos && at (h,i,s)) r = i;
		for (int i = h.n-1; i >= 0; --i) if (P(i) >= pos) { if (in (h.b[i],s)) fo = i; else fno = i; }
		for (int i = 0; i < h.n; ++i) if (P(i) <= pos) { if (in (h.b[i],s)) lo = i; else lno = i; }
		if (s.n) {
		    EXPECT (hs.find (ss, pos), f); EXPECT (hs.find (s.p(), pos, s.n), f);
		    EXPECT (hs.rfind (ss, pos), r); EXPECT (hs.rfind (s.p(), pos, s.n), r);
		    if (pos == NP) EXPECT (hs.rfind (ss), r);
		    if (pos == 0) EXPECT (hs.find (ss), f);
		}
		if (s.n == 1) {
		    EXPECT (hs.find (s.b[0], pos), f);
		    EXPECT (hs.find ((unsigned char) s.b[0], pos), f);
		    P rc = NP; for (int i = 0; i < h.n; ++i) if (P(i) <= pos && h.b[i] == s.b[0]) rc = i;
		    EXPECT (hs.rfind (s.b[0], pos), rc);
		    EXPECT (hs.find_first_of (s.b[0], pos), fo); EXPECT (hs.find_first_not_of (s.b[0], pos), fno);
		    EXPECT (hs.find_last_of (s.b[0], pos), lo); EXPECT (hs.find_last_not_of (s.b[0], pos), lno);
		    const unsigned char uc = s.b[0]; EXPECT (hs.rfind (uc, pos), rc); EXPECT (hs.find_first_of (uc, pos), fo); EXPECT (hs.find_first_not_of (uc, pos), fno); EXPECT (hs.find_last_of (uc, pos), lo); EXPECT (hs.find_last_not_of (uc, pos), lno);
		    if (pos == NP) { EXPECT (hs.rfind (s.b[0]), rc); EXPECT (hs.find_last_of (s.b[0]), lo); EXPECT (hs.find_last_not_of (s.b[0]), lno); EXPECT (hs.find_last_of (ss), lo); EXPECT (hs.find_last_not_of (ss), lno); }
		    if (pos == 0) { EXPECT (hs.find (s.b[0]), f); EXPECT (hs.find_first_of (s.b[0]), fo); EXPECT (hs.find_first_not_of (s.b[0]), fno); EXPECT (hs.find_first_of (ss), fo); EXPECT (hs.find_first_not_of (ss), fno); }
		}
		if (s.n <= 3) {
		    EXPECT (hs.find_first_of (ss, pos), fo); EXPECT (hs.find_first_not_of (ss, pos), fno);
		    EXPECT (hs.find_last_of (ss, pos), lo); EXPECT (hs.find_last_not_of (ss, pos), lno);
		    if (s.n) { EXPECT (hs.find_first_of (s.p(), pos, s.n), fo); EXPECT (hs.find_last_of (s.p(), pos, s.n), lo);
			EXPECT (hs.find_first_not_of (s.p(), pos, s.n), fno); EXPECT (hs.find_last_not_of (s.p(), pos, s.n), lno); }
		}
		mc_eval(); mc_step(); mc_outcome (mc_mix (f*64+r, fo*4096+fno*512+lo*64+lno));
	    }
	    mc_state (mc_mix (k, j));
	    s.done();
	}
	h.done();
    }
    if (shard == 0) mc_sample ("haystack strings %ld x needles %ld x every start position", nh, ns);
}

static int sgn (long v) { return v < 0 ? -1 : v > 0; }
static int ref (const char* a, int an, const char* b, int bn)
{
    for (int i = 0; i < an && i < bn; ++i) { int d = (unsigned char) a[i] - (unsigned char) b[i]; if (d) return sgn (d); }
    return sgn (an - bn);
}
// comparison over bytes {0, 1, 'a', 0xe9}: order by unsigned byte, then length
MC_SCENARIO (compare_all, SH)
{
    const int A = 4; static const char AL[] = { 0, 1, 'a', char(0xe9) };
    const int ML = MC_TIER (4, 5); long nh = total (ML, A);
    for (long k = shard; k < nh; k += SH) {
	H h; char t[16]; int n = decode (t, 8, k, A, AL); h.set (t, n);
	string a; a.link (h.p(), n); string ao (h.p(), size_t(n));
	for (long j = 0; j < nh; ++j) {
	    H s; int sn = decode (t, 8, j, A, AL); s.set (t, sn);
	    string b; b.link (s.p(), sn);
	    int c = ref (h.b, h.n, s.b, s.n);
	    mc_at ("compare %s with %s", mc_hex (h.b, h.n), mc_hex (s.b, s.n));
	    #define CK(e,x) MC_CHECK ((e) == (x), #e " is wrong for %s and %s", mc_hex (h.b, h.n), mc_hex (s.b, s.n))
	    CK (sgn (a.compare (b)), c); CK (a == b, !c); CK (a != b, !!c); CK (a < b, c < 0); CK (a > b, c > 0); CK (a <= b, c <= 0); CK (a >= b, c >= 0);
	    CK (ao == b, !c); CK (sgn (string::compare (a.begin(), a.end(), b.begin(), b.end())), c);
	    CK (string::hash (a.begin(), a.end()) == string::hash (b.begin(), b.end()), !c || string::hash (a.begin(), a.end()) == string::hash (b.begin(), b.end()));
	    if (!memchr (s.b, 0, s.n)) {
		char z[8]; memcpy (z, s.b, s.n); z[s.n] = 0; char* zp = (char*) mc_guard (z, s.n+1);
		CK (a == zp, !c); CK (a != zp, !!c); CK (sgn (a.compare (zp)), c); CK (a < zp, c < 0); CK (a > zp, c > 0); CK (zp == a, !c); CK (zp < a, c > 0); CK (zp > a, c < 0); CK (zp != a, !!c);
		if (h.n <= 3) for (int o = 0; o <= h.n; ++o) for (int l = 0; o+l <= h.n+1; ++l) CK (sgn (a.compare (o, o+l > h.n ? P(NP) : P(l), zp)), ref (h.b+o, o+l > h.n ? h.n-o : l, s.b, s.n));
		mc_guard_free (zp);
	    }
	    if (s.n == 1) { CK (a == s.b[0], !c); CK (a != s.b[0], !!c); CK (a < s.b[0], c < 0); CK (a == (unsigned char) s.b[0], !c); }
	    if (h.n <= 3 && s.n <= 3) for (int o = 0; o <= h.n; ++o) for (int l = 0; o+l <= h.n; ++l) {
		CK (sgn (a.compare (o, l, b)), ref (h.b+o, l, s.b, s.n));
		CK (sgn (a.compare (o, l, s.p(), size_t(s.n))), ref (h.b+o, l, s.b, s.n));
		if (o+l == h.n) { CK (sgn (a.compare (o, NP, b)), ref (h.b+o, l, s.b, s.n)); CK (sgn (a.compare (o, NP, s.p(), size_t(s.n))), ref (h.b+o, l, s.b, s.n)); CK (sgn (a.compare (o, l+1, b, 0, NP)), ref (h.b+o, l, s.b, s.n)); }
		for (int o2 = 0; o2 <= s.n; ++o2) CK (sgn (a.compare (o, l, b, o2, s.n-o2)), ref (h.b+o, l, s.b+o2, s.n-o2));
	    }
	    mc_eval(); mc_step(); mc_outcome (mc_mix (c, k*1000+j)); mc_state (mc_mix (k, j));
	    s.done();
	}
	h.done();
    }
}
// long strings: a needle planted at every offset of a long haystack
MC_SCENARIO (find_long, 8)
{
    for (int n = shard*16; n < shard*16+16; ++n) for (int sn = 1; sn <= 9 && sn <= n; ++sn) for (int o = 0; o+sn <= n; ++o) {
	char t[160]; for (int i = 0; i < n; ++i) t[i] = "ab"[(i*i/3)&1];
	char nd[10]; for (int i = 0; i < sn; ++i) nd[i] = i == sn-1 ? 'z' : "ab"[i&1];
	memcpy (t+o, nd, sn);
	char* hp = (char*) mc_guard (t, n); char* sp = (char*) mc_guard (nd, sn);
	string h, s; h.link (hp, n); s.link (sp, sn);
	MC_CHECK (h.find (s) == P(o), "needle of %d at %d of %d: find says %zu", sn, o, n, h.find (s));
	MC_CHECK (h.rfind (s) == P(o), "needle of %d at %d of %d: rfind says %zu", sn, o, n, h.rfind (s));
	MC_CHECK (h.find ('z') == P(o+sn-1) && h.rfind ('z') == P(o+sn-1), "character search in %d at %d", n, o+sn-1);
	mc_guard_free (hp); mc_guard_free (sp); mc_eval();
    }
}

// needles, first differences and sets of many sizes at many places of haystacks of sizes around every power of two
#include "big.h"
MC_SCENARIO (search_sizes, 32)
{
    static char *hay, *z; if (!hay) { hay = (char*) mc_raw_alloc (400000); z = (char*) mc_raw_alloc (400000); }
    for (int ni = shard; ni < bigsizes(); ni += 32) {
	const int n = bigsize (ni); for (int i = 0; i < n; ++i) hay[i] = 1 + (unsigned(i)*i/3 + i/256)%97;	// no bytes above 97
	for (int ki = 0; ki < NBIGK; ++ki) {
	    const int k = BIGK[ki]; if (n > 5000 && ki%MC_TIER (5,1)) continue;
	    for (int ai = 0; ai < NBIGAT; ++ai) for (int byte = 0; byte < 3; ++byte) {
		int at = bigat (n, ai); if (at == n && n) --at; if (at >= n) continue;
		static const char B[] = { char(0xe9), 0, 'z' }; const char c = B[byte];
		mc_at ("n=%d k=%d at=%d", n, k, at);
		char* hp; { char old = hay[at]; hay[at] = c; hp = (char*) mc_guard (hay, n); hay[at] = old; }
		string h; h.link (hp, n);
		#define F(call,exp) do { P r_ = (call), e_ = (exp); MC_CHECK (r_ == e_, "haystack of %d, needle of %d, at %d: " #call " is %zu, expected %zu", n, k, at, r_, e_); } while (0)
		F (h.find (c), P(at)); F (h.rfind (c), P(at)); F (h.find (c, at), P(at)); F (h.rfind (c, at), P(at)); F (h.find (c, at+1), NP); if (at) F (h.rfind (c, at-1), NP);
		if (k) {	// a needle of k whose first or last is that character
		    if (at + k <= n) { string s; s.link (hp+at, k); F (h.find (s), P(at)); F (h.rfind (s), P(at)); F (h.find (s, at), P(at)); F (h.find (s, at+1), NP); F (h.rfind (s, at+k), P(at)); F (h.rfind (s, at+k-1), NP); F (h.find (hp+at, 0, k), P(at)); F (h.rfind (hp+at, NP, k), P(at)); }
		    if (at + 1 >= k) { string s; s.link (hp+at+1-k, k); F (h.find (s), P(at+1-k)); F (h.rfind (s), P(at+1-k)); }
		    if (at + k <= n && k > 1) { memcpy (z, hp+at, k); z[k-1] ^= 0x80; string s; s.link (z, k); F (h.find (s), NP); F (h.rfind (s), NP); z[k-1] ^= 0x80; z[k/2] ^= 0x80; F (h.find (s), k/2 || 1 ? NP : NP); }
		    if (k <= 257) {	// sets of k characters that hold only this one of those in the haystack; and all but this one
			for (int i = 0; i < k; ++i) z[i] = 120 + i%80 == 'z' ? 'y' : 120 + i%80; z[k/2] = c; string s; s.link (z, k);
			F (h.find_first_of (s), P(at)); F (h.find_last_of (s), P(at)); F (h.find_first_of (s, at+1), NP); if (at) F (h.find_last_of (s, at-1), NP);
			for (int i = 0; i < k; ++i) z[i] = 1 + i%97; if (k >= 97) { F (h.find_first_not_of (s), P(at)); F (h.find_last_not_of (s), P(at)); F (h.find_first_not_of (s, at+1), NP); if (at) F (h.find_last_not_of (s, at-1), NP); }
		    }
		}
		{	// comparison with the text without that character: the first difference is there
		    string o; char* op = (char*) mc_guard (hay, n); o.link (op, n); const int e = sgn ((unsigned char) c - (unsigned char) hay[at]);
		    #define C(x,y) MC_CHECK ((x) == (y), "texts of %d that differ at %d: " #x " is wrong", n, at)
		    C (sgn (h.compare (o)), e); C (sgn (o.compare (h)), -e); C (h == o, false); C (h < o, e < 0); C (o < h, e > 0); C (h != o, true);
		    mc_guard_free (op);
		}
		mc_guard_free (hp); mc_eval(); mc_step();
	    }
	    {	// texts of n and k characters, one the start of the other
		for (int i = 0; i < max (n, k); ++i) z[i] = 1 + i%200; char* ap = (char*) mc_guard (z, n); char* bp = (char*) mc_guard (z, k); string a, b; a.link (ap, n); b.link (bp, k);
		MC_CHECK (sgn (a.compare (b)) == sgn (n-k) && (a == b) == (n == k) && (a < b) == (n < k) && (a > b) == (n > k), "comparison of texts of %d and %d characters, one the start of the other", n, k);
		if (!memchr (z, 0, k)) { z[k] = 0; MC_CHECK (sgn (a.compare (z)) == sgn (n-k) && (a == z) == (n == k) && (a < z) == (n < k), "comparison of a string of %d with C text of %d characters, one the start of the other", n, k); }
		mc_guard_free (ap); mc_guard_free (bp); mc_eval();
	    }
	}
	mc_state (n); mc_outcome (n);
    }
}
