// C03: string editing against a plain byte sequence.
#include "u.h"

static const char LIT[] = "lmnop";
static char *lit, *lin;	// terminated, and an unterminated read-only range
static void env (void) { if (!lit) { lit = (char*) mc_guard_ro (LIT, 6); lin = (char*) mc_guard_ro ("qrst", 4); } }

static void cmps (const string& a, const Seq& m, const char* who, bool term = true)
{
    MC_CHECK (a.size() == size_t(m.n), "%s.size() is %zu, expected %d", who, a.size(), m.n);
    MC_CHECK (a.empty() == !m.n, "%s.empty()", who);
    MC_CHECK (a.end() - a.begin() == m.n && a.cend() - a.cbegin() == m.n && a.c_str() == a.begin() && a.data() == a.begin(), "%s: begin/end/data", who);
    for (int i = 0; i < m.n; ++i)
	MC_CHECK ((unsigned char) (term ? a[i] : a.at(i)) == (unsigned char) m.d[i] && a.at(i) == a.begin()[i], "%s[%d] is %02x, expected %02x; string %s model %s", who, i, (unsigned char) a[i], m.d[i], mc_hex (a.begin(), a.size()), m.str());
    MC_CHECK (a.crbegin() == a.rbegin() && a.crend() == a.rend() && a.max_size() + 1 >= a.size(), "%s: crbegin, crend or max_size", who);
    if (term) { MC_CHECK (a.c_str(), "%s.c_str() is null", who); MC_CHECK (!a.c_str()[m.n], "%s is not 0-terminated (size %d)", who, m.n); }
    MC_CHECK (a.is_linked() || a.capacity() >= a.size(), "%s: capacity %zu < size %zu", who, a.capacity(), a.size());
    if (m.n) MC_CHECK (a.front() == a.at(0) && a.back() == a.at(m.n-1), "%s: front/back", who);
    int i = m.n; for (string::const_reverse_iterator r = a.rbegin(); r != a.rend(); ++r) MC_CHECK ((unsigned char) *r == (unsigned char) m.d[--i], "%s: reverse iteration", who);
}
static int enc (int* o, unsigned c)
{
    if (c < 0x80) { o[0] = c; return 1; }
    if (c < 0x800) { o[0] = 0xC0|c>>6; o[1] = 0x80|(c&63); return 2; }
    if (c < 0x10000) { o[0] = 0xE0|c>>12; o[1] = 0x80|(c>>6&63); o[2] = 0x80|(c&63); return 3; }
    o[0] = 0xF0|c>>18; o[1] = 0x80|(c>>12&63); o[2] = 0x80|(c>>6&63); o[3] = 0x80|(c&63); return 4;
}
static int sgn (int v) { return v < 0 ? -1 : v > 0; }
static int mcmp (const Seq& a, const Seq& b)
{
    for (int i = 0; i < a.n && i < b.n; ++i) { int d = (a.d[i]&255) - (b.d[i]&255); if (d) return sgn (d); }
    return sgn (a.n - b.n);
}
enum { NOPS = 40 };
static int lite;	// fewer arguments, longer histories
static int ch (int n) { if (!lite) return mc_choose (n); if (n == 2) return 0; if (n == 3) return 2*mc_choose (2); return 1+2*mc_choose (2); }
static const int CNT[] = { 0, 1, 4, 9 };
static int pickpos (const Seq& m) { int k = ch (3); return k == 0 ? 0 : k == 1 ? m.n : (m.n+1)/2; }

static void run (int shard, int depth)
{
    env();
    {
    string a, b; Seq m, mb; int fresh = 'a'-1;
    bool term = true, bterm = true;	// false while linked to the unterminated range
    int setup = mc_choose (3);		// start from an empty, a linked and an owned string
    if (setup == 1) { mc_note ("a = string (lit)"); string t (lit); a.swap (t); for (int i = 0; i < 5; ++i) m.push (LIT[i]); MC_CHECK (a.c_str() == lit, "string (const char*) copied"); }
    else if (setup == 2) { mc_note ("a.assign (\"lmnop\")"); a.assign (lit); for (int i = 0; i < 5; ++i) m.push (LIT[i]); }
    for (int step = 0; step < depth; ++step) {
	int op = step ? mc_choose (NOPS) : shard;
	char buf[16]; for (int i = 0; i < 15; ++i) buf[i] = 'A' + (fresh*3+i)%26; buf[15] = 0;
	int ibuf[16]; for (int i = 0; i < 15; ++i) ibuf[i] = buf[i];
	bool touched = true;
	switch (op) {
	    case 0: { char c = ++fresh; int k = ch (2); mc_note ("a.push_back ('%c')", c); if (k) a += c; else a.push_back (c); m.push (c); } break;
	    case 1: if (m.n) { mc_note ("a.pop_back()"); a.pop_back(); m.del (m.n-1); } else touched = false; break;
	    case 2: { int k = CNT[ch (4)]; buf[k] = 0; int v = ch (2); mc_note ("a.append (\"%s\")", buf); if (v) a += buf; else a.append (buf); m.insv (m.n, ibuf, k); } break;
	    case 3: { int k = CNT[ch (4)]; char* p = (char*) mc_guard (buf, k); int v = ch (2); mc_note ("a.append (p, %d)", k); if (v) a.append (p, k); else a.append (p, p+k); m.insv (m.n, ibuf, k); mc_guard_free (p); } break;
	    case 4: { int k = CNT[ch (4)]; char c = ++fresh; mc_note ("a.append (%d, '%c')", k, c); a.append (size_t(k), c); m.ins (m.n, c, k); } break;
	    case 5: { int v = ch (3); mc_note ("a.append (b) #%d", v); if (v == 0) { a.append (b); m.insv (m.n, mb.d, mb.n); } else if (v == 1) { a += b; m.insv (m.n, mb.d, mb.n); }
		else { int o = mb.n/2; a.append (b, o, 2); m.insv (m.n, mb.d+o, min (2, mb.n-o)); } } break;
	    case 6: { int k = CNT[ch (4)]; char* p = (char*) mc_guard (buf, k); int v = ch (2); mc_note ("a.assign (p, %d)", k); if (v) a.assign (p, k); else a.assign (p, p+k); m.n = 0; m.insv (0, ibuf, k); mc_guard_free (p); } break;
	    case 7: { int k = CNT[ch (4)]; buf[k] = 0; int v = ch (2); mc_note ("a = \"%s\"", buf); if (v) a = buf; else a.assign (buf); m.n = 0; m.insv (0, ibuf, k); } break;
	    case 8: { int k = CNT[ch (4)]; char c = ++fresh; mc_note ("a.assign (%d, '%c')", k, c); a.assign (size_t(k), c); m.n = 0; m.ins (0, c, k); } break;
	    case 9: { int p = pickpos (m), k = CNT[ch (4)]; char c = ++fresh; mc_note ("a.insert (%d, %d, '%c')", p, k, c); a.insert (string::pos_type(p), size_t(k), c); m.ins (p, c, k); } break;
	    case 10: { int p = pickpos (m), k = CNT[ch (4)]; char* s = (char*) mc_guard (buf, k); mc_note ("a.insert (%d, p, %d)", p, k); a.insert (string::pos_type(p), s, size_t(k)); m.insv (p, ibuf, k); mc_guard_free (s); } break;
	    case 11: { int p = pickpos (m), k = CNT[ch (4)]; buf[k] = 0; int v = ch (2); mc_note ("a.insert (%d, \"%s\")", p, buf); if (v) a.insert (string::pos_type(p), buf); else a.insert (string::pos_type(p), string (buf)); m.insv (p, ibuf, k); } break;
	    case 12: { int p = pickpos (m); int v = ch (3); mc_note ("a.insert (%d, b) #%d", p, v);
		if (v == 0) { a.insert (string::pos_type(p), b); m.insv (p, mb.d, mb.n); }
		else { int o = v == 1 ? 0 : (mb.n+1)/2, k = v == 1 ? 3 : 1; a.insert (string::pos_type(p), b, o, k); m.insv (p, mb.d+o, min (k, mb.n-o)); } } break;
	    case 13: { int p = pickpos (m); char c = ++fresh; int v = ch (3); mc_note ("a.insert (begin+%d, ...) #%d", p, v);
		string::iterator r;
		if (v == 0) { r = a.insert (a.begin()+p, c); m.ins (p, c); }
		else if (v == 1) { r = a.insert (a.begin()+p, buf, buf+3, 2); m.insv (p, ibuf, 3); m.insv (p, ibuf, 3); }
		else { buf[2] = 0; r = a.insert (a.begin()+p, buf, 3); for (int i = 0; i < 3; ++i) m.insv (p, ibuf, 2); }
		MC_CHECK (r == a.begin()+p, "insert returned offset %ld, expected %d", long(r-a.begin()), p); } break;
	    case 14: { int p = pickpos (m); int k = ch (4); size_t n = k == 3 ? size_t(string::npos) : size_t(k); int e = min (n, size_t(m.n-p)); mc_note ("a.erase (%d, %zu)", p, n); a.erase (string::pos_type(p), n); m.del (p, e); } break;
	    case 15: { int p = pickpos (m); int e = min (ch (4), m.n-p); int v = ch (e == 1 ? 5 : 3); mc_note ("a.erase (begin+%d, %d) #%d", p, e, v); 
		string::iterator r = v == 0 ? a.erase (a.begin()+p, size_t(e)) : v == 1 ? a.erase (a.begin()+p, a.begin()+p+e) : v == 2 ? a.eraser (p, p+e) : v == 3 ? a.erase (a.begin()+p) : a.erase (string::const_iterator (a.begin()+p));
		MC_CHECK (r == a.begin()+p, "erase returned offset %ld, expected %d", long(r-a.begin()), p); m.del (p, e); } break;
	    case 16: { int p = pickpos (m), n = ch (4); int e = min (n, m.n-p); int k = CNT[ch (4)]; if (!k && !e) { touched = false; break; } char* s = (char*) mc_guard (buf, k); mc_note ("a.replace (%d, %d, p, %d)", p, n, k); 
		a.replace (string::pos_type(p), size_t(n), s, size_t(k)); m.del (p, e); m.insv (p, ibuf, k); mc_guard_free (s); } break;
	    case 17: { int p = pickpos (m), n = ch (4); int e = min (n, m.n-p); int v = ch (3); mc_note ("a.replace (%d, %d, b) #%d", p, n, v);
		if (v == 0) { a.replace (string::pos_type(p), size_t(n), b); m.del (p, e); m.insv (p, mb.d, mb.n); }
		else if (v == 1) { int o = mb.n/2; int k = min (2, mb.n-o); if (!k && !e) { touched = false; break; } a.replace (string::pos_type(p), size_t(n), b, o, 2); m.del (p, e); m.insv (p, mb.d+o, k); }
		else { a.replace (a.begin()+p, a.begin()+p+e, b); m.del (p, e); m.insv (p, mb.d, mb.n); } } break;
	    case 18: { int p = pickpos (m), n = ch (4); int e = min (n, m.n-p); int k = CNT[ch (4)]; if (!k) { touched = false; break; } char c = ++fresh; int v = ch (2); mc_note ("a.replace (%d, %d, %d, '%c') #%d", p, n, k, c, v);
		if (v) a.replace (string::pos_type(p), size_t(n), size_t(k), c); else a.replace (a.begin()+p, a.begin()+p+e, size_t(k), c); m.del (p, e); m.ins (p, c, k); } break;
	    case 19: { int p = pickpos (m), n = ch (4); int e = min (n, m.n-p); int v = ch (3); buf[3] = 0; mc_note ("a.replace (%d, %d, \"%s\") #%d", p, n, buf, v);
		if (v == 0) { a.replace (string::pos_type(p), size_t(n), buf); m.del (p, e); m.insv (p, ibuf, 3); }
		else if (v == 1) { a.replace (a.begin()+p, a.begin()+p+e, buf); m.del (p, e); m.insv (p, ibuf, 3); }
		else { a.replace (a.begin()+p, a.begin()+p+e, buf, buf+2, 3); m.del (p, e); for (int i = 0; i < 3; ++i) m.insv (p, ibuf, 2); } } break;
	    case 20: { int k = CNT[ch (4)]; mc_note ("a.resize (%d)", k); int o = m.n; a.resize (k); m.resize (k, 0); for (int i = o; i < k; ++i) { char c = ++fresh; a[i] = c; m.d[i] = c; } } break;
	    case 21: { int k = CNT[ch (4)]; char c = ++fresh; mc_note ("a.resize (%d, '%c')", k, c); a.resize (k, c); m.resize (k, c); } break;
	    case 22: mc_note ("a.clear()"); a.clear(); m.n = 0; break;
	    case 23: { int k = CNT[ch (4)]; mc_note ("a.reserve (%d)", k); a.reserve (k); touched = false; if (!a.is_linked()) term = true; } break;
	    case 24: { if (ch (2)) { mc_note ("a.copy_link()"); a.copy_link(); } else { mc_note ("a.shrink_to_fit()"); a.shrink_to_fit(); } if (!a.is_linked()) term = true; touched = false; } break;
	    case 25: { if (!a.is_linked()) a.deallocate(); 
		if (ch (2)) { mc_note ("a.link (lit)"); a.link (lit, 5); m.n = 0; for (int i = 0; i < 5; ++i) m.push (LIT[i]); }
		else { mc_note ("a.link (unterminated, 4)"); a.link (lin, 4); m.n = 0; for (int i = 0; i < 4; ++i) m.push ("qrst"[i]); term = false; touched = false; } } break;
	    case 26: { mc_note ("a.swap (b)"); a.swap (b); Seq t = m; m = mb; mb = t; bool tt = term; term = bterm; bterm = tt; touched = false; } break;
	    case 27: { mc_note ("b = a"); b = a; mb = m; bterm = true; touched = false; } break;
	    case 28: { mc_note ("string c (a), d (move (c)); a = move (d)"); string c (a); cmps (c, m, "copy", term);
		if (a.is_linked()) MC_CHECK (c.c_str() == a.c_str() || !m.n, "copy of a linked string"); else MC_CHECK (c.c_str() != a.c_str(), "copy of an owning string shares its memory");
		string d (move (c)); cmps (d, m, "moved-to", term);
		MC_CHECK (c.c_str() && !strlen (c.c_str()) == c.empty(), "moved-from string is not a valid string");
		c = "zz"; MC_CHECK (c.size() == 2 && !strcmp (c.c_str(), "zz"), "moved-from string unusable");
		a = move (d); d = "y"; MC_CHECK (d.size() == 1, "moved-from string unusable"); touched = false; } break;
	    case 29: { int o = pickpos (m); int n = ch (4); size_t k = n == 3 ? size_t(string::npos) : size_t(n); int e = min (k, size_t(m.n-o)); mc_note ("a.substr (%d, %zu)", o, k);
		string s (a.substr (o, k)); Seq ms; ms.insv (0, m.d+o, e); cmps (s, ms, "substr");
		string t (a, o, k); cmps (t, ms, "string (a, o, n)");
		char out[16]; memset (out, '#', 16); if (n) { size_t r = a.copy (out, min (k, size_t(9)), o); MC_CHECK (r == size_t(min (e, 9)), "copy returned %zu, expected %d", r, e); for (size_t i = 0; i < r; ++i) MC_CHECK (out[i] == char(ms.d[i]), "copy byte %zu", i); MC_CHECK (out[r] == '#', "copy wrote too much"); 
		    memset (out, '#', 16); r = a.copyto (out, 4, o); int x = min (m.n-o, 3); MC_CHECK (r == size_t(x) && !out[r] && out[r+1] == '#', "copyto returned %zu for %d bytes", r, x); }
		touched = false; } break;
	    case 30: { mc_note ("a + b, \"xy\" + a"); string s (a + b); Seq ms (m); ms.insv (ms.n, mb.d, mb.n); cmps (s, ms, "a + b"); 
		string t ("xy" + a); Seq mt; mt.push ('x'); mt.push ('y'); mt.insv (2, m.d, m.n); cmps (t, mt, "\"xy\" + a"); touched = false; } break;
	    case 31: { int k = ch (4); int e; char ref[64];
		switch (k) { case 0: e = a.format ("%s", ""); sprintf (ref, "%s", ""); break; case 1: e = a.format ("x%d", 7); sprintf (ref, "x%d", 7); break;
		    case 2: e = a.format ("%s-%05d", "abcdef", 42); sprintf (ref, "%s-%05d", "abcdef", 42); break; default: e = a.format ("%30s|", buf); sprintf (ref, "%30s|", buf); }
		mc_note ("a.format (...) -> \"%s\"", ref); MC_CHECK (e == int(strlen (ref)), "format returned %d, expected %zu", e, strlen (ref)); m.n = 0; for (int i = 0; ref[i]; ++i) m.push (ref[i]); } break;
	    case 32: { static const unsigned W[] = { 'w', 0x3b1, 0x20ac, 0x1f600 }; int w = ch (4); int p = pickpos (m); int v = ch (4); int e[4]; int en = enc (e, W[w]); mc_note ("wide insert %x at %d #%d", W[w], p, v);
		if (v == 0) { a.insert (string::pos_type(p), size_t(2), wchar_t(W[w])); m.insv (p, e, en); m.insv (p, e, en); }
		else if (v == 1) { a.push_back (wchar_t(W[w])); m.insv (m.n, e, en); }
		else if (v == 2) { wchar_t ws[3] = { wchar_t(W[w]), 'k', 0 }; a.append (ws); m.insv (m.n, e, en); m.push ('k'); }
		else { wchar_t ws[2] = { 'j', wchar_t(W[w]) }; a.insert (string::pos_type(p), ws, ws+2, size_t(2)); int j = 'j'; m.insv (p, e, en); m.insv (p, &j, 1); m.insv (p, e, en); m.insv (p, &j, 1); } } break;
	    case 33: { int p = pickpos (m); int v = ch (3); mc_note ("initializer list #%d", v);
		if (v == 0) { a = { 'i','j' }; m.n = 0; m.push ('i'); m.push ('j'); } else if (v == 1) { a += { 'k','l' }; m.push ('k'); m.push ('l'); } else { a.insert (a.begin()+p, { 'm','n' }); int x[] = { 'm','n' }; m.insv (p, x, 2); } } break;
	    case 34: { mc_note ("compare a with b"); int c = mcmp (m, mb); MC_CHECK (sgn (a.compare (b)) == c, "a.compare(b) is %d, expected sign %d", a.compare (b), c);
		MC_CHECK ((a == b) == !c && (a != b) == !!c && (a < b) == (c < 0), "relational operators disagree with the contents"); touched = false; } break;
	    case 35: { mc_note ("a = char"); char c = ++fresh; a = c; m.n = 0; m.push (c); } break;
	    case 36: if (m.n) { int k = ch (2); char c = ++fresh; if (a.is_linked()) a.copy_link(); if (k) { mc_note ("a.back() = '%c'", c); a.back() = c; m.d[m.n-1] = c; } else { mc_note ("a.front() = '%c'", c); a.front() = c; m.d[0] = c; } } else touched = false; break;
	    case 37: { int v = ch (4); static const wchar_t W[] = { 'w', 0x3b1, 0x20ac, 0x1f600, 'v', 0 }; Seq w; for (int i = 0; i < 5; ++i) { int e[4]; w.insv (w.n, e, enc (e, W[i])); } mc_note ("wide or string assignment #%d", v);
		if (v == 0) { a.assign (W, W+5); m = w; } else if (v == 1) { const string& r = (a = W); MC_CHECK (&r == &a, "assignment returned something else"); m = w; } else if (v == 2) { a.assign (b); m = mb; } else { const int k = ch (4); a.assign (size_t(k), W[2]); int e[4]; m.n = 0; for (int i = 0; i < k; ++i) m.insv (m.n, e, enc (e, W[2])); } } break;
	    case 38: { int p = pickpos (m), v = ch (4), k = CNT[ch (4)]; char c = ++fresh; mc_note ("with int positions at %d, %d #%d", p, k, v);
		if (v == 0) { a.insert (p, size_t(k), c); m.ins (p, c, k); } else if (v == 1) { char* s = (char*) mc_guard (buf, k); a.insert (p, (const char*) s, size_t(k)); m.insv (p, ibuf, k); mc_guard_free (s); } else if (v == 2) { a.erase (p, size_t(k)); m.del (p, min (k, m.n-p)); } else if (k&1) { a.erase (p); m.n = p; } else { a += (unsigned char) c; m.push (c); } } break;
	    case 39: { int p = pickpos (m), v = ch (4), o = (mb.n+1)/2; mc_note ("initializer list or up to the end, at %d #%d", p, v); const size_t NPOS = string::npos; int x[] = { 'u','v' };
		if (v == 0) { string c { 'u','v' }; a.swap (c); m.n = 0; m.insv (0, x, 2); if (p) { a.assign ({ 'u' }); m.n = 1; } a.append ({ 'v', 'u' }); m.push ('v'); m.push ('u'); }
		else if (v == 1) { int e = min (2, m.n-p); a.replace (a.begin()+p, a.begin()+p+e, { 'u','v' }); m.del (p, e); m.insv (p, x, 2); }
		else if (v == 2) { a.replace (string::pos_type(p), NPOS, "uv", size_t(2)); m.n = p; m.insv (p, x, 2); a.append (b, o, NPOS); m.insv (m.n, mb.d+o, mb.n-o); }
		else { a.insert (string::pos_type(p), b, o, NPOS); m.insv (p, mb.d+o, mb.n-o); if (p == 0) { a.assign (b, o, NPOS); m.n = 0; m.insv (0, mb.d+o, mb.n-o); } } } break;
	}
	if (touched) term = true;
	mc_step();
	cmps (a, m, "a", term); cmps (b, mb, "b", bterm);
	MC_CHECK (mc_heap_live() == !a.is_linked() + !b.is_linked(), "%ld heap blocks are live, two strings own %d", mc_heap_live(), !a.is_linked() + !b.is_linked());
	MC_CHECK (0 == memcmp (lit, LIT, 6), "linked memory was modified");
	mc_heap_check();
	mc_state (mc_mix (mc_mix (m.hash(), mb.hash()), a.capacity()*4+a.is_linked()*2+b.is_linked()));
	if (step == depth-1 && mc_want_sample()) mc_sample ("string history ending with op %d: a=\"%s\" linked %d, b=\"%s\"", op, term ? a.c_str() : "?", a.is_linked(), bterm ? b.c_str() : "?");
    }
    }
}
MC_SCENARIO (string_ops, NOPS)		{ lite = 0; run (shard, MC_TIER (2, 3)); }
MC_SCENARIO (string_ops_deep, NOPS)	{ lite = 1; run (shard, MC_TIER (3, 4)); }

// every position and length combination on strings of every length up to 24: one edit each
MC_SCENARIO (string_edit_sizes, 25)
{
    env();
    const int n = shard;
    string a; Seq m; for (int i = 0; i < n; ++i) { a.push_back (char('a'+i)); m.push ('a'+i); }
    if (mc_choose (2)) a.shrink_to_fit();
    int at = mc_choose (n+1), what = mc_choose (3), k = mc_choose (10);
    char buf[24]; int ib[24]; for (int i = 0; i < 24; ++i) ib[i] = buf[i] = 'A'+i;
    if (what == 0) { a.insert (string::pos_type(at), buf, size_t(k)); m.insv (at, ib, k); mc_note ("%d chars, insert (%d, p, %d)", n, at, k); }
    else if (what == 1) { k = min (k, n-at); a.erase (string::pos_type(at), size_t(k)); m.del (at, k); mc_note ("%d chars, erase (%d, %d)", n, at, k); }
    else { int r = min (mc_choose (10), n-at); mc_note ("%d chars, replace (%d, %d, p, %d)", n, at, r, k); if (k || r) a.replace (string::pos_type(at), size_t(r), buf, size_t(k)); m.del (at, r); m.insv (at, ib, k); }
    cmps (a, m, "a"); mc_step(); mc_state (m.hash());
}

// one edit of strings of sizes around every power of two, by amounts around every power of two
#include "big.h"
typedef Big<char> BC;
static const char* pattern (void) { static char* p; if (!p) { p = (char*) mc_raw_alloc (BC::MAX); for (int i = 0; i < BC::MAX; ++i) p[i] = 1+(i*7 + (i>>8)*13)%255; } return p; }	// no zeros
static void cmpbig (const string& a, const BC& m, const char* what, int n, int k, int at)
{
    MC_CHECK (a.size() == size_t(m.n) && (a.is_linked() || a.capacity() >= a.size()), "%s (n=%d k=%d at=%d): size %zu, capacity %zu, expected size %d", what, n, k, at, a.size(), a.capacity(), m.n);
    if (memcmp (a.begin(), m.d, m.n)) { int i = 0; while (a[i] == m.d[i]) ++i; mc_fail ("%s (n=%d k=%d at=%d): character %d is %02x, expected %02x", what, n, k, at, i, (unsigned char) a[i], (unsigned char) m.d[i]); }
    MC_CHECK (!a.c_str()[m.n], "%s (n=%d k=%d at=%d): not terminated", what, n, k, at);
    mc_step();
}
MC_SCENARIO (string_sizes, 32)
{
    const char* P = pattern(); static char cbuf[BC::MAX+2]; static char* fmt; if (!fmt) fmt = (char*) mc_raw_alloc (BC::MAX);
    for (int ni = shard; ni < bigsizes(); ni += 32) {
	const int n = bigsize (ni); if (n > MC_TIER (66000, 140000)) continue;
	memcpy (fmt, P, n); fmt[n] = 0; char* lit = (char*) mc_guard (fmt, n+1);
	for (int way = 0; way < 3; ++way) for (int ki = 0; ki < NBIGK; ++ki) {
	    const int k = BIGK[ki]; BC m, m2; char* p = (char*) mc_guard (P+9, k);
	    #define SSTART string a; if (way == 2) a.link (lit, n); else a.assign (lit, n); if (way == 1) a.shrink_to_fit(); m.set (P, n)
	    for (int ai = 0; ai < NBIGAT; ++ai) {
		const int at = bigat (n, ai); mc_at ("n=%d k=%d at=%d way=%d", n, k, at, way);
		{ SSTART; a.insert (string::pos_type(at), p, size_t(k)); m.insv (at, p, k); cmpbig (a, m, "insert text", n, k, at); a.erase (string::pos_type(at), size_t(k)); m.del (at, k); cmpbig (a, m, "erase", n, k, at); }
		{ SSTART; a.insert (string::pos_type(at), size_t(k), 'x'); m.ins (at, k, 'x'); cmpbig (a, m, "insert characters", n, k, at); }
		if (k < 5000) { SSTART; a.insert (string::pos_type(at), size_t(k), wchar_t(0x20ac)); m.ins (at, 3*k); for (int i = 0; i < k; ++i) memcpy (m.d+at+3*i, "\xe2\x82\xac", 3); cmpbig (a, m, "insert wide characters", n, k, at); }
		if (k < 5000) { SSTART; string::iterator r = a.insert (a.begin()+at, P+3, P+6, size_t(k)); MC_CHECK (r == a.begin()+at, "insert returned offset %ld", long(r-a.begin())); m.ins (at, 3*k); for (int i = 0; i < k; ++i) memcpy (m.d+at+3*i, P+3, 3); cmpbig (a, m, "insert text k times", n, k, at); }
		if (at + k <= n) { SSTART; string::iterator r = a.erase (a.begin()+at, size_t(k)); MC_CHECK (r == a.begin()+at, "erase returned offset %ld", long(r-a.begin())); m.del (at, k); cmpbig (a, m, "erase", n, k, at); }
		if (at + k <= n) { SSTART; string::iterator r = a.erase (a.begin()+at, a.begin()+at+k); MC_CHECK (r == a.begin()+at, "erase of a range returned offset %ld", long(r-a.begin())); m.del (at, k); cmpbig (a, m, "erase range", n, k, at); }
		{ const string ks (P+9, size_t(k)); { SSTART; a.insert (string::pos_type(at), ks); m.insv (at, P+9, k); cmpbig (a, m, "insert string", n, k, at); } { SSTART; a.insert (string::pos_type(at), ks.c_str()); m.insv (at, P+9, k); cmpbig (a, m, "insert C text", n, k, at); }
		  if (n > at) { SSTART; a.replace (string::pos_type(at), size_t(n-at), ks); m.del (at, n-at); m.insv (at, P+9, k); cmpbig (a, m, "replace with string", n, k, at); } }
		static const int RK[] = { 0, 1, 7, 255, 256, 300, 65536 };
		for (int ri = 0; ri < 7; ++ri) { const int r = RK[ri]; if (at + k > n || !(r|k)) continue; SSTART; a.replace (string::pos_type(at), size_t(k), P+50, size_t(r)); m.del (at, k); m.insv (at, P+50, r); cmpbig (a, m, "replace", n, k, at);
		    if (r) { SSTART; a.replace (string::pos_type(at), size_t(k), size_t(r), 'y'); m.del (at, k); m.ins (at, r, 'y'); cmpbig (a, m, "replace with characters", n, k, at); } }
		{ SSTART; string s (a.substr (at, k)); m2.set (m.d+at, min (k, n-at)); cmpbig (s, m2, "substr", n, k, at); string t (a, at, k); cmpbig (t, m2, "string (s, at, k)", n, k, at); t.append (a, at, k); m2.insv (m2.n, m.d+at, min (k, n-at)); cmpbig (t, m2, "append part", n, k, at); }
		if (at + k <= n) {	// parts of another text, from any place of it
		    const string src (P, size_t(n)); { SSTART; a.insert (string::pos_type(n/2), src, size_t(at), size_t(k)); m.insv (n/2, P+at, k); cmpbig (a, m, "insert part", n, k, at); }
		    if (n|k) { SSTART; a.replace (string::pos_type(n/2), size_t(n-n/2), src, size_t(at), size_t(k)); m.del (n/2, n-n/2); m.insv (n/2, P+at, k); cmpbig (a, m, "replace with part", n, k, at); }
		    { SSTART; string e2 (p, size_t(k)); a.replace (string::pos_type(at), size_t(n-at), e2.c_str()); m.del (at, n-at); m.insv (at, p, k); cmpbig (a, m, "replace with text to the end of it", n, k, at); }
		    if (k) { SSTART; memset (cbuf, 0x7e, k+2); size_t r = a.copyto (cbuf, k+1, at); MC_CHECK (r == size_t(k) && !memcmp (cbuf, m.d+at, k) && !cbuf[k] && cbuf[k+1] == 0x7e, "copyto of %d at %d of %d gives %zu", k, at, n, r); r = a.copy (cbuf, k, at); MC_CHECK (r == size_t(k) && !memcmp (cbuf, m.d+at, k) && !cbuf[k], "copy of %d at %d of %d gives %zu", k, at, n, r); }
		}
		mc_eval();
	    }
	    { SSTART; a.append (p, k); m.insv (n, p, k); cmpbig (a, m, "append", n, k, 0); a += 'z'; m.ins (m.n, 1, 'z'); cmpbig (a, m, "+= char", n, k, 0); a.append (size_t(k), 'q'); m.ins (m.n, k, 'q'); cmpbig (a, m, "append characters", n, k, 0); a.pop_back(); a.shrink_to_fit(); m.n -= !!m.n; cmpbig (a, m, "shrink_to_fit", n, k, 0); }
	    { SSTART; string b (p, size_t(k)); m2.set (p, k); cmpbig (b, m2, "construct", n, k, 0); string c (a); cmpbig (c, m, "copy", n, k, 0); c += b; m.insv (n, p, k); cmpbig (c, m, "+=", n, k, 0); string d (a + b); cmpbig (d, m, "+", n, k, 0); b = a; m.n = n; cmpbig (b, m, "assignment", n, k, 0); }
	    { SSTART; a.resize (k); if (k > n) { memset (a.begin()+n, 'r', k-n); m.ins (n, k-n, 'r'); } m.n = k; if (way < 2 || k != n) cmpbig (a, m, "resize", n, k, 0); a.assign (size_t(k), 's'); m.n = 0; m.ins (0, k, 's'); cmpbig (a, m, "assign characters", n, k, 0); a.assign (p, k); m.set (p, k); cmpbig (a, m, "assign", n, k, 0); a = lit; m.set (P, n); cmpbig (a, m, "= text", n, k, 0); }
	    { SSTART; int r = a.format ("%*d", k, 5); int x = max (k, 1); m.n = 0; m.ins (0, x, ' '); m.d[x-1] = '5'; MC_CHECK (r == x, "format returned %d, expected %d", r, x); cmpbig (a, m, "format", n, k, 0); r = a.format ("%s|%.*s", lit, min (k, n), lit); m.set (P, n); m.ins (n, 1, '|'); m.insv (n+1, P, min (k, n)); MC_CHECK (r == m.n, "format returned %d, expected %d", r, m.n); cmpbig (a, m, "format text", n, k, 0); }
	    mc_guard_free (p);
	}
	mc_guard_free (lit); mc_state (n); mc_outcome (n);
    }
}
