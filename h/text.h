// Reference model of reading text: one cursor in one string, written out by hand.
#ifndef TEXT_H
#define TEXT_H
#include <stdlib.h>
struct TM {
    const char* t; int n, pos; const char* dl; int base; bool fail; int gc;	// fail: of the last operation
    TM (const char* p, int sz) : t (p), n (sz), pos (0), dl (" \t\n\r;:,.?"), base (0), fail (false), gc (0) {}
    int left (void) const { return n-pos; }
    bool isd (char c) const { for (const char* p = dl; *p; ++p) if (*p == c) return true; return !c; }
    // to the next character that is no delimiter
    bool skipd (void) { fail = false; while (pos < n && isd (t[pos])) ++pos; fail = pos >= n; return !fail; }
    int rchar (void) { return skipd() ? t[pos++] : 0; }
    // Integers: a sign and digits of the base, which a prefix tells if it is 0. Nothing is consumed if there are no digits.
    bool rint (bool& neg, unsigned long long& mag, bool& over) {
	mag = 0; neg = over = false; if (!skipd()) return false;
	int p = pos, b = base; while (p < n && (t[p] == '\v' || t[p] == '\f' || t[p] == ' ' || (t[p] >= '\t' && t[p] <= '\r'))) ++p;
	if (p < n && (t[p] == '-' || t[p] == '+')) neg = t[p++] == '-';
	const bool pre = p+2 < n && t[p] == '0' && (t[p+1]|0x20) == 'x' && dig (t[p+2]) < 16;
	if ((b == 0 || b == 16) && pre) { p += 2; b = 16; } else if (!b) b = p < n && t[p] == '0' ? 8 : 10;
	int q = p; for (; q < n && dig (t[q]) < b; ++q) { unsigned long long m = mag*b + dig (t[q]); if (mag > (~0ull - dig (t[q]))/b) over = true; mag = m; }
	if (q > p) pos = q;
	return true;
    }
    static int dig (char c) { return c >= '0' && c <= '9' ? c-'0' : c >= 'a' && c <= 'z' ? c-'a'+10 : c >= 'A' && c <= 'Z' ? c-'A'+10 : 99; }
    double rdbl (void) { if (!skipd()) return 0; static char b[8192]; memcpy (b, t+pos, n-pos); b[n-pos] = 0; char* e; double v = strtod (b, &e); pos += e-b; return v; }
    bool rbool (void) {
	if (!skipd()) return false;
	char c = t[pos++]; const char* w = c == 't' ? "rue" : c == 'f' ? "alse" : "";
	while (*w && pos < n && t[pos] == *w) { ++w; ++pos; }
	return c == 't' || c == '1';
    }
    // A word ends at a delimiter, which is consumed; a quoted one at the quote.
    int rword (char* o) {
	int k = 0; if (!skipd()) return 0;
	char q = t[pos] == '"' || t[pos] == '\'' ? t[pos++] : 0;
	while (pos < n) {
	    char c = t[pos++];
	    if (q ? c == q : isd (c)) break;
	    if (c == '\\' && pos < n && (q || !isd (t[pos]))) { c = t[pos++]; switch (c) { case 't': c = '\t'; break; case 'n': c = '\n'; break; case 'r': c = '\r'; break; case 'b': c = '\b'; break; case 'E': c = 27; break; } }
	    o[k++] = c;
	}
	return k;
    }
    long rwchar (void) {	// well-formed UTF-8 only
	if (!skipd()) return 0;
	unsigned char c = t[pos]; int l = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
	if (left() < l) { fail = true; return c; }
	long v = l == 1 ? c : c & (0x7f >> l); for (int i = 1; i < l; ++i) v = v*64 + (t[pos+i] & 0x3f);
	pos += l; return v;
    }
    // up to, but without, the delimiter
    int get (char* o, int max, char d, bool extract) { fail = !left(); int k = 0; while (pos < n && k < max && t[pos] != d) o[k++] = t[pos++]; gc = k; if (extract && pos < n && t[pos] == d) { ++pos; ++gc; } return k; }
    void ignore (int max, char d) { fail = false; gc = 0; while (pos < n && gc < max) { ++gc; if (t[pos++] == d) break; } }
    int read (char* o, int k) { fail = k > left(); if (fail) k = left(); memcpy (o, t+pos, k); pos += k; gc = k; return k; }
};
static const char* vis (const char* p, int n) { static char b[4][600]; static int k; char* o = b[k++&3]; char* s = o; for (int i = 0; i < n && i < 120; ++i) { unsigned char c = p[i]; s += c < 32 || c > 126 || c == '\\' ? sprintf (s, "\\x%02x", c) : sprintf (s, "%c", c); } *s = 0; return o; }
static long tpos (istringstream& is) { return is.pos(); }
#ifdef FAKEOS_H
static long tpos (ifstream& is) { return is.tellg(); }
#endif
template <class S> static void settle (S& is, TM& m, const char* what) {
    MC_CHECK (is.fail() == m.fail, "'%s' at %d: %s %s", vis (m.t, m.n), m.pos, what, m.fail ? "had nothing to read, but reports no failure" : "succeeded, but reports failure");
    MC_CHECK (tpos (is) == m.pos, "'%s': %s left the position at %ld, expected %d", vis (m.t, m.n), what, tpos (is), m.pos);
    is.clear();
}
// ---- histories of extractions -----------------------------------------------------------
enum { NOPS = 24 };
static const char* const TXT[][2] = {
    { "12 ab\n-7,x\ny", 0 }, { "\n\na b\n0x1F true 2.5e1 \"q w\" z\n", 0 }, { "", 0 }, { "true", 0 }, { "a\nb\n", 0 }, { "\xff\xfe 1;;2\xff" "c", 0 }
};
enum { NTXT = 6 };
template <class S> static void op (S& is, TM& m, bool isfile, int o, int step)
{
    char b[64], e[64]; int k, l; string s ("old"); const char* what = "";
    memset (b, 'Z', sizeof(b));
    switch (o) {
	case 0: { what = "int"; int v; bool ng, ov; unsigned long long mg; m.rint (ng, mg, ov); is >> v; MC_CHECK (v == int(ng ? 0-mg : mg), "int is %d, expected %d", v, int(ng ? 0-mg : mg)); } break;
	case 1: what = "word"; l = m.rword (e); is >> s; MC_CHECK (int(s.size()) == l && !memcmp (s.data(), e, l), "word is '%s', expected '%s'", vis (s.data(), s.size()), vis (e, l)); break;
	case 2: { what = "char"; char v, x = m.rchar(); is >> v; MC_CHECK (v == x, "char is %d, expected %d", v, x); } break;
	case 3: { what = "bool"; bool v, x = m.rbool(); is >> v; MC_CHECK (v == x, "bool is %d, expected %d", v, x); } break;
	case 4: { what = "double"; double v, x = m.rdbl(); is >> v; MC_CHECK (v == x, "double is %g, expected %g", v, x); } break;
	case 5: case 6: { what = "getline"; char d = o == 5 ? '\n' : ' '; l = m.get (e, 60, d, true); if (step & 1) is.getline (s, d); else if (o == 5) getline (is, s); else getline (is, s, d); MC_CHECK (int(s.size()) == l && !memcmp (s.data(), e, l) && int(is.gcount()) == m.gc, "line is '%s' of %u, expected '%s' of %d", vis (s.data(), s.size()), is.gcount(), vis (e, l), m.gc); } break;
	case 7: what = "get"; l = m.get (e, 60, 'b', false); is.get (s, 'b'); MC_CHECK (int(s.size()) == l && !memcmp (s.data(), e, l) && int(is.gcount()) == m.gc, "get is '%s' of %u, expected '%s' of %d", vis (s.data(), s.size()), is.gcount(), vis (e, l), m.gc); break;
	case 8: case 9: case 10: { what = "getline into a buffer"; int sz = o == 8 ? 1 : o == 9 ? 3 : 40; l = m.get (e, sz-1, '\n', true); is.getline (b, sz); MC_CHECK (!memcmp (b, e, l) && !b[l] && b[sz] == 'Z' && int(is.gcount()) == m.gc, "line is '%s' of %u, expected '%s' of %d", vis (b, l+1), is.gcount(), vis (e, l), m.gc); } break;
	case 11: what = "get into a buffer"; l = m.get (e, 3, '\n', false); is.get (b, 4); MC_CHECK (!memcmp (b, e, l) && !b[l] && b[4] == 'Z' && int(is.gcount()) == m.gc, "get is '%s' of %u, expected '%s' of %d", vis (b, l+1), is.gcount(), vis (e, l), m.gc); break;
	case 12: case 13: case 14: { what = "ignore"; int c = o == 12 ? 1 : o == 13 ? 4 : 40; char d = o == 12 ? '\0' : o == 13 ? '\xff' : '\n'; m.ignore (c, d); if (o == 12) is.ignore (1); else is.ignore (c, d); MC_CHECK (int(is.gcount()) == m.gc, "gcount after ignore is %u, expected %d", is.gcount(), m.gc); } break;
	case 15: { what = "peek"; int x = m.left() ? (unsigned char) m.t[m.pos] : EOF; int v = is.peek(); MC_CHECK (v == x, "peek is %d, expected %d", v, x); m.fail = false; } break;
	case 16: { what = "get()"; int x = m.left() ? (unsigned char) m.t[m.pos] : EOF; m.read (e, 1); int v = is.get(); MC_CHECK (v == x, "get() is %d, expected %d", v, x); } break;
	case 17: { what = "get(c)"; char c = 'k'; l = m.read (e, 1); is.get (c); MC_CHECK (c == (l ? e[0] : 'k') && int(is.gcount()) == l, "get(c) gives %d, gcount %u", c, is.gcount()); } break;
	case 18: case 19: what = "read"; k = o == 18 ? 3 : 14; l = m.read (e, k); is.read (b, k); MC_CHECK (!memcmp (b, e, l) && b[l] == 'Z' && int(is.gcount()) == l, "read is '%s' (%u bytes), expected '%s' (%d)", vis (b, k), is.gcount(), vis (e, l), l); break;
	case 20: what = "unget"; m.fail = false; if (isfile) is.get(); else if (m.pos) --m.pos; else break; is.clear(); if (!isfile || m.left()) is.unget(); break;
	case 21: what = "seekg"; m.fail = false; if (step & 1) { m.pos = m.n/2; is.seekg (m.pos); } else { k = m.left() < 2 ? m.left() : 2; is.seekg (k, ios_base::cur); m.pos += k; } MC_CHECK (is.tellg() == m.pos, "tellg"); break;
	case 22: { what = "unsigned char, short and long"; unsigned char v; short h; long d; bool ng, ov; unsigned long long mg; char c = m.rchar(); m.rint (ng, mg, ov); short eh = ng ? 0-mg : mg; is >> v; bool f1 = m.fail; m.rint (ng, mg, ov); long ed = ng ? 0-mg : mg; m.fail |= f1; is >> h >> d; MC_CHECK (char(v) == c && h == eh && d == ed, "values %d %d %ld, expected %d %d %ld", v, h, d, c, eh, ed); } break;
	case 23: { what = "readsome"; l = is.readsome (b, 5); int x = m.left() < 5 ? m.left() : 5; MC_CHECK (l == x && !memcmp (b, m.t+m.pos, l), "readsome gives %d bytes, expected %d", l, x); m.fail = is.fail(); m.pos += l; } break;
    }
    settle (is, m, what);
}
#endif
