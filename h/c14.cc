// C14: file input streams over every way the operating system can deliver a file.
#include "u.h"
#include <limits.h>
#include "fakeos.h"
#include "text.h"
static int nintr;
static int pol_cuts (char op, int, long avail)	// all, 1 or 2 bytes, or interrupted
{
    if (op != 'r') return OS_ALL;
    if (nintr < 2 && mc_dev (2)) { ++nintr; return -EINTR; }
    nintr = 0;
    int c = avail > 1 ? mc_choose (avail > 2 ? 3 : 2) : 0;
    return c == 0 ? int(OS_ALL) : c;
}
static int pol_dev (char op, int, long avail)	// the same, each cut counted as a deviation
{
    if (op != 'r') return OS_ALL;
    int c = mc_dev (avail > 3 ? 4 : 3); if (!c) return OS_ALL;
    if (c == 1) return -EINTR;
    return c-1;
}
struct Content { const char* p; int n; };
#define CT(s) { s, sizeof(s)-1 }
static const Content CTS[] = { CT(""), CT("7"), CT("12 345 -6"), CT("ab 'c d' ef\n"), CT("a\n\nbcd\nef"), CT("true 0x1f\n2.5e1"), CT("\xc3\xa9 \xe2\x82\xac\xf0\x9f\x98\x80"), CT("  \t,"), CT("\0a\xff" "b c\n"), CT("x\\\"y\" '\\n\\\\' z") };
enum { NCTS = sizeof(CTS)/sizeof(CTS[0]) };
static const int BS[] = { 1, 2, 3, 5, 8, 32 };
// ---- values until the end --------------------------------------------------------
enum { NKIND = 12 };
static void readall (ifstream& is, TM& m, int kind)
{
    char e[64], b[64]; int l; string s; bool ng; bool ov; unsigned long long mg;
    for (int k = 0; k < 40; ++k) {
	const int at = m.pos; bool stop = false;
	switch (kind) {
	    case 0: l = m.rword (e); is >> s; MC_CHECK (int(s.size()) == l && !memcmp (s.data(), e, l), "word %d is '%s', expected '%s'", k, vis (s.data(), s.size()), vis (e, l)); break;
	    case 1: { int v; m.rint (ng, mg, ov); is >> v; int x = ng ? 0-mg : mg; MC_CHECK (v == x, "number at %d is %d, expected %d", at, v, x); if (!m.fail && m.pos < m.n && !m.isd (m.t[m.pos])) { settle (is, m, "number"); m.rword (e); is >> s; } } break;
	    case 2: { double x = m.rdbl(), v; is >> v; MC_CHECK (v == x, "number at %d is %g, expected %g", at, v, x); if (!m.fail && m.pos < m.n && !m.isd (m.t[m.pos])) { settle (is, m, "number"); m.rword (e); is >> s; } } break;
	    case 3: l = m.get (e, 60, '\n', true); getline (is, s); MC_CHECK (int(s.size()) == l && !memcmp (s.data(), e, l) && int(is.gcount()) == m.gc, "line at %d is '%s' of %u, expected '%s' of %d", at, vis (s.data(), s.size()), is.gcount(), vis (e, l), m.gc); break;
	    case 4: memset (b, 'Z', 64); l = m.get (e, 3, '\n', true); is.getline (b, 4); MC_CHECK (!memcmp (b, e, l) && !b[l] && b[4] == 'Z' && int(is.gcount()) == m.gc, "line at %d is '%s' of %u, expected '%s' of %d", at, vis (b, l+1), is.gcount(), vis (e, l), m.gc); break;
	    case 5: { int x = m.left() ? (unsigned char) m.t[m.pos] : EOF; m.read (e, 1); int v = is.get(); MC_CHECK (v == x, "character at %d is %d, expected %d", at, v, x); } break;
	    case 6: { wchar_t v; long x = m.rwchar(); is >> v; MC_CHECK (m.fail || long(v) == x, "wide character at %d is %lx, expected %lx", at, long(v), x); } break;
	    case 7: case 8: { int z = kind == 7 ? 5 : 20; memset (b, 'Z', 64); l = m.read (e, z); is.read (b, z); MC_CHECK (!memcmp (b, e, l) && b[l] == 'Z' && int(is.gcount()) == l, "%d bytes read at %d are '%s' (%u), expected '%s' (%d)", z, at, vis (b, z), is.gcount(), vis (e, l), l); stop = m.fail; } break;
	    case 9: { bool v, x = m.rbool(); is >> v; MC_CHECK (v == x, "bool at %d is %d", at, v); } break;
	    case 10: { int c = k & 1 ? 3 : 9; m.ignore (c, '\n'); is.ignore (c, '\n'); MC_CHECK (int(is.gcount()) == m.gc, "ignore at %d: %u", at, is.gcount()); int x = m.left() ? (unsigned char) m.t[m.pos] : EOF, v = is.peek(); MC_CHECK (v == x, "peek at %d is %d, expected %d", m.pos, v, x); stop = !m.left(); } break;
	    case 11: { l = is.readsome (b, 4); int x = m.left() < 4 ? m.left() : 4; MC_CHECK (l == x && !memcmp (b, m.t+m.pos, l), "readsome at %d gives %d bytes, expected %d", at, l, x); m.pos += l; m.fail = is.fail(); stop = !m.left(); } break;
	}
	stop |= m.fail;
	if (stop && kind < 7) MC_CHECK (is.eof(), "end of file is not reported");
	settle (is, m, "reading"); mc_step();
	if (stop) return;
    }
}
MC_SCENARIO_F (cuts, NKIND*NCTS, NKIND*NCTS, 2, 3, 0)
{
    const int kind = shard / NCTS; const Content& c = CTS[shard % NCTS];
    if (kind == 6 && shard % NCTS == 8) return;	// not UTF-8
    int bs = BS[mc_choose (MC_TIER (5, 6))];
    os_reset(); nintr = 0; os_mkfile ("f", c.p, c.n); os_policy = pol_cuts;
    { ifstream is ("f"); is.set_buffer_size (bs); TM m (c.p, c.n); mc_note ("kind %d of '%s' through a buffer of %d", kind, vis (c.p, c.n), bs); readall (is, m, kind); }
    MC_CHECK (!os_open_count() && !os_closes_bad, "the file was not closed, or twice");
    uint64_t h = mc_mix (shard, bs); for (int i = 0; i < os_nlog; ++i) h = mc_mix (h, os_log[i].ret); mc_state (h);
    if (mc_want_sample()) mc_sample ("kind %d of '%s' through a buffer of %d in %ld reads", kind, vis (c.p, c.n), bs, os_reads);
}
// ---- histories of different extractions and seeks ------------------------------------
static const Content HT[] = { CT("12 ab\n-7,x\ny"), CT("\n\na b\n0x1F true 2.5e1 \"q w\" z\n"), CT(""), CT("\xff\xfe 1;;2\xff" "c") };
enum { NHT = 4, NFOPS = NOPS+7 };
static void fop (ifstream& is, TM& m, int o, int k)
{
    char c[8]; int l;
    switch (o - NOPS) {
	case 0: m.fail = false; l = is.sync(); MC_CHECK (l == 0 && is.good(), "sync returned %d", l); m.pos = os_fd[0].pos; break;	// what was buffered is dropped
	case 1: m.fail = false; if (m.left()) { is.get(); is.putback ('Q'); MC_CHECK (is.good() && is.tellg() == m.pos, "putback"); l = is.get(); MC_CHECK (l == 'Q', "after putback the next character is %d", l); ++m.pos; } break;
	case 2: m.pos = m.n > 1; is.seekg (m.pos); m.fail = false; break;
	case 3: is.seekg (0, ios_base::end); m.pos = m.n; m.fail = false; break;
	case 4: m.fail = false; if (m.pos) { --m.pos; is.seekg (-1, ios_base::cur); } break;
	case 5: l = is.pos(); is.set_delimiters (k & 1 ? "b" : " \t\n\r;:,.?"); m.dl = k & 1 ? "b" : " \t\n\r;:,.?"; MC_CHECK (int(is.pos()) == l, "moved"); m.fail = false; break;
	case 6: { bool room = is.pos(); l = is.tellg(); is.putback ('W'); m.fail = !room; if (room) { int v = is.get(); MC_CHECK (v == 'W' && is.tellg() == l, "putback"); } } break;
	default: if (o == 20) return; op (is, m, true, o, k); return;
    }
    if (o - NOPS != 6) settle (is, m, "file operation"); else { MC_CHECK (is.fail() == m.fail && is.tellg() == m.pos, "putback failed: %d", is.fail()); is.clear(); }
}
MC_SCENARIO_F (histories, NFOPS*NHT, NFOPS*NHT, 2, 3, 0)
{
    const Content& c = HT[shard / NFOPS]; const int len = 3, bs = BS[mc_choose (MC_TIER (4, 6))];
    os_reset(); os_mkfile ("f", c.p, c.n); os_policy = pol_dev;
    { ifstream is; is.open ("f"); is.set_buffer_size (bs); TM m (c.p, c.n); mc_note ("'%s' through a buffer of %d", vis (c.p, c.n), bs);
    for (int k = 0; k < len; ++k) { int o = k ? mc_choose (NFOPS) : shard % NFOPS; mc_note ("operation %d at %d", o, m.pos); fop (is, m, o, k+(shard&1)); mc_step(); mc_state (mc_mix (mc_mix (m.pos, is.pos()), mc_mix (is.remaining(), shard/NFOPS*8+bs))); } }
    MC_CHECK (!os_open_count() && !os_closes_bad, "the file was not closed, or twice");
}
// ---- failures of read: nothing is lost or repeated, and the state tells -----------------
static int err_at, err_no, nread;
static int pol_err (char op, int, long avail) { if (op != 'r') return OS_ALL; if (nread++ == err_at) return -err_no; return avail > 1 && mc_dev (2) ? 1 : int(OS_ALL); }
MC_SCENARIO_F (errors, NCTS*3, NCTS*3, 2, 3, 0)
{
    const Content& c = CTS[shard / 3]; const int bs = BS[mc_choose (5)], what = mc_choose (6); err_at = mc_choose (MC_TIER (8, 12)); err_no = shard % 3 == 0 ? EIO : shard % 3 == 1 ? EAGAIN : ENOMEM; nread = 0;
    static const int EX[] = { 0, 0, 0, ios_base::failbit, ios_base::failbit|ios_base::badbit, ios_base::allbadbits }; const unsigned ex = EX[what];
    os_reset(); os_mkfile ("f", c.p, c.n); os_policy = pol_err; bool thrown = false, ended = false;
    {
	ifstream is ("f"); is.set_buffer_size (bs); is.exceptions (ex); TM m (c.p, c.n); int got = 0; string s, all;
	mc_note ("'%s' through a buffer of %d, read number %d fails with %d, loop %d", vis (c.p, c.n), bs, err_at, err_no, what);
	for (int k = 0; k < 60 && !ended; ++k) {
	    const int reads0 = nread;
	    try {
		if (what == 1 || what == 5) { getline (is, s); all += s; got += is.gcount(); if (is.gcount() > s.size()) all += '\n'; }
		else { int v = is.get(); if (v != EOF) { all += char(v); ++got; } }
	    } catch (stream_bounds_exception& e) { thrown = true; MC_CHECK (ex, "thrown without being asked"); MC_CHECK (is.fail(), "exception without a failure state"); }
	    catch (file_exception& e) { thrown = true; MC_CHECK (ex, "thrown without being asked"); MC_CHECK (is.fail() && e.Errno() == err_no && err_no != EAGAIN, "exception reports error %d, expected %d", e.Errno(), err_no); MC_CHECK (!strcmp (e.Operation(), "read") && !strcmp (e.Filename(), "f"), "exception reports %s of %s", e.Operation(), e.Filename()); }
	    bool failed = err_at >= reads0 && err_at < nread;	// in this operation
	    if (failed && err_no != EAGAIN) MC_CHECK (is.fail(), "an error of read is not reported");
	    if (!failed && !is.good() && !is.fail()) {}
	    MC_CHECK (!is.fail() || !ex || thrown || what != 3, "failure without the exception that was asked for");
	    if (is.fail()) { if (!failed) ended = true; is.clear(); }
	    mc_step();
	}
	MC_CHECK (ended, "the end is never reported");
	// with exceptions a line that was cut is in the string nobody has; the characters are not affected
	if (what != 1 && what != 5) { MC_CHECK (int(all.size()) == c.n && !memcmp (all.data(), c.p, c.n), "the characters are '%s', expected '%s'", vis (all.data(), all.size()), vis (c.p, c.n)); }
	else if (what == 1) { int n = all.size(); MC_CHECK (n == c.n && !memcmp (all.data(), c.p, n), "the lines are '%s', expected '%s'", vis (all.data(), n), vis (c.p, c.n)); }
	(void) got;
    }
    mc_state (mc_mix (shard*100+bs, err_at*10+what)); mc_outcome (thrown);
}
// ---- exception masks and the end of the file -----------------------------------------------
MC_SCENARIO_F (masks, 8, 8, 2, 4, 0)
{
    const Content& c = CTS[mc_choose (NCTS)]; const int bs = BS[mc_choose (6)], kind = mc_choose (3); const unsigned ex = shard;
    os_reset(); os_mkfile ("f", c.p, c.n); os_policy = pol_dev; char e[64]; int l = 0;
    ifstream is ("f"); is.set_buffer_size (bs); is.exceptions (ex); TM m (c.p, c.n); string s; bool end = false;
    mc_note ("'%s' through a buffer of %d, mask %u, kind %d", vis (c.p, c.n), bs, ex, kind);
    for (int k = 0; k < 40 && !end; ++k) {
	bool thrown = false; int v = EOF, x = EOF;
	if (kind == 0) l = m.rword (e); else if (kind == 1) l = m.get (e, 60, '\n', true); else { x = m.left() ? (unsigned char) m.t[m.pos] : EOF; m.read (e, 1); }
	try { if (kind == 0) is >> s; else if (kind == 1) getline (is, s); else v = is.get(); }
	catch (stream_bounds_exception& x) { thrown = true; }
	MC_CHECK (thrown == (m.fail && (ex & (ios_base::failbit|ios_base::eofbit))), "with exception mask %u, at %d of %d: %s", ex, m.pos, m.n, thrown ? "threw" : "did not throw");
	MC_CHECK (is.fail() == m.fail, "with exception mask %u, at %d of %d: failure %d, expected %d", ex, m.pos, m.n, is.fail(), m.fail);
	if (!thrown && kind < 2) MC_CHECK (int(s.size()) == l && !memcmp (s.data(), e, l), "with exception mask %u, got '%s', expected '%s'", ex, vis (s.data(), s.size()), vis (e, l));
	if (!thrown && kind == 2) MC_CHECK (v == x, "with exception mask %u, got %d, expected %d", ex, v, x);
	MC_CHECK (is.tellg() == m.pos, "position %ld, expected %d", long(is.tellg()), m.pos);
	end = m.fail; mc_step();
    }
    MC_CHECK (end, "never ends"); mc_state (mc_mix (shard*8+bs, kind*100+m.n));
}
// ---- several files in one stream ----------------------------------------------------------------
MC_SCENARIO (reopen, 8)
{
    os_reset(); static const char A[] = "first file with words\nand lines\n", B[] = "2nd\n"; os_mkfile ("a", A, sizeof(A)-1); os_mkfile ("b", B, sizeof(B)-1); os_mkfile ("gone", 0, 0); os_file[2].exists = false;
    { ifstream is; is.set_buffer_size (BS[shard % 4 + 2]); TM m ("", 0); bool open = false; char e[64]; string s;
    for (int k = 0; k < MC_TIER (4, 5); ++k) {
	int o = k ? mc_choose (7) : shard / 4; mc_note ("operation %d", o);
	switch (o) {
	    case 0: is.open ("a"); m = TM (A, sizeof(A)-1); open = true; MC_CHECK (is.good() && is.is_open() && is.fd() >= FD0, "open failed"); break;
	    case 1: is.open ("b"); m = TM (B, sizeof(B)-1); open = true; MC_CHECK (is.good() && is.is_open(), "open failed"); break;
	    case 2: is.open ("gone"); open = false; MC_CHECK (is.fail() || is.bad(), "opening a file that does not exist succeeded"); MC_CHECK (!is.is_open(), "a stream is open after a failed open"); break;
	    case 3: is.close(); open = false; MC_CHECK (!is.is_open(), "open after close"); break;
	    default: if (!open) { is >> s; MC_CHECK (is.fail() && !s.size(), "read '%s' from a closed stream", s.c_str()); is.clear(); break; }
		{ int l = o == 4 ? m.rword (e) : o == 5 ? m.get (e, 60, '\n', true) : m.read (e, 1); if (o == 4) is >> s; else if (o == 5) is.getline (s); else { int c = is.get(); s.clear(); if (c != EOF) s += char(c); } MC_CHECK (int(s.size()) == l && !memcmp (s.data(), e, l), "read '%s', expected '%s'", vis (s.data(), s.size()), vis (e, l)); settle (is, m, "reading"); } break;
	}
	MC_CHECK (os_open_count() == open, "%d descriptors are open", os_open_count()); mc_step(); mc_state (mc_mix (o, m.pos));
    } }
    MC_CHECK (!os_open_count() && !os_closes_bad, "the file was not closed, or twice");
}
// ---- large files: the default buffer, and words, lines and reads at and around its size ------------
MC_SCENARIO_F (large, 24, 42, 1, 1, 0)
{
    static char t[20000]; static char e[20000]; const int L[] = { 1, 4095, 4096, 8190, 4094, 4097, 9000 }; const int a = L[mc_choose (MC_TIER (4, 7))], b = L[shard / 6], kind = shard % 6, dflt = mc_choose (2); int n = 0;
    for (int i = 0; i < a; ++i) t[n++] = 'a' + i % 23; t[n++] = '\n'; for (int i = 0; i < b; ++i) t[n++] = 'A' + i % 19; if (dflt) t[n++] = ' ';
    os_reset(); os_mkfile ("f", t, n); os_policy = pol_dev; ifstream is ("f"); if (!dflt) is.set_buffer_size (1000); TM m (t, n); string s; static char r[20000];
    for (int k = 0; k < 20; ++k) {
	int l; switch (kind) {
	    case 0: l = m.rword (e); is >> s; break; case 1: l = m.get (e, 19999, '\n', true); is.getline (s); break; case 2: l = m.read (e, 3000); is.read (r, 3000); s.assign (r, is.gcount()); break;
	    case 3: l = m.read (e, 5000); is.read (r, 5000); s.assign (r, is.gcount()); break; case 4: l = m.get (e, 4500, '\n', true); is.getline (r, 4501); s = r; break;
	    default: m.ignore (4090, 0); is.ignore (4090); l = m.rword (e); is >> s; break;
	}
	MC_CHECK (int(s.size()) == l && !memcmp (s.data(), e, l), "kind %d, piece %d has %u bytes, expected %d", kind, k, unsigned(s.size()), l); bool done = m.fail; settle (is, m, "reading"); mc_step(); if (done) return;
    }
}
// ---- pieces longer than 16 bits count, with and without a cut or interruption ----------------------
static int nread2; static int cutat, cutto; static int pol_at (char op, int, long) { if (op != 'r') return OS_ALL; return nread2++ == cutat ? cutto : int(OS_ALL); }
MC_SCENARIO (huge, 6*5)
{
    static char t[FMAX], e[FMAX], r[FMAX]; static const int L[] = { 65534, 65535, 65536, 65537, 70001 }; const int a = L[shard / 6], kind = shard % 6, dflt = mc_choose (3); int n = 0; const int b = mc_choose (2) ? 70000 : 3;
    for (int i = 0; i < a; ++i) t[n++] = 'a' + i % 23; t[n++] = '\n'; for (int i = 0; i < b; ++i) t[n++] = 'A' + i % 19; if (dflt) t[n++] = ' ';
    nread2 = 0; cutat = mc_choose (4); static const int CUT[] = { OS_ALL, 1, -EINTR, 4095 }; cutto = CUT[mc_choose (4)]; if (cutto == OS_ALL && cutat) return;
    os_reset(); os_mkfile ("f", t, n); os_policy = pol_at; ifstream is ("f"); if (!dflt) is.set_buffer_size (1000); else if (dflt == 2) is.set_buffer_size (70000); TM m (t, n); string s;
    for (int k = 0; k < 20; ++k) {
	int l; switch (kind) {
	    case 0: l = m.rword (e); is >> s; break; case 1: l = m.get (e, FMAX-1, '\n', true); is.getline (s); break; case 2: l = m.read (e, 65537); is.read (r, 65537); s.assign (r, is.gcount()); break;
	    case 3: l = m.read (e, 131000); is.read (r, 131000); s.assign (r, is.gcount()); break; case 4: l = m.get (e, 65536, '\n', true); is.getline (r, 65537); s = r; break;
	    default: m.ignore (65600, 0); is.ignore (65600); MC_CHECK (int(is.gcount()) == m.gc, "ignore counts %u, expected %d", unsigned(is.gcount()), m.gc); l = m.rword (e); is >> s; break;
	}
	MC_CHECK (int(s.size()) == l && !memcmp (s.data(), e, l), "kind %d, piece %d has %u bytes, expected %d", kind, k, unsigned(s.size()), l); bool done = m.fail; MC_CHECK (done || is.tellg() == m.pos, "position %ld, expected %d", long(is.tellg()), m.pos); settle (is, m, "reading"); mc_step(); mc_state (mc_mix (shard, m.pos)); if (done) return;
    }
}
// ---- standard input asks for the output to be shown first --------------------------------------------
MC_SCENARIO (prompt, 1)
{
    os_reset(); os_std = true; int f = os_mkfile ("tty-in", "answer 1\n", 9), g = os_mkfile ("tty-out", 0, 0); for (int i = 0; i < 3; ++i) { os_stdfd[i] = OsFd(); os_stdfd[i].open = true; os_stdfd[i].file = i ? g : f; }
    { ifstream in (STDIN_FILENO); int w = mc_choose (3); if (w) cout << "name? "; string s; in >> s; MC_CHECK (s == "answer", "read '%s'", s.c_str()); MC_CHECK (os_file[g].n == (w ? 6 : 0), "output was not flushed before input"); }
    os_std = false; mc_step();
}
