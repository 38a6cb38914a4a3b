// C20: strings, blocks, streams, files, pointers and the rest under failing allocations.
#include "c20.h"
#include "fakeos.h"
static Seq txt (const cmemlink& s) { Seq r; for (size_t i = 0; i < s.size(); ++i) r.push ((unsigned char) s.begin()[i]); return r; }
static void valid (const string& s, const char* what) { const char* p = s.c_str(); MC_CHECK (!p || !p[s.size()] || s.is_linked(), "%s left a string of %u characters that is not terminated there", what, unsigned(s.size())); MC_CHECK (s.is_linked() || s.capacity() >= s.size(), "%s left a string of %u characters with a capacity of %u", what, unsigned(s.size()), unsigned(s.capacity())); }
static void inss (Seq& s, int at, const char* p, int n, int times = 1) { while (times--) for (int i = n-1; i >= 0; --i) s.ins (at, (unsigned char) p[i]); }
static const char T40[] = "0123456789abcdefghijklmnopqrstuvwxyzABCD";
enum { NSOPS = 32 };
static void strop (int o, string& a, string& b, int step)
{
    const char* what = ""; int cls = GROW, r = 0; const int n = a.size(), mid = n/2; const Seq pre0 = txt (a), pb = txt (b); Seq pre = pre0, post = pre0;
    static const wchar_t W[] = { L'w', 0xe9, 0x20ac, 0x1f600, 0 }; static const char WU[] = "w\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80";
    char buf[64]; memcpy (buf, "\x10" "stream string 16", 17);
    const int k = 3 + step*9;
    switch (o) {
	case 0: what = "append of a string"; post.insv (n, pb.d, pb.n); r = attempt (what, [&] { a.append (b); }); break;
	case 1: what = "append of text"; inss (post, n, T40, 11); r = attempt (what, [&] { a.append (T40, 11); }); break;
	case 2: what = "append of characters"; post.ins (n, 'x', 17); r = attempt (what, [&] { a.append (17, 'x'); }); break;
	case 3: what = "push_back"; post.push ('p'); r = attempt (what, [&] { a.push_back ('p'); }); break;
	case 4: what = "+= of wide text"; inss (post, n, WU, 10); r = attempt (what, [&] { a += W; }); break;
	case 5: what = "insert of a string"; post.insv (mid, pb.d, pb.n); r = attempt (what, [&] { a.insert (string::pos_type(mid), b); }); break;
	case 6: what = "insert of characters"; post.ins (mid, 'y', 9); r = attempt (what, [&] { a.insert (string::pos_type(mid), 9, 'y'); }); break;
	case 7: what = "repeated insert"; inss (post, mid, T40, 3, 3); r = attempt (what, [&] { a.insert (a.iat (mid), T40, T40+3, 3); }); break;
	case 8: what = "replace"; { int e = min (n, mid+2); post.del (mid, e-mid); pre = post; inss (post, mid, T40, 13); r = attempt (what, [&] { a.replace (a.iat (mid), a.iat (e), T40, 13); }); if (r == 2 && txt (a) == pre0) pre = pre0; } break;
	case 9: what = "repeated replace"; { int e = min (n, mid+2); post.del (mid, e-mid); pre = post; post.ins (mid, 'r', 12); r = attempt (what, [&] { a.replace (a.iat (mid), a.iat (e), 12, 'r'); }); if (r == 2 && txt (a) == pre0) pre = pre0; } break;
	case 10: what = "resize"; post.ins (n, 'z', k); r = attempt (what, [&] { a.resize (n+k, 'z'); }); break;
	case 11: what = "assign"; cls = ANY; post.n = 0; inss (post, 0, T40, k); r = attempt (what, [&] { a.assign (T40, k); }); break;
	case 12: what = "assignment"; cls = ANY; post = pb; r = attempt (what, [&] { a = b; }); break;
	case 13: what = "copy construction"; cls = KEEP; r = attempt (what, [&] { string c (a); armed = false; MC_CHECK (txt (c) == pre, "the copy is %s, expected %s", txt (c).str(), pre.str()); }); break;
	case 14: what = "substr"; cls = KEEP; r = attempt (what, [&] { string c (a.substr (mid, 5)); armed = false; MC_CHECK (int(c.size()) == min (5, n-mid), "a substring has %u characters", unsigned(c.size())); }); break;
	case 15: what = "operator +"; cls = KEEP; r = attempt (what, [&] { string c (a + b + "tail"); armed = false; MC_CHECK (int(c.size()) == n+pb.n+4, "the sum has %u characters", unsigned(c.size())); }); break;
	case 16: what = "format"; cls = ANY; post.n = 0; inss (post, 0, "<000000000000123>", 17); r = attempt (what, [&] { a.format ("<%015d>", 123); }); break;
	case 17: what = "reserve"; cls = KEEP; r = attempt (what, [&] { a.reserve (n+k); }); break;
	case 18: what = "shrink_to_fit"; cls = KEEP; r = attempt (what, [&] { a.shrink_to_fit(); }); break;
	case 19: what = "erase"; cls = ANY; if (n) post.del (mid); r = attempt (what, [&] { if (n) a.erase (a.iat (mid)); }); break;
	case 20: what = "clear"; cls = ANY; post.n = 0; r = attempt (what, [&] { a.clear(); }); break;
	case 21: what = "assign of wide text"; cls = ANY; post.n = 0; inss (post, 0, WU, 10); r = attempt (what, [&] { a.assign (W); }); break;
	case 22: what = "read"; cls = ANY; post.n = 0; inss (post, 0, buf+1, 16); r = attempt (what, [&] { istream is (buf, 17); is >> a; }); break;
	case 23: what = "change of a linked string"; cls = KEEP; r = attempt (what, [&] { string l; l.link (T40, 40); l.append ("x", 1); armed = false; MC_CHECK (l.size() == 41, "it has %u characters", unsigned(l.size())); }); break;
	case 24: what = "move assignment"; cls = ANY; post = pb; r = attempt (what, [&] { a = move (b); }); break;
	case 25: what = "search"; cls = KEEP; r = attempt (what, [&] { a.find_first_of ('5'); a.find_last_not_of ('5'); a.find (b); }); break;
	case 26: what = "insert of wide text"; inss (post, mid, WU, 10, 2); r = attempt (what, [&] { a.insert (string::pos_type(mid), W, W+4, 2); }); break;
	case 27: what = "construction"; cls = KEEP; post.n = 0; post.ins (0, 'c', 21); r = attempt (what, [&] { string c (21, 'c'); a.swap (c); }); break;
	case 28: what = "reading a word"; cls = ANY; post.n = 0; inss (post, 0, "aWordOfText_in_it", 17); r = attempt (what, [&] { istringstream is ("aWordOfText_in_it more"); is >> a; }); break;
	case 29: what = "to_string"; cls = KEEP; post.n = 0; inss (post, 0, "18446744073709551615", 20); r = attempt (what, [&] { string c (to_string (18446744073709551615ull)); a.swap (c); }); break;
	case 30: what = "assign of a list"; cls = ANY; post.n = 0; inss (post, 0, "abc", 3); r = attempt (what, [&] { a = { 'a', 'b', 'c' }; }); break;
	case 31: what = "insert of a list"; inss (post, mid, "abc", 3); r = attempt (what, [&] { a.insert (a.iat (mid), { 'a', 'b', 'c' }); }); break;
    }
    valid (a, what); valid (b, what); judge (what, cls, r, pre, post, txt (a));
    if (r && o != 24) MC_CHECK (txt (b) == pb, "%s failed, and changed its source", what);
    mc_state (mc_mix (txt (a).hash(), o));
}
MC_SCENARIO_F (strings, NSOPS, NSOPS, 2, 3, 0)
{
    faults_reset();
    {
	string a, b; static const int N[] = { 0, 1, 7, 8 }; int n = N[mc_choose (4)], lk = mc_choose (2); if (lk) a.link (T40+40-n, n); else a.assign (T40, n); b.assign (T40+20, 9);
	const int D = MC_TIER (2, 3); for (int s = 0; s < D; ++s) strop (s ? mc_choose (NSOPS) : shard, a, b, s);
	a.append ("end", 3); MC_CHECK (a.size() >= 3 && !memcmp (a.end()-3, "end", 4), "the string is not usable afterwards");
    }
    mc_heap_ask = 0; if (mc_want_sample()) mc_sample ("strings from operation %d", shard);
}
// ---- blocks -------------------------------------------------------------------
enum { NBOPS = 16 };
static void blkop (int o, memblock& a, memblock& b, int step)
{
    const char* what = ""; int cls = GROW, r = 0; const int n = a.size(), mid = n/2, k = 2 + step*7; const Seq pre = txt (a), pb = txt (b); Seq post = pre; bool fuzzy = false;
    static char rec[24] = "\x0c\0\0\0block record"; static OsFile& f = os_file[0];
    switch (o) {
	case 0: what = "assign"; cls = ANY; post.n = 0; inss (post, 0, T40, k); r = attempt (what, [&] { a.assign (T40, k); }); break;
	case 1: what = "assignment"; cls = ANY; post = pb; r = attempt (what, [&] { a = b; }); break;
	case 2: what = "resize"; fuzzy = true; r = attempt (what, [&] { a.resize (n+k); }); MC_CHECK (r || int(a.size()) == n+k, "resize made %u bytes", unsigned(a.size())); break;
	case 3: what = "insert"; fuzzy = true; r = attempt (what, [&] { a.insert (a.begin()+mid, k); }); MC_CHECK (r || int(a.size()) == n+k, "insert made %u bytes", unsigned(a.size())); break;
	case 4: what = "erase"; cls = ANY; if (n) post.del (mid); r = attempt (what, [&] { if (n) a.erase (a.begin()+mid, 1); }); break;
	case 5: what = "reserve"; cls = KEEP; r = attempt (what, [&] { a.reserve (n+k); }); break;
	case 6: what = "exact reserve"; cls = KEEP; r = attempt (what, [&] { a.reserve (n+k, true); }); break;
	case 7: what = "shrink_to_fit"; cls = KEEP; r = attempt (what, [&] { a.shrink_to_fit(); }); break;
	case 8: what = "copy construction"; cls = KEEP; r = attempt (what, [&] { memblock c (a); armed = false; MC_CHECK (txt (c) == pre, "the copy differs"); }); break;
	case 9: what = "construction of a link's copy"; cls = KEEP; r = attempt (what, [&] { memblock c (cmemlink (T40, 20)); armed = false; MC_CHECK (c.size() == 20, "the copy differs"); }); break;
	case 10: what = "copy_link"; cls = KEEP; r = attempt (what, [&] { a.copy_link(); }); break;
	case 11: what = "read"; cls = ANY; post.n = 0; inss (post, 0, rec+4, 12); r = attempt (what, [&] { istream is (rec, 16); a.read (is); }); break;
	case 12: what = "read_file"; cls = ANY; post.n = 0; inss (post, 0, f.d, f.n); r = attempt (what, [&] { a.read_file ("f"); }); break;
	case 13: what = "move assignment"; cls = ANY; post = pb; r = attempt (what, [&] { a = move (b); }); break;
	case 14: what = "deallocate"; cls = ANY; post.n = 0; r = attempt (what, [&] { a.deallocate(); }); break;
	case 15: what = "construction of a size"; cls = KEEP; r = attempt (what, [&] { memblock c (30); }); break;
    }
    const Seq now = txt (a);
    if (!fuzzy) judge (what, cls, r, pre, post, now); else if (r) MC_CHECK (now == pre, "%s failed, and left %s of %s", what, now.str(), pre.str()); else MC_CHECK (subseq (pre, now), "%s left %s of %s", what, now.str(), pre.str());
    MC_CHECK (a.is_linked() || a.capacity() >= a.size(), "%s left %u bytes with a capacity of %u", what, unsigned(a.size()), unsigned(a.capacity()));
    if (r && o != 13) MC_CHECK (txt (b) == pb, "%s failed, and changed its source", what);
    for (int i = 0; i < os_nextfd; ++i) MC_CHECK (!os_fd[i].open, "%s left a file open", what);
    mc_state (mc_mix (now.hash(), o));
    if (fuzzy && !r) for (size_t i = 0; i < a.size(); ++i) a.begin()[i] = 'f';
}
MC_SCENARIO_F (blocks, NBOPS, NBOPS, 2, 3, 0)
{
    faults_reset(); os_reset(); os_mkfile ("f", "file contents 19 by", 19);
    {
	memblock a, b; static const int N[] = { 0, 1, 8 }; int n = N[mc_choose (3)], lk = mc_choose (2); static char buf[16]; memcpy (buf, T40, 16); if (lk) a.link (buf, n); else a.assign (T40, n); b.assign (T40+20, 5);
	for (int s = 0; s < 3; ++s) blkop (s ? mc_choose (NBOPS) : shard, a, b, s);
	a.assign ("end", 3); MC_CHECK (a.size() == 3 && !memcmp (a.begin(), "end", 3), "the block is not usable afterwards");
    }
    mc_heap_ask = 0;
}
// ---- text streams ---------------------------------------------------------------
enum { NTOPS = 12 };
MC_SCENARIO_F (text_output, NTOPS, NTOPS, 2, 3, 0)
{
    faults_reset();
    {
	ostringstream os; char e[400]; int n = 0; static char user[24];
	int mode = mc_choose (3); if (mode == 1) { os.str (string ("begin")); memcpy (e, "begin", n = 5); } else if (mode == 2) os.link (user, sizeof(user));
	os.exceptions (mc_choose (2) ? ios_base::allbadbits : ios_base::goodbit);
	const int D = MC_TIER (3, 3);
	for (int s = 0; s < D; ++s) {
	    int o = s ? mc_choose (NTOPS) : shard; const char* what = ""; const char* t = ""; int r = 0; const int pre = n; char b[100]; bool reset = false;
	    switch (o) {
		case 0: what = "integer"; t = "-1234567890"; r = attempt (what, [&] { os << -1234567890; }); break;
		case 1: what = "text"; t = T40; r = attempt (what, [&] { os << T40; }); break;
		case 2: what = "character"; t = "c"; r = attempt (what, [&] { os << 'c'; }); break;
		case 3: what = "format"; t = "<000000000000123>"; r = attempt (what, [&] { os.format ("<%015d>", 123); }); break;
		case 4: what = "write"; t = "ABCDEFG"; r = attempt (what, [&] { os.write (t, 7); }); break;
		case 5: what = "wide character"; t = "\xf0\x9f\x98\x80"; r = attempt (what, [&] { os << wchar_t (0x1f600); }); break;
		case 6: what = "boolean"; t = "false"; r = attempt (what, [&] { os << false; }); break;
		case 7: what = "string"; t = "a string"; { string s (t, 8); r = attempt (what, [&] { os << s; }); } break;
		case 8: what = "str"; r = attempt (what, [&] { os.str(); }); break;
		case 9: what = "flush"; r = attempt (what, [&] { os.flush(); }); break;
		case 10: what = "real"; sprintf (b, "%.2f", 1e20/3); t = b; r = attempt (what, [&] { os << 1e20/3; }); break;
		case 11: what = "initial text"; t = "fresh text that is long"; { string s (t, strlen (t)); reset = true; r = attempt (what, [&] { os.str (s); }); } break;
	    }
	    const string& g = os.str(); valid (g, what);
	    if (reset && !r) { memcpy (e, t, n = strlen (t)); }
	    else if (reset) { n = g.size(); memcpy (e, g.c_str(), n); }
	    else if (!r) { memcpy (e+n, t, strlen (t)); n += strlen (t); }
	    MC_CHECK (int(g.size()) >= (r ? pre : n) || reset, "%s left %u characters, expected %d", what, unsigned(g.size()), r ? pre : n);
	    MC_CHECK (!memcmp (g.data(), e, r && !reset ? pre : n), "%s%s changed the text to '%s'", what, r ? " failed, and" : "", g.c_str());
	    if (r && !reset) { MC_CHECK (int(g.size()) - pre <= int(strlen (t)), "%s failed, and wrote '%s'", what, g.c_str()); n = g.size(); memcpy (e, g.data(), n); }
	    else MC_CHECK (int(g.size()) == n, "%s left %u characters, expected %d", what, unsigned(g.size()), n);
	    mc_state (mc_hash (o, e, n));
	}
	os << "end"; const string& g = os.str(); MC_CHECK (os.good() ? int(g.size()) == n+3 && !memcmp (g.data()+n, "end", 3) : true, "the stream is not usable afterwards: '%s'", g.c_str());
    }
    mc_heap_ask = 0;
}
MC_SCENARIO_F (text_input, 6, 6, 2, 3, 0)
{
    faults_reset();
    {
	static const char T[] = "first_word_here 2nd \"quoted one\"\na whole line\n123456"; istringstream is (T); string w; int n = 0, r; const char* what = "";
	if (mc_choose (2)) w.assign (T40, 3);
	for (int s = 0; s < 4; ++s) {
	    switch (s ? mc_choose (6) : shard) {
		case 0: what = "word"; r = attempt (what, [&] { is >> w; }); break;
		case 1: what = "line"; r = attempt (what, [&] { is.getline (w); }); break;
		case 2: what = "get"; r = attempt (what, [&] { is.get (w, 'w'); }); break;
		case 3: what = "number"; r = attempt (what, [&] { is >> n; }); break;
		case 4: what = "ignore"; r = attempt (what, [&] { is.ignore (40); }); break;
		case 5: what = "str"; r = attempt (what, [&] { string t (is.str().begin(), is.str().size()); w.swap (t); }); break;
	    }
	    valid (w, what); is.clear(); MC_CHECK (is.pos() <= sizeof(T)-1, "%s left the position at %u", what, unsigned(is.pos()));
	    mc_state (mc_mix (is.pos(), txt (w).hash()));
	}
	is.clear(); is.seekg (0); is >> w; MC_CHECK (w == "first_word_here", "the stream is not usable afterwards: '%s'", w.c_str());
	is.seekg (46); is >> n; MC_CHECK (n == 123456, "the stream is not usable afterwards: %d", n);
    }
    mc_heap_ask = 0;
}
// ---- files ------------------------------------------------------------------------
static void closed (const char* what, int keep) { int n = 0; for (int i = 0; i < os_nextfd; ++i) n += os_fd[i].open; MC_CHECK (n == keep, "%s: %d files are open, expected %d", what, n, keep); MC_CHECK (!os_closes_bad, "%s: closed a file twice", what); }
MC_SCENARIO_F (files, 8, 8, 2, 3, 0)
{
    faults_reset(); os_reset(); os_mkfile ("f", "some words in a file\n2nd line 77", 32); os_mkfile ("g", "", 0); os_mkfile ("long/name/of/a/file.txt", "x", 1); os_file[os_mkfile ("nofile", "", 0)].exists = false;
    static const char* const NAMES[] = { "f", "long/name/of/a/file.txt", "nofile" }; const char* nm = NAMES[mc_choose (3)]; char fn[40]; strcpy (fn, nm); string w; int r = 0;
    switch (shard) {
	case 0: { ifstream is; r = attempt ("opening for input", [&] { is.open (fn); }); closed ("open", nm[0] != 'n' && is.is_open()); if (!r && nm[0] == 'f') { r = attempt ("reading", [&] { is >> w; }); is.clear(); is.seekg (0); is >> w; MC_CHECK (w == "some", "not usable afterwards: '%s'", w.c_str()); } } break;
	case 1: attempt ("input construction", [&] { ifstream is (fn); is >> w; string l; is.getline (l); }); break;
	case 2: { ofstream os; r = attempt ("opening for output", [&] { os.open (fn); }); if (!r && nm[0] != 'n') { for (int i = 0; i < 3; ++i) attempt ("writing", [&] { os << "text"; os.format ("<%0100d>", i); }); attempt ("closing", [&] { os.close(); }); } } break;
	case 3: attempt ("output construction", [&] { ofstream os (fn); os << "text" << endl; }); break;
	case 4: { fstream f; r = attempt ("opening", [&] { f.open (fn, fstream::in); }); MC_CHECK (r || nm[0] == 'n' || f.is_open(), "the file is not open"); closed ("open", f.is_open()); attempt ("opening another", [&] { f.open ("g", fstream::in); }); closed ("open", f.is_open()); attempt ("opening with exceptions", [&] { f.exceptions (fstream::allbadbits); f.open ("f", fstream::in); char b[8]; f.read (b, 4); f.close(); }); } break;
	case 5: { fstream f; f.exceptions (fstream::allbadbits); bool threw = false; fired = 0; armed = true; try { f.open (fn, fstream::in); armed = false; } catch (file_exception& e) { armed = false; threw = true; string s; e.info (s); MC_CHECK (s.size() > 4, "the exception says '%s'", s.c_str()); } catch (ustl::bad_alloc&) { armed = false; threw = true; MC_CHECK (fired, "bad_alloc without a fault"); } catch (...) { armed = false; mc_fail ("an unknown exception came out"); } MC_CHECK (threw || nm[0] != 'n', "no exception for a file that does not exist"); MC_CHECK (!threw || fired || nm[0] == 'n', "an exception without a fault"); closed ("open", f.is_open()); } break;
	case 6: attempt ("construction", [&] { fstream f (fn, fstream::in); char b[4]; f.read (b, 1); }); break;
	case 7: { ifstream is; r = attempt ("buffer size", [&] { is.set_buffer_size (mc_choose (2) ? 100 : 9000); }); r = attempt ("opening for input", [&] { is.open ("f"); }); if (!r) { r = attempt ("reading", [&] { is >> w; }); r = attempt ("reading", [&] { is.getline (w); }); string l; is.clear(); is.seekg (0); is >> l; MC_CHECK (l == "some", "not usable afterwards: '%s'", l.c_str()); } } break;
    }
    closed ("destruction", 0); valid (w, "reading");
    memcpy (os_file[0].d, "some words", os_file[0].n = 10);
    { ifstream is ("f"); is >> w; MC_CHECK (w == "some", "files are not usable afterwards: '%s'", w.c_str()); }
    mc_heap_ask = 0; mc_outcome (mc_mix (shard, r)); mc_step();
}
// ---- smart pointers, exceptions, bits, containers read from streams --------------------------
struct P { static int alive; int v; char* m; P (int n = 7) : v (n), m ((char*) malloc (10)) { if (!m) throw ustl::bad_alloc (10); ++alive; } P (const P& p) : v (p.v), m ((char*) malloc (10)) { if (!m) throw ustl::bad_alloc (10); ++alive; } ~P (void) { free (m); --alive; } };
int P::alive;
template <class C> static void readback (const char* what, const C& src)
{
    static char buf[600]; ostream os (buf, sizeof(buf)); os << src; const size_t n = os.pos(); C c; if (mc_choose (2)) c = src;
    attempt (what, [&] { istream is (buf, n); is >> c; }); 
    istream is (buf, n); is >> c; MC_CHECK (c == src, "%s: not usable afterwards", what); mc_outcome (n);
}
template <class E> static void exc (const char* what, const E& e)
{
    string i0, i1; e.info (i0);
    E* c = 0; fired = 0; armed = true; try { c = new E (e); } catch (...) {} armed = false;
    if (c) { string s; armed = true; try { c->info (s); } catch (...) { armed = false; mc_fail ("%s: info threw", what); } armed = false; valid (s, what); if (!fired) MC_CHECK (s == i0, "%s: the copy says '%s', expected '%s'", what, s.c_str(), i0.c_str());
	armed = true; try { *c = e; } catch (...) {} armed = false; *c = e; c->info (i1); MC_CHECK (i1 == i0, "%s: not usable afterwards: '%s'", what, i1.c_str()); delete c; }
    bool caught = false; fired = 0; armed = true; try { throw e; } catch (E& x) { armed = false; caught = true; x.info (i1); if (!fired) MC_CHECK (i1 == i0, "%s: caught as '%s'", what, i1.c_str()); } catch (...) { armed = false; caught = fired; } armed = false; MC_CHECK (caught, "%s: not caught", what);
    mc_step();
}
MC_SCENARIO_F (others, 17, 17, 2, 3, 0)
{
    faults_reset(); P::alive = 0; int r = 0;
    switch (shard) {
	case 0: { shared_ptr<P> p; r = attempt ("make_shared", [&] { p = make_shared<P> (5); }); MC_CHECK (r ? !p : p->v == 5, "make_shared"); MC_CHECK (P::alive == !r, "make_shared: %d objects are alive", P::alive); } break;
	case 1: { shared_ptr<P> p; r = attempt ("shared_ptr", [&] { p = shared_ptr<P> (new P (5)); shared_ptr<P> q (p); }); MC_CHECK (P::alive == !r && (r || p.use_count() == 1), "shared_ptr: %d objects are alive", P::alive); } break;
	case 2: { shared_ptr<P> p (new P (1)); r = attempt ("reset of a shared_ptr", [&] { p.reset (new P (5)); }); MC_CHECK (P::alive == 1 && p->v == (r ? 1 : 5), "reset: %d objects are alive, value %d", P::alive, p->v); shared_ptr<P> q (p); r = attempt ("assignment to a shared_ptr", [&] { p = new P (6); }); MC_CHECK (P::alive == (r ? 1 : 2), "assignment: %d objects are alive", P::alive); } break;
	case 3: { unique_ptr<P> p (new P (1)); r = attempt ("make_unique", [&] { p = make_unique<P> (5); }); MC_CHECK (P::alive == 1 && p->v == (r ? 1 : 5), "make_unique: %d objects are alive", P::alive); r = attempt ("reset of a unique_ptr", [&] { p.reset (new P (6)); }); MC_CHECK (P::alive == 1, "reset: %d objects are alive", P::alive); } break;
	case 4: { r = attempt ("make_unique of an array", [&] { auto a = make_unique<P[]> (4); armed = false; MC_CHECK (P::alive == 4, "an array of 4 has %d", P::alive); }); MC_CHECK (!P::alive, "make_unique: %d objects are alive", P::alive); } break;
	case 5: { typedef vector<string> V; V v; for (int i = 0; i < 3; ++i) v.push_back (string (T40, 5+i*9)); readback ("reading a vector of strings", v); } break;
	case 6: { typedef map<uint32_t,string> M; M m; for (int i = 0; i < 3; ++i) m.insert (make_pair (uint32_t(i), string (T40, 3))); readback ("reading a map", m); } break;
	case 7: { typedef vector<vector<uint16_t> > V; V v (3); v[0].push_back (7); v[2].resize (9); readback ("reading nested vectors", v); } break;
	case 8: { typedef set<string> S; S s; s.insert (string ("aa", 2)); s.insert (string ("bb", 2)); readback ("reading a set", s); } break;
	case 9: exc ("bad_alloc", ustl::bad_alloc (99)); break;
	case 10: exc ("file_exception", file_exception ("open", "a/file/name/that/is/long")); break;
	case 11: exc ("runtime_error", runtime_error ("an argument of some length")); exc ("error", length_error ("x")); break;
	case 12: exc ("libc_exception", libc_exception ("read")); exc ("stream_bounds_exception", stream_bounds_exception ("read", "T", 1, 2, 3)); break;
	case 13: { bitset<70> b; b.set (3); string s; r = attempt ("bits to text", [&] { string t (b.to_string()); s.swap (t); }); bitset<70> c; int r2 = attempt ("bits from text", [&] { c = bitset<70> (string ("101", 3)); }); MC_CHECK (r2 || (c[0] && !c[1] && c[2] && c.count() == 2), "bits from text"); MC_CHECK (r || s.size() == 70, "bits to text"); } break;
	case 14: { static const int raw = 5; P* m = (P*) malloc (raw*sizeof(P)); P src (3); P sa[5];
	    r = attempt ("uninitialized_fill_n", [&] { uninitialized_fill_n (m, raw, src); }); MC_CHECK (P::alive == 6 + (r ? 0 : raw), "uninitialized_fill_n: %d objects are alive", P::alive); if (!r) destroy (m, m+raw);
	    r = attempt ("uninitialized_fill", [&] { uninitialized_fill (m, m+raw, src); }); MC_CHECK (P::alive == 6 + (r ? 0 : raw), "uninitialized_fill: %d objects are alive", P::alive); if (!r) destroy (m, m+raw);
	    r = attempt ("uninitialized_copy", [&] { uninitialized_copy (sa, sa+raw, m); }); MC_CHECK (P::alive == 6 + (r ? 0 : raw), "uninitialized_copy: %d objects are alive", P::alive); if (!r) destroy (m, m+raw);
	    r = attempt ("uninitialized_copy_n", [&] { uninitialized_copy_n (sa, raw, m); }); MC_CHECK (P::alive == 6 + (r ? 0 : raw), "uninitialized_copy_n: %d objects are alive", P::alive); if (!r) destroy_n (m, raw);
	    free (m); } break;
	case 15: { static const int raw = 5; P* m = (P*) malloc (raw*sizeof(P)); P sa[5];
	    r = attempt ("uninitialized_move", [&] { uninitialized_move (sa, sa+raw, m); }); MC_CHECK (P::alive == 5 + (r ? 0 : raw), "uninitialized_move: %d objects are alive", P::alive); if (!r) destroy (m, m+raw);
	    r = attempt ("uninitialized_move_n", [&] { uninitialized_move_n (sa, raw, m); }); MC_CHECK (P::alive == 5 + (r ? 0 : raw), "uninitialized_move_n: %d objects are alive", P::alive); if (!r) destroy (m, m+raw);
	    r = attempt ("uninitialized_default_construct", [&] { uninitialized_default_construct (m, m+raw); }); MC_CHECK (P::alive == 5 + (r ? 0 : raw), "uninitialized_default_construct: %d objects are alive", P::alive); if (!r) destroy (m, m+raw);
	    r = attempt ("uninitialized_value_construct_n", [&] { uninitialized_value_construct_n (m, raw); }); MC_CHECK (P::alive == 5 + (r ? 0 : raw), "uninitialized_value_construct_n: %d objects are alive", P::alive); if (!r) destroy (m, m+raw);
	    free (m); } break;
	case 16: { queue<string> q; priority_queue<string> h; stack<string> st; string s (T40, 9); int nq = 0, nh = 0, ns = 0;
	    for (int i = 0; i < 3; ++i) { nq += !attempt ("queue push", [&] { q.push (s); }); const bool hr = attempt ("priority_queue push", [&] { h.push (s); }); nh += !hr; if (hr && int(h.size()) == nh+1) ++nh; ns += !attempt ("stack push", [&] { st.push (s); }); }
	    MC_CHECK (int(q.size()) == nq && int(h.size()) == nh && int(st.size()) == ns, "a failed push was counted");
	    if (nq) attempt ("queue pop", [&] { q.pop(); }); if (nh) attempt ("priority_queue pop", [&] { h.pop(); }); if (ns) attempt ("stack pop", [&] { st.pop(); });
	    MC_CHECK ((!nq || int(q.size()) == nq-1) && (!ns || int(st.size()) == ns-1), "pop"); } break;
    }
    MC_CHECK (!P::alive, "%d objects were never destroyed", P::alive); mc_heap_ask = 0; mc_outcome (mc_mix (shard, r)); mc_step();
}
