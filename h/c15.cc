// C15: file output over every way the operating system can take or refuse the bytes.
#include "u.h"
#include "fakeos.h"
static const char* vis (const char* p, int n) { static char b[4][400]; static int k; char* o = b[k++&3]; char* s = o; for (int i = 0; i < n && i < 80; ++i) { unsigned char c = p[i]; s += c < 32 || c > 126 ? sprintf (s, "\\x%02x", c) : sprintf (s, "%c", c); } *s = 0; return o; }
static bool hard, again; static int intr;	// what write() was made to return in this operation
static const int ERRNO[] = { EIO, ENOSPC, EAGAIN };
static int pol (char op, int, long avail)
{
    if (op != 'w') return OS_ALL;
    int c = mc_dev (7);
    switch (c) {
	case 0: return OS_ALL;
	case 1: return avail > 1 ? 1 : int(OS_ALL);
	case 2: return avail > 3 ? int(avail/2) : int(OS_ALL);
	case 3: if (++intr > 3) return OS_ALL; return -EINTR;
	case 4: case 5: hard = true; return -ERRNO[c-4];
	default: again = true; return -EAGAIN;
    }
}
// ---- the file as it shall be --------------------------------------------------
struct Img {
    char d[FMAX]; int n, cur; bool app;
    void reset (bool a) { n = cur = 0; app = a; }
    void put (const char* p, int k) { while (n < cur) d[n++] = 0; if (cur + k > FMAX) mc_fail ("harness error: image full"); memcpy (d+cur, p, k); cur += k; if (cur > n) n = cur; }
};
static Img im;
// what is in the file, and what is missing is exactly the buffered bytes at the file position
static void chk (ofstream& os, int fdi, const char* what)
{
    OsFd& f = os_fd[fdi]; OsFile& o = os_file[f.file];
    long fp = im.app ? o.n : f.pos, pend = os.pos();
    MC_CHECK (fp + pend == im.cur, "%s: %ld bytes were written and %ld are pending, but %d were accepted", what, fp, pend, im.cur);
    MC_CHECK (!memcmp (os.cdata(), im.d + fp, pend), "%s: pending text is '%s', expected '%s'", what, vis (os.cdata(), pend), vis (im.d+fp, pend));
    for (int i = 0; i < o.n; ++i) if ((i < fp || i >= im.cur) && o.d[i] != im.d[i]) mc_fail ("%s: byte %d of the file is %02x, expected %02x", what, i, (unsigned char) o.d[i], (unsigned char) im.d[i]);
    MC_CHECK (o.n <= im.n, "%s: the file has %d bytes, expected at most %d", what, o.n, im.n);
}
static void complete (int fdi, const char* what) { OsFile& o = os_file[os_fd[fdi].file]; MC_CHECK (o.n == im.n && !memcmp (o.d, im.d, o.n), "%s: the file has %d bytes '%s', expected %d bytes '%s'", what, o.n, vis (o.d, o.n), im.n, vis (im.d, im.n)); }
static char piece[9100]; static int pn;
static void fillpiece (int n, int step) { for (int i = 0; i < n; ++i) piece[i] = 'A' + (i + step*7) % 53; pn = n; }
enum { NOPS = 14 };
static void op (ofstream& os, int o, int step, int fdi, bool big, bool exc)
{
    hard = again = false; intr = 0; const long before = os_fd[fdi].pos + os.pos(); (void) before; bool thrown = false, wrote = false, flushed = false; pn = 0; const char* what = ""; bool opclosed = false;
    static const int SZ[2][4] = { { 1, 3, 17, 40 }, { 5, 4090, 4096, 9000 } };
    const int wasp = im.cur;
    try { switch (o) {
	case 0: case 1: case 2: case 3: what = "write"; fillpiece (SZ[big][o], step); wrote = true; os.write (piece, pn); break;
	case 4: what = "format"; pn = sprintf (piece, "<%0*d>", big ? 100 : 23, step); wrote = true; os.format ("<%0*d>", big ? 100 : 23, step); break;
	case 5: what = "put"; fillpiece (1, step+9); wrote = true; os << piece[0]; break;
	case 6: what = "text"; fillpiece (9, step+2); wrote = true; piece[9] = 0; os << (const char*) piece; break;
	case 7: what = "endl"; piece[0] = '\n'; pn = 1; wrote = true; os << endl; break;
	case 8: what = "number"; pn = sprintf (piece, "%d", -1234567); wrote = true; os << -1234567; break;
	case 9: what = "flush"; flushed = true; os.flush(); break;
	case 10: what = "flush manipulator"; flushed = true; os << flush; break;
	case 11: what = "seekp"; flushed = true; if (im.app) { os.flush(); break; } os.seekp (1); if (!os.fail()) im.cur = 1; break;
	case 12: what = "seekp to the end"; flushed = true; os.seekp (0, ios_base::end); if (!os.fail()) im.cur = im.n; break;
	case 13: what = "string"; { fillpiece (12, step+5); string s (piece, 12); wrote = true; os << s; } break;
    } } catch (file_exception& e) { thrown = true; MC_CHECK (exc, "%s threw without being asked to", what); MC_CHECK (!strcmp (e.Operation(), "write") && !strcmp (e.Filename(), "f") && (e.Errno() == EIO || e.Errno() == ENOSPC), "%s: exception for %s %s %d", what, e.Operation(), e.Filename(), e.Errno()); }
    catch (stream_bounds_exception& e) { thrown = true; MC_CHECK (exc && hard, "%s threw without being asked to", what); }
    if (hard) MC_CHECK (os.fail(), "%s: the error is not reported by the stream", what);
    if (hard && exc) MC_CHECK (thrown, "%s: the error is not thrown", what);
    if (!hard && !again) MC_CHECK (os.good() && !thrown, "%s: failed (state %u) although every write succeeded", what, os.rdstate());
    if (wrote) {	// all of it if successful, or the beginning
	OsFd& f = os_fd[fdi]; long fp = im.app ? os_file[f.file].n : f.pos; long k = fp + long(os.pos()) - wasp;
	MC_CHECK (k >= 0 && k <= pn, "%s of %d bytes made the text longer by %ld", what, pn, k);
	if (!os.fail()) MC_CHECK (k == pn, "%s of %d bytes accepted only %ld, and reports success", what, pn, k);
	im.put (piece, k);
    }
    chk (os, fdi, what);
    if (flushed && os.good() && !again) { complete (fdi, what); MC_CHECK (!os.pos(), "%s left text in the buffer", what); }
    if (!im.app) MC_CHECK (os.fail() || os.tellp() == im.cur, "%s: tellp is %ld, expected %d", what, long(os.tellp()), im.cur);
    os.clear(); (void) opclosed;
}
static void finish (ofstream& os, int fdi, int how)
{
    hard = again = false; intr = 0;
    if (how == 0) return;	// the destructor
    os.close();
    MC_CHECK (!os.is_open(), "open after close");
    OsFile& o = os_file[os_fd[fdi].file];
    if (hard || again) { if (o.n != im.n || memcmp (o.d, im.d, o.n)) MC_CHECK (os.fail(), "close lost text without reporting it"); }
    else { MC_CHECK (os.good(), "close failed"); complete (fdi, "close"); }
    MC_CHECK (o.n <= im.n, "close wrote too much");
    os.clear();
    if (how == 2) {	// the next file has nothing of the first
	os_policy = 0; os.open ("g"); MC_CHECK (os.good() && os.is_open() && os.fd() == FD0+1, "open failed"); os << "next"; os.close(); MC_CHECK (os.good() && os_file[1].n == 4 && !memcmp (os_file[1].d, "next", 4), "the second file has '%s'", vis (os_file[1].d, os_file[1].n));
    }
}
static void history (int first, int len, bool big, bool app, unsigned exc)
{
    os_reset(); os_mkfile ("f", 0, 0); os_mkfile ("g", 0, 0); im.reset (app); os_policy = pol; int how = 0;
    {
	ofstream a, b ("f", app ? ios_base::out|ios_base::app : ios_base::out); if (big) { b.close(); os_fd[0] = OsFd(); os_nextfd = 0; os_nlog = 0; a.open ("f", app ? ios_base::out|ios_base::app : ios_base::out); }
	ofstream& os = big ? a : b; os.exceptions (exc);
	for (int k = 0; k < len; ++k) { int o = k ? mc_choose (NOPS) : first; mc_note ("operation %d", o); op (os, o, k, 0, big, exc); mc_step(); mc_state (mc_mix (mc_mix (im.cur, im.n), mc_mix (os.pos(), os_file[0].n*2+big))); }
	how = mc_choose (3); mc_note ("end %d", how); os.exceptions (0); finish (os, 0, how);
	if (how == 0) os_policy = 0;
    }
    if (how == 0) complete (0, "destruction");
    MC_CHECK (!os_open_count() && !os_closes_bad, "the file was not closed, or twice");
    mc_outcome (mc_hash (os_nlog, os_file[0].d, os_file[0].n));
    if (mc_want_sample()) mc_sample ("%d operations from %d, %ld writes, file of %d bytes", len, first, os_writes, os_file[0].n);
}
MC_SCENARIO_F (small, NOPS*2, NOPS*2, 2, 2, 0) { history (shard % NOPS, MC_TIER (4, 5), false, shard / NOPS, 0); }
MC_SCENARIO_F (faults, NOPS*2, NOPS*2, 3, 4, 0) { history (shard % NOPS, MC_TIER (2, 3), false, shard / NOPS, 0); }
MC_SCENARIO_F (large, NOPS, NOPS, 2, 2, 0) { history (shard, 3, true, false, 0); }
MC_SCENARIO_F (throwing, NOPS*3, NOPS*3, 2, 2, 0) { static const int EX[] = { ios_base::failbit, ios_base::allbadbits, ios_base::badbit|ios_base::failbit }; history (shard % NOPS, MC_TIER (3, 4), false, false, EX[shard / NOPS]); }
// ---- the file opened again while it holds text, and text written before any open ----------
// ---- writes longer than 16 bits count -------------------------------------------------------------
MC_SCENARIO_F (huge, 5*6, 5*6, 2, 2, 0)
{
    static const int L[] = { 65534, 65535, 65536, 65537, 70001 }; static char t[80000]; const int n = L[shard/6], how = shard%6; for (int i = 0; i < n; ++i) t[i] = 'A' + i % 53;
    os_reset(); os_mkfile ("f", 0, 0); os_policy = pol; hard = again = false; intr = 0; long k = 0; bool ok = true;
    { ofstream os ("f"); if (how&1) os << "ab";
      if (how < 2) os.write (t, n); else if (how < 4) { string s (t, n); os << s; } else { os.write (t, n/2); os.write (t+n/2, n-n/2); }
      ok = !os.fail(); if (!hard && !again) MC_CHECK (ok, "writing %d bytes failed", n); if (hard) MC_CHECK (!ok, "the error is not reported");
      if (ok) MC_CHECK (os.tellp() == n + (how&1)*2, "tellp is %ld of %d", long(os.tellp()), n + (how&1)*2);
      os.clear(); os.flush(); if (!hard && !again) MC_CHECK (os.good() && !os.pos() && os_file[0].n == n + (how&1)*2, "flush left %u bytes, and %d in the file", unsigned(os.pos()), os_file[0].n); k = os_file[0].n; os.clear(); mc_step(); mc_state (mc_mix (shard, k)); os_policy = 0; }
    const char* d = os_file[0].d; int z = os_file[0].n; if (how&1) { MC_CHECK (z >= 2 && !memcmp (d, "ab", 2), "the file does not start with what was written first"); d += 2; z -= 2; }
    MC_CHECK (z <= n && (z == n || hard || again), "the file has %d bytes, expected %d", z, n); if (ok || how < 4) for (int i = 0; i < z; ++i) MC_CHECK (d[i] == t[i], "byte %d of %d is wrong", i, z);
}
MC_SCENARIO (reopen, 6)
{
    os_reset(); os_mkfile ("f", 0, 0); os_mkfile ("g", 0, 0); char e[2][200]; int n[2] = { 0, 0 }, at = -1;
    { ofstream os; for (int k = 0; k < MC_TIER (5, 6); ++k) {
	int o = k ? mc_choose (6) : shard;
	switch (o) {
	    case 0: case 1: os.open (o ? "g" : "f", ios_base::app); at = o; MC_CHECK (os.is_open() && os.good(), "open failed"); break;
	    case 2: os.close(); at = -1; os.clear(); break;
	    case 3: case 4: if (at < 0) break; { char t[40]; int l = sprintf (t, o == 3 ? "<%d>" : "<%d and a longer text>", k); os << (const char*) t; memcpy (e[at]+n[at], t, l); n[at] += l; } break;
	    case 5: os.flush(); break;
	}
	mc_step(); mc_state (mc_mix (n[0]*100+n[1], at));
    } }
    for (int i = 0; i < 2; ++i) MC_CHECK (os_file[i].n == n[i] && !memcmp (os_file[i].d, e[i], n[i]), "file %d has '%s', expected '%s'", i, vis (os_file[i].d, os_file[i].n), vis (e[i], n[i]));
    MC_CHECK (!os_open_count() && !os_closes_bad, "a file was not closed, or twice");
}
// ---- unbuffered fstream: the count returned is what was written and read ---------------------
static int polrw (char op, int, long avail)
{
    if (op != 'w' && op != 'r') return OS_ALL;
    switch (mc_dev (6)) { case 0: return OS_ALL; case 1: return avail > 1 ? 1 : int(OS_ALL); case 2: return avail > 3 ? int(avail/2) : int(OS_ALL); case 3: if (++intr > 3) return OS_ALL; return -EINTR; case 4: hard = true; return -EIO; default: again = true; return -EAGAIN; }
}
MC_SCENARIO_F (raw, 9, 9, 3, 4, 0)
{
    os_reset(); os_mkfile ("f", "0123456789abcdefghij", 20); os_policy = polrw; im.reset (false); im.put ("0123456789abcdefghij", 20); im.cur = 0;
    { fstream fs; fs.open ("f", ios_base::in|ios_base::out); char b[64];
    for (int k = 0; k < MC_TIER (3, 4); ++k) {
	int o = k ? mc_choose (9) : shard; hard = again = false; intr = 0; static const int SZ[] = { 0, 1, 7, 30 };
	if (o < 4) { int z = SZ[o]; fillpiece (z, k); long w = fs.write (piece, z); MC_CHECK (w >= 0 && w <= z, "write of %d bytes returned %ld", z, w); MC_CHECK (hard == fs.fail(), "write: failure %d, expected %d", fs.fail(), hard); MC_CHECK (w == z || hard || again, "write of %d bytes stopped at %ld", z, w); im.put (piece, w); }
	else if (o < 8) { int z = SZ[o-4]; memset (b, 'Z', 64); long r = fs.read (b, z); int left = im.n > im.cur ? im.n - im.cur : 0, x = z < left ? z : left; MC_CHECK (r >= 0 && r <= x && !memcmp (b, im.d+im.cur, r) && b[r] == 'Z', "read of %d bytes gave %ld: '%s'", z, r, vis (b, r)); MC_CHECK (r == x || hard || again, "read of %d bytes stopped at %ld of %d", z, r, x); MC_CHECK (fs.fail() == (hard || (!again && x < z)), "read: failure %d", fs.fail()); MC_CHECK (fs.eof() == (!hard && !again && x < z), "read: eof %d", fs.eof()); im.cur += r; }
	else { long p = fs.seek (im.n/2); MC_CHECK (p == im.n/2, "seek returned %ld", p); im.cur = im.n/2; }
	fs.clear(); MC_CHECK (fs.pos() == im.cur && fs.tellp() == im.cur && fs.size() == im.n, "position %ld of %ld, expected %d of %d", long(fs.pos()), long(fs.size()), im.cur, im.n);
	complete (0, "raw"); mc_step(); mc_state (mc_mix (im.cur, im.n));
    } }
    MC_CHECK (!os_open_count(), "not closed");
}
// ---- the standard streams: flushed, but not closed --------------------------------------------
MC_SCENARIO (standard, 3)
{
    os_reset(); os_std = true; int g = os_mkfile ("tty", 0, 0); for (int i = 0; i < 3; ++i) { os_stdfd[i] = OsFd(); os_stdfd[i].open = true; os_stdfd[i].file = g; os_stdfd[i].flags = O_APPEND; }
    int fd = 1 + mc_choose (2); { ofstream os (fd); os << "text"; if (shard == 1) os.flush(); if (shard == 2) { os << endl; os << 'x'; } }
    static const char* X[] = { "text", "text", "text\nx" }; MC_CHECK (os_file[g].n == int(strlen (X[shard])) && !memcmp (os_file[g].d, X[shard], os_file[g].n), "the terminal shows '%s'", vis (os_file[g].d, os_file[g].n)); MC_CHECK (os_stdfd[fd].open, "a standard descriptor was closed");
    os_std = false; mc_step();
}
// ---- memblock files ---------------------------------------------------------------------------
MC_SCENARIO_F (blockfile, 1, 1, 3, 4, 0)
{
    os_reset(); os_mkfile ("f", 0, 0); os_file[0].exists = false; os_policy = polrw; hard = again = false; intr = 0; int n = mc_choose (3)*7; memblock b, c; b.resize (n); for (int i = 0; i < n; ++i) b.begin()[i] = 'a'+i; bool thrown = false;
    try { b.write_file ("f"); } catch (file_exception& e) { thrown = true; MC_CHECK (!strcmp (e.Operation(), "write") && e.Errno() == EIO, "exception for %s", e.Operation()); }
    MC_CHECK (thrown == hard, "write_file: error %d, thrown %d", hard, thrown); if (!hard && !again) MC_CHECK (os_file[0].n == n && !memcmp (os_file[0].d, b.cdata(), n), "write_file wrote %d bytes of %d", os_file[0].n, n);
    if (hard || again) return; MC_CHECK (!os_open_count(), "not closed");
    thrown = false; try { c.read_file ("f"); } catch (file_exception& e) { thrown = true; MC_CHECK (!strcmp (e.Operation(), "read"), "exception for %s", e.Operation()); }
    MC_CHECK (thrown == hard, "read_file: error %d, thrown %d", hard, thrown); if (!hard && !again) MC_CHECK (c == b, "read_file read %u bytes of %d", unsigned(c.size()), n);
    MC_CHECK (!os_open_count() && !os_closes_bad, "not closed"); mc_step();
}
