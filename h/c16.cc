// C16: state, exceptions and descriptors of file streams.
#include "u.h"
#define FAKE_MMAP
#include "fakeos.h"
static int nintr;
static int pol (char op, int, long)
{
    switch (op) {
	case 't': return OS_ALL;
	case 'c': case 'r': case 'w': if (nintr < 2 && mc_dev (2)) { ++nintr; return -EINTR; } nintr = 0; return mc_dev (2) ? -EIO : int(OS_ALL);
	case 'o': switch (mc_dev (3)) { case 0: return OS_ALL; case 1: return -EACCES; default: return -EMFILE; }
	default: return mc_dev (2) ? -ENOMEM : int(OS_ALL);
    }
}
enum { BAD = ios_base::badbit, EOFB = ios_base::eofbit, FAIL = ios_base::failbit };
struct M { unsigned st, ex; char name[32]; int fd; bool released[NFD]; };
// ---- every history of one file object -------------------------------------------
enum { NOPS = 24 };
static void op (fstream& fs, M& m, int o, int step)
{
    const int l0 = os_nlog; nintr = 0; bool thrown = false; char xop[40] = "", xname[40] = ""; int xerr = 0; long r = 0; char b[64];
    const int ofd = m.fd; char oname[32]; strcpy (oname, m.name);
    int nfd = -1; memlink ml; struct stat st; bool statthrow = false;
    static const char* const NM[] = { "f", "g", "gone" };
    // an earlier failure stays until it is cleared
    const unsigned st0 = m.st;
    try { switch (o) {
	case 0: fs.open ("f", ios_base::in|ios_base::out); break;
	case 1: fs.open ("g", ios_base::out, 0600); break;
	case 2: fs.open ("gone", ios_base::in); break;
	case 3: nfd = os_newfd (1, 0); fs.attach (nfd, "g"); break;
	case 4: fs.detach(); break;
	case 5: fs.close(); break;
	case 6: r = fs.seek (3); break;
	case 7: r = fs.seek (-1); break;
	case 8: r = fs.seek (-2, ios_base::end); break;
	case 9: r = fs.seek (1, ios_base::cur); break;
	case 10: r = fs.pos(); break;
	case 11: r = fs.size(); break;
	case 12: fs.stat (st); r = st.st_size; break;
	case 13: if (step & 1) fs.flush(); else fs.sync(); break;
	case 14: r = fs.read (b, 2); break;
	case 15: r = fs.read (b, 60); break;
	case 16: r = fs.write ("xyz", 3); break;
	case 17: r = step % 3 == 0 ? fs.fcntl (FCNTLID (F_GETFL)) : step % 3 == 1 ? fs.fcntl (FCNTLID (F_GETFL), 7) : fs.fcntl (FCNTLID (F_GETFL), (void*) 8); break;
	case 18: r = step % 3 == 0 ? fs.ioctl (IOCTLID (77), 5) : step % 3 == 1 ? fs.ioctl (IOCTLID (77), 5L) : fs.ioctl (IOCTLID (77), (void*) 5); break;
	case 19: if (step == 1) fs.set_nonblock(); else fs.set_nonblock (step & 1); break;
	case 20: ml.link (fs.mmap (20, 4096)); break;
	case 21: fs.clear(); break;
	case 22: fs.attach (-1, "f"); break;
	case 23: r = fs.readsome (b, 8); break;
    } }
    catch (stream_bounds_exception& e) { thrown = true; strcpy (xop, e.Operation()); xerr = -1; }
    catch (file_exception& e) { thrown = true; strcpy (xop, e.Operation()); strcpy (xname, e.Filename()); xerr = e.Errno(); }
    // what went wrong, in the order it did; the first failure the mask asks for is thrown
    int lerr = 0, openfailed = 0; char lop = 0; bool bounds = false, expect = false; unsigned bits = 0; const char* eop = ""; const char* ename = oname;
    const bool opens = o <= 3 || o == 22; if (opens) m.st = 0; if (o == 21) m.st = 0;
    for (int i = o == 22 ? l0-1 : l0; i < os_nlog && !expect; ++i) {
	char f = 0; int e = 0; unsigned fb = 0; bool eof = false;
	if (i < l0) { f = 'o'; e = -1; } else { const OsCall& c = os_log[i]; if (c.err == EINTR || c.op == 't') continue; if (c.err) { f = c.op; e = c.err; } else if (c.op == 'r' && !c.ret) eof = true; else continue; }
	const char* fop = "read"; const char* fn = oname;
	switch (f) { case 'o': fb = BAD; fop = "open"; fn = NM[o < 3 ? o : 0]; openfailed = 1; break; case 'c': fb = BAD|FAIL; fop = "close"; break; case 's': fb = FAIL; fop = "seek"; break; case 'r': fb = FAIL; break; case 'w': fb = FAIL; fop = "write"; break;
	    case 'y': fb = BAD|FAIL; fop = "sync"; break; case 'n': fb = FAIL; fop = o == 17 ? "fcntl(F_GETFL)" : 0; break; case 'i': fb = FAIL; fop = "ioctl(77)"; break; case 'm': fb = FAIL; fop = "mmap"; break; case 'f': fop = "stat"; statthrow = true; break; default: fb = EOFB|FAIL; break; }
	bits |= fb; eop = fop; ename = fn; lerr = e; lop = f; bounds = eof; expect = statthrow || (fb & m.ex);
    }
    m.st |= bits;
    MC_CHECK (fs.rdstate() == m.st, "operation %d: state is %u, expected %u", o, fs.rdstate(), m.st);
    MC_CHECK (thrown == expect, "operation %d with mask %u: %s", o, m.ex, thrown ? "threw without need" : "did not throw");
    if (thrown) {
	if (eop) MC_CHECK (!strcmp (xop, eop), "operation %d: the exception names operation '%s', expected '%s'", o, xop, eop); else MC_CHECK (!strncmp (xop, "fcntl(F_", 8), "operation %d: the exception names '%s'", o, xop);
	if (!bounds) { MC_CHECK (!strcmp (xname, ename), "operation %d: the exception names file '%s', expected '%s'", o, xname, ename); MC_CHECK (o == 22 || xerr == lerr, "operation %d: the exception has error %d, expected %d", o, xerr, lerr); }
    }
    // descriptors and names
    if (o <= 2) { if (!openfailed) for (int i = l0; i < os_nlog; ++i) if (os_log[i].op == 'o') nfd = os_log[i].ret; }
    if (opens) {
	if (openfailed) { if (thrown) { MC_CHECK (fs.fd() == ofd || fs.fd() < 0, "after a failed open the descriptor is %d", fs.fd()); m.fd = fs.fd(); strcpy (m.name, fs.name().c_str()); } else { m.fd = -1; strcpy (m.name, fs.name().c_str()); } }
	else { m.fd = nfd; strcpy (m.name, o == 3 ? "g" : NM[o]); }
    }
    if (o == 4) { if (m.fd >= 0) m.released[m.fd-FD0] = true; m.fd = -1; m.name[0] = 0; }
    if (o == 5 && m.fd >= 0) { m.fd = -1; m.name[0] = 0; if (thrown) strcpy (m.name, fs.name().c_str()); }
    MC_CHECK (fs.fd() == m.fd && fs.is_open() == (m.fd >= 0), "operation %d: the descriptor is %d, expected %d", o, fs.fd(), m.fd);
    MC_CHECK (fs.name() == m.name, "operation %d: the name is '%s', expected '%s'", o, fs.name().c_str(), m.name);
    for (int i = 0; i < os_nextfd; ++i) MC_CHECK (os_fd[i].open == (m.released[i] || FD0+i == m.fd), "operation %d: descriptor %d is %s", o, i, os_fd[i].open ? "still open" : "closed");
    MC_CHECK (!os_closes_bad, "operation %d closed a descriptor that is not open", o);
    // arguments and results
    const OsCall* c = os_nlog > l0 ? &os_log[os_nlog-1] : 0; const bool live = ofd >= 0;
    switch (o) {
	case 1: if (c && !openfailed) for (int i = l0; i < os_nlog; ++i) if (os_log[i].op == 'o') MC_CHECK (os_log[i].b == 0600, "permissions %lo", os_log[i].b); break;
	case 6: case 7: case 8: case 9: { static const long A[][2] = { { 3, SEEK_SET }, { -1, SEEK_SET }, { -2, SEEK_END }, { 1, SEEK_CUR } }; MC_CHECK (c && c->op == 's' && c->a == A[o-6][0] && c->b == A[o-6][1] && (thrown || r == c->ret), "seek passed %ld, %ld and returned %ld", c->a, c->b, r); } break;
	case 10: MC_CHECK (r == (live ? os_fd[ofd-FD0].pos : -1), "pos is %ld", r); break;
	case 11: case 12: if (!thrown) MC_CHECK (r == os_file[os_fd[ofd-FD0].file].n, "size is %ld", r); break;
	case 14: case 15: case 23: { long g = 0; for (int i = l0; i < os_nlog; ++i) if (os_log[i].ret > 0) g += os_log[i].ret; if (o < 23 && st0) g = 0; MC_CHECK (thrown || r == g, "read returned %ld, expected %ld", r, g); } break;
	case 16: if (!thrown) { long g = 0; for (int i = l0; i < os_nlog; ++i) if (os_log[i].ret > 0) g += os_log[i].ret; MC_CHECK (r == g && (lop || r == 3), "write returned %ld, expected %ld", r, g); } break;
	case 17: MC_CHECK (c && c->op == 'n' && c->a == F_GETFL && (thrown || r == c->ret), "fcntl passed %ld and returned %ld", c->a, r); break;
	case 18: MC_CHECK (c && c->op == 'i' && c->a == 77 && c->b == 5 && (thrown || r == c->ret), "ioctl passed %ld, %ld and returned %ld", c->a, c->b, r); break;
	case 19: if (!lop) MC_CHECK (os_fd[m.fd-FD0].flags == (step & 1 ? os_log[l0].ret | O_NONBLOCK : os_log[l0].ret & ~O_NONBLOCK), "set_nonblock set flags %x", os_fd[m.fd-FD0].flags); break;
	case 20: MC_CHECK (c && c->op == 'm' && c->a == 20 && c->b == 4096, "mmap passed %ld, %ld", c->a, c->b); if (lop) MC_CHECK (!ml.cdata() && !ml.size(), "a failed mmap returned %u bytes at %p", unsigned(ml.size()), ml.cdata()); else { MC_CHECK (ml.cdata() == os_map && ml.size() == 20, "mmap returned a wrong block");
	    nintr = 0; int l1 = os_nlog; bool t2 = false; try { fs.msync (ml); } catch (file_exception& e) { t2 = true; MC_CHECK (!strcmp (e.Operation(), "msync"), "exception names %s", e.Operation()); } bool f2 = os_log[l1].err; m.st |= f2 ? FAIL : 0; MC_CHECK (t2 == (f2 && (m.ex & FAIL)) && os_log[l1].op == 'z' && os_log[l1].a == 20 && fs.rdstate() == m.st, "msync: failed %d, threw %d, state %u", f2, t2, fs.rdstate());
	    l1 = os_nlog; t2 = false; try { fs.munmap (ml); } catch (file_exception& e) { t2 = true; MC_CHECK (!strcmp (e.Operation(), "munmap"), "exception names %s", e.Operation()); } f2 = os_log[l1].err; m.st |= f2 ? FAIL : 0; MC_CHECK (t2 == (f2 && (m.ex & FAIL)) && os_log[l1].op == 'u' && os_log[l1].a == 20 && fs.rdstate() == m.st, "munmap: failed %d, threw %d, state %u", f2, t2, fs.rdstate()); if (!t2) MC_CHECK (!ml.size() && !ml.cdata(), "linked after munmap"); else ml.unlink(); } break;
    }
}
static void setup (void) { os_reset(); os_mkfile ("f", "0123456789", 10); os_mkfile ("g", "abc", 3); os_mkfile ("gone", 0, 0); os_file[2].exists = false; os_policy = pol; }
MC_SCENARIO_F (histories, NOPS*8, NOPS*8, 2, 2, 0)
{
    setup(); const int len = MC_TIER (3, 4); M m; memset (&m, 0, sizeof(m)); m.fd = -1; m.ex = shard / NOPS;
    {
	fstream fs; MC_CHECK (fs.good() && !fs.is_open() && fs.name().empty(), "a new fstream is open"); fs.exceptions (m.ex);
	for (int k = 0; k < len; ++k) { int o = k ? mc_choose (NOPS) : shard % NOPS; if (o == 10 && m.fd < 0) continue; mc_note ("operation %d, mask %u", o, m.ex); op (fs, m, o, k); mc_step(); mc_state (mc_mix (mc_mix (m.st*16+m.ex, m.fd), m.name[0])); }
	nintr = 0;
    }
    for (int i = 0; i < os_nextfd; ++i) MC_CHECK (os_fd[i].open == m.released[i], "after destruction descriptor %d is %s", i, os_fd[i].open ? "open" : "closed");
    MC_CHECK (!os_closes_bad, "destruction closed a descriptor that is not open");
    for (int i = 0; i < os_nextfd; ++i) MC_CHECK (os_fd[i].closes == !m.released[i], "descriptor %d was closed %d times", i, os_fd[i].closes);
    if (mc_want_sample()) mc_sample ("%d operations from %d with mask %u: %d system calls, state %u", len, shard % NOPS, m.ex, os_nlog, m.st);
}
// ---- open modes -------------------------------------------------------------------------
static int flagsof (unsigned m) {
    int f = (m & 3) == 3 ? O_RDWR : (m & ios_base::out) ? O_WRONLY : O_RDONLY;
    if ((m & ios_base::out) && !(m & ios_base::nocreate)) f |= O_CREAT;
    if (m & (ios_base::app|ios_base::ate)) f |= O_APPEND;
    if (m & ios_base::trunc) f |= O_TRUNC;
    if (m & ios_base::nonblock) f |= O_NONBLOCK;
    if (m & ios_base::noctty) f |= O_NOCTTY;
    return f;
}
MC_SCENARIO (modes, 1)
{
    os_reset(); os_mkfile ("f", "x", 1); unsigned m = mc_choose (512); int how = mc_choose (6); unsigned em = m;
    if (how < 2 && !(m & 3)) return;
    int p = 0644;
    switch (how) {
	case 0: { fstream fs ("f", m); MC_CHECK (fs.good() && fs.is_open() && fs.name() == "f", "not open"); } break;
	case 1: { fstream fs; p = 0600; fs.open ("f", m, 0600); } break;
	case 2: { ofstream s ("f", m); em |= ios_base::out; MC_CHECK (s.good(), "not open"); } break;
	case 3: { ofstream s; s.open ("f", m); em |= ios_base::out; } break;
	case 4: { ifstream s ("f", m); em |= ios_base::in; MC_CHECK (s.good(), "not open"); } break;
	case 5: { ifstream s; s.open ("f", m); em |= ios_base::in; } break;
    }
    MC_CHECK (os_nlog >= 1 && os_log[0].op == 'o' && os_log[0].a == flagsof (em), "mode %x opens with flags %lo, expected %o", m, os_log[0].a, flagsof (em));
    if (flagsof (em) & O_CREAT) MC_CHECK (os_log[0].b == p, "permissions %lo", os_log[0].b);
    MC_CHECK (!os_open_count() && !os_closes_bad, "not closed"); mc_step(); mc_eval(); mc_state (m*8+how);
}
// ---- ifstream and ofstream: the stream's own state and exceptions follow the file's ---------
template <class S> static void streams (int len, bool isin)
{
    setup(); len = MC_TIER (3, 4); const unsigned ex = mc_choose (8); int held = -1; unsigned extra = 0;
    { S s; s.exceptions (ex);
    for (int k = 0; k < len; ++k) {
	int o = mc_choose (11), l0 = os_nlog; long rv = 0; struct stat sst; sst.st_size = -1; nintr = 0; bool thrown = false; char xop[40] = "", xname[40] = ""; int xerr = 0; unsigned st0 = s.rdstate(); mc_note ("operation %d, mask %u", o, ex);
	try { switch (o) {
	    case 0: s.open ("f"); break; case 1: s.open ("gone", ios_base::nocreate); break; case 2: s.close(); break;
	    case 3: if (isin) ((ifstream&)(istringstream&)(istream&)s).seekg (1); else ((ofstream&)(ostringstream&)(ostream&)s).seekp (1); break;
	    case 4: s.clear(); extra = 0; break;
	    case 5: rv = s.ioctl (IOCTLID (77), 5); break; case 6: rv = s.ioctl (IOCTLID (77), 6L); break; case 7: rv = s.ioctl (IOCTLID (77), (void*) 7); break;
	    case 8: if (k == 1) s.set_nonblock(); else s.set_nonblock (k & 1); break; case 9: s.stat (sst); break;
	    case 10: s.setstate (k & 1 ? FAIL : EOFB); extra |= k & 1 ? FAIL : EOFB; break;
	} } catch (file_exception& e) { thrown = true; strcpy (xop, e.Operation()); strcpy (xname, e.Filename()); xerr = e.Errno(); }
	catch (stream_bounds_exception&) { mc_fail ("operation %d: bounds exception", o); }
	int lerr = 0; char lop = 0; unsigned bits = 0; held = s.fd(); for (int i = l0; i < os_nlog; ++i) { const OsCall& c = os_log[i]; if (c.err && c.err != EINTR && !(bits & ex)) { lerr = c.err; lop = c.op; bits |= lop == 'o' ? BAD : lop == 'c' ? BAD|FAIL : FAIL; } }
	// a call made on the file alone: its arguments and result pass through, its failure shows in the file
	const bool onfile = o >= 5 && o <= 9; const OsCall* lc = os_nlog > l0 ? &os_log[os_nlog-1] : 0;
	if (o == 9 && lop == 'f') MC_CHECK (thrown && !strcmp (xop, "stat") && xerr == lerr, "a failed stat: thrown %d from '%s'", thrown, xop);
	if (o >= 5 && o <= 7) MC_CHECK (os_nlog == l0+1 && lc->op == 'i' && lc->a == 77 && lc->b == o && lc->fd == held && (thrown || rv == lc->ret), "ioctl passed %ld, %ld and returned %ld", lc ? lc->a : -1, lc ? lc->b : -1, rv);
	if (o == 8 && !lop) MC_CHECK (held >= 0 && os_fd[held-FD0].flags == (k & 1 ? os_log[l0].ret | O_NONBLOCK : os_log[l0].ret & ~O_NONBLOCK), "set_nonblock (%d) left other flags", k & 1);
	if (o == 9 && !lop) MC_CHECK (held >= 0 && sst.st_size == os_file[os_fd[held-FD0].file].n, "stat found the size %ld", long(sst.st_size));
	if (onfile) {
	    MC_CHECK (s.rdstate() == st0, "operation %d changed the state %u to %u", o, st0, s.rdstate());
	    if (o < 9) extra |= bits;
	    MC_CHECK (thrown == (o == 9 ? lop == 'f' : bool(bits & ex)), "operation %d with mask %u: %s", o, ex, thrown ? "threw without need" : "did not throw");
	    if (thrown && o < 8) MC_CHECK (!strcmp (xop, "ioctl(77)") && xerr == lerr, "the exception is for '%s', error %d", xop, xerr);
	    if (thrown && o == 8) MC_CHECK (!strncmp (xop, "fcntl(F_", 8) && xerr == lerr, "the exception is for '%s', error %d", xop, xerr);
	    mc_step(); continue;
	}
	if (o == 10) { MC_CHECK (s.rdstate() == (st0 | (k & 1 ? FAIL : EOFB)), "setstate changed the state %u to %u", st0, s.rdstate()); }
	if (o < 2) extra = 0;
	if (lop != 'i') MC_CHECK (s.rdstate() & bits || !bits, "operation %d: the failure is not in the state %u", o, s.rdstate());
	MC_CHECK (thrown == bool(bits & ex), "operation %d with mask %u: %s", o, ex, thrown ? "threw without need" : "did not throw");
	if (thrown) { const char* e = lop == 'o' ? "open" : lop == 'c' ? "close" : lop == 's' ? "seek" : lop == 'i' ? "ioctl(9)" : "?"; MC_CHECK (!strcmp (xop, e) && xerr == lerr, "operation %d: the exception is for '%s' of '%s', error %d", o, xop, xname, xerr); }
	if (!lop && (o == 0 || o == 4)) MC_CHECK (s.good(), "operation %d: state %u after success", o, s.rdstate());
	if (!lop && o == 2 && !extra && !(st0 & (BAD|FAIL))) MC_CHECK (s.good(), "operation %d: state %u after success", o, s.rdstate());
	MC_CHECK (os_open_count() == (held >= 0) && !os_closes_bad && s.is_open() == (held >= 0), "operation %d: %d descriptors open", o, os_open_count());
	mc_step(); mc_state (mc_mix (s.rdstate()*8+ex, held));
    } nintr = 0; }
    MC_CHECK (!os_open_count() && !os_closes_bad, "not closed, or twice");
}
MC_SCENARIO_F (istreams, 1, 1, 2, 2, 0) { streams<ifstream> (4, true); }
MC_SCENARIO_F (ostreams, 1, 1, 2, 2, 0) { streams<ofstream> (4, false); }
MC_SCENARIO (invalid, 1)
{
    setup(); os_policy = 0; { fstream a (-1, "x"); MC_CHECK (a.bad() && !a.is_open(), "an invalid descriptor is good"); ifstream b (-1); MC_CHECK (b.bad() && !b.is_open(), "an invalid descriptor is good"); ofstream c (-1); MC_CHECK (c.bad() && !c.is_open(), "an invalid descriptor is good"); ifstream d ("gone"); MC_CHECK (!d.good() && !d.is_open(), "a missing file is good"); ofstream e ("gone", ios_base::nocreate); MC_CHECK (!e.good() && !e.is_open(), "a missing file is good"); fstream g ("gone", ios_base::in); MC_CHECK (g.bad() && !g.is_open(), "a missing file is good"); }
    { fstream a; a.attach (os_newfd (0, 0), "f"); fstream b (os_newfd (1, 0), "g"); MC_CHECK (a.name() == "f" && b.name() == "g" && b.good(), "names"); a.open (a.name().c_str(), ios_base::in); MC_CHECK (a.name() == "f" && a.good(), "reopened by its own name as '%s'", a.name().c_str()); a.detach(); a.close(); MC_CHECK (a.good(), "closing nothing failed"); }
    MC_CHECK (os_open_count() == 1 && !os_closes_bad, "%d descriptors are open, expected the detached one", os_open_count());
}
// ---- blocks longer than 16 bits count, in the pieces the file gives or takes -----------------------
static int piece; static int pol_piece (char op, int, long n) { return (op == 'r' || op == 'w') && n > piece ? piece : int(OS_ALL); }
MC_SCENARIO (long_blocks, 4*5)
{
    static const int L[] = { 32769, 65535, 65536, 140000 }, P[] = { 1 << 30, 65536, 32768, 40000, 256 }; const int n = L[shard%4], lead = mc_choose (2), more = mc_choose (3); piece = P[shard/4];
    static char t[150000], r[150000]; for (int i = 0; i < n; ++i) t[i] = 'A' + i%53; os_reset(); os_mkfile ("f", 0, 0); nintr = 0; os_policy = pol_piece; mc_at ("%d bytes in pieces of %d", n, piece);
    fstream f ("f", ios_base::in | ios_base::out); MC_CHECK (f.good(), "not open"); if (lead) f.write ("abc", 3);
    off_t k = f.write (t, n); MC_CHECK (k == n && f.good() && f.pos() == n+3*lead && f.size() == n+3*lead, "writing %d gives %ld, position %ld of %ld", n, long(k), long(f.pos()), long(f.size()));
    MC_CHECK (f.seek (lead*3) == lead*3, "seek"); memset (r, 0x2d, sizeof(r)); const int want = more == 0 ? n : more == 1 ? n-1 : n+5; k = f.read (r, want); const int e = want < n ? want : n;
    MC_CHECK (k == e && !memcmp (r, t, e) && r[e] == 0x2d, "reading %d of %d gives %ld", want, n, long(k)); MC_CHECK (f.rdstate() == (want > n ? unsigned(EOFB|FAIL) : 0), "state %u after reading %d of %d", f.rdstate(), want, n); f.clear();
    for (int p : { 0, 255, 256, 32767, 32768, 65535, 65536, n }) { if (p > n) continue; MC_CHECK (f.seek (p) == p && f.pos() == p && f.seek (p-n-3*lead, ios_base::end) == p && f.seek (0) == 0 && f.seek (p, ios_base::cur) == p, "seek to %d of %d", p, n); f.seekg (0); f.seekg (p); MC_CHECK (f.tellg() == p && f.tellp() == p, "seekg to %d of %d goes to %ld", p, n, long(f.tellg())); f.seekp (0); f.seekp (p-n-3*lead, ios_base::end); MC_CHECK (f.tellp() == p, "seekp to %d of %d goes to %ld", p, n, long(f.tellp())); mc_step(); }
    f.close(); MC_CHECK (f.good(), "close"); os_policy = 0; mc_state (mc_mix (n, piece+more)); mc_outcome (n);
}
