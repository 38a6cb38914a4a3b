// C23: exceptions and backtraces against a model. The stack trace functions of
// the C library are replaced by scripted ones, so every trace is reproducible.
#include <ustl/ustl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "mc.h"
using namespace ustl;

#if HAVE_CXXABI_H && WANT_NAME_DEMANGLING
namespace abi { extern "C" char* __cxa_demangle (const char*, char*, size_t*, int*); }
enum { DEMANGLED = 1 };
#else
enum { DEMANGLED = 0 };
#endif
extern "C" int __real_backtrace (void** p, int n);
extern "C" char** __real_backtrace_symbols (void* const* p, int n);

//--- scripted traces --------------------------------------------------------
enum { MAXF = 64, MAXSYM = 400 };
struct Script { int n; bool nosym; char sym[MAXF][MAXSYM]; };
static Script* S;
static void* addr_of (int id, int i) { return (void*)(uintptr_t)(0x10000ul*(id+1) + 0x7f0000000000ul*(i&1) + 16*i + 5); }
static int s_id;

extern "C" int __wrap_backtrace (void** p, int n)
{
    MC_CHECK (n == 64, "backtrace is asked for %d addresses", n);
    for (int i = 0; i < S->n; ++i) p[i] = addr_of (s_id, i);
    return S->n;
}
extern "C" char** __wrap_backtrace_symbols (void* const* p, int n)
{
    MC_CHECK (n == S->n, "symbols of %d addresses are looked up instead of %d", n, S->n);
    for (int i = 0; i < n; ++i) MC_CHECK (p[i] == addr_of (s_id, i), "symbols of a wrong address are looked up");
    if (S->nosym) return nullptr;
    size_t sz = n*sizeof(char*);
    for (int i = 0; i < n; ++i) sz += strlen (S->sym[i])+1;
    char** r = (char**) malloc (sz);
    if (!r) return nullptr;
    char* q = (char*)(r+n);
    for (int i = 0; i < n; ++i) { r[i] = q; size_t l = strlen (S->sym[i])+1; memcpy (q, S->sym[i], l); q += l; }
    return r;
}
static void setup (void) { if (!S) { S = (Script*) mc_raw_alloc (sizeof(Script)); } memset (S, 0, sizeof(*S)); s_id = 0; }

// The text a trace has: addresses in order, each followed by the function's name.
struct Text { char d[64*320+1024]; size_t n; void clear (void) { n = 0; d[0] = 0; } void add (const char* s) { size_t l = strlen(s); if (n+l >= sizeof(d)) mc_fail ("harness error: text"); memcpy (d+n, s, l+1); n += l; } };
static void expected_line (Text& t, void* a, const char* name)
{
    char b[64]; snprintf (b, sizeof(b), "%16p  ", a); t.add (b);
    char nm[300]; size_t l = strlen (name); if (l > 255) l = 255;
    memcpy (nm, name, l); nm[l] = 0;
#if HAVE_CXXABI_H && WANT_NAME_DEMANGLING	// of some configurations
    if (char* d = abi::__cxa_demangle (nm, nullptr, nullptr, nullptr)) { l = strlen (d); if (l > 254) l = 254; memcpy (nm, d, l); free (d); }
#endif
    nm[l] = '\n'; nm[l+1] = 0; t.add (nm);
}

// text of a trace as the library prints it
static void printed (const CBacktrace& b, Text& t)
{
    ostringstream os;
    b.text_write (os);
    const string& s = os.str();
    if (s.size() >= sizeof(t.d)) mc_fail ("the text of a trace is %zu bytes long", s.size());
    memcpy (t.d, s.begin(), s.size()); t.n = s.size(); t.d[t.n] = 0;
}
static void same_text (const Text& a, const Text& e, const char* what)
{
    if (a.n == e.n && !memcmp (a.d, e.d, a.n)) return;
    size_t i = 0; while (i < a.n && i < e.n && a.d[i] == e.d[i]) ++i;
    mc_fail ("%s prints %zu bytes instead of %zu, different at %zu: '%.60s' instead of '%.60s'", what, a.n, e.n, i, a.d+i, e.d+i);
}

//--- names ------------------------------------------------------------------
static const char* const paths[] = { "", "a", "./prog", "/usr/lib/libstdc++.so.6", "/opt/c++/x+y", "/very/long/path/with+plus/and/more/and/more/libs/libfoo-1.2.so.3" };
static const int fnlen[] = { 0, 1, 5, 253, 254, 255, 256, 300 };
enum { NP = 6, NFN = 8, NFORM = 5 };
static void mkname (char* b, int len, int seed) { static const char al[] = "_ZN4ustl6vectorIiE"; for (int i = 0; i < len; ++i) b[i] = al[(i+seed)%18]; b[len] = 0; }
// returns 0 when the form has no name that is specified
static bool mksym (char* d, char* name, int path, int fn, int form, int seed)
{
    mkname (name, fnlen[fn], seed);
    switch (form) {
	case 0: sprintf (d, "%s(%s+0x42) [0x40%d]", paths[path], name, seed); return true;
	case 1: sprintf (d, "%s() [0x40%d]", paths[path], seed); return false;
	case 2: sprintf (d, "%s [0x40%d]", paths[path], seed); return false;
	case 3: sprintf (d, "[0x40%d]", seed); return false;
	default: d[0] = 0; return false;
    }
}
static void one_trace (const char* const* names, const bool* spec, int n)
{
    CBacktrace b;
    static Text t, e; printed (b, t); e.clear();
    bool all = true;
    for (int i = 0; i < n; ++i) { all = all && spec[i]; if (all) expected_line (e, addr_of (s_id, i), names[i]); }
    if (all) same_text (t, e, "a backtrace");
    // otherwise the lines still are in order and have the addresses
    const char* p = t.d;
    for (int i = 0; i < n; ++i) {
	char w[64]; snprintf (w, sizeof(w), "%16p  ", addr_of (s_id, i));
	MC_CHECK (!strncmp (p, w, strlen(w)), "line %d of a backtrace is '%.40s', it should begin with '%s'", i, p, w);
	const char* nl = strchr (p, '\n');
	MC_CHECK (nl, "line %d of a backtrace is not ended: '%.60s'", i, p);
	if (spec[i]) { e.clear(); expected_line (e, addr_of (s_id, i), names[i]); MC_CHECK (size_t(nl+1-p) == e.n && !memcmp (p, e.d, e.n), "line %d of a backtrace is '%.*s' instead of '%.*s'", i, int(nl-p), p, int(e.n-1), e.d); }
	p = nl+1;
    }
    MC_CHECK (!*p, "a backtrace of %d frames prints more: '%.60s'", n, p);
    // it can be copied and serialized
    CBacktrace c (b);
    static Text t2; printed (c, t2); same_text (t2, t, "a copy of a backtrace");
    size_t ss = b.stream_size();
    char* buf = (char*) malloc (ss);
    ostream os (buf, ss); b.write (os);
    MC_CHECK (os.good() && os.pos() == ss, "a backtrace wrote %zu bytes, stream_size is %zu", size_t(os.pos()), ss);
    istream is (buf, ss); CBacktrace r; r.read (is);
    MC_CHECK (is.good() && !is.remaining(), "reading a backtrace left %zu of %zu bytes", size_t(is.remaining()), ss);
    free (buf);
    printed (r, t2); same_text (t2, t, "a backtrace read back");
}
MC_SCENARIO (names, NP*NFN*NFORM)
{
    setup();
    static char nm[3][MAXSYM]; const char* names[3] = { nm[0], nm[1], nm[2] }; bool spec[3];
    // the first symbol by the shard, a second and third by choice
    int n = 1 + mc_choose (3);
    S->n = n;
    spec[0] = mksym (S->sym[0], nm[0], shard%NP, shard/NP%NFN, shard/NP/NFN, 0);
    for (int i = 1; i < n; ++i) { int p = mc_choose (MC_TIER(3,NP)), f = mc_choose (MC_TIER(3,NFN)), o = mc_choose (n == 3 ? 2 : NFORM); spec[i] = mksym (S->sym[i], nm[i], p, f, o, i); }
    mc_note ("symbols '%s' '%s' '%s'", S->sym[0], S->sym[1], S->sym[2]);
    one_trace (names, spec, n);
    mc_step();
    mc_state (mc_hash (n, S->sym[0], strlen (S->sym[0])));
    if (mc_want_sample()) mc_sample ("trace of %d frames, first '%.60s'", n, S->sym[0]);
}
MC_SCENARIO (many_frames, 65)
{
    setup();
    static char nm[MAXF][MAXSYM]; const char* names[MAXF]; bool spec[MAXF];
    S->n = shard;
    int f = mc_choose (NFN), p = mc_choose (NP); S->nosym = false;
    for (int i = 0; i < shard; ++i) { names[i] = nm[i]; spec[i] = mksym (S->sym[i], nm[i], (p+i)%NP, f, 0, i); }
    one_trace (names, spec, shard);
    mc_step(); mc_state (mc_mix (shard, f*NP+p));
}

// a name demangled in a buffer of every size
MC_SCENARIO (name_buffers, 1)
{
    static const char* const fn[] = { "", "f", "ffffffffffffffffffffffffffffffffffffffff", "_Z4funcPKcSsSs", "_ZN4ustl6vectorISsE4swapERKS0_", "_Z1fSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSsSs" };
    for (int f = 0; f < 6; ++f) for (int bs = strlen (fn[f])+1; bs < 1200; bs += bs < 300 ? 1 : 50) for (int give = 0; give < 2; ++give) {
	mc_at ("%s in %d bytes", fn[f], bs);
	char* b = (char*) mc_guard (0, bs); memset (b, 'x', bs); strcpy (b, fn[f]); size_t sz = 77777;
	string e (fn[f]);
#if HAVE_CXXABI_H && WANT_NAME_DEMANGLING
	if (char* d = abi::__cxa_demangle (fn[f], nullptr, nullptr, nullptr)) { e.assign (d, min (strlen (d), size_t (bs-1))); free (d); }
#endif
	MC_CHECK (demangle_type_name (b, bs, give ? &sz : nullptr) == b, "demangle_type_name returns another place");
	MC_CHECK (memchr (b, 0, bs) && e == (const char*) b, "'%s' in %d bytes is shown as '%.*s'", fn[f], bs, bs, b);
	MC_CHECK (!give || sz == e.size(), "'%s' in %d bytes: the size of the name is %zu", fn[f], bs, sz);
	mc_guard_free (b); mc_step();
    }
    mc_state (1); mc_sample ("six names in buffers of up to 1200 bytes");
}
// names that a demangling configuration shows as something longer, of every length around the limits
MC_SCENARIO (mangled_names, 8)
{
    setup();
    static char nm[3][MAXSYM]; const char* names[3] = { nm[0], nm[1], nm[2] }; bool spec[3] = { true, true, true };
    for (int len = 1+shard; len < 125; len += 8) for (int k = 0; k < len; k += 3) {
	mc_at ("f%d (%d strings)", len, k); S->n = 3;
	for (int i = 0; i < 3; ++i) {
	    char* p = nm[i]; p += sprintf (p, "_Z%d", len); for (int j = 0; j < len; ++j) *p++ = 'f'; *p = 0;
	    for (int j = 0; j < k+i-1 && p-nm[i] < 250; ++j) p += sprintf (p, "Ss"); if (!k) p += sprintf (p, "v");
	    snprintf (S->sym[i], MAXSYM, "./prog(%s+0x1) [0x40%d]", nm[i], i);
	}
	one_trace (names, spec, 3); mc_step();
    }
    mc_state (shard);
    mc_heap_check(); MC_CHECK (!mc_heap_live(), "%ld blocks leaked", mc_heap_live());
}

//--- histories of backtraces ------------------------------------------------
static void fn_name (char* d, int id, int i) { sprintf (d, DEMANGLED && i%3 != 1 ? "_Z4fn%c%dPKcSsSsSs" : "fn%c%d", 'a'+id, i%(DEMANGLED ? 10 : 100)); }
static void script (int id)
{
    setup(); s_id = id;
    S->n = id == 0 ? 2 : id == 1 ? 3 : id == 2 ? 0 : 64;
    S->nosym = id == 1;
    for (int i = 0; i < S->n; ++i) { sprintf (S->sym[i], "prog("); fn_name (S->sym[i]+5, id, i); sprintf (S->sym[i]+strlen (S->sym[i]), "+0x%d) [0x1]", i); }
}
static void script_text (int id, bool names, Text& t)
{
    t.clear();
    int n = id == 0 ? 2 : id == 1 ? 3 : id == 2 ? 0 : 64;
    for (int i = 0; i < n; ++i) { char b[32]; fn_name (b, id, i); expected_line (t, addr_of (id, i), names && id != 1 ? b : ""); }
}
enum { NB = 2, NSC = 4 };
// names: 2 they must be there, 1 an allocation failed: they may be missing
static void bt_check (const CBacktrace& b, int id, int names, const char* what)
{
    static Text t, e; printed (b, t);
    script_text (id, true, e);
    if (names == 2 || (t.n == e.n && !memcmp (t.d, e.d, t.n))) return same_text (t, e, what);
    script_text (id, false, e);
    if (DEMANGLED) {	// any of the names may be missing, or cut
	size_t lines = 0; for (size_t i = 0; i < t.n; ++i) lines += t.d[i] == '\n';
	MC_CHECK (lines == size_t(S->n < 0 ? 0 : (id == 0 ? 2 : id == 1 ? 3 : id == 2 ? 0 : 64)), "%s prints %zu lines", what, lines);
    } else same_text (t, e, what);
}
struct BV { CBacktrace* p; int id; int names; };
static void bt_hist (int depth, int shard, int nsc)
{
    BV v[NB]; static char mem[NB][sizeof(CBacktrace)] __attribute__((aligned(16)));
    for (int i = 0; i < NB; ++i) { script (i); memset (mem[i], 0xA5, sizeof(mem[i])); v[i].p = new (mem[i]) CBacktrace; v[i].id = i; v[i].names = 2; }
    enum { NOP = 6 };
    for (int s = 0; s < depth; ++s) {
	int fl = mc_dev (4);	// the k-th allocation of the step fails
	int op = s ? mc_choose (NOP) : shard%NOP, i = s ? mc_choose (NB) : shard/NOP%NB, j = 0;
	if (op <= 3) j = mc_choose (NB);
	int id = op == 4 ? mc_choose (nsc) : 0;
	if (op == 4) script (id);
	mc_note ("%d: op %d on %d with %d (%d)%s", s, op, i, j, id, fl ? ", an allocation fails" : "");
	mc_heap_fail_at (fl ? fl-1 : -1);
	bool continue_ = false;
	switch (op) {
	    case 0: *v[i].p = *v[j].p; break;
	    case 1: if (i != j) { v[i].p->~CBacktrace(); new (v[i].p) CBacktrace (*v[j].p); } break;
	    case 2: {	// assigned through a copy
		CBacktrace t (*v[j].p); *v[i].p = t; } break;
	    case 3: {
		size_t ss = v[j].p->stream_size(); mc_heap_fail_at (-1); void* buf = malloc (ss); mc_heap_fail_at (fl ? fl-1 : -1);
		ostream os (buf, ss); v[j].p->write (os);
		MC_CHECK (os.good() && os.pos() == ss, "a backtrace wrote %zu bytes, stream_size is %zu", size_t(os.pos()), ss);
		bool thrown = false;
		try { istream is (buf, ss); v[i].p->read (is); MC_CHECK (is.good() && !is.remaining(), "reading a backtrace stopped at %zu of %zu", size_t(is.pos()), ss); } catch (exception&) { thrown = true; }
		if (thrown) { MC_CHECK (mc_heap_failed(), "reading a written backtrace threw"); mc_heap_fail_at (-1); static Text t; printed (*v[i].p, t); v[i].id = v[j].id; script (v[i].id); v[i].p->~CBacktrace(); new (v[i].p) CBacktrace; v[i].names = 2; bt_check (*v[i].p, v[i].id, 2, "a new one after a failure"); continue_ = true; }
		free (buf); } break;
	    case 4: v[i].p->~CBacktrace(); new (v[i].p) CBacktrace; break;
	    case 5: { v[i].p->~CBacktrace(); memset (mem[i], 0xA5, sizeof(mem[i])); script (0); new (v[i].p) CBacktrace; id = 0; } break;
	}
	if (continue_) continue;
	bool failed = mc_heap_failed();
	mc_heap_fail_at (-1);
	if (fl && !failed) return (void) (v[0].p->~CBacktrace(), v[1].p->~CBacktrace());	// explored without it
	if (op <= 3) { if (!(op == 1 && i == j)) { v[i].id = v[j].id; v[i].names = failed ? 1 : v[j].names; } }
	else { v[i].id = id; v[i].names = failed ? 1 : 2; }
	for (int k = 0; k < NB; ++k) bt_check (*v[k].p, v[k].id, v[k].names, k == i ? "the target" : "another backtrace");
	mc_heap_check(); mc_step();
	mc_state (mc_mix (mc_mix (v[0].id, v[1].id), v[0].names*4+v[1].names));
    }
    for (int i = 0; i < NB; ++i) v[i].p->~CBacktrace();
    MC_CHECK (!mc_heap_live(), "%ld blocks leaked", mc_heap_live());
}
MC_SCENARIO_F (backtraces, 12, 12, 2, 2, 0) { bt_hist (MC_TIER(3,4), shard, MC_TIER(3,4)); }

//--- exceptions -------------------------------------------------------------
// Every kind: how to make one with given arguments and what it then says.
static char* gone (const char* s) { return (char*) mc_guard (s, strlen(s)+1); }	// an argument that does not outlive the constructor
static const char* const texts[] = { "x", "", "%s%n%d", "a longer text than any small buffer, with \xc3\xa9 and\nlines" };
enum { NT = 4 };
struct Says { const char* what; const char* fmtd; xfmt_t format; char info[9000]; char custom[9000]; };

template <typename X> struct Kind;
#define SIMPLE(X, w, f) template <> struct Kind<X> { enum { ARGS = 1 }; static const char* tname (void) { return #X; } \
    static X* make (void* p, int) { return new (p) X; } \
    static void says (const X&, int, Says& s) { s.what = w; s.format = f; sprintf (s.info, w); sprintf (s.custom, w); } static void more (const X&, int) {} };
SIMPLE (exception, "error", xfmt_Exception)
SIMPLE (bad_cast, "bad cast", xfmt_Exception)
SIMPLE (bad_typeid, "bad typeid", xfmt_Exception)
#define MESSAGE(X, nm) template <> struct Kind<X> { enum { ARGS = NT }; static const char* tname (void) { return #X; } \
    static X* make (void* p, int a) { char* g = gone (texts[a]); X* r = new (p) X (g); mc_guard_free (g); return r; } \
    static void says (const X&, int a, Says& s) { s.what = texts[a]; s.format = xfmt_ErrorMessage; sprintf (s.info, "%s: %s", nm, texts[a]); sprintf (s.custom, "<%s> %s", nm, texts[a]); } \
    static void more (const X& x, int) { MC_CHECK (!strcmp (x.name(), nm), "%s: name is '%s'", tname(), x.name()); } };
MESSAGE (error_message, "error")
MESSAGE (logic_error, "logic error")
MESSAGE (domain_error, "domain error")
MESSAGE (invalid_argument, "invalid argument")
MESSAGE (length_error, "length error")
MESSAGE (out_of_range, "out of range")
MESSAGE (runtime_error, "runtime error")
MESSAGE (range_error, "range error")
MESSAGE (overflow_error, "overflow error")
MESSAGE (underflow_error, "underflow error")
static const size_t sizes[] = { 0, 1, 4096, 0x7fffffff, 0x80000000ul, 0xffffffff, 0x100000000ul, 0xfffffffffffffff0ul };
enum { NSZ = 8 };
template <> struct Kind<bad_alloc> { enum { ARGS = NSZ }; static const char* tname (void) { return "bad_alloc"; }
    static bad_alloc* make (void* p, int a) { return new (p) bad_alloc (sizes[a]); }
    static void says (const bad_alloc&, int a, Says& s) { s.what = "memory allocation failed"; s.format = xfmt_BadAlloc; sprintf (s.info, "failed to allocate %zu bytes", sizes[a]); sprintf (s.custom, "<%zu>", sizes[a]); s.fmtd = "<%zu>"; }
    static void more (const bad_alloc&, int) {} };
static const int errs[] = { 0, ENOENT, EINVAL, 9999, ENOMEM };
template <> struct Kind<system_error> { enum { ARGS = NT*5 }; static const char* tname (void) { return "system_error"; }
    static system_error* make (void* p, int a) {
	char* g = gone (texts[a%NT]); system_error* r; int e = errs[a/NT];
	switch (a%5) {	// all the ways of making one
	    case 0: errno = e; r = new (p) system_error (g); break;
	    case 1: r = new (p) system_error (error_code (e, system_category()), g); break;
	    case 2: { string t; t = g; r = new (p) system_error (error_code (e, system_category()), t); } break;
	    case 3: r = new (p) system_error (e, system_category(), g); break;
	    default: { string t; t = g; r = new (p) system_error (e, system_category(), t); } break;
	}
	mc_guard_free (g); return r;
    }
    static void says (const system_error&, int a, Says& s) { s.what = "system error"; s.format = xfmt_SystemError; sprintf (s.info, "%s: %s", texts[a%NT], strerror (errs[a/NT])); sprintf (s.custom, "<%s> %s", texts[a%NT], strerror (errs[a/NT])); }
    static void more (const system_error& x, int a) {
	MC_CHECK (!strcmp (x.name(), texts[a%NT]) && !strcmp (x.Operation(), texts[a%NT]), "system_error: operation is '%s' instead of '%s'", x.Operation(), texts[a%NT]);
	MC_CHECK (x.Errno() == errs[a/NT] && x.code().value() == errs[a/NT], "system_error: errno is %d instead of %d", x.Errno(), errs[a/NT]);
    } };
static char longname[PATH_MAX+10];
static const char* fname_of (int a)
{
    static const char* const f[] = { "a.txt", nullptr, "", "dir with space/%d" };
    if (a < 4) return f[a];
    static const int len[] = { PATH_MAX-2, PATH_MAX-1, PATH_MAX, PATH_MAX+5 };
    for (int i = 0; i < len[a-4]; ++i) longname[i] = 'a'+i%26;
    longname[len[a-4]] = 0; return longname;
}
static const char* fname_kept (int a) { static char b[PATH_MAX]; const char* f = fname_of (a); b[0] = 0; if (f) { size_t l = strlen (f); if (l > PATH_MAX-1) l = PATH_MAX-1; memcpy (b, f, l); b[l] = 0; } return b; }
template <> struct Kind<file_exception> { enum { ARGS = 8 }; static const char* tname (void) { return "file_exception"; }
    static file_exception* make (void* p, int a) { char *g = gone (texts[a%3]), *f = fname_of (a) ? gone (fname_of (a)) : nullptr; errno = errs[a%5]; file_exception* r = new (p) file_exception (g, f); mc_guard_free (g); if (f) mc_guard_free (f); return r; }
    static void says (const file_exception&, int a, Says& s) { s.what = "file error"; s.format = xfmt_FileException; sprintf (s.info, "%s %s: %s", texts[a%3], fname_kept(a), strerror (errs[a%5])); sprintf (s.custom, "<%s> %s, %s", texts[a%3], fname_kept(a), strerror (errs[a%5])); s.fmtd = "<%s> %s, %s"; }
    static void more (const file_exception& x, int a) {
	MC_CHECK (!strcmp (x.Filename(), fname_kept (a)), "file_exception: name of %zu bytes instead of %zu", strlen (x.Filename()), strlen (fname_kept (a)));
	MC_CHECK (!strcmp (x.Operation(), texts[a%3]) && x.Errno() == errs[a%5], "file_exception: operation '%s' error %d", x.Operation(), x.Errno());
    } };
template <> struct Kind<stream_bounds_exception> { enum { ARGS = NSZ }; static const char* tname (void) { return "stream_bounds_exception"; }
    static const char* ty (int a) { return a < 4 ? texts[a] : a == 4 ? "int" : texts[a-4]; }
    static const char* dty (int a) { return DEMANGLED && !strcmp (ty(a), "x") ? "long long" : ty(a); }
    static size_t arg (int a, int k) { return sizes[(a+k*3)%NSZ]; }
    static stream_bounds_exception* make (void* p, int a) { char *g = gone (texts[a%3]), *t = gone (ty (a)); errno = errs[a%5]; stream_bounds_exception* r = new (p) stream_bounds_exception (g, t, arg(a,0), arg(a,1), arg(a,2)); mc_guard_free (g); mc_guard_free (t); return r; }
    static void says (const stream_bounds_exception&, int a, Says& s) { s.what = "stream bounds exception"; s.format = xfmt_StreamBoundsException;
	sprintf (s.info, "%s stream %s: @0x%zX: need %zu bytes, have %zu", dty(a), texts[a%3], arg(a,0), arg(a,1), arg(a,2));
	sprintf (s.custom, "<%s> %s %zu %zu %zu", dty(a), texts[a%3], arg(a,0), arg(a,1), arg(a,2)); s.fmtd = "<%s> %s %zu %zu %zu"; }
    static void more (const stream_bounds_exception& x, int a) {
	MC_CHECK (x.Offset() == arg(a,0) && x.Expected() == arg(a,1) && x.Remaining() == arg(a,2), "stream_bounds_exception: numbers are %zu %zu %zu", size_t(x.Offset()), x.Expected(), x.Remaining());
	MC_CHECK (!strcmp (x.TypeName(), ty(a)), "stream_bounds_exception: type is '%s' instead of '%s'", x.TypeName(), ty(a));
	MC_CHECK (!strcmp (x.Operation(), texts[a%3]) && x.Errno() == errs[a%5], "stream_bounds_exception: operation '%s' error %d", x.Operation(), x.Errno());
    } };

static void cmp_text (const char* kind, const char* w, const string& s, const char* e)
{
    MC_CHECK (s.size() == strlen (e) && !memcmp (s.begin(), e, s.size()), "%s: %s is '%.200s' (%zu bytes) instead of '%.200s' (%zu)", kind, w, s.c_str(), s.size(), e, strlen (e));
    MC_CHECK (!s.c_str()[s.size()], "%s: %s is not terminated", kind, w);
}
template <typename X> static void ex_check (const X& x, int a, int tr, int names, const char* who)
{
    typedef Kind<X> K; static Says s; s.fmtd = "<%s> %s"; if (K::ARGS == 1) s.fmtd = nullptr;
    const ustl::exception& b = x;
    K::says (x, a, s);
    mc_note ("checking %s: %s of arguments %d", who, K::tname(), a);
    MC_CHECK (!strcmp (b.what(), s.what), "%s: what() is '%s' instead of '%s'", K::tname(), b.what(), s.what);
    MC_CHECK (b.format() == s.format, "%s: format() is %u instead of %u", K::tname(), b.format(), s.format);
    string i; b.info (i); cmp_text (K::tname(), "info", i, s.info);
    if (s.fmtd) { i = "old text"; b.info (i, s.fmtd); cmp_text (K::tname(), "info with a format", i, s.custom); }
    ostringstream os; b.text_write (os); cmp_text (K::tname(), "text", os.str(), s.info);
    K::more (x, a);
    bt_check (b.backtrace(), tr, names, "the backtrace of the exception");
}
template <typename X> static void ex_hist (int depth, int shard)
{
    typedef Kind<X> K; enum { NX = 2, NOP = 6 };
    static char mem[NX][sizeof(X)] __attribute__((aligned(16))); X* v[NX]; int arg[NX], tr[NX], names[NX];
    for (int i = 0; i < NX; ++i) { arg[i] = i ? mc_choose (K::ARGS) : shard%K::ARGS; tr[i] = i; names[i] = 2; script (i); memset (mem[i], 0xA5, sizeof(mem[i])); v[i] = K::make (mem[i], arg[i]); ex_check (*v[i], arg[i], tr[i], 2, "a new one"); }
    for (int s = 0; s < depth; ++s) {
	int op = mc_choose (NOP), i = mc_choose (NX), j = 1-i;
	if (op >= 4 && i && s+1 < depth) {}	// both are tried
	mc_note ("%d: op %d on %d", s, op, i);
	script (3);
	switch (op) {
	    case 0: *v[i] = *v[j]; break;
	    case 1: v[i]->~X(); memset (mem[i], 0xA5, sizeof(mem[i])); new (v[i]) X (*v[j]); break;
	    case 2: { const X& c = *v[i]; *v[i] = c; j = i; } break;
	    case 3: case 5: {
		size_t ss = v[j]->stream_size(); char* buf = (char*) malloc (ss);
		ostream os (buf, ss); v[j]->write (os);
		MC_CHECK (os.good() && os.pos() == ss, "%s wrote %zu bytes, stream_size is %zu", K::tname(), size_t(os.pos()), ss);
		uint32_t h[2]; memcpy (h, buf, 8);
		MC_CHECK (h[0] == v[j]->format() && h[1] == ss-8, "%s: the record begins with %u %u", K::tname(), h[0], h[1]);
		if (op == 5) { v[i]->~X(); K::make (mem[i], 0); }	// over a fresh one
		{ istream is (buf, ss); v[i]->read (is);
		MC_CHECK (is.good() && !is.remaining(), "reading %s stopped at %zu of %zu, state %u", K::tname(), size_t(is.pos()), ss, is.rdstate()); }
		free (buf); } break;
	    case 4: {	// through a throw, caught by value
		bool ok = false;
		try { throw X (*v[j]); } catch (X& x) { ex_check (x, arg[j], tr[j], names[j], "the caught one"); *v[i] = x; ok = true; }
		MC_CHECK (ok, "%s was not caught", K::tname()); } break;
	}
	arg[i] = arg[j]; tr[i] = tr[j]; names[i] = names[j];
	for (int k = 0; k < NX; ++k) ex_check (*v[k], arg[k], tr[k], names[k], k == i ? "the target" : "another one");
	mc_heap_check(); mc_step();
	mc_state (mc_mix (mc_mix (arg[0], arg[1]), tr[0]*4+tr[1]));
    }
    for (int i = 0; i < NX; ++i) v[i]->~X();
    MC_CHECK (!mc_heap_live(), "%s: %ld blocks leaked", K::tname(), mc_heap_live());
    if (mc_want_sample()) mc_sample ("%s with arguments %d", K::tname(), arg[0]);
}
#define KINDS(F) F(exception) F(bad_cast) F(bad_typeid) F(error_message) F(logic_error) F(domain_error) F(invalid_argument) F(length_error) F(out_of_range) F(runtime_error) F(range_error) F(overflow_error) F(underflow_error) F(bad_alloc) F(system_error) F(file_exception) F(stream_bounds_exception)
#define EXH(X) MC_SCENARIO2 (hist_##X, Kind<X>::ARGS, Kind<X>::ARGS) { ex_hist<X> (MC_TIER (2,3), shard); }
KINDS (EXH)

//--- failing allocations ----------------------------------------------------
// Making, describing, copying: noexcept operations lose text at most, the others throw.
template <typename X> static void ex_fail (int shard)
{
    typedef Kind<X> K; int a = mc_choose (K::ARGS), tr = mc_choose (2), what = mc_choose (5); (void) shard;
    static char mem[2][sizeof(X)] __attribute__((aligned(16)));
    X *x = nullptr, *y = nullptr;
    script (tr);
    mc_note ("%s of arguments %d, operation %d, allocation %d fails", K::tname(), a, what, shard);
    if (!what) {
	// the arguments' copies are made by the harness, do not fail those
	struct Arg { static X* mk (void* p, int a, int k) { mc_heap_fail_at (k); return K::make (p, a); } };
	try { x = Arg::mk (mem[0], a, shard); } catch (ustl::exception&) { MC_CHECK (mc_heap_failed(), "%s: constructor threw", K::tname()); }
	bool f = mc_heap_failed(); mc_heap_fail_at (-1);
	if (x && !f) ex_check (*x, a, tr, 2, "the new one");
    } else {
	x = K::make (mem[0], a);
	string s; s = "some old text"; ostringstream os;
	const X& c = *x; bool thrown = false;
	script (3);
	if (what == 4) y = K::make (mem[1], K::ARGS-1);
	mc_heap_fail_at (shard);
	try {
	    switch (what) {
		case 1: static_cast<const ustl::exception&>(c).info (s); break;
		case 2: static_cast<const ustl::exception&>(c).text_write (os); break;
		case 3: y = new (mem[1]) X (c); break;
		case 4: *y = c; break;
	    }
	} catch (ustl::exception&) { thrown = true; }
	bool f = mc_heap_failed(); mc_heap_fail_at (-1);
	MC_CHECK (!thrown || f, "%s: operation %d threw", K::tname(), what);
	ex_check (*x, a, tr, 2, "the original");
	if (y && !f) ex_check (*y, a, tr, 2, "the copy");
	if (y && f && !thrown) ex_check (*y, a, tr, 1, "the copy");
    }
    // whatever happened, both describe themselves and can be destroyed
    for (int i = 0; i < 2; ++i) if (X* p = i ? y : x) {
	const ustl::exception& b = *p; string s; b.info (s); MC_CHECK (!s.c_str()[s.size()], "%s: info is not terminated", K::tname());
	ostringstream os; b.text_write (os); b.backtrace().text_write (os);
	*p = *x; ustl::exception z (b); p->~X();
    }
    mc_step(); mc_state (mc_mix (a, what*2+tr));
    MC_CHECK (!mc_heap_live(), "%s: %ld blocks leaked", K::tname(), mc_heap_live());
}
#define EXF(X) MC_SCENARIO2 (fail_##X, 6, 8) { ex_fail<X> (shard); }
KINDS (EXF)

//--- corrupt records --------------------------------------------------------
// A record that is cut or changed is rejected, or read as what it says; either way the object stays usable.
static const uint32_t words[] = { 0, 1, 2, 7, 8, 63, 64, 65, 66, 127, 255, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xfffffff7u, 0xfffffff8u, 0xffffffffu };
enum { NW = 17 };
static const unsigned char bytes[] = { 0, 1, 8, 64, 0x7f, 0x80, 0xc3, 0xfe, 0xff, '\n' };
enum { NBY = 10 };
template <typename X> static void ex_read_corrupt (const char* d, size_t n, bool exc, bool used, bool must)
{
    typedef Kind<X> K; static char mem[sizeof(X)] __attribute__((aligned(16)));
    script (0); memset (mem, 0xA5, sizeof(mem)); X* x = K::make (mem, used ? K::ARGS-1 : 0);
    void* buf = malloc (n); memcpy (buf, d, n);
    bool rejected = false, thrown = false; size_t pos = 0;
    {
	istream is (buf, n);
	if (!exc) is.exceptions (0);
	try { x->read (is); } catch (stream_bounds_exception&) { thrown = true; } catch (ustl::exception& e) { string s; e.info (s); mc_fail ("%s: reading a damaged record threw '%s'", K::tname(), s.c_str()); }
	MC_CHECK (exc || !thrown, "%s: reading a damaged record threw though exceptions are off", K::tname());
	MC_CHECK (!exc || thrown == is.fail(), "%s: reading a damaged record threw: %d, failed: %d", K::tname(), thrown, is.fail());
	rejected = thrown || is.fail(); pos = is.pos();
	MC_CHECK (pos <= n, "%s: read past the end", K::tname());
    }
    MC_CHECK (rejected || !must, "%s: a damaged record was accepted", K::tname());
    free (buf);
    // still usable
    const ustl::exception& b = *x; string s; b.info (s); (void) b.what();
    ostringstream os; b.text_write (os); b.backtrace().text_write (os);
    if (!rejected) {
	size_t ss = b.stream_size(); char* o = (char*) mc_raw_alloc (ss);
	ostream ost (o, ss); b.write (ost); MC_CHECK (ost.good() && ost.pos() == ss, "%s: wrote %zu bytes, stream_size is %zu", K::tname(), size_t(ost.pos()), ss);
	static char mem2[sizeof(X)] __attribute__((aligned(16))); X* y = K::make (mem2, 0);
	istream is (o, ss); y->read (is); MC_CHECK (is.good(), "%s: what was accepted does not survive writing and reading", K::tname());
	string s2; static_cast<const ustl::exception*>(y)->info (s2); MC_CHECK (s == s2, "%s: '%s' became '%s'", K::tname(), s.c_str(), s2.c_str());
	y->~X();
    }
    mc_outcome (rejected);
    { X c (*x); *x = c; }
    x->~X();
    mc_heap_check();
}
template <typename X> static void ex_corrupt (int shard)
{
    typedef Kind<X> K;
    int a = shard % K::ARGS, tr = shard / K::ARGS;	// traces with and without names, and with none
    if (!strcmp (K::tname(), "file_exception") && a >= 4 && !mc_thorough) return;
    script (tr);
    static char mem[sizeof(X)] __attribute__((aligned(16))); X* x = K::make (mem, a);
    static char buf[32768], wrk[32768]; size_t n = x->stream_size();
    if (n > sizeof(buf)) mc_fail ("harness error: record");
    { ostream os (buf, n); x->write (os); MC_CHECK (os.pos() == n, "%s wrote %zu bytes, stream_size is %zu", K::tname(), size_t(os.pos()), n); }
    x->~X();
    int nf; memcpy (&nf, buf+8, 4); uint32_t sy; memcpy (&sy, buf+12, 4);
    size_t base = ((16+sy+7)&~7ul) + 8*nf;
    int mode = mc_choose (3), exc = mc_choose (2), used = mc_choose (2);
    if (mode == 0) {
	for (size_t l = 0; l < n; ++l) { mc_at ("cut to %zu of %zu bytes", l, n); ex_read_corrupt<X> (buf, l, exc, used, true); MC_CHECK (!mc_heap_live(), "%s: %ld blocks leaked", K::tname(), mc_heap_live()); mc_eval(); }
    } else if (mode == 1) {
	size_t lim = n < 600 ? n : 600;
	for (size_t p = 0; p < lim; ++p) for (int b = 0; b < NBY; ++b) {
	    if ((unsigned char) buf[p] == bytes[b]) continue;
	    memcpy (wrk, buf, n); wrk[p] = bytes[b]; mc_at ("byte %zu of %zu is %d", p, n, bytes[b]);
	    ex_read_corrupt<X> (wrk, n, exc, used, p < 4); MC_CHECK (!mc_heap_live(), "%s: %ld blocks leaked", K::tname(), mc_heap_live()); mc_eval();
	}
    } else {
	size_t lim = n < 600 ? n : 600;
	for (size_t p = 0; p+4 <= lim; p += 4) for (int b = 0; b < NW; ++b) {
	    uint32_t o; memcpy (&o, buf+p, 4); if (o == words[b]) continue;
	    memcpy (wrk, buf, n); memcpy (wrk+p, &words[b], 4); mc_at ("word %zu of %zu is %#x", p, n, words[b]);
	    // what cannot be right: another type, a size that does not hold the base or ends past the data, more frames than fit, more than there is
	    bool must = p == 0;
	    if (p == 4) must = size_t(words[b])+8 < base || size_t(words[b])+8 > n;
	    if (p == 8) must = words[b] > 64 || words[b]*8ul + ((16+sy+7)&~7ul) > n;
	    if (p == 12) must = ((16+size_t(words[b])+7)&~7ul) + 8*nf > n;
	    ex_read_corrupt<X> (wrk, n, exc, used, must); MC_CHECK (!mc_heap_live(), "%s: %ld blocks leaked", K::tname(), mc_heap_live()); mc_eval();
	}
    }
    mc_step(); mc_state (mc_mix (shard, mode));
}
#ifdef NDEBUG	// data that puts pointers at other places is ruled out by an assertion
#define EXC(X) MC_SCENARIO2 (corrupt_##X, 3*Kind<X>::ARGS, 3*Kind<X>::ARGS) { ex_corrupt<X> (shard); }
#else
#define EXC(X)
#endif
KINDS (EXC)

// a file name that is longer than this build can keep
MC_SCENARIO (long_filename, 40)
{
    static char b[3*PATH_MAX]; static char mem[sizeof(file_exception)] __attribute__((aligned(16)));
    size_t len = PATH_MAX-20+shard; int fresh = mc_choose (2);
    script (0);
    file_exception e ("open", ""); ostream os (b, sizeof(b)); e.write (os); os.seek (os.pos()-8);
    string nm; nm.assign (len, 'n'); os << nm; os.align();
    uint32_t z = os.pos()-8; memcpy (b+4, &z, 4);
    memset (mem, 0xA5, sizeof(mem));
    file_exception* x = new (mem) file_exception ("op", fresh ? nullptr : "old");
    istream is (b, os.pos()); is.exceptions (0); x->read (is);
    MC_CHECK (memchr (x->Filename(), 0, PATH_MAX), "file_exception: a name of %zu bytes is kept without an end", len);
    if (is.good()) {
	size_t k = len < PATH_MAX-1 ? len : PATH_MAX-1;
	MC_CHECK (strlen (x->Filename()) == k && strspn (x->Filename(), "n") == k, "file_exception: a name of %zu bytes is read as %zu", len, strlen (x->Filename()));
    } else MC_CHECK (len > PATH_MAX-1, "file_exception: a name of %zu bytes is rejected", len);
    string s; x->info (s); x->~file_exception();
    mc_step(); mc_state (len);
}

//--- error codes ------------------------------------------------------------
static const struct { errc c; int e; } codes[] = {
#define EC(n,e) { errc::n, e },
EC(address_family_not_supported,EAFNOSUPPORT) EC(address_in_use,EADDRINUSE) EC(address_not_available,EADDRNOTAVAIL) EC(already_connected,EISCONN)
EC(argument_list_too_long,E2BIG) EC(argument_out_of_domain,EDOM) EC(bad_address,EFAULT) EC(bad_file_descriptor,EBADF) EC(bad_message,EBADMSG)
EC(broken_pipe,EPIPE) EC(connection_aborted,ECONNABORTED) EC(connection_already_in_progress,EALREADY) EC(connection_refused,ECONNREFUSED)
EC(connection_reset,ECONNRESET) EC(cross_device_link,EXDEV) EC(destination_address_required,EDESTADDRREQ) EC(device_or_resource_busy,EBUSY)
EC(directory_not_empty,ENOTEMPTY) EC(executable_format_error,ENOEXEC) EC(file_exists,EEXIST) EC(file_too_large,EFBIG) EC(filename_too_long,ENAMETOOLONG)
EC(function_not_supported,ENOSYS) EC(host_unreachable,EHOSTUNREACH) EC(identifier_removed,EIDRM) EC(illegal_byte_sequence,EILSEQ)
EC(inappropriate_io_control_operation,ENOTTY) EC(interrupted,EINTR) EC(invalid_argument,EINVAL) EC(invalid_seek,ESPIPE) EC(io_error,EIO)
EC(is_a_directory,EISDIR) EC(message_size,EMSGSIZE) EC(network_down,ENETDOWN) EC(network_reset,ENETRESET) EC(network_unreachable,ENETUNREACH)
EC(no_buffer_space,ENOBUFS) EC(no_child_process,ECHILD) EC(no_link,ENOLINK) EC(no_lock_available,ENOLCK) EC(no_message_available,ENODATA)
EC(no_message,ENOMSG) EC(no_protocol_option,ENOPROTOOPT) EC(no_space_on_device,ENOSPC) EC(no_stream_resources,ENOSR) EC(no_such_device_or_address,ENXIO)
EC(no_such_device,ENODEV) EC(no_such_file_or_directory,ENOENT) EC(no_such_process,ESRCH) EC(not_a_directory,ENOTDIR) EC(not_a_socket,ENOTSOCK)
EC(not_a_stream,ENOSTR) EC(not_connected,ENOTCONN) EC(not_enough_memory,ENOMEM) EC(not_supported,ENOTSUP) EC(operation_canceled,ECANCELED)
EC(operation_in_progress,EINPROGRESS) EC(operation_not_permitted,EPERM) EC(operation_not_supported,EOPNOTSUPP) EC(operation_would_block,EWOULDBLOCK)
EC(owner_dead,EOWNERDEAD) EC(permission_denied,EACCES) EC(protocol_error,EPROTO) EC(protocol_not_supported,EPROTONOSUPPORT) EC(read_only_file_system,EROFS)
EC(resource_deadlock_would_occur,EDEADLK) EC(resource_unavailable_try_again,EAGAIN) EC(result_out_of_range,ERANGE) EC(state_not_recoverable,ENOTRECOVERABLE)
EC(stream_timeout,ETIME) EC(text_file_busy,ETXTBSY) EC(timed_out,ETIMEDOUT) EC(too_many_files_open_in_system,ENFILE) EC(too_many_files_open,EMFILE)
EC(too_many_links,EMLINK) EC(too_many_symbolic_link_levels,ELOOP) EC(value_too_large,EOVERFLOW) EC(wrong_protocol_type,EPROTOTYPE)
};
MC_SCENARIO (error_codes, 1)
{
    setup();
    const int N = sizeof(codes)/sizeof(codes[0]);
    for (int i = 0; i < N; ++i) {
	mc_at ("code %d", i);
	error_code c (codes[i].c); error_condition d (codes[i].c);
	MC_CHECK (c.value() == codes[i].e, "errc %d is %d instead of %d", i, c.value(), codes[i].e);
	MC_CHECK (d.value() == codes[i].e && make_error_code (codes[i].c) == c && make_error_condition (codes[i].c) == d, "errc %d: condition %d", i, d.value());
	MC_CHECK (!strcmp (c.message(), strerror (codes[i].e)) && !strcmp (d.message(), strerror (codes[i].e)), "errc %d: message '%s'", i, c.message());
	error_code x; MC_CHECK (!x && !x.value(), "a default error_code is set"); x = codes[i].c; MC_CHECK (x == c && bool (x), "errc %d: assigned", i);
	error_condition y; MC_CHECK (!y, "a default error_condition is set"); y = codes[i].c; MC_CHECK (y == d && bool (y), "errc %d: assigned", i);
	system_error se (c, "op"); MC_CHECK (se.code() == c && se.Errno() == codes[i].e, "errc %d: carried by system_error as %d", i, se.Errno());
	for (int j = 0; j < N; ++j) {
	    error_code e (codes[j].e, generic_category()); error_condition f (codes[j].e, system_category()); bool eq = codes[i].e == codes[j].e;
	    MC_CHECK ((c == e) == eq && (c == f) == eq && (d == e) == eq && (d == f) == eq, "errc %d and %d compare wrong", i, j);
	    MC_CHECK ((c.default_error_condition() == f) == eq && c.category().equivalent (codes[i].e, f) == eq && c.category().equivalent (c, codes[j].e) == eq, "errc %d and %d: equivalent is wrong", i, j);
	}
	x.assign (codes[i].e, system_category()); y.assign (codes[i].e, system_category()); MC_CHECK (x == c && y == d, "errc %d: assign", i);
	x.clear(); y.clear(); MC_CHECK (!x && !y, "errc %d: clear", i);
	mc_step();
    }
    for (int e = -2; e < 140; ++e) { error_code c (e, system_category()); MC_CHECK (c.value() == e && bool (c) == (e != 0) && !strcmp (c.message(), strerror (e)), "error_code %d", e); mc_step(); }
    MC_CHECK (system_category() == generic_category() && !(system_category() != generic_category()) && !strcmp (system_category().name(), "system"), "categories");
}
