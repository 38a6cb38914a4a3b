// C11: truncated and corrupt binary streams, and output buffers that are too small.
#include "streams.h"
enum { MAXN = 300, NPART = 32 };
static const char* where;
// read over a buffer that ends at an unmapped page. Returns true if the read was reported as failed
template <typename T> static bool read_from (const char* name, const uint8_t* b, int n, bool exc, int kind)
{
    void* m = mc_guard (b, n);
    bool failed = false; long before = mc_heap_live_bytes();
    {
	T r; memset ((void*)&r, 0, numeric_limits<T>::is_integral ? sizeof(r) : 0); if (kind & 1) Dirty<T>::make (r);
	istream is (m, n); if (!exc) is.exceptions (ios_base::goodbit);
	try { is >> r; failed = !is.good(); if (failed && exc) mc_fail ("%s: the failed state is set without an exception", name); }
	catch (stream_bounds_exception&) { failed = true; MC_CHECK (exc, "%s: an exception was thrown though disabled", name); MC_CHECK (is.fail(), "%s: exception without the fail state", name); }
	MC_CHECK (int(is.pos()) >= 0 && int(is.pos()) <= n, "%s: position is %d of %d after reading", name, int(is.pos()), n);
	long used = long(mc_heap_live_bytes()) - before;
	MC_CHECK (used < 4096 + 256L*n, "%s: reading %d bytes allocated %ld", name, n, used);
    }
    mc_guard_free (m); mc_step();
    return failed;
}
#ifdef NDEBUG
#define UNPLACED(name) 0
enum { ASSERTS = 0 };
#else
#define UNPLACED(name) !strcmp (name, "v_al")	// its numbers are not at suitable positions, which an assertion checks
enum { ASSERTS = 1 };
#endif
template <typename T> static void cuts (const char* name)
{
    if (UNPLACED (name)) return;
    gwide = false; gcount_max = 2;
    T v; memset ((void*)&v, 0, numeric_limits<T>::is_integral ? sizeof(v) : 0); gen (v);
    const int n = stream_size_of (v); uint8_t b[MAXN]; if (n > MAXN) mc_fail ("harness error: %d bytes", n);
    memset (b, 0, sizeof(b)); { ostream os (b, n); os << v; }
    mc_note ("%s: %s", name, mc_hex (b, n)); mc_state (mc_hash (strlen (name), b, n));
    for (int t = 0; t <= n; ++t) for (int k = 0; k < 4; ++k) {
	const bool f = read_from<T> (name, b, t, k&2, k);
	MC_CHECK (f == (t < n), "%s: reading %d of %d bytes was reported as %s (exceptions %s)", name, t, n, f ? "failed" : "good", k&2 ? "on" : "off");
    }
    // output
    for (int t = 0; t <= n; ++t) for (int exc = 0; exc < 2; ++exc) for (int start = 0; start < 2; ++start) {
	const int off = start*16; uint8_t* m = (uint8_t*) mc_guard (0, t+off); memset (m, 0xA5, t+off);
	ostream os (m, t+off); if (!exc) os.exceptions (ios_base::goodbit); os.skip (off); bool failed = false;
	try { os << v; failed = !os.good(); if (failed && exc) mc_fail ("%s: failed writing set the state without an exception", name); }
	catch (stream_bounds_exception&) { failed = true; MC_CHECK (exc, "%s: an exception was thrown though disabled", name); }
	MC_CHECK (failed == (t < n), "%s: writing into %d of %d bytes was reported as %s", name, t, n, failed ? "failed" : "good");
	MC_CHECK (int(os.pos()) >= off && int(os.pos()) <= t+off, "%s: position is %d of %d after writing", name, int(os.pos()), t+off);
	for (int i = 0; i < off; ++i) MC_CHECK (m[i] == 0xA5, "%s: bytes before the write position changed", name);
	mc_guard_free (m); mc_step();
    }
    if (mc_want_sample()) mc_sample ("%s, %d bytes, cut at each", name, n);
}
template <typename T> static void corrupt (const char* name, int part)
{
    if (UNPLACED (name)) return;
    static const uint32_t W[] = { 0, 1, 2, 3, 5, 0x7f, 0xff, 0x10000, 0x1fffffff, 0x20000000, 0x20000001, 0x40000000, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xfffffffcu, 0xffffffffu };
    static const uint8_t B[] = { 0, 1, 5, 0x7f, 0x80, 0xbf, 0xc0, 0xc4, 0xdf, 0xe0, 0xef, 0xf0, 0xf8, 0xfc, 0xfe, 0xff };
    gwide = false; gcount_max = MC_TIER (1, 2);
    T v; gen (v);
    const int n = stream_size_of (v); uint8_t b[MAXN+8]; if (n > MAXN) mc_fail ("harness error: %d bytes", n);
    memset (b, 0, sizeof(b)); { ostream os (b, n); os << v; }
    if (mc_thorough && mc_hash (3, b, n) % NPART != unsigned (part)) return;
    mc_state (mc_hash (strlen (name), b, n));
    uint8_t c[MAXN+8];
    const int extra = mc_choose (2)*8;	// with something behind it
    for (int p = 0; p < n; ++p) {
	for (unsigned k = 0; k < sizeof(B); ++k) for (int q = p; q < min(n,p+2); ++q) for (unsigned j = 0; j < (q > p ? sizeof(B) : 1); ++j) { memcpy (c, b, sizeof(c)); c[p] = B[k]; if (q > p) c[q] = B[j]; mc_at ("%s with bytes %s", name, mc_hex (c, n)); read_from<T> (name, c, n+extra, k&1, k>>1); }
	if (p+4 <= n && p%4 == 0) for (unsigned k = 0; k < sizeof(W)/4; ++k) for (int e = 0; e < 4; ++e) { memcpy (c, b, sizeof(c)); memcpy (c+p, &W[k], 4); mc_at ("%s with bytes %s", name, mc_hex (c, n)); read_from<T> (name, c, n+extra, e&1, e); }
    }
    // every cut of a larger count
    for (int t = 0; t < n; ++t) for (int e = 0; e < 4; ++e) { memcpy (c, b, sizeof(c)); c[0] = uint8_t (c[0]+1); read_from<T> (name, c, t, e&1, e); }
    if (mc_want_sample()) mc_sample ("%s, %d bytes, corrupted everywhere", name, n);
}
#define CUT(t) case __COUNTER__ - base: cuts<t > (#t); break;
#define COR(t) case __COUNTER__ - base2: corrupt<t > (#t, shard % NPART); break;
MC_SCENARIO (truncation, NTYPES) { enum { base = __COUNTER__ + 1 }; switch (shard) { SCALARS(CUT) SIMPLE(CUT) NESTED(CUT) } }
MC_SCENARIO2 (corruption, NSIMPLE+NNESTED, (NSIMPLE+NNESTED)*NPART) { enum { base2 = __COUNTER__ + 1 }; switch (mc_thorough ? shard/NPART : shard) { SIMPLE(COR) NESTED(COR) } }
// blocks that link to a fixed buffer
MC_SCENARIO (linked_blocks, 2)
{
    const int have = mc_choose (9), n = mc_choose (12), given = mc_choose (20); uint8_t b[32]; memset (b, 0, sizeof(b)); uint32_t c = n; memcpy (b, &c, 4); for (int i = 0; i < n; ++i) b[4+i] = 0x81+i;
    void* s = mc_guard (b, given); uint8_t* d = (uint8_t*) mc_guard (0, have); memset (d, 0xA5, have);
    istream is (s, given); if (shard) is.exceptions (ios_base::goodbit);
    memlink l (d, have); bool failed = false;
    try { is >> l; failed = !is.good(); } catch (stream_bounds_exception&) { failed = true; } catch (length_error&) { failed = true; MC_CHECK (n > have, "length error for %d bytes in %d", n, have); }
    MC_CHECK (failed == (n > have || given < int(Align (n, 4))+4), "reading a block of %d into %d from a stream of %d reported %d", n, have, given, failed);
    if (!failed) MC_CHECK (int(l.size()) == n && !memcmp (d, b+4, n), "a linked block of %d read %u bytes", n, unsigned(l.size()));
    mc_guard_free (s); mc_guard_free (d); mc_step(); mc_state (mc_mix (have*16+n, given));
}
// positions and plain reads, with every size and every argument including ones that wrap around
static const size_t HUGE_[] = { 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7fffffffffffffff, 0x8000000000000000, size_t(-16), size_t(-2), size_t(-1) };
static size_t amount (int i) { return i < 8 ? size_t(i) : HUGE_[i-8]; }
MC_SCENARIO2 (input_operations, 8, 8)
{
    const int n = shard, depth = MC_TIER (2, 3); uint8_t b[16]; for (int i = 0; i < n; ++i) b[i] = i == 3 ? 0 : 0x61+i;
    void* m = mc_guard_ro (b, n); istream is (m, n); const bool exc = mc_choose (2); if (!exc) is.exceptions (ios_base::goodbit);
    int pos = 0; bool bad = false;
    for (int step = 0; step < depth; ++step) {
	const int op = mc_choose (9); const size_t a = op < 5 ? amount (mc_choose (16)) : op == 6 ? size_t(1)<<mc_choose (4) : 0;
	if (ASSERTS && op == 8 && pos%4) { mc_guard_free (m); return; }
	uint8_t out[16]; memset (out, 0xA5, sizeof(out)); int want = pos; bool fail = false, thrown = false;
	mc_note ("size %d at %d: operation %d (%zx)", n, pos, op, a);
	if (op == 0) { fail = a > size_t(n); if (!fail) want = a; }					// seek
	else if (op == 1 || op == 2) { fail = a > size_t(n-pos); if (!fail) want = pos+a; }		// skip, read
	else if (op == 3) { fail = a > size_t(n-pos); want = fail && !exc ? n : fail ? pos : pos+a; }	// readsome
	else if (op == 4) { fail = a > size_t(n-pos); if (!fail) want = pos+a; }			// verify_remaining, then skip
	else if (op == 5) { fail = !pos; if (!fail) want = pos-1; }					// ungetc
	else if (op == 6) { int k = (pos+a-1)/a*a; fail = k > n; if (!fail) want = k; }			// align
	else if (op == 7) { int z = pos; while (z < n && b[z]) ++z; fail = z == n; if (!fail) want = z+1; }	// read_strz
	else { fail = n-pos < 4; if (!fail) want = pos+4; }						// read a number
	string str; is.clear();
	try {
	    switch (op) {
		case 0: is.seek (a); break;
		case 1: is.skip (a); break;
		case 2: if (a <= 16 || a > size_t(n-pos)) is.read (out, a); break;
		case 3: { size_t r = is.readsome (out, a); MC_CHECK (r == min (a, size_t(n-pos)) && !memcmp (out, b+pos, r), "readsome of %zu of %d gave %zu", a, n-pos, r); } break;
		case 4: if (is.verify_remaining ("read", "test", a)) is.skip (a); break;
		case 5: is.ungetc(); break;
		case 6: is.align (a); break;
		case 7: is.read_strz (str); break;
		case 8: { uint32_t v; is >> v; if (is.good()) MC_CHECK (!memcmp (&v, b+pos, 4), "wrong number"); } break;
	    }
	} catch (stream_bounds_exception&) { thrown = true; MC_CHECK (exc, "exception though disabled"); }
	MC_CHECK (fail == !is.good() && thrown == (fail && exc), "stream of %d at %d: operation %d (%zx) should%s fail, state is %x%s", n, pos, op, a, fail ? "" : " not", is.rdstate(), thrown ? ", thrown" : "");
	MC_CHECK (int(is.pos()) == want && int(is.remaining()) == n-want, "stream of %d at %d: operation %d (%zx) moved to %zd, expected %d", n, pos, op, a, ssize_t(is.pos()), want);
	if (op == 2 && !fail) MC_CHECK (!memcmp (out, b+pos, a), "read wrong bytes");
	if (op == 7) MC_CHECK (fail ? !str.size() : int(str.size()) == want-pos-1 && !memcmp (str.data(), b+pos, str.size()), "read_strz gave '%s'", str.c_str());
	pos = want; bad |= fail; mc_step(); mc_state (mc_mix (mc_mix (n*16+pos, op), a));
    }
    mc_guard_free (m);
}
MC_SCENARIO2 (output_operations, 8, 8)
{
    const int n = shard, depth = MC_TIER (2, 3); uint8_t* m = (uint8_t*) mc_guard (0, n), e[16]; memset (m, 0xA5, n); memset (e, 0xA5, 16);
    ostream os (m, n); const bool exc = mc_choose (2); if (!exc) os.exceptions (ios_base::goodbit);
    int pos = 0;
    for (int step = 0; step < depth; ++step) {
	const int op = mc_choose (7); const size_t a = op < 4 ? amount (mc_choose (16)) : op == 4 ? size_t(1)<<mc_choose (4) : op == 5 ? mc_choose (5) : 0;
	if (ASSERTS && op == 6 && pos%4) { mc_guard_free (m); return; }
	int want = pos; bool fail = false, thrown = false; static const char txt[] = "abcdefghijkl";
	mc_note ("size %d at %d: operation %d (%zx)", n, pos, op, a);
	if (op == 0) { fail = a > size_t(n); if (!fail) want = a; }
	else if (op == 1 || op == 2 || op == 3) { fail = a > size_t(n-pos); if (!fail) { want = pos+a; if (op == 2) memcpy (e+pos, txt, a); } }
	else if (op == 4) { int k = (pos+a-1)/a*a; fail = k > n; if (!fail) { memset (e+pos, 0, k-pos); want = k; } }
	else if (op == 5) { fail = int(a)+1 > n-pos; if (!fail) { memcpy (e+pos, txt, a); e[pos+a] = 0; want = pos+a+1; } }
	else { fail = n-pos < 4; if (!fail) { memcpy (e+pos, txt, 4); want = pos+4; } }
	os.clear();
	try {
	    switch (op) {
		case 0: os.seek (a); break;
		case 1: os.skip (a); break;
		case 2: os.write (txt, a); break;
		case 3: if (os.verify_remaining ("write", "test", a)) os.skip (a); break;
		case 4: os.align (a); break;
		case 5: { char t[8]; memcpy (t, txt, a); t[a] = 0; os.write_strz (t); } break;
		case 6: { uint32_t v; memcpy (&v, txt, 4); os << v; } break;
	    }
	} catch (stream_bounds_exception&) { thrown = true; MC_CHECK (exc, "exception though disabled"); }
	MC_CHECK (fail == !os.good() && thrown == (fail && exc), "stream of %d at %d: operation %d (%zx) should%s fail, state is %x%s", n, pos, op, a, fail ? "" : " not", os.rdstate(), thrown ? ", thrown" : "");
	MC_CHECK (int(os.pos()) == want && int(os.remaining()) == n-want, "stream of %d at %d: operation %d (%zx) moved to %zd, expected %d", n, pos, op, a, ssize_t(os.pos()), want);
	MC_CHECK (!memcmp (m, e, n), "stream holds %s, expected %s", mc_hex (m, n), mc_hex (e, n));
	pos = want; mc_step(); mc_state (mc_mix (mc_mix (n*16+pos, op), a));
    }
    mc_guard_free (m);
}
