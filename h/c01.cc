// C01: raw memory blocks (memblock, memlink, cmemlink).
#include "u.h"

enum { RON = 5, WN = 6 };
static const unsigned char ROB[RON] = { 0x11,0x12,0x13,0x14,0x15 };
static char* ro;	// read only, ends at an unmapped page
static void env (void) { if (!ro) ro = (char*) mc_guard_ro (ROB, RON); }

// model: bytes; -1 is an indeterminate byte
struct Blk { Seq b; };
static void fillunk (Seq& s, int from) { for (int i = from; i < s.n; ++i) s.d[i] = -1; }

static void cmpblk (const memblock& a, const Seq& m, const char* who)
{
    MC_CHECK (a.size() == size_t(m.n), "%s.size() is %zu, expected %d", who, a.size(), m.n);
    MC_CHECK (a.empty() == !m.n, "%s.empty() is wrong for size %d", who, m.n);
    MC_CHECK (size_t(a.end() - a.begin()) == size_t(m.n), "%s: begin/end do not span size", who);
    MC_CHECK (a.readable_size() == size_t(m.n), "%s.readable_size() is %zu", who, a.readable_size());
    MC_CHECK (a.is_linked() || a.capacity() >= a.size(), "%s: capacity %zu < size %zu", who, a.capacity(), a.size());
    const unsigned char* p = (const unsigned char*) a.begin();
    for (int i = 0; i < m.n; ++i)
	MC_CHECK (m.d[i] < 0 || p[i] == m.d[i], "%s[%d] is %02x, expected %02x (model %s, block %s)", who, i, p[i], m.d[i], m.str(), mc_hex (p, a.size()));
}

static const size_t SZ[] = { 0, 1, 3, 8, 19 };

MC_SCENARIO (memblock_ops, 33)
{
    env();
    char wbuf[WN]; for (int i = 0; i < WN; ++i) wbuf[i] = 0x21+i;
    const int depth = MC_TIER (4, 5);
    {
    memblock a, b;
    Seq m, mb;
    unsigned char fresh = 0x40;
    for (int step = 0; step < depth; ++step) {
	int op = step ? mc_choose (33) : shard;
	bool blinked = a.is_linked(); const int before = m.n;
	switch (op) {
	    case 0: case 1: case 2: case 3: {	// assign from memory
		size_t n = SZ[op+(op==3)]; unsigned char buf[32];
		for (size_t i = 0; i < n; ++i) buf[i] = ++fresh;
		void* src = mc_guard (buf, n);
		mc_note ("a.assign (p, %zu)", n);
		a.assign (src, n); m.n = 0; for (size_t i = 0; i < n; ++i) m.push (buf[i]);
		mc_guard_free (src);
	    } break;
	    case 4: case 5: case 6: case 7: {
		size_t n = SZ[op-4]; mc_note ("a.resize (%zu)", n);
		a.resize (n); int o = m.n; m.resize (n, -1); if (int(n) > o) fillunk (m, o);
	    } break;
	    case 8: { size_t n = SZ[mc_choose(5)]; mc_note ("a.resize (%zu, false)", n); a.resize (n, false); m.resize (n, -1); } break;
	    case 9: { size_t n = SZ[mc_choose(5)]; bool ex = mc_choose(2); mc_note ("a.reserve (%zu, %d)", n, ex); a.reserve (n, ex);
		MC_CHECK (a.capacity() >= n, "capacity %zu after reserve (%zu)", a.capacity(), n); } break;
	    case 10: case 11: case 12: case 13: {
		size_t at = op == 10 ? 0 : op == 11 ? m.n/2 : op == 12 ? m.n : (m.n ? 1 : 0);
		static const int NI[] = { 0, 1, 3, 9 }; int n = NI[mc_choose(4)];
		mc_note ("a.insert (%zu, %d)", at, n);
		memblock::iterator r = a.insert (a.begin()+at, n);
		MC_CHECK (r == a.begin()+at, "insert returned offset %ld instead of %zu", long(r-a.begin()), at);
		m.ins (at, -1, n);
		for (int i = 0; i < n; ++i) { r[i] = ++fresh; m.d[at+i] = fresh; }	// the new space is writable
	    } break;
	    case 14: case 15: case 16: {
		size_t at = op == 14 ? 0 : op == 15 ? m.n/2 : m.n;
		int mx = m.n - at; int k = mc_choose (4); int n = k == 3 ? mx : min (k, mx);
		mc_note ("a.erase (%zu, %d)", at, n);
		memblock::iterator r = a.erase (a.begin()+at, n);
		MC_CHECK (r == a.begin()+at, "erase returned offset %ld instead of %zu", long(r-a.begin()), at);
		m.del (at, n);
	    } break;
	    case 17: mc_note ("a.clear()"); a.clear(); m.n = 0; break;
	    case 18: if (mc_choose (2)) { mc_note ("a.assign (a.cdata(), a.size())"); a.assign (a.cdata(), a.size()); } else { mc_note ("a.copy_link()"); a.copy_link(); }
		MC_CHECK (!m.n || !a.is_linked(), "still linked after copying what it is linked to"); break;
	    case 19:	// link to read only memory; an owner gives up its block first
		if (!a.is_linked()) a.deallocate();
		mc_note ("a.link (ro, 5)"); a.link (ro, RON); m.n = 0; for (int i = 0; i < RON; ++i) m.push (ROB[i]);
		MC_CHECK (a.is_linked() && a.cdata() == ro, "link did not link"); break;
	    case 20: {
		if (!a.is_linked()) a.deallocate();
		mc_note ("a.link (ro+1, ro+4)"); a.link (ro+1, ro+4); m.n = 0; for (int i = 1; i < 4; ++i) m.push (ROB[i]);
		MC_CHECK (a.is_linked() && a.cdata() == ro+1, "link did not link"); } break;
	    case 21: {	// unlink an owner: the block must now be ours to free
		void* p = a.data(); bool own = !a.is_linked(); mc_note ("a.unlink()");
		a.unlink(); if (own) free (p);
		MC_CHECK (a.is_linked() && !a.cdata(), "unlink left a pointer"); m.n = 0; } break;
	    case 22: {
		if (!a.is_linked()) a.deallocate(); else a.unlink();
		char* p = (char*) malloc (4); for (int i = 0; i < 4; ++i) p[i] = 0x61+i;
		mc_note ("a.manage (malloc(4), 4)"); a.manage (p, 4); m.n = 0; for (int i = 0; i < 4; ++i) m.push (0x61+i);
		MC_CHECK (!a.is_linked() && a.capacity() == 4, "manage did not take ownership"); } break;
	    case 23: mc_note ("a.deallocate()"); a.deallocate(); MC_CHECK (a.is_linked() && !a.cdata(), "deallocate left a pointer"); m.n = 0; break;
	    case 24: mc_note ("a.shrink_to_fit()"); a.shrink_to_fit(); break;
	    case 25: { mc_note ("memblock c (a)"); memblock c (a); cmpblk (c, m, "copy");
		if (m.n) { MC_CHECK (c.begin() != a.begin(), "a copy shares memory"); c.begin()[0] ^= 1; } } break;
	    case 26: { mc_note ("a.swap (b)"); a.swap (b); Seq t = m; m = mb; mb = t; } break;
	    case 27: { mc_note ("b = a"); b = a; mb = m; } break;
	    case 28: { mc_note ("a = move (b)"); a = move (b); 
		// the moved-from block is valid but unspecified
		m = mb; mb.n = 0; if (!b.is_linked()) b.deallocate(); else b.unlink(); } break;
	    case 29: { mc_note ("memblock c (move (a)); a = c"); memblock c (move (a)); cmpblk (c, m, "moved-to"); a.~memblock(); new (&a) memblock; a = c; } break;
	    case 30: if (!a.is_linked() && m.n) {	// fill owned memory
		size_t at = mc_choose (min (m.n, 3)); size_t es = 1+mc_choose (3); size_t c = mc_choose (4); if (at + es*c > size_t(m.n)) c = (m.n-at)/es;
		static const char pat[4] = { 0x71,0x72,0x73,0x74 };
		mc_note ("a.fill (%zu, p, %zu, %zu)", at, es, c);
		a.fill (a.begin()+at, pat, es, c); for (size_t i = 0; i < es*c; ++i) m.d[at+i] = pat[i%es];
		} break;
	    case 31: {	// binary round trip, and into the other block
		if (m.n && a.is_linked() && 0) break;
		memblock buf (a.stream_size()); ostream os (buf); mc_note ("write and read back");
		a.write (os); MC_CHECK (os.pos() == buf.size(), "write produced %zu bytes, stream_size() is %zu", size_t(os.pos()), size_t(buf.size()));
		istream is (buf); if (!b.is_linked()) b.deallocate(); else b.unlink(); b.read (is); mb = m;
		MC_CHECK (!is.remaining(), "read left %zu bytes", size_t(is.remaining())); } break;
	    case 32: {
		memlink l; memblock& c = a; l.link (c.begin(), c.size()); mc_note ("b = memlink of a; a == b");
		b = l; mb = m; bool unk = false; for (int i = 0; i < m.n; ++i) unk |= m.d[i] < 0; (void) unk;
		MC_CHECK (a == b, "a copy does not compare equal");
		if (m.n && !b.is_linked()) { b.begin()[m.n-1] ^= 0x40; MC_CHECK (!(a == b), "different blocks compare equal"); b.begin()[m.n-1] ^= 0x40; } } break;
	}
	mc_step();
	cmpblk (a, m, "a"); cmpblk (b, mb, "b");
	if (m.n && ((op >= 4 && op <= 8) || (op >= 10 && op <= 16)) && m.n != before) MC_CHECK (!a.is_linked(), "still linked after the size changed from %d to %d", before, m.n);
	MC_CHECK (mc_heap_live() == !a.is_linked() + !b.is_linked(), "%ld heap blocks are live, the two objects own %d", mc_heap_live(), !a.is_linked() + !b.is_linked());
	MC_CHECK (0 == memcmp (ro, ROB, RON), "linked memory was modified");
	mc_heap_check();
	mc_state (mc_mix (mc_mix (m.hash(), mb.hash()), mc_mix (a.is_linked()*2+b.is_linked(), a.capacity()*64+b.capacity())));
	if (step == depth-1 && mc_want_sample()) mc_sample ("memblock history ending with op %d: a=%s capacity %zu linked %d, b=%s", op, m.str(), a.capacity(), a.is_linked(), mb.str());
	(void) blinked;
    }
    }
    MC_CHECK (mc_heap_live() == 0, "%ld heap blocks leaked by destructors", mc_heap_live());
}

// memlink edits memory it does not own, in place
MC_SCENARIO (memlink_edit, 13)
{
    const int n = shard;
    unsigned char* p = (unsigned char*) malloc (n); 
    for (int i = 0; i < n; ++i) p[i] = i+1;
    memlink l (p, n);
    int at = mc_choose (n+1), k = mc_choose (n-at+1), what = mc_choose (3);
    if (what == 0) {
	mc_note ("memlink(%d).insert (%d, %d)", n, at, k);
	l.insert (l.begin()+at, k);
	for (int i = 0; i < at; ++i) MC_CHECK (p[i] == i+1, "byte %d changed to %d", i, p[i]);
	for (int i = at; i+k < n; ++i) MC_CHECK (p[i+k] == i+1, "byte %d is %d, expected %d", i+k, p[i+k], i+1);
    } else if (what == 1) {
	mc_note ("memlink(%d).erase (%d, %d)", n, at, k);
	l.erase (l.begin()+at, k);
	for (int i = 0; i < at; ++i) MC_CHECK (p[i] == i+1, "byte %d changed to %d", i, p[i]);
	for (int i = at; i+k < n; ++i) MC_CHECK (p[i] == i+k+1, "byte %d is %d, expected %d", i, p[i], i+k+1);
    } else for (int es = 1; es <= 5; ++es) for (int c = 0; at + es*c <= n; ++c) {
	static const char pat[] = { 101,102,103,104,105 };
	for (int i = 0; i < n; ++i) p[i] = i+1;
	mc_note ("memlink(%d).fill (%d, p, %d, %d)", n, at, es, c);
	l.fill (l.begin()+at, pat, es, c);
	for (int i = 0; i < n; ++i) { int x = i < at || i >= at+es*c ? i+1 : pat[(i-at)%es]; MC_CHECK (p[i] == x, "after fill (%d,%d,%d) byte %d is %d, expected %d", at, es, c, i, p[i], x); }
	mc_eval();
    }
    MC_CHECK (l.size() == size_t(n) && l.begin() == (char*) p, "memlink moved or resized");
    {	// comparison, swap, reading back in place
	memlink z; z.swap (l); MC_CHECK (l.size() == 0 && l.empty() && z.size() == size_t(n) && z.begin() == (char*) p, "swap");
	cmemlink c (z), d; d.link (c); MC_CHECK (d.size() == size_t(n) && d.begin() == (char*) p && c == d, "cmemlink copy");
	if (n) { unsigned char q[16]; memcpy (q, p, n); cmemlink e (q, n); MC_CHECK (e == c, "equal bytes compare different");
	    for (int i = 0; i < n; ++i) { q[i] ^= 0x80; MC_CHECK (!(e == c), "different byte %d not noticed", i); q[i] ^= 0x80; }
	    cmemlink f (q, n-1); MC_CHECK (!(f == c), "different sizes compare equal"); }
	memblock buf (c.stream_size()); ostream os (buf); c.write (os); MC_CHECK (os.pos() == buf.size(), "stream_size %zu, wrote %zu", buf.size(), size_t(os.pos()));
	unsigned char* r = (unsigned char*) malloc (n+2); memset (r, 0xEE, n+2);
	memlink rl (r, n+2); istream is (buf); rl.read (is);
	MC_CHECK (rl.size() == size_t(n) && 0 == memcmp (r, p, n) && r[n] == 0xEE && r[n+1] == 0xEE, "read into linked memory");
	if (n) { memlink sl (r, n-1); istream is2 (buf); bool threw = false; r[n-1] = 0x99; try { sl.read (is2); } catch (...) { threw = true; }
	    MC_CHECK (threw && r[n-1] == 0x99, "reading %d bytes into a linked block of %d must be refused", n, n-1); }
	free (r);
    }
    mc_step(); mc_outcome (mc_hash (n*100+at*10+what, p, n)); mc_state (mc_hash (n*100+at*10+what, p, n));
    free (p);
}

// sizes around 2G and 4G: only the bookkeeping is touched
MC_SCENARIO (memblock_huge, 1)
{
    static const size_t N[] = { 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xFFFFFFFFu, 0x100000000ull, 0x100000005ull };
    size_t n = N[mc_choose (6)]; bool exact = mc_choose (2);
    memblock b; mc_note ("reserve (%zx, %d)", n, exact);
    bool oom = false;
    try { b.reserve (n, exact); } catch (ustl::bad_alloc&) { oom = true; }
    MC_CHECK (oom ? b.is_linked() : b.capacity() >= n, "capacity is %zx after reserve (%zx)", b.capacity(), n);
    if (!oom) b.resize (n), b.begin()[n-1] = 1, mc_outcome (n+exact);
    mc_step(); mc_state (n*2+exact);
}

// one edit of blocks of sizes around every power of two, by amounts around every power of two
#include "big.h"
typedef Big<unsigned char> BB;
static unsigned char pat_ (int i) { return i*7 + (i>>8)*13 + (i>>16); }
static const unsigned char* pattern (void) { static unsigned char* p; if (!p) { p = (unsigned char*) mc_raw_alloc (BB::MAX); for (int i = 0; i < BB::MAX; ++i) p[i] = pat_ (i); } return p; }
static void cmpbig (const memblock& a, const BB& m, const char* what, int n, int k, int at)
{
    MC_CHECK (a.size() == size_t(m.n) && (a.is_linked() || a.capacity() >= a.size()), "%s (n=%d k=%d at=%d): size %zu, capacity %zu, expected size %d", what, n, k, at, a.size(), a.capacity(), m.n);
    if (m.n && memcmp (a.begin(), m.d, m.n)) { int i = 0; while ((unsigned char) a.begin()[i] == m.d[i]) ++i; mc_fail ("%s (n=%d k=%d at=%d): byte %d is %02x, expected %02x", what, n, k, at, i, (unsigned char) a.begin()[i], m.d[i]); }
    mc_step();
}
MC_SCENARIO (memblock_sizes, 16)
{
    const unsigned char* P = pattern();
    for (int ni = shard; ni < bigsizes(); ni += 16) {
	const int n = bigsize (ni);
	for (int way = 0; way < 3; ++way) for (int ki = 0; ki < NBIGK; ++ki) {
	    const int k = BIGK[ki]; BB m;
	    char* ro = way == 2 ? (char*) mc_guard (P, n) : NULL;
	    #define START memblock a; if (way == 2) a.link (ro, n); else { a.reserve (n, way); a.assign (P, n); } m.set (P, n)
	    for (int ai = 0; ai < NBIGAT; ++ai) {
		const int at = bigat (n, ai); mc_at ("n=%d k=%d at=%d way=%d", n, k, at, way);
		{ START; memblock::iterator r = a.insert (a.begin()+at, k); MC_CHECK (r == a.begin()+at, "insert (n=%d k=%d at=%d) returned offset %ld", n, k, at, long(r-a.begin())); memcpy (r, P+100, k); m.insv (at, P+100, k); cmpbig (a, m, "insert", n, k, at);
		  a.erase (a.begin()+at, k); m.del (at, k); cmpbig (a, m, "insert and erase", n, k, at); }
		if (at + k <= n) { START; memblock::iterator r = a.erase (a.begin()+at, k); MC_CHECK (r == a.begin()+at, "erase (n=%d k=%d at=%d) returned offset %ld", n, k, at, long(r-a.begin())); m.del (at, k); cmpbig (a, m, "erase", n, k, at); }
		for (int es = 1; es <= 9; es += 1+(es&1)) if (way < 2 && at + es*k <= n) { START; a.fill (a.begin()+at, P+33, es, k); for (int i = 0; i < es*k; ++i) m.d[at+i] = P[33+i%es]; cmpbig (a, m, "fill", n, k, at); }
		mc_eval();
	    }
	    { START; a.resize (k); m.n = min (n, k); if (k > n) { memcpy (a.begin()+n, P+n, k-n); m.insv (n, P+n, k-n); } cmpbig (a, m, "resize", n, k, 0); if (way < 2) { a.shrink_to_fit(); cmpbig (a, m, "shrink_to_fit", n, k, 0); } a.reserve (k+n); cmpbig (a, m, "reserve", n, k, 0); a.resize (n, false); m.n = min (m.n, n); a.memlink::resize (m.n); cmpbig (a, m, "resize back", n, k, 0); }
	    { START; a.assign (P+7, k); m.set (P+7, k); cmpbig (a, m, "assign", n, k, 0); memblock b (a); cmpbig (b, m, "copy", n, k, 0); MC_CHECK (a == b, "copies of %d bytes differ", k); if (k) { b.begin()[k-1] ^= 1; MC_CHECK (!(a == b), "blocks of %d bytes that differ in the last are equal", k); b.begin()[k-1] ^= 1; b.begin()[k/2] ^= 0x80; MC_CHECK (!(a == b), "blocks of %d bytes that differ in the middle are equal", k); } }
	    { START; a.copy_link(); cmpbig (a, m, "copy_link", n, k, 0); memblock b; b.assign (P+3, k); a.swap (b); cmpbig (b, m, "swap", n, k, 0); m.set (P+3, k); cmpbig (a, m, "swap", n, k, 1); a = b; m.set (P, n); cmpbig (a, m, "assignment", n, k, 0); }
	    if (ro) { MC_CHECK (!memcmp (ro, P, n), "linked memory of %d bytes was modified", n); mc_guard_free (ro); }
	}
	{ memblock a; a.assign (P, n); memblock buf (a.stream_size()); ostream os (buf); a.write (os); MC_CHECK (os.pos() == buf.size(), "stream_size of %d bytes is %zu, wrote %zu", n, buf.size(), size_t(os.pos())); istream is (buf); memblock b; b.read (is); BB m; m.set (P, n); cmpbig (b, m, "read", n, 0, 0); }
	mc_state (n); mc_outcome (n);
    }
}

// every way to construct, link, assign and exchange the three classes, onto every earlier state of the target
static void views (const cmemlink& c, const void* p, int n, const char* who)
{
    const char* b = (const char*) p;
    MC_CHECK (c.data() == b && c.cdata() == b && c.begin() == b && c.end() == b+n && c.size() == size_t(n) && c.readable_size() == size_t(n) && c.max_size() == size_t(n) && c.empty() == !n, "%s: %p %zu, expected %p %d", who, c.cdata(), c.size(), b, n);
    for (int i = 0; i <= n; ++i) MC_CHECK (c.iat (i) == b+i, "%s: iat (%d)", who, i);
}
static void views (memlink& c, const void* p, int n, const char* who)
{
    views (static_cast<const cmemlink&>(c), p, n, who); const memlink& cc = c; char* b = (char*) p;
    MC_CHECK (c.data() == b && c.begin() == b && c.end() == b+n && cc.data() == b && cc.begin() == b && cc.end() == b+n && c.writable_size() == size_t(n), "%s: views of %p", who, b);
    for (int i = 0; i <= n; ++i) MC_CHECK (c.iat (i) == b+i && cc.iat (i) == b+i, "%s: iat (%d)", who, i);
}
template <class L, class P> static void linkforms (int n, int how, int was)
{
    char* w = (char*) malloc (n+8); for (int i = 0; i < n+8; ++i) w[i] = 65+i;
    P p = w; char other[4] = { 1,2,3,4 };
    { L l; if (was == 1) l.link (other, 4); else if (was == 2) l.link (w, n);
    const cmemlink src (w, n); const memlink msrc (w, n); memlink nsrc (w, n); cmemlink csrc (src);
    switch (how) {
	case 0: l.link (p, n); break;
	case 1: l.link (p, p+n); break;
	case 2: l.link (src); break;
	case 3: l.link (msrc); break;
	case 4: l.link (nsrc); break;
	case 5: { const L& r = (l = src); MC_CHECK (&r == &l, "assignment returned something else"); } break;
	case 6: { const L& r = (l = msrc); MC_CHECK (&r == &l, "assignment returned something else"); } break;
	case 7: l.relink (p, n); break;
	case 8: { L t (p, n); l = t; } break;
	case 9: { L t (src); l.swap (t); } break;
	case 10: { L t (msrc); ::ustl::swap (l, t); MC_CHECK (t.size() == size_t (was == 1 ? 4 : was == 2 ? n : 0), "swap"); } break;
	case 11: { L t (csrc), u (t); l = u; } break;
	case 12: { string s; s.link (w, n); l.link (s); } break;
    }
    views (l, w, n, "linked");
    const int cut = n/2; l.resize (cut); views (l, w, cut, "resized"); l.unlink(); views (l, NULL, 0, "unlinked"); }
    for (int i = 0; i < n+8; ++i) MC_CHECK (w[i] == 65+i, "linked memory changed at %d", i);
    free (w);
}
static void blockforms (int n, int how, int was)
{
    char* w = (char*) malloc (n+8); for (int i = 0; i < n+8; ++i) w[i] = 65+i; bool given = false;
    { memblock a; static const char other[4] = { 1,2,3,4 }; if (was == 1) a.link (other, 4); else if (was == 2) a.assign (other, 4); else if (was == 3) a.reserve (40);
    const cmemlink src (w, n); const memlink msrc (w, n); memlink nsrc (w, n); memblock own (w, n); const memblock& cown = own;
    memblock z (size_t (n+1)); MC_CHECK (z.size() == size_t (n+1) && !z.is_linked() && z.max_size() == SIZE_MAX, "memblock (%d)", n+1);
    #define OWNS(x) MC_CHECK ((x).size() == size_t(n) && (!n || ((x).begin() != w && !memcmp ((x).begin(), w, n))), "a copy of %d bytes", n)
    switch (how) {
	case 0: { memblock c (w, n); OWNS (c); a = c; } break;
	case 1: { memblock c (src); OWNS (c); a = move (c); } break;
	case 2: { memblock c (msrc); OWNS (c); a.swap (c); } break;
	case 3: { memblock c (cown); OWNS (c); MC_CHECK (!n || c.begin() != own.begin(), "a copy shares memory"); a = c; } break;
	case 4: { memblock c (move (own)); OWNS (c); a = move (c); } break;
	case 5: a = src; break;
	case 6: a = msrc; break;
	case 7: a = cown; break;
	case 8: a.assign (src); break;
	case 9: a.assign (w, n); break;
	case 10: { memblock c (w, n); ::ustl::swap (a, c); MC_CHECK (c.size() == size_t (was == 1 || was == 2 ? 4 : 0), "swap"); if (n) { ::ustl::swap (a, c); ::ustl::swap (c, a); } } break;
	case 11: if (was != 3 && was != 2) { given = true; memlink g (w, n); a.manage (g); if (!n) a.~memblock(), new (&a) memblock, given = false; else MC_CHECK (a.begin() == w && a.capacity() == size_t(n), "manage"); } else a.assign (w, n); break;
	case 12: { a.assign (w, n); const size_t c = a.capacity(); a.clear(); MC_CHECK (a.empty() && a.capacity() == c, "clear changed the capacity"); a.assign (w, n); MC_CHECK (a.capacity() == c, "assigned again, capacity %zu instead of %zu", a.capacity(), c); } break;
    }
    if (!given) OWNS (a); else views (a, w, n, "managed");
    MC_CHECK (a.is_linked() ? a.max_size() == a.size() : a.max_size() == SIZE_MAX, "max_size %zx", a.max_size());
    MC_CHECK (a == src && (n == 0 || !(a == cmemlink (w, n-1))), "comparison with the source");
    }
    if (!given) { for (int i = 0; i < n+8; ++i) MC_CHECK (w[i] == 65+i, "source changed at %d", i); free (w); }
}
MC_SCENARIO (forms, 13)
{
    const int n = mc_choose (10), was = mc_choose (4), kind = mc_choose (4);
    mc_note ("form %d, %d bytes, onto state %d, class %d", shard, n, was, kind);
    switch (kind) {
	case 0: if (was < 3) linkforms<cmemlink,const char*> (n, shard, was); break;
	case 1: if (was < 3) linkforms<memlink,char*> (n, shard, was); break;
	case 2: if (was < 3) linkforms<memlink,const char*> (n, shard, was); break;
	case 3: blockforms (n, shard, was); break;
    }
    mc_step(); mc_state (mc_mix (n*4+was, kind*16+shard)); mc_outcome (n);
    MC_CHECK (!mc_heap_live(), "%ld heap blocks leaked", mc_heap_live());
}
