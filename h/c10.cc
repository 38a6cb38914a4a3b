// C10: values written to binary streams read back equal.
#include "streams.h"
enum { BUF = 512 };
#ifdef NDEBUG
enum { PLACE = 1 };
#else
enum { PLACE = 16 };	// the assertions want the position of each number suitable for its own type
#endif
template <typename T> static void roundtrip (const char* name, bool wide, int cmax, int depth)
{
    if (PLACE > 1 && !strcmp (name, "v_al")) return;
    gwide = wide; gcount_max = cmax;
    T v; memset ((void*)&v, 0, numeric_limits<T>::is_integral ? sizeof(v) : 0); gen (v);
    const int A = stream_align_of (v);
    MC_CHECK (A >= 1 && A <= 16 && !(A & (A-1)), "%s: alignment %d", name, A);
    const int n = stream_size_of (v);
    const int start = mc_choose (depth ? 3 : 6) * (A > PLACE ? A : int(PLACE));	// every suitable position up to several words
    const int skew = mc_choose (depth ? 2 : 3) * (depth ? 4 : 3) * PLACE;	// where the buffer itself starts
    mc_note ("%s of %d bytes written at %d in a buffer at an address of remainder %d", name, n, start, skew);
    MC_CHECK (n >= 0 && n < BUF-64, "%s: stream size %d", name, n);
    uint8_t* raw = (uint8_t*) mc_guard (0, start+n+skew), *m = raw+skew; memset (raw, 0xA5, start+n+skew);
    ostream os (m, start+n);
    os.skip (start);
    os << v;
    MC_CHECK (int(os.pos()) == start+n, "%s: writing at %d advanced by %d, the stream size is %d", name, start, int(os.pos())-start, n);
    for (int i = -skew; i < start; ++i) MC_CHECK (m[i] == 0xA5, "%s: writing at %d changed byte %d", name, start, i);
    mc_outcome (mc_hash (A, m+start, n));
    for (int dirty = 0; dirty < 2; ++dirty) {
	T r; memset ((void*)&r, 0, numeric_limits<T>::is_integral ? sizeof(r) : 0); if (dirty) Dirty<T>::make (r);
	istream is (m, start+n); is.skip (start);
	is >> r;
	MC_CHECK (int(is.pos()) == start+n, "%s: reading at %d advanced by %d, the stream size is %d", name, start, int(is.pos())-start, n);
	MC_CHECK (r == v, "%s: the value read from position %d %sdiffers from the one written (%s)", name, start, dirty ? "over another one " : "", mc_hex (m+start, n));
	MC_CHECK (int(stream_size_of (r)) == n, "%s: stream size changed from %d to %d", name, n, int(stream_size_of (r)));
	mc_step();
    }
    mc_guard_free (raw);
    mc_state (mc_mix (mc_mix (start, skew), mc_hash (n, name, strlen(name))));
    if (mc_want_sample()) mc_sample ("%s, %d bytes at %d", name, n, start);
}
#define RT(t) case __COUNTER__ - base: roundtrip<t > (#t, true, 3, 0); break;
#define RTC(t) case __COUNTER__ - base2: roundtrip<t > (#t, mc_thorough, MC_TIER(2,3), 1); break;
#define RTN(t) case __COUNTER__ - base3: roundtrip<t > (#t, false, MC_TIER(2,2), 2); break;
MC_SCENARIO (scalars, NSCALAR) { enum { base = __COUNTER__ + 1 }; switch (shard) { SCALARS(RT) } }
MC_SCENARIO (objects, NSIMPLE) { enum { base2 = __COUNTER__ + 1 }; switch (shard) { SIMPLE(RTC) } }
MC_SCENARIO (nested, NNESTED) { enum { base3 = __COUNTER__ + 1 }; switch (shard) { NESTED(RTN) } }
// several elements with uneven sizes one after another
template <typename T> static void many (const char* name, int n)
{
    if (PLACE > 1 && !strcmp (name, "a_l")) return;
    vector<T> v; gwide = false; gcount_max = 2;
    T proto[2]; gen (proto[0]); gen (proto[1]);
    for (int i = 0; i < n; ++i) v.push_back (proto[i&1]);
    const int sz = stream_size_of (v);
    void* m = mc_guard (0, sz); memset (m, 0xA5, sz);
    ostream os (m, sz); os << v;
    MC_CHECK (int(os.pos()) == sz, "vector of %d %s: wrote %d bytes, stream size is %d", n, name, int(os.pos()), sz);
    vector<T> r; istream is (m, sz); is >> r;
    MC_CHECK (int(is.pos()) == sz && r == v, "vector of %d %s does not read back", n, name);
    mc_guard_free (m); mc_state (mc_hash (sz, name, strlen (name))); mc_step();
    if (mc_want_sample()) mc_sample ("vector of %d %s", n, name);
}
#define MANY(t) case __COUNTER__ - base4: many<t > (#t, mc_range (0, MC_TIER (8, 20))); break;
#define NMANY 24
MC_SCENARIO (uneven, NMANY) { enum { base4 = __COUNTER__ + 1 }; switch (shard) { MANY(string) MANY(Obj) MANY(p_bi) MANY(p_ib) MANY(p_lb) MANY(p_bl) MANY(p_si) MANY(p_bs) MANY(p_bp) MANY(p_vl) MANY(p_st) MANY(p_bps) MANY(p_sb) MANY(t_b) MANY(t_str) MANY(a_b) MANY(a_l) MANY(a_str) MANY(vector<u8>) MANY(vector<u64>) MANY(vector<string>) MANY(set<u64>) MANY(map_li) MANY(mmap_si) } }

//---- sequences of writes with alignment between them ----------------------
struct Item { int kind; u8 b; u16 s; u32 i; u64 l; double d; string str; vector<u16> v; int at; };
MC_SCENARIO2 (sequences, 13, 13*13)
{
    enum { NK = 13 };
    const int len = MC_TIER (3, 4), skew = mc_choose (2)*5;
    Item it[4]; uint8_t e[BUF]; memset (e, 0xA5, sizeof(e)); int pos = 0, npad = 0;
    uint8_t* raw = (uint8_t*) mc_guard (0, BUF), *m = raw+skew; memset (raw, 0xA5, BUF);
    ostream os (m, BUF-skew); char desc[80]; int dl = 0;
    for (int k = 0; k < len; ++k) {
	Item& t = it[k]; t.kind = k == 0 ? shard % NK : (mc_thorough && k == 1) ? shard / NK : mc_choose (NK);
	t.at = pos; dl += sprintf (desc+dl, "%d ", t.kind);
	#define ALIGN_TO(g) do { while (pos % (g)) { e[pos++] = 0; ++npad; } } while (0)
	switch (t.kind) {
	    case 0: t.b = 0x81+k; os << t.b; e[pos++] = t.b; break;
	    case 1: t.s = 0x8102+k; os << ios::talign<u16>() << t.s; ALIGN_TO(2); memcpy (e+pos, &t.s, 2); pos += 2; break;
	    case 2: t.i = 0x81020304+k; os << ios::talign<u32>() << t.i; ALIGN_TO(4); memcpy (e+pos, &t.i, 4); pos += 4; break;
	    case 3: t.l = 0x8102030405060708+k; os << ios::align() << t.l; ALIGN_TO(8); memcpy (e+pos, &t.l, 8); pos += 8; break;
	    case 4: t.d = 1.25+k; os << ios::talign<double>() << t.d; ALIGN_TO(8); memcpy (e+pos, &t.d, 8); pos += 8; break;
	    case 5: t.str.assign ("ab\0cd", k+1); os << t.str; e[pos++] = k+1; memcpy (e+pos, "ab\0cd", k+1); pos += k+1; break;
	    case 6: t.v.assign (size_t(k+1), u16(0x9100+k)); os << ios::talign<vector<u16>>() << t.v; ALIGN_TO(4); { u32 n = k+1; memcpy (e+pos, &n, 4); pos += 4; for (int q = 0; q <= k; ++q) { u16 w = 0x9100+k; memcpy (e+pos, &w, 2); pos += 2; } } ALIGN_TO(4); break;
	    case 7: os.skip (k+1); pos += k+1; break;
	    case 8: os.write_strz ("xyz"+k%3); strcpy ((char*) e+pos, "xyz"+k%3); pos += strlen("xyz"+k%3)+1; break;
	    case 9: os << ios::align(16); ALIGN_TO(16); break;
	    case 10: os.write ("\x91\x92\x93\x94\x95", k+1); memcpy (e+pos, "\x91\x92\x93\x94\x95", k+1); pos += k+1; break;
	    case 11: t.l = 0x7102030405060708+k; os << ios::align(4) << long4grain (const_cast<const u64&>(t.l)); ALIGN_TO(4); memcpy (e+pos, &t.l, 8); pos += 8; break;
	    case 12: { uint8_t sub[8] = { 1,2,3,4,5,6,7,8 }; ostream so (sub, 8); so.skip (k+1); istream si (so); si.skip (k ? 1 : 0); int w = si.remaining(); if (k & 1) os.read (si); else si.write (os); memcpy (e+pos, sub+(k?1:0), w); pos += w; } break;
	}
	MC_CHECK (int(os.pos()) == pos && int(os.remaining()) == BUF-skew-pos, "after item %d (kinds %s) the stream is at %d with %d left, expected %d", k, desc, int(os.pos()), int(os.remaining()), pos);
	MC_CHECK (os.aligned (4) == !(pos%4) && int(os.align_size (8)) == (8-pos%8)%8, "aligned() or align_size() wrong at %d", pos);
	mc_step();
    }
    MC_CHECK (!memcmp (m, e, BUF-skew-16), "kinds %s: the stream holds %s, expected %s", desc, mc_hex (m, pos+4), mc_hex (e, pos+4));
    mc_state (mc_hash (0, e, pos));
    istream is (os);
    MC_CHECK (int(is.size()) == pos && is.pos() == 0, "istream over an ostream has %d bytes, expected %d", int(is.size()), pos);
    for (int k = 0; k < len; ++k) {
	Item& t = it[k]; Item r; r.b = 0; r.s = 0; r.i = 0; r.l = 0; r.d = 0; bool ok = true;
	switch (t.kind) {
	    case 0: is >> r.b; ok = r.b == t.b; break;
	    case 1: is >> ios::talign<u16>() >> r.s; ok = r.s == t.s; break;
	    case 2: is >> ios::talign<u32>() >> r.i; ok = r.i == t.i; break;
	    case 3: is >> ios::align() >> r.l; ok = r.l == t.l; break;
	    case 4: is >> ios::talign<double>() >> r.d; ok = r.d == t.d; break;
	    case 5: is >> r.str; ok = r.str == t.str; break;
	    case 6: is >> ios::talign<vector<u16>>() >> r.v; ok = r.v == t.v; break;
	    case 7: is.skip (k+1); break;
	    case 8: is.read_strz (r.str); ok = r.str == "xyz"+k%3; break;
	    case 9: is >> ios::align(16); break;
	    case 10: { uint8_t b[8]; int w = k&1 ? int(is.readsome (b, k+1)) : (is.read (b, k+1), k+1); ok = w == k+1 && !memcmp (b, "\x91\x92\x93\x94\x95", k+1); } break;
	    case 11: is >> ios::align(4) >> long4grain (r.l); ok = r.l == t.l; break;
	    case 12: is.skip (k ? k : 1); break;
	}
	MC_CHECK (ok, "kinds %s: item %d, of kind %d, read back differently", desc, k, t.kind);
	MC_CHECK (int(is.pos()) == (k+1 < len ? it[k+1].at : pos), "kinds %s: at %d after reading item %d, expected %d", desc, int(is.pos()), k, k+1 < len ? it[k+1].at : pos);
	mc_step();
    }
    MC_CHECK (!is.remaining() && is.good(), "something left to read");
    // every position can be sought and reread
    for (int p = 0; p <= pos; ++p) {
	is.seek (p); MC_CHECK (int(is.pos()) == p && int(is.remaining()) == pos-p && is.ipos() == is.begin()+p, "seek (%d) went to %d", p, int(is.pos()));
	if (p < pos) { u8 b = 0; is >> b; MC_CHECK (b == e[p] && int(is.tellg()) == p+1, "byte %d reads as %02x, expected %02x", p, b, e[p]); is.ungetc(); b = 0; is >> b; MC_CHECK (b == e[p], "reread of byte %d after ungetc gives %02x", p, b); }
	if (p) { is.seekg (0); is.seekg (p, ios_base::cur); is.seekg (-1, ios_base::cur); MC_CHECK (int(is.pos()) == p-1, "relative seeks arrive at %d, expected %d", int(is.pos()), p-1); }
	os.seek (p); os.seekp (0, ios_base::cur); MC_CHECK (int(os.tellp()) == p && os.ipos() == os.begin()+p, "output seek to %d went to %d", p, int(os.pos()));
	is.seekg (0, ios_base::end); MC_CHECK (int(is.pos()) == pos, "seek to the end went to %d of %d", int(is.pos()), pos);
	is.iseek (is.begin()+p); MC_CHECK (int(is.pos()) == p, "iseek went to %d, expected %d", int(is.pos()), p);
	mc_eval();
    }
    mc_guard_free (raw);
    if (mc_want_sample()) mc_sample ("kinds %sat skew %d: %d bytes, %d padding", desc, skew, pos, npad);
}
//---- stream iterators, in place edits --------------------------------------
template <typename T> static void iterators (const char* name)
{
    const int n = mc_range (1, 5); T v[5]; gwide = true; for (int i = 0; i < n; ++i) { memset (&v[i], 0, sizeof(T)); v[i] = T (i*37+1); }
    void* m = mc_guard (0, n*sizeof(T)); ostream os (m, n*sizeof(T));
    copy (v, v+n, ostream_iterator<T> (os));
    MC_CHECK (os.pos() == n*sizeof(T) && !memcmp (m, v, n*sizeof(T)), "%s: ostream_iterator wrote %d bytes", name, int(os.pos()));
    istream is (m, n*sizeof(T)); is.exceptions (ios_base::goodbit);
    istream_iterator<T> i (is), eos; int k = 0;
    for (; !(i == eos); ++i, ++k) { MC_CHECK (k < n && *i == v[k], "%s: element %d from istream_iterator differs", name, k); mc_step(); }
    MC_CHECK (k == n, "%s: istream_iterator gave %d elements of %d", name, k, n);
    is.clear(); is.seek (0);
    istream_iterator<T> j (is); for (k = 1; k < n; ++k) ++j;
    for (k = n-1; k > 0; --k) { --j; MC_CHECK (*j == v[k-1], "%s: element %d going back differs", name, k-1); }
    if (n > 2) { j += 2; MC_CHECK (*j == v[2], "%s: += 2 gives another element", name); j -= 2; MC_CHECK (*j == v[0], "%s: -= 2 gives another element", name); }
    // distances and steps from every element
    for (int a = 0; a < n; ++a) {
	istream s1 (m, n*sizeof(T)); istream_iterator<T> x (s1); for (k = 0; k < a; ++k) x++; MC_CHECK (*x == v[a], "%s: element %d", name, a);
	istream s2 (m, n*sizeof(T)); istream_iterator<T> y (s2); 
	MC_CHECK (x - y == a && y - x == -a && (y < x) == (a > 0) && !(x < y) && (x == y) == !a, "%s: iterators %d apart: difference %ld", name, a, long(x-y));
	if (a > 1) { istream_iterator<T> z (x - 1); MC_CHECK (*z == v[a-1], "%s: - 1 from element %d", name, a); ++z; MC_CHECK (*z == v[a], "%s: and back", name); istream_iterator<T> w (z--); MC_CHECK (*w == v[a] && *z == v[a-1], "%s: postfix -- from element %d", name, a); }
    }
    mc_guard_free (m); mc_state (mc_hash (n, name, strlen(name)));
}
MC_SCENARIO (stream_iterators, 5) { switch (shard) { case 0: iterators<u8> ("u8"); break; case 1: iterators<u16> ("u16"); break; case 2: iterators<int> ("int"); break; case 3: iterators<double> ("double"); break; case 4: iterators<u64> ("u64"); break; } }
MC_SCENARIO (stream_edits, 13)
{
    const int n = shard, at = mc_choose (n+1), k = mc_choose (14-n); uint8_t m[32], e[32];
    for (int i = 0; i < n; ++i) m[i] = e[i] = 0x40+i;
    ostream os (m, n+k); os.skip (n);
    os.insert (os.begin()+at, k);
    MC_CHECK (int(os.pos()) == n+k && !memcmp (m, e, at) && !memcmp (m+at+k, e+at, n-at), "insert of %d at %d of %d", k, at, n);
    os.erase (os.begin()+at, k);
    MC_CHECK (int(os.pos()) == n && !memcmp (m, e, n), "erase of %d at %d of %d", k, at, n);
    istream a (m, n), b (e, 2); a.skip (n/2); a.swap (b);
    MC_CHECK (b.begin() == (const char*) m && int(b.pos()) == n/2 && int(b.size()) == n && a.begin() == (const char*) e && a.pos() == 0 && a.size() == 2, "istream swap");
    ostream c (m, n), d (e, 2); c.skip (n/2); c.swap (d);
    MC_CHECK (d.begin() == (char*) m && int(d.pos()) == n/2 && c.pos() == 0 && c.size() == 2, "ostream swap");
    b.unlink(); MC_CHECK (!b.size() && !b.pos(), "unlinked istream has a position"); d.unlink(); MC_CHECK (!d.size() && !d.pos(), "unlinked ostream has a position");
    b.relink (m, n); MC_CHECK (int(b.remaining()) == n, "relinked istream");
    mc_step(); mc_state (mc_mix (n*16+at, k));
}
//---- lengths: every length up to 300, and around each size where an encoding of the length changes
template <typename T, typename E> static void length (const char* name, size_t n)
{
    T v; v.resize (n); E* d = (E*) v.data(); for (size_t i = 0; i < n; ++i) d[i] = E(i*2654435761u >> 7);
    const size_t sz = stream_size_of (v), lead = 16;
    uint8_t* m = (uint8_t*) malloc (lead+sz); memset (m, 0xA5, lead+sz);
    ostream os (m, lead+sz); os.skip (lead); os << v;
    MC_CHECK (os.pos() == lead+sz, "%s of %zu: wrote %zu bytes, stream size is %zu", name, n, size_t(os.pos())-lead, sz);
    T r; istream is (m, lead+sz); is.skip (lead); is >> r;
    MC_CHECK (is.pos() == lead+sz && r.size() == v.size() && r == v, "%s of %zu does not read back: %zu read from %zu bytes", name, n, size_t(r.size()), size_t(is.pos())-lead);
    free (m); mc_state (mc_hash (n, name, strlen (name))); mc_step();
}
MC_SCENARIO (lengths, 5*4)
{
    static const size_t L[] = { 2047, 2048, 2049, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 131072, 0x1fffff, 0x200000, 0x200001 };
    int k = mc_choose (76+MC_TIER (4, 4)); size_t n = k < 76 ? k*4+shard%4 : (k = (k-76)*4+shard%4) < int(sizeof(L)/sizeof(L[0])) ? L[k] : 300000;
    switch (shard/4) { case 0: length<string,char> ("string", n); break; case 1: length<memblock,char> ("memblock", n); break; case 2: length<vector<u8>,u8> ("vector of bytes", n); break; case 3: length<vector<u16>,u16> ("vector of u16", n); break; case 4: length<vector<u64>,u64> ("vector of u64", n); break; }
}
//---- every way to attach a stream to memory, onto a stream already in use --
MC_SCENARIO2 (attachments, 14, 14)
{
    const int n = mc_choose (14), used = mc_choose (3); uint8_t buf[16], old[8] = { 9,8,7,6,5,4,3,2 }; for (int i = 0; i < 16; ++i) buf[i] = 0x41+i;
    uint8_t* const gm = (uint8_t*) mc_guard (0, n), *m = gm; memcpy (m, buf, n); cmemlink cl (m, n); memlink ml (m, n); memblock mb (m, n);
    {
    istream is; if (used) { is.link (old, 8); is.skip (used*3); }
    ostream os; if (used) { os.link (old, 8); os.skip (used*3); }
    const void* ib = m; bool in = true, out = true;
    switch (shard) {
	case 0: is.link (m, n); os.link (m, n); break;
	case 1: is.link (cl); os.link (ml); break;
	case 2: is.link (m, m+n); os.link (m, m+n); break;
	case 3: is.relink (m, n); os.relink (m, n); break;
	case 4: is.relink (cl); os.relink (ml); break;
	case 5: { istream t (m, n); is.swap (t); ostream u (m, n); os.swap (u); } break;
	case 6: { istream t (cl); is.swap (t); ostream u (ml); os.swap (u); } break;
	case 7: { ostream u (ml); u.seek (u.size()); istream t (u); t.swap (is); out = false; } break;
	case 8: is.link (mb); ib = mb.begin(); out = false; break;
	case 9: os.link (mb); m = (uint8_t*) mb.begin(); in = false; break;
	case 10: { string s; s.assign ((const char*) m, n); const int z = s.size(); istream t (s); is.link (m, n); MC_CHECK (int(t.size()) == z, "stream over a string"); out = false; } break;
	case 11: is.unlink(); os.unlink(); is.link (m, n); os.link (m, n); break;
	case 12: is.link (m, n); is.skip (n/2); is.link (m, n); os.link (m, n); os.skip (n/2); os.link (ml); break;
	case 13: is.link (m, n); is.skip (n/2); is.relink (m, n); os.link (m, n); os.skip (n/2); os.relink (ml); break;
    }
    mc_note ("attachment %d of %d bytes, used %d", shard, n, used);
    if (in) {
	MC_CHECK (is.begin() == (const char*) ib && is.end() == is.begin()+n && is.ipos() == is.begin() && !is.pos() && int(is.size()) == n && int(is.remaining()) == n && int(is.stream_size()) == n, "istream: %d of %d at %d", int(is.size()), n, int(is.pos()));
	for (int p = 0; p <= n; ++p) {
	    is.seek (p); MC_CHECK (int(is.stream_size()) == n-p && is.ipos() == is.begin()+p, "stream_size at %d of %d is %d", p, n, int(is.stream_size()));
	    // binary data into a linked block, and what is left as a stream into another
	    for (int k = 0; p+k <= n; ++k) { char d[16]; memset (d, 0, 16); memlink l (d, k); is.seek (p); is.read (l); MC_CHECK (int(is.pos()) == p+k && !memcmp (d, buf+p, k) && !d[k], "reading a block of %d at %d", k, p); is.seek (p); is >> ios::skip (k); MC_CHECK (int(is.pos()) == p+k, "ios::skip (%d) at %d went to %d", k, p, int(is.pos())); }
	    is.seek (p); { istream t (m, 0); is.read (t); } MC_CHECK (int(is.pos()) == p, "reading a stream");
	    for (int w = 0; w < 2; ++w) { uint8_t d[20]; memset (d, 0x33, 20); ostream o (d, 20); o.seek (2); is.seek (p); if (w) is >> o; else o.read (is); MC_CHECK (int(is.pos()) == n && int(o.pos()) == 2+n-p && !memcmp (d+2, buf+p, n-p) && d[2+n-p] == 0x33 && d[1] == 0x33, "reading into an output stream from %d of %d: at %d and %d", p, n, int(is.pos()), int(o.pos())); }
	    is.seekg (n-p, ios_base::end); MC_CHECK (int(is.pos()) == p, "seekg (%d, end) of %d is %d", n-p, n, int(is.pos()));
	    is.seekg (p, ios_base::beg); MC_CHECK (int(is.pos()) == p, "seekg (%d, beg)", p);
	    mc_step();
	}
    }
    if (out) {
	const ostream& cos = os; char* b = (char*) m;
	MC_CHECK (os.begin() == b && os.end() == b+n && cos.end() == b+n && os.ipos() == b && cos.ipos() == b && !os.pos() && int(os.remaining()) == n && !os.stream_size() && int(os.overflow()) == n && &os.flush() == &os, "ostream: %d of %d at %d", int(os.size()), n, int(os.pos()));
	for (int p = 0; p <= n; ++p) {
	    os.iseek (os.begin()+p); MC_CHECK (int(os.pos()) == p && cos.ipos() == b+p && os.ipos() == b+p && int(os.stream_size()) == p, "iseek (%d) of %d", p, n);
	    for (int k = 0; p+k <= n; ++k) {
		memset (b, 0x11, n); os.seek (p); os.write (cmemlink (buf, k)); MC_CHECK (int(os.pos()) == p+k && !memcmp (b+p, buf, k), "writing a block of %d at %d", k, p);
		for (int i = 0; i < n; ++i) MC_CHECK (b[i] == (i < p || i >= p+k ? 0x11 : char(buf[i-p])), "writing a block of %d at %d changed byte %d", k, p, i);
		os.seek (p); os << ios::skip (k); MC_CHECK (int(os.pos()) == p+k, "ios::skip (%d) at %d went to %d", k, p, int(os.pos()));
		uint8_t wb[16]; memset (wb, 0x22, 16); ostream w (wb, 16); w.skip (1); os.write (w); MC_CHECK (int(w.pos()) == 1+p+k && !memcmp (wb+1, b, p+k) && wb[1+p+k] == 0x22, "a stream of %d written into another", p+k);
		os.seek (p); ostream_iterator<u8> i (os), j (os); ostream o2 (m, n); ostream_iterator<u8> z (o2); MC_CHECK (i == j && (z < i) == (p > 0) && !(i < z), "comparison of output iterators at %d", p);
		i += k; MC_CHECK (int(os.pos()) == p+k, "output iterator += %d", k); 
	    }
	    os.seekp (n-p, ios_base::end); MC_CHECK (int(os.pos()) == p, "seekp (%d, end) of %d is %d", n-p, n, int(os.pos())); os.seekp (p, ios_base::beg); MC_CHECK (int(os.tellp()) == p, "seekp (%d, beg)", p);
	    mc_step();
	}
    }
    mc_state (mc_mix (n*3+used, shard)); mc_outcome (n);
    }
    mc_guard_free (gm);
}
// the same with lengths longer than 8 and 16 bits count, and alignment to large grains
MC_SCENARIO (long_attachments, 8)
{
    static const int L[] = { 255, 256, 257, 32768, 65535, 65536, 65537, 140000 }; const int n = L[shard], way = mc_choose (6); char* const m = (char*) mc_guard (0, n); for (int i = 0; i < n; ++i) m[i] = i*7 + (i>>8)*3;
    {
    istream is; ostream os; cmemlink cl (m, n); memlink ml (m, n); mc_at ("attachment %d of %d", way, n);
    switch (way) { case 0: is.link (m, n); os.link (m, n); break; case 1: is.link (cl); os.link (ml); break; case 2: is.link (m, m+n); os.link (m, m+n); break; case 3: is.relink (m, n); os.relink (m, n); break; case 4: is.relink (cl); os.relink (ml); break; case 5: { istream t (m, n); is.swap (t); ostream u (m, n); os.swap (u); } break; }
    MC_CHECK (is.begin() == m && int(is.size()) == n && int(is.remaining()) == n && int(is.stream_size()) == n && os.begin() == m && int(os.size()) == n && int(os.remaining()) == n && !os.pos(), "attachment %d of %d: %d and %d", way, n, int(is.size()), int(os.size()));
    for (int p : { 0, 1, 255, 256, 257, 511, 32767, 32768, 65535, 65536, 65537, 131072, n-1, n }) {
	if (p > n || p < 0) continue; uint8_t c = 0; is.seek (p); os.seek (p); MC_CHECK (int(is.pos()) == p && int(is.remaining()) == n-p && is.ipos() == m+p && int(os.pos()) == p && int(os.remaining()) == n-p && os.ipos() == m+p && int(os.stream_size()) == p, "at %d of %d", p, n);
	if (p < n) { is >> c; MC_CHECK (c == uint8_t(m[p]), "byte %d of %d", p, n); const char o = m[p]; os << uint8_t(~c); MC_CHECK (m[p] == char(~c), "writing byte %d of %d", p, n); m[p] = o; }
	is.seek (0); is.skip (p); is.iseek (is.begin()+p); os.seek (0); os.skip (p); MC_CHECK (int(is.pos()) == p && int(os.pos()) == p, "skip (%d) of %d", p, n);
	is.seekg (n-p, ios_base::end); os.seekp (n-p, ios_base::end); MC_CHECK (int(is.pos()) == p && int(os.pos()) == p, "seek (%d, end) of %d", n-p, n); is.seekg (0); is.seekg (p, ios_base::cur); os.seekp (0); os.seekp (p, ios_base::cur); MC_CHECK (int(is.tellg()) == p && int(os.tellp()) == p, "seek (%d, cur) of %d", p, n);
	static char d[150000]; memset (d, 0x5b, n-p+1); is.seek (p); is.read (d, n-p); MC_CHECK (int(is.pos()) == n && !memcmp (d, m+p, n-p) && d[n-p] == 0x5b, "reading %d at %d", n-p, p);
	memset (d, 0x5b, n-p+1); is.seek (p); const size_t r = is.readsome (d, n-p); if (p < n) MC_CHECK (int(r) == n-p && !memcmp (d, m+p, n-p) && d[n-p] == 0x5b, "readsome of %d at %d gives %zu", n-p, p, r);
	os.seek (p); os.write (d, n-p); MC_CHECK (int(os.pos()) == n, "writing %d at %d", n-p, p); for (int i = p; i < n; ++i) MC_CHECK (m[i] == char(i*7 + (i>>8)*3), "byte %d after writing", i);
	for (size_t g = 1; g <= 131072; g *= 2) { const size_t a = (p+g-1)/g*g; is.seek (p); os.seek (p); MC_CHECK (is.align_size (g) == a-p && os.align_size (g) == a-p && is.aligned (g) == (a == size_t(p)), "align_size (%zu) at %d is %zu and %zu, expected %zu", g, p, size_t(is.align_size (g)), size_t(os.align_size (g)), a-p); if (a > size_t(n)) continue;
	    is.align (g); memset (d, 0x5b, n); memcpy (d, m, n); os.align (g); MC_CHECK (is.pos() == a && os.pos() == a, "align (%zu) at %d goes to %zu and %zu", g, p, size_t(is.pos()), size_t(os.pos())); memcpy (m, d, n); mc_step(); }
    }
    }
    mc_guard_free (m); mc_state (mc_mix (n, way)); mc_outcome (n);
}
