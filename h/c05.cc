// C05: set, multiset, map, multimap against a sorted list of (key,value).
#include "u.h"

// orders by tens only: elements that differ in the units are equivalent, not equal
struct bytens { bool operator() (int a, int b) const { return a/10 < b/10; } };
struct Ref {
    enum { MAX = 64 }; int n; int k[MAX], v[MAX]; int rev, multi, tens;
    int ord (int a) const { if (tens) a /= 10; return rev ? -a : a; }
    bool lt (int a, int b) const { return ord (a) < ord (b); }
    int lower (int x) const { int i = 0; while (i < n && lt (k[i], x)) ++i; return i; }
    int upper (int x) const { int i = 0; while (i < n && !lt (x, k[i])) ++i; return i; }
    int ins (int x, int y, bool* did) {
	int i = multi ? upper (x) : lower (x);
	if (!multi && i < n && !lt (x, k[i])) { *did = false; return i; }
	if (n >= MAX) mc_fail ("harness error: model full");
	for (int j = n; j > i; --j) { k[j] = k[j-1]; v[j] = v[j-1]; }
	k[i] = x; v[i] = y; ++n; *did = true; return i;
    }
    void del (int i, int c) { for (int j = i; j+c < n; ++j) { k[j] = k[j+c]; v[j] = v[j+c]; } n -= c; }
    uint64_t hash (void) const { return mc_mix (mc_hash (n, k, n*sizeof(int)), mc_hash (n, v, n*sizeof(int))); }
    bool same (const Ref& o) const { if (n != o.n) return false; for (int i = 0; i < n; ++i) if (k[i] != o.k[i] || v[i] != o.v[i]) return false; return true; }
    const char* str (void) const { static char b[2][400]; static int t; char* o = b[t++&1]; char* p = o; *p = 0; for (int i = 0; i < n; ++i) p += sprintf (p, "%d:%d ", k[i], v[i]); return o; }
};
static int iv (int x) { return x; }
static int iv (const E& e) { e.chk ("read"); return e.v; }

template <class T, class C> struct SetK {	// set-like
    enum { MAP = 0 }; typedef typename C::value_type VT; typedef T K;
    static int key (const VT& e) { return iv (e); } static int val (const VT& e) { return iv (e); }
    static VT mk (int k, int) { return VT (k); }
};
template <class T, class C> struct MapK {
    enum { MAP = 1 }; typedef typename C::value_type VT; typedef T K;
    static int key (const VT& e) { return iv (e.first); } static int val (const VT& e) { return iv (e.second); }
    static VT mk (int k, int v) { return VT (T(k), typename C::data_type(v)); }
};
// differences in interface between unique and multiple containers
template <class C, int MULTI> struct Ins {
    static typename C::iterator it (const pair<typename C::iterator,bool>& r, bool& did) { did = r.second; return r.first; }
};
template <class C> struct Ins<C,1> { static typename C::iterator it (typename C::iterator r, bool& did) { did = true; return r; } };
template <class C, class A, int MAP, int MULTI> struct Extra { static void run (C&, Ref&, int, int) {} };
template <class C, class A> struct Extra<C,A,1,0> { static void run (C& c, Ref& m, int k, int v) {	// map only
    typename A::K key (k); int w = mc_choose (4);
    if (w == 0) { mc_note ("c[%d] = %d", k, v); c[key] = typename C::data_type(v); bool did; int i = m.ins (k, v, &did); m.v[i] = v; }
    else if (w == 3) { if (!m.n) return; int d = m.v[0]; mc_note ("c[%d] = %d, the data of the first", k, d); c[key] = typename C::data_type(d); bool did; int i = m.ins (k, d, &did); m.v[i] = d; }
    else if (w == 1) { mc_note ("c[%d] read", k); int r = iv (c[key]); bool did; int i = m.ins (k, 0, &did); MC_CHECK (r == m.v[i], "c[%d] is %d, expected %d", k, r, m.v[i]); }
    else { int l = m.lower (k); if (l < m.n && !m.lt (k, m.k[l])) { mc_note ("c.at (%d) = %d", k, v); const C& cc = c; MC_CHECK (iv (cc.at (key)) == m.v[l] && iv (cc[key]) == m.v[l], "at (%d)", k); c.at (key) = typename C::data_type(v); m.v[l] = v; } }
    // the first element with the given data, in every range
    const C& cc = c;
    for (int q = -1; q <= m.n; ++q) {
	const int d = q < 0 ? v : q < m.n ? m.v[q] : -77; typename C::data_type dv (d);
	for (int f = 0; f <= m.n; ++f) for (int l = f; l <= m.n; ++l) {
	    int i = f; while (i < l && m.v[i] != d) ++i;
	    if (m.n) { MC_CHECK (cc.find_data (dv, cc.begin()+f, cc.begin()+l) - cc.begin() == i, "find_data (%d) in [%d,%d) is index %ld, expected %d of %s", d, f, l, long(cc.find_data (dv, cc.begin()+f, cc.begin()+l) - cc.begin()), i, m.str());
		MC_CHECK (c.find_data (dv, c.begin()+f, c.begin()+l) - c.begin() == i, "non-const find_data (%d) in [%d,%d), expected %d of %s", d, f, l, i, m.str()); }
	    if (l == m.n && m.n) MC_CHECK (cc.find_data (dv, cc.begin()+f) - cc.begin() == i, "find_data (%d) from %d, expected %d of %s", d, f, i, m.str());
	}
	int i = 0; while (i < m.n && m.v[i] != d) ++i;
	MC_CHECK (cc.find_data (dv) - cc.begin() == i && c.find_data (dv) - c.begin() == i, "find_data (%d) is index %ld, expected %d", d, long(cc.find_data (dv) - cc.begin()), i); 
    } } };

template <class C, class A> static void cmpc (C& c, const Ref& m, const char* who, int klo, int khi)
{
    const C& cc = c;
    MC_CHECK (c.size() == size_t(m.n) && c.empty() == !m.n && cc.end() - cc.begin() == m.n, "%s: size %zu, expected %d (%s)", who, c.size(), m.n, m.str());
    for (int i = 0; i < m.n; ++i) MC_CHECK (A::key (c.begin()[i]) == m.k[i] && A::val (c.begin()[i]) == m.v[i], "%s: element %d is %d:%d, expected %d:%d of %s", who, i, A::key (c.begin()[i]), A::val (c.begin()[i]), m.k[i], m.v[i], m.str());
    MC_CHECK (cc.begin() == c.begin() && cc.end() == c.end() && cc.cbegin() == cc.begin() && cc.cend() == cc.end() && (!m.n || &*cc.rbegin() == &cc.begin()[m.n-1]), "%s: iterators disagree", who);
    for (int i = 0; i < m.n; ++i) for (int j = 0; j < m.n; ++j) {
	const bool e = m.lt (m.k[i], m.k[j]);
	MC_CHECK (cc.key_comp() (typename A::K (m.k[i]), typename A::K (m.k[j])) == e && cc.value_comp() (cc.begin()[i], cc.begin()[j]) == e, "%s: key_comp or value_comp of %d and %d", who, m.k[i], m.k[j]);
    }
    for (int k = klo; k <= khi; ++k) {
	typename A::K key (k);
	int l = m.lower (k), u = m.upper (k);
	long gl = cc.lower_bound (key) - cc.begin(), gu = cc.upper_bound (key) - cc.begin(), gf = cc.find (key) - cc.begin();
	MC_CHECK (gl == l, "%s.lower_bound (%d) is %ld, expected %d in %s", who, k, gl, l, m.str());
	MC_CHECK (gu == u, "%s.upper_bound (%d) is %ld, expected %d in %s", who, k, gu, u, m.str());
	MC_CHECK (gf == (u > l ? l : m.n), "%s.find (%d) is %ld, expected %d in %s", who, k, gf, u > l ? l : m.n, m.str());
	MC_CHECK (c.find (key) - c.begin() == gf && c.lower_bound (key) - c.begin() == gl && c.upper_bound (key) - c.begin() == gu, "%s: const and non-const searches for %d disagree", who, k);
	MC_CHECK (c.equal_range (key).first - c.begin() == l && c.equal_range (key).second - c.begin() == u, "%s: non-const equal_range (%d) in %s", who, k, m.str());
	MC_CHECK (cc.count (key) == size_t(u-l), "%s.count (%d) is %zu, expected %d in %s", who, k, cc.count (key), u-l, m.str());
	MC_CHECK (cc.equal_range (key).first - cc.begin() == l && cc.equal_range (key).second - cc.begin() == u, "%s.equal_range (%d) in %s", who, k, m.str());
    }
}
// multimap has no insert (hint, const&)
template <class C, class A, int NONE> struct Hint { static typename C::iterator ins (C& c, typename C::iterator h, const typename A::VT& v) { return c.insert (h, v); } };
template <class C, class A> struct Hint<C,A,1> { static typename C::iterator ins (C& c, typename C::iterator, const typename A::VT& v) { return c.insert (v); } };
enum { NOPS = 16 };
template <class C, class A, int MULTI> static void run (int shard, int depth, int rev, int tens, const char* nm)
{
    const int NK = tens ? 5 : 4; static const int TK[] = { 10, 11, 12, 20, 30 };
    E::reset();
    {
    C a, b; Ref m; m.n = 0; m.rev = rev; m.multi = MULTI; m.tens = tens; Ref mb (m); int fresh = 100;
    for (int step = 0; step < depth; ++step) {
	int op = step ? mc_choose (NOPS) : shard;
	#define KEY() (tens ? TK[mc_choose (NK)] : mc_choose (NK))
	int v = A::MAP ? fresh++ : 0;
	switch (op) {
	    case 0: case 1: case 2: { int k = KEY(); int vv = A::MAP ? v : k; bool did, exp; typename A::VT e (A::mk (k, vv)); const typename A::VT& ce = e;
		mc_note ("insert (%d:%d) #%d", k, vv, op);
		typename C::iterator r = op == 0 ? Ins<C,MULTI>::it (a.insert (ce), did) : op == 1 ? Ins<C,MULTI>::it (a.insert (A::mk (k, vv)), did) : Ins<C,MULTI>::it (a.emplace (A::mk (k, vv)), did);
		int i = m.ins (k, vv, &exp);
		MC_CHECK (did == exp, "insert of %d reports %d, expected %d", k, did, exp);
		MC_CHECK (r - a.begin() == i, "insert of %d returned index %ld, expected %d", k, long(r - a.begin()), i); } break;
	    case 3: { int k = KEY(); int vv = A::MAP ? v : k; bool exp; mc_note ("push_back (%d:%d)", k, vv); typename A::VT e (A::mk (k, vv)); a.push_back (e); m.ins (k, vv, &exp); } break;
	    case 4: { int k = KEY(); int vv = A::MAP ? v : k; bool exp; mc_note ("insert (hint, %d:%d)", k, vv); typename C::iterator h = a.begin() + mc_choose (m.n+1);
		const typename A::VT he (A::mk (k, vv)); typename C::iterator r = mc_choose (2) ? a.insert (h, A::mk (k, vv)) : Hint<C,A,MULTI&&A::MAP>::ins (a, h, he); int i = m.ins (k, vv, &exp); MC_CHECK (r - a.begin() == i, "insert with a hint returned index %ld, expected %d", long(r - a.begin()), i); } break;
	    case 5: { int k = KEY(); int vv = A::MAP ? v : k; bool exp; mc_note ("emplace_hint (%d:%d)", k, vv); typename C::iterator h = a.begin() + mc_choose (m.n+1);
		typename C::iterator r = a.emplace_hint (h, A::mk (k, vv)); int i = m.ins (k, vv, &exp); MC_CHECK (r - a.begin() == i, "emplace_hint returned index %ld, expected %d", long(r - a.begin()), i); } break;
	    case 6: { int k = KEY(); int vv = A::MAP ? v : k; bool exp, did; mc_note ("emplace_back (%d:%d)", k, vv); Ins<C,MULTI>::it (a.emplace_back (A::mk (k, vv)), did); m.ins (k, vv, &exp); MC_CHECK (did == exp, "emplace_back reports %d", did); } break;
	    case 7: { int k = KEY(); mc_note ("erase (%d)", k); typename A::K key (k); a.erase (key); int l = m.lower (k), u = m.upper (k); m.del (l, u-l); } break;
	    case 8: if (m.n) { int i = mc_choose (2) ? m.n-1 : m.n/2; mc_note ("erase (begin+%d)", i); typename C::iterator r = a.erase (a.begin()+i); m.del (i, 1); MC_CHECK (r - a.begin() == i, "erase returned index %ld", long(r-a.begin())); } break;
	    case 9: { int i = m.n ? mc_choose (min(m.n,2)+1) : 0; int e = i + (m.n > i ? mc_choose (min(m.n-i,2)+1) : 0); mc_note ("erase (begin+%d, begin+%d)", i, e); a.erase (a.begin()+i, a.begin()+e); m.del (i, e-i); } break;
	    case 10: mc_note ("clear"); a.clear(); m.n = 0; if (mc_choose (2)) { mc_note ("of 1 empty element"); C c (size_t (1)); bool ex; Ref mm (m); mm.ins (0, 0, &ex); cmpc<C,A> (c, mm, "one default element", 0, 1); a.swap (c); m = mm; } break;
	    case 11: { mc_note ("b = a; C c (a)"); C c (a); cmpc<C,A> (c, m, "copy", 0, 1); b = a; mb = m; } break;
	    case 12: { mc_note ("swap"); a.swap (b); Ref t (m); m = mb; mb = t; } break;
	    case 13: { mc_note ("insert range of 3"); C src0; (void) src0; vector<typename A::VT> src; int ks[3]; for (int i = 0; i < 3; ++i) { ks[i] = tens ? TK[(fresh*7+i*3)%5] : (fresh*5+i*2+step)%4; int vv = A::MAP ? fresh : ks[i]; src.push_back (A::mk (ks[i], vv)); bool ex; m.ins (ks[i], vv, &ex); ++fresh; }
		const vector<typename A::VT>& cs = src; int w = mc_choose (3); 
		if (w == 0) a.insert (cs.begin(), cs.end()); else if (w == 1) { C c (cs.begin(), cs.end()); Ref mm (m); mm.n = 0; for (int i = 0; i < 3; ++i) { bool ex; mm.ins (ks[i], A::MAP ? fresh-3+i : ks[i], &ex); } cmpc<C,A> (c, mm, "range copy", 0, 1); a = c; m = mm; }
		else { a.assign (cs.begin(), cs.end()); m.n = 0; for (int i = 0; i < 3; ++i) { bool ex; m.ins (ks[i], A::MAP ? fresh-3+i : ks[i], &ex); } } } break;
	    case 14: { mc_note ("move and initializer list"); C c (move (a)); cmpc<C,A> (c, m, "moved-to", 0, 1);
		{ Ref me (m); me.n = 0; bool ex; cmpc<C,A> (a, me, "moved-from", 0, 1); a.insert (A::mk (12, 1)); me.ins (12, A::MAP ? 1 : 12, &ex); cmpc<C,A> (a, me, "moved-from, used again", 10, 12); a.clear(); } a = move (c);
		int k1 = tens ? 11 : 2, k2 = tens ? 30 : 0; C d { A::mk (k1, A::MAP ? 1 : k1), A::mk (k2, A::MAP ? 2 : k2), A::mk (k1, A::MAP ? 3 : k1) }; Ref md (m); md.n = 0; bool ex; md.ins (k1, A::MAP ? 1 : k1, &ex); md.ins (k2, A::MAP ? 2 : k2, &ex); md.ins (k1, A::MAP ? 3 : k1, &ex); cmpc<C,A> (d, md, "{...}", 0, 1);
		if (mc_choose (2)) { a.insert ({ A::mk (k1, A::MAP ? 5 : k1) }); m.ins (k1, A::MAP ? 5 : k1, &ex); } 
		MC_CHECK ((a == b) == m.same (mb), "operator== is %d for %s and %s", int(a == b), m.str(), mb.str()); } break;
	    case 15: Extra<C,A,A::MAP,MULTI>::run (a, m, KEY(), v); break;
	}
	mc_step();
	if (tens) cmpc<C,A> (a, m, "a", 9, 31); else cmpc<C,A> (a, m, "a", -1, 4);
	cmpc<C,A> (b, mb, "b", 1, 1);
	mc_state (mc_mix (m.hash(), mb.hash()));
	if (step == depth-1 && mc_want_sample()) mc_sample ("%s history ending with op %d: %s", nm, op, m.str());
    }
    }
    MC_CHECK (!E::nlive_, "%d elements leaked", E::nlive_);
}
#define S(nm,kind,t,c,multi,rev,tens) typedef c T_##nm; MC_SCENARIO (nm, NOPS) { run<T_##nm, kind<t,T_##nm>, multi> (shard, MC_TIER (3, 4), rev, tens, #nm); }
typedef set<int,greater<int> > set_ig; typedef map<int,E> map_iE; typedef map<E,int,greater<E> > map_Eig; typedef multimap<int,int> mm_ii; typedef multimap<E,E> mm_EE; typedef multiset<int,bytens> ms_t; typedef set<int,bytens> set_t; typedef map<int,int,bytens> map_t;
S (set_E, SetK, E, set<E>, 0, 0, 0)
S (set_greater, SetK, int, set_ig, 0, 1, 0)
S (set_tens, SetK, int, set_t, 0, 0, 1)
S (multiset_E, SetK, E, multiset<E>, 1, 0, 0)
S (multiset_tens, SetK, int, ms_t, 1, 0, 1)
S (map_int_E, MapK, int, map_iE, 0, 0, 0)
S (map_E_greater, MapK, E, map_Eig, 0, 1, 0)
S (map_tens, MapK, int, map_t, 0, 0, 1)
S (multimap_int, MapK, int, mm_ii, 1, 0, 0)
S (multimap_E, MapK, E, mm_EE, 1, 0, 0)

// larger contents: every insertion order of 6 (7) keys drawn from 0..5 with repetitions limited by the container
MC_SCENARIO (orders, 36)
{
    set<int> s; multiset<int> ms; map<int,int> mp; multimap<int,int> mm;
    Ref rs, rms; rs.n = rms.n = 0; rs.rev = rms.rev = rs.tens = rms.tens = 0; rs.multi = 0; rms.multi = 1; bool ex;
    const int N = MC_TIER (6, 8); Ref rmp (rs);
    Ref rmm (rms);
    for (int i = 0; i < N; ++i) {
	int k = i == 0 ? shard/6 : i == 1 ? shard%6 : mc_choose (6);
	s.insert (k); ms.insert (k); mp.insert (make_pair (k, i)); mm.insert (make_pair (k, i));
	rs.ins (k, k, &ex); rms.ins (k, k, &ex); rmp.ins (k, i, &ex); rmm.ins (k, i, &ex);
    }
    cmpc<set<int>,SetK<int,set<int> > > (s, rs, "set", -1, 6); cmpc<multiset<int>,SetK<int,multiset<int> > > (ms, rms, "multiset", -1, 6);
    cmpc<map<int,int>,MapK<int,map<int,int> > > (mp, rmp, "map", -1, 6); cmpc<mm_ii,MapK<int,mm_ii> > (mm, rmm, "multimap", -1, 6);
    mc_step(); mc_state (rmm.hash()); mc_outcome (rms.hash());
    int k = rms.k[N/2]; size_t c = ms.erase (k); int l = rms.lower (k), u = rms.upper (k); MC_CHECK (c == size_t(u-l), "multiset::erase (%d) returned %zu, expected %d", k, c, u-l); rms.del (l, u-l);
    cmpc<multiset<int>,SetK<int,multiset<int> > > (ms, rms, "multiset after erase", -1, 6);
    mm.erase (k); rmm.del (l, u-l); cmpc<mm_ii,MapK<int,mm_ii> > (mm, rmm, "multimap after erase", -1, 6);
}

// contents of many sizes, inserted in 6 orders with 3 kinds of repetition, searched, and erased again
struct BRef {
    enum { MAX = 4200 }; int n, k[MAX], v[MAX], rev, multi;
    bool lt (int a, int b) const { return rev ? b < a : a < b; }
    int lower (int x) const { int a = 0, b = n; while (a < b) { int c = (a+b)/2; if (lt (k[c], x)) a = c+1; else b = c; } return a; }
    int upper (int x) const { int a = 0, b = n; while (a < b) { int c = (a+b)/2; if (!lt (x, k[c])) a = c+1; else b = c; } return a; }
    int ins (int x, int y, bool* did) { int i = multi ? upper (x) : lower (x); if (!multi && i < n && k[i] == x) { *did = false; return i; } if (n >= MAX) mc_fail ("harness error: model full"); del (i, -1); k[i] = x; v[i] = y; *did = true; return i; }
    void del (int i, int c) { int f = c > 0 ? i+c : i; int t = f-c; memmove (k+t, k+f, (n-f)*sizeof(int)); memmove (v+t, v+f, (n-f)*sizeof(int)); n -= c; }
};
static const int CN[] = { 1,2,3,4,5,7,8,9,15,16,17,31,32,33,63,64,65,100,127,128,129,255,256,257,300,511,512,513,1000,1025,2049,4097 };
enum { NCN = sizeof(CN)/sizeof(CN[0]) };
template <class C, class A, int MULTI> static void bigc (const char* nm, int n, int order, int rep, int rev)
{
    E::reset(); static BRef m; m.n = 0; m.rev = rev; m.multi = MULTI;
    mc_at ("%s: %d keys in order %d with repetition %d", nm, n, order, rep);
    {
    C c; int fresh = 0;
    for (int i = 0; i < n; ++i) {
	int x = order == 0 ? i : order == 1 ? n-1-i : order == 2 ? (i&1 ? n-1-i/2 : i/2) : order == 3 ? (i&1 ? n/2-1-i/2 : n/2+i/2) : order == 4 ? int (i*7919ll%n) : int ((i*(long) i + i*3)%n);
	const int k = 3 * (x >> (rep*2)) - n/2, v = A::MAP ? fresh++ : k; bool did, exp;
	typename C::iterator r = Ins<C,MULTI>::it (c.insert (A::mk (k, v)), did); int e = m.ins (k, v, &exp);
	MC_CHECK (did == exp && r - c.begin() == e, "%s: key %d, %dth of %d in order %d, inserted at index %ld (%d), expected %d (%d)", nm, k, i, n, order, long(r-c.begin()), did, e, exp);
	mc_step();
    }
    for (int round = 0; round < 2; ++round) {
	const C& cc = c;
	MC_CHECK (c.size() == size_t(m.n), "%s: size %zu, expected %d", nm, c.size(), m.n);
	for (int i = 0; i < m.n; ++i) MC_CHECK (A::key (c.begin()[i]) == m.k[i] && A::val (c.begin()[i]) == m.v[i], "%s of %d: element %d is %d:%d, expected %d:%d", nm, n, i, A::key (c.begin()[i]), A::val (c.begin()[i]), m.k[i], m.v[i]);
	for (int k = -n/2-2; k <= 3*n-n/2+1; k += 1 + (n > 1000)*2) {
	    typename A::K key (k); const int l = m.lower (k), u = m.upper (k);
	    MC_CHECK (cc.lower_bound (key) - cc.begin() == l && cc.upper_bound (key) - cc.begin() == u && cc.find (key) - cc.begin() == (u > l ? l : m.n) && cc.count (key) == size_t(u-l) && cc.equal_range (key).first - cc.begin() == l && cc.equal_range (key).second - cc.begin() == u,
		"%s of %d elements: key %d: lower_bound %ld, upper_bound %ld, find %ld, count %zu; expected range %d..%d", nm, m.n, k, long(cc.lower_bound (key) - cc.begin()), long(cc.upper_bound (key) - cc.begin()), long(cc.find (key) - cc.begin()), cc.count (key), l, u);
	    mc_eval();
	}
	if (round) break;
	for (int i = 0; i < n; i += 2+n/64) { const int k = 3 * (i >> (rep*2)) - n/2; typename A::K key (k); c.erase (key); int l = m.lower (k), u = m.upper (k); m.del (l, u-l); }
	if (m.n > 2) { c.erase (c.begin()+m.n/3, c.begin()+m.n/3+2); m.del (m.n/3, 2); }
    }
    }
    MC_CHECK (!E::nlive_, "%d elements leaked", E::nlive_);
}
#define B(kind,t,c,multi,rev) bigc<c, kind<t,c>, multi> (#c, n, o, rep, rev)
MC_SCENARIO (sizes, NCN)
{
    typedef set<E> s_E; typedef multiset<E> ms_E;
    const int n = CN[shard], L = MC_TIER (520, 4097);
    for (int o = 0; o < 6; ++o) for (int rep = 0; rep < 3; ++rep) {
	if (n <= L || (rep == 0 && o < 2)) { B (SetK, int, set<int>, 0, 0); B (SetK, int, set_ig, 0, 1); B (SetK, int, multiset<int>, 1, 0); typedef map<int,int> m_ii; B (MapK, int, m_ii, 0, 0); B (MapK, int, mm_ii, 1, 0); }
	if (n <= MC_TIER (130, 1100)) { B (SetK, E, s_E, 0, 0); B (SetK, E, ms_E, 1, 0); B (MapK, int, map_iE, 0, 0); B (MapK, E, map_Eig, 0, 1); B (MapK, E, mm_EE, 1, 0); }
    }
    mc_state (n); mc_outcome (n);
}
