// C02: vector against a plain sequence, with element lifecycle accounting.
#include "u.h"

struct T3 { char c[3]; bool operator== (const T3& o) const { return c[0] == o.c[0]; } };
template <class T> struct X;
template <> struct X<int>	{ static int mk (int v) { return v; } static int val (const int& t) { return t; } enum { LINK = 1, LIFE = 0 }; static const char* nm (void) { return "vector<int>"; } };
template <> struct X<T3>	{ static T3 mk (int v) { T3 t; t.c[0] = v; t.c[1] = v^0x5a; t.c[2] = ~v; return t; }
    static int val (const T3& t) { return char(t.c[0]^0x5a) == t.c[1] && char(~t.c[0]) == t.c[2] ? t.c[0] : -777; } enum { LINK = 1, LIFE = 0 }; static const char* nm (void) { return "vector<T3>"; } };
template <> struct X<E>		{ static E mk (int v) { return E(v); } static int val (const E& t) { t.chk ("read"); return t.v; } enum { LINK = 1, LIFE = 1 }; static const char* nm (void) { return "vector<E>"; } };

template <class T> static void cmpvec (const vector<T>& a, const Seq& m, const char* who)
{
    MC_CHECK (a.size() == size_t(m.n), "%s.size() is %zu, expected %d", who, a.size(), m.n);
    MC_CHECK (a.empty() == !m.n, "%s.empty() wrong at size %d", who, m.n);
    MC_CHECK (a.is_linked() || a.capacity() >= a.size(), "%s: capacity %zu < size %zu", who, a.capacity(), a.size());
    MC_CHECK (a.end() - a.begin() == m.n && a.cend() - a.cbegin() == m.n, "%s: begin/end do not span the elements", who);
    for (int i = 0; i < m.n; ++i)
	MC_CHECK (X<T>::val (a[i]) == m.d[i], "%s[%d] is %d, expected %d; model %s", who, i, X<T>::val (a[i]), m.d[i], m.str());
    if (m.n) MC_CHECK (X<T>::val (a.front()) == m.d[0] && X<T>::val (a.back()) == m.d[m.n-1], "%s: front/back", who);
    int i = m.n;
    for (typename vector<T>::const_reverse_iterator r = a.rbegin(); r != a.rend(); ++r)
	MC_CHECK (X<T>::val (*r) == m.d[--i], "%s: reverse iteration at %d", who, i);
    MC_CHECK (i == 0, "%s: reverse iteration is short", who);
}

static const int CNT[] = { 0, 1, 2, 5 };
enum { NOPS = 29 };
static int lite;	// fewer arguments, longer histories
static int ch (int n) { if (!lite) return mc_choose (n); if (n == 2) return 0; if (n == 3) return 1; return 1+2*mc_choose (2); }


template <class T> static void vec_run (int shard, int depth, int lt)
{
    lite = lt;
    E::reset();
    typedef vector<T> V;
    T* lk = NULL; int lkraw[4*sizeof(T)/sizeof(int)+1];
    struct Objs { E* o; Objs (bool on) : o (NULL) { static char b[4*sizeof(E)]; if (on) { o = (E*) b; for (int i = 0; i < 4; ++i) new (o+i) E (60+i); } }
	void check (void) { for (int i = 0; i < 4; ++i) { o[i].chk ("look at a linked object"); MC_CHECK (o[i].v == 60+i, "linked object %d was modified", i); } }
	~Objs (void) { if (o) for (int i = 0; i < 4; ++i) o[i].~E(); } } objs (X<T>::LIFE);
    if (X<T>::LIFE) lk = (T*) objs.o; else if (X<T>::LINK) { for (int i = 0; i < 4; ++i) { T t (X<T>::mk (60+i)); memcpy ((char*) lkraw + i*sizeof(T), &t, sizeof(T)); }
	static void* ro_[2]; void*& ro = ro_[sizeof(T) == 3]; if (!ro) ro = mc_guard_ro (lkraw, 4*sizeof(T)); lk = (T*) ro; }
    {
    V a, b; Seq m, mb; int fresh = 0;
    for (int step = 0; step < depth; ++step) {
	int op = step ? mc_choose (NOPS) : shard;
	switch (op) {
	    case 0: { int v = ++fresh; mc_note ("a.push_back (%d)", v); const T t (X<T>::mk (v)); a.push_back (t); m.push (v); } break;
	    case 1: if (m.n) { mc_note ("a.pop_back()"); a.pop_back(); m.del (m.n-1); } break;
	    case 2: { int v = ++fresh; mc_note ("a.emplace_back (%d)", v); a.emplace_back (X<T>::mk (v)); m.push (v); } break;
	    case 3: case 4: case 5: {
		int at = op == 3 ? 0 : op == 4 ? m.n/2 : m.n; int v = ++fresh; int k = ch (2);
		mc_note ("a.%s (%d, %d)", k ? "emplace" : "insert", at, v);
		typename V::iterator r; const T t (X<T>::mk (v));
		if (k) r = a.emplace (a.begin()+at, X<T>::mk (v)); else r = a.insert (a.begin()+at, t);
		MC_CHECK (r == a.begin()+at, "insert returned index %ld, expected %d", long(r-a.begin()), at); m.ins (at, v); } break;
	    case 6: case 7: case 8: {
		int at = op == 6 ? 0 : op == 7 ? (m.n+1)/2 : m.n; int v = ++fresh; int k = CNT[ch (4)];
		mc_note ("a.insert (%d, %d x %d)", at, k, v); const T t (X<T>::mk (v));
		typename V::iterator r = a.insert (a.begin()+at, size_t(k), t);
		MC_CHECK (r == a.begin()+at, "insert returned index %ld, expected %d", long(r-a.begin()), at); m.ins (at, v, k); } break;
	    case 9: case 10: {
		int at = op == 9 ? m.n/2 : m.n; int k = ch (4);
		V src; int raw[4]; for (int i = 0; i < k; ++i) { raw[i] = ++fresh; src.push_back (X<T>::mk (raw[i])); }
		mc_note ("a.insert (%d, range of %d)", at, k);
		const V& cs = src;
		typename V::iterator r = a.insert (a.begin()+at, cs.begin(), cs.end());
		MC_CHECK (r == a.begin()+at, "insert returned index %ld, expected %d", long(r-a.begin()), at); m.insv (at, raw, k); } break;
	    case 11: case 12: case 13: {
		int at = op == 11 ? 0 : op == 12 ? m.n/2 : m.n; int k = min (CNT[ch (4)], m.n-at);
		mc_note ("a.erase (%d, %d)", at, k);
		typename V::iterator r = mc_choose(2) ? a.erase (a.begin()+at, a.begin()+at+k) : a.erase (a.begin()+at, size_t(k));
		MC_CHECK (r == a.begin()+at, "erase returned index %ld, expected %d", long(r-a.begin()), at); m.del (at, k); } break;
	    case 14: mc_note ("a.clear()"); a.clear(); m.n = 0; break;
	    case 15: { int k = CNT[ch (4)]; int v = ++fresh; mc_note ("a.resize (%d, %d)", k, v); const T t (X<T>::mk (v)); a.resize (k, t); m.resize (k, v); } break;
	    case 16: { int k = CNT[ch (4)]; mc_note ("a.resize (%d)", k); int o = m.n; a.resize (k); m.resize (k, 0);
		if (!X<T>::LIFE) for (int i = o; i < k; ++i) { int v = ++fresh; a[i] = X<T>::mk (v); m.d[i] = v; } } break;
	    case 17: { int k = CNT[ch (4)]; bool ex = ch (2); mc_note ("a.reserve (%d, %d)", k, ex); a.reserve (k, ex); MC_CHECK (a.capacity() >= size_t(k), "capacity %zu after reserve (%d)", a.capacity(), k); } break;
	    case 18: mc_note ("a.shrink_to_fit()"); a.shrink_to_fit(); break;
	    case 19: { int k = CNT[ch (4)]; int v = ++fresh; mc_note ("a.assign (%d x %d)", k, v); const T t (X<T>::mk (v)); a.assign (k, t); m.n = 0; m.ins (0, v, k); } break;
	    case 20: mc_note ("b = a"); b = a; mb = m; break;
	    case 21: { mc_note ("a.swap (b)"); a.swap (b); Seq t = m; m = mb; mb = t; } break;
	    case 22: { mc_note ("V c (a), d (range), e (move (c)); a = move (e)"); 
		const V& ca = a; V c (a), d (ca.begin(), ca.end()), f (size_t(2), X<T>::mk (9)); cmpvec (c, m, "copy"); cmpvec (d, m, "range copy");
		Seq m2; m2.ins (0, 9, 2); cmpvec (f, m2, "V(2,9)");
		MC_CHECK (!m.n || c.begin() != a.begin(), "a copy shares storage");
		V e (move (c)); cmpvec (e, m, "moved-to"); c = V(); c.push_back (X<T>::mk (1)); MC_CHECK (c.size() == 1, "moved-from vector unusable");
		a = move (e); } break;
	    case 23: { mc_note ("vector {1,2,3}"); V c { X<T>::mk (1), X<T>::mk (2), X<T>::mk (3) }; Seq m2; for (int i = 1; i <= 3; ++i) m2.push (i); cmpvec (c, m2, "{1,2,3}");
		int at = m.n/2; a.insert (a.begin()+at, { X<T>::mk (4), X<T>::mk (5) }); int raw[2] = { 4, 5 }; m.insv (at, raw, 2);  } break;
	    case 24: { mc_note ("a == b"); bool eq = m == mb; 
		MC_CHECK ((a == b) == eq, "a == b is %d, contents %s %s", !eq, m.str(), mb.str()); V c (a); MC_CHECK (a == c, "a copy is not equal"); if (m.n) { c[m.n-1] = X<T>::mk (99); MC_CHECK (!(a == c), "different vectors compare equal"); } } break;
	    case 25: if (X<T>::LINK) {
		int k = ch (4);
		if (k == 3) { mc_note ("a.copy_link()"); a.copy_link(); MC_CHECK (!m.n || !a.is_linked(), "still linked after copy_link"); break; }
		if (!a.is_linked()) a.deallocate();
		mc_note ("a.link (%d)", k); m.n = 0;
		if (k == 0) { a.link (lk, 4); for (int i = 0; i < 4; ++i) m.push (60+i); }
		else if (k == 1) { a.link (lk+1, lk+3); m.push (61); m.push (62); }
		else { V c; c.link (lk, 3); a.link (c); for (int i = 0; i < 3; ++i) m.push (60+i); }
		MC_CHECK (a.is_linked(), "link did not link");
		} break;
	    case 27: { mc_note ("a.deallocate()"); a.deallocate(); m.n = 0; MC_CHECK (a.is_linked() && !a.capacity(), "deallocate kept storage"); } break;
	    case 28: { mc_note ("a.data() etc."); const V& ca = a; MC_CHECK (ca.data() == ca.begin() && a.data() == a.begin() && a.cdata() == ca.begin() && ca.iat (m.n) == ca.end() && a.iat (m.n) == a.end(), "data()");
		MC_CHECK (a.max_size() >= a.size(), "max_size"); cmemlink l (ca); MC_CHECK (l.begin() == (const char*) ca.begin() && l.size() == m.n*sizeof(T), "as a cmemlink of %zu bytes", l.size());
		V c; c.link (ca); cmpvec (c, m, "linked to a"); c.link (ca.begin(), ca.end()); cmpvec (c, m, "linked to the range a"); c.link (ca.begin(), ca.size()); cmpvec (c, m, "linked to elements of a"); c.unlink(); MC_CHECK (c.empty(), "not empty after unlink");
		if (!a.is_linked() && m.n) { T* p = a.data(); size_t n = a.capacity(); a.unlink(); V d; d.manage (p, n); MC_CHECK (!d.is_linked() && d.size() == n, "manage"); 
		    V e; e.manage (d.data(), m.n); d.unlink(); cmpvec (e, m, "managed"); a.swap (e); } } break;
	    case 26: { int at = m.n ? mc_choose (min(m.n,2)) : 0; if (m.n && !a.is_linked()) { int v = ++fresh; mc_note ("a[%d] = %d", at, v); a[at] = X<T>::mk (v); m.d[at] = v; 
		*a.iat (m.n-1) = X<T>::mk (v+1000-1000); m.d[m.n-1] = v; } } break;
	}
	mc_step();
	cmpvec (a, m, "a"); cmpvec (b, mb, "b");
	if (X<T>::LIFE) { MC_CHECK (E::nlive_ == (a.is_linked() ? 4 : 4+m.n) + (b.is_linked() ? 0 : mb.n), "%d elements are alive, the vectors hold %d and %d", E::nlive_-4, m.n, mb.n); objs.check(); }
	if (!X<T>::LIFE && lk) MC_CHECK (0 == memcmp (lk, lkraw, 4*sizeof(T)), "linked memory was modified");
	MC_CHECK (mc_heap_live() == !a.is_linked() + !b.is_linked(), "%ld heap blocks are live, two vectors own %d", mc_heap_live(), !a.is_linked() + !b.is_linked());
	mc_heap_check();
	mc_state (mc_mix (mc_mix (m.hash(), mb.hash()), a.capacity()*100+b.capacity()*2+a.is_linked()));
	if (step == depth-1 && mc_want_sample()) mc_sample ("%s history ending with op %d: a=%s capacity %zu, b=%s", X<T>::nm(), op, m.str(), a.capacity(), mb.str());
    }
    }
    if (X<T>::LIFE) MC_CHECK (E::nlive_ == 4, "%d elements leaked", E::nlive_-4);
}
MC_SCENARIO (vector_int, NOPS)		{ vec_run<int> (shard, MC_TIER (3, 4), 0); }
MC_SCENARIO (vector_lifecycle, NOPS)	{ vec_run<E> (shard, MC_TIER (3, 4), 0); }
MC_SCENARIO (vector_3byte, NOPS)	{ vec_run<T3> (shard, MC_TIER (3, 4), 0); }

MC_SCENARIO (vector_int_deep, NOPS)		{ vec_run<int> (shard, MC_TIER (4, 5), 1); }
MC_SCENARIO (vector_lifecycle_deep, NOPS)	{ vec_run<E> (shard, MC_TIER (4, 5), 1); }

// Growth: every insertion point and count in vectors of every size up to 20 (crosses several reallocations)
template <class T> static void grow (int n)
{
    E::reset();
    {
    vector<T> a; Seq m;
    for (int i = 0; i < n; ++i) { a.push_back (X<T>::mk (i+1)); m.push (i+1); }
    int at = mc_choose (n+1), k = mc_choose (8), what = mc_choose (2);
    if (mc_choose (2)) a.shrink_to_fit();
    if (what == 0) { mc_note ("%d elements, insert (%d, %d x 99)", n, at, k); a.insert (a.begin()+at, size_t(k), X<T>::mk (99)); m.ins (at, 99, k); }
    else { k = min (k, n-at); mc_note ("%d elements, erase (%d, %d)", n, at, k); a.erase (a.begin()+at, size_t(k)); m.del (at, k); }
    cmpvec (a, m, "a"); mc_step(); mc_state (m.hash()); mc_outcome (m.hash());
    if (X<T>::LIFE) MC_CHECK (E::nlive_ == m.n, "%d elements alive, %d held", E::nlive_, m.n);
    }
    if (X<T>::LIFE) MC_CHECK (E::nlive_ == 0, "%d elements leaked", E::nlive_);
}
MC_SCENARIO (vector_grow, 21) { switch (mc_choose (3)) { case 0: grow<int> (shard); break; case 1: grow<E> (shard); break; default: grow<T3> (shard); } }

// one edit of vectors of sizes around every power of two, by counts around every power of two
#include "big.h"
typedef Big<int> BI;
template <class T> static int mkv (int i) { return X<T>::LIFE ? i : sizeof(T) == 3 ? (signed char)(i*5) : i*3; }
template <class T> static void cmpbig (const vector<T>& a, const BI& m, const char* what, int n, int k, int at)
{
    MC_CHECK (a.size() == size_t(m.n) && (a.is_linked() || a.capacity() >= a.size()), "%s (n=%d k=%d at=%d): size %zu, capacity %zu, expected size %d", what, n, k, at, a.size(), a.capacity(), m.n);
    for (int i = 0; i < m.n; ++i) if (X<T>::val (a[i]) != m.d[i]) mc_fail ("%s (n=%d k=%d at=%d): element %d is %d, expected %d", what, n, k, at, i, X<T>::val (a[i]), m.d[i]);
    mc_step(); mc_eval();
}
template <class T> static void sizes (int shard, int lim)
{
    for (int ni = shard; ni < bigsizes(); ni += 16) {
	const int n = bigsize (ni); if (n > lim) continue;
	for (int way = 0; way < 2; ++way) for (int ki = 0; ki < NBIGK; ++ki) {
	    const int k = BIGK[ki]; BI m; if (k > lim) continue;
	    #define VSTART E::reset(); vector<T> a; a.reserve (n, way); m.n = 0; m.ins (0, n); for (int i_ = 0; i_ < n; ++i_) { m.d[i_] = mkv<T> (i_); a.push_back (X<T>::mk (m.d[i_])); }
	    #define LIVE(c) MC_CHECK (!X<T>::LIFE || E::nlive_ == (c), "n=%d k=%d: %d elements are alive, expected %d", n, k, E::nlive_, (c))
	    for (int ai = 0; ai < NBIGAT; ++ai) {
		const int at = bigat (n, ai); const int v = mkv<T> (7777); mc_at ("n=%d k=%d at=%d way=%d", n, k, at, way);
		{ VSTART; { const T t (X<T>::mk (v)); typename vector<T>::iterator r = a.insert (a.begin()+at, size_t(k), t); MC_CHECK (r == a.begin()+at, "insert (n=%d k=%d at=%d) returned index %ld", n, k, at, long(r-a.begin())); } m.ins (at, k, v); cmpbig<T> (a, m, "insert", n, k, at); LIVE (n+k);
		  typename vector<T>::iterator r = a.erase (a.begin()+at, size_t(k)); MC_CHECK (r == a.begin()+at, "erase returned index %ld", long(r-a.begin())); m.del (at, k); cmpbig<T> (a, m, "erase", n, k, at); LIVE (n); }
		if (at + k <= n) { VSTART; a.erase (a.begin()+at, a.begin()+at+k); m.del (at, k); cmpbig<T> (a, m, "erase range", n, k, at); LIVE (n-k); }
		if (k <= n && ki%3 == 0) { VSTART; const vector<T> s (a); LIVE (2*n); a.insert (a.begin()+at, s.begin()+(n-k), s.end()); BI m2; m2.set (m.d, n); m.insv (at, m2.d+(n-k), k); cmpbig<T> (a, m, "insert range", n, k, at); }
	    }
	    { VSTART; const T t (X<T>::mk (mkv<T> (55))); a.resize (k, t); if (k < n) m.n = k; else m.ins (n, k-n, mkv<T> (55)); cmpbig<T> (a, m, "resize", n, k, 0); a.shrink_to_fit(); cmpbig<T> (a, m, "shrink_to_fit", n, k, 0); a.push_back (t); m.ins (m.n, 1, mkv<T> (55)); cmpbig<T> (a, m, "push_back", n, k, 0); LIVE (k+2); }
	    { VSTART; const T t (X<T>::mk (mkv<T> (56))); a.assign (k, t); m.n = 0; m.ins (0, k, mkv<T> (56)); cmpbig<T> (a, m, "assign", n, k, 0); vector<T> b (a); cmpbig<T> (b, m, "copy", n, k, 0); MC_CHECK (a == b, "copies of %d elements differ", k); LIVE (2*k+1);
	      if (k) { b[k-1] = X<T>::mk (mkv<T> (57)); MC_CHECK (!(a == b), "vectors of %d elements that differ in the last are equal", k); b.pop_back(); MC_CHECK (!(a == b), "vectors of %d and %d elements are equal", k, k-1); --m.n; cmpbig<T> (b, m, "pop_back", n, k, 0); ++m.n;
		vector<T> c; c.link (a); cmpbig<T> (c, m, "link", n, k, 0); c.link (a.begin(), k); cmpbig<T> (c, m, "link n", n, k, 0); const vector<T>& ca = a; c.link (ca.begin(), k); cmpbig<T> (c, m, "link const n", n, k, 0); c.link (ca.begin(), ca.end()); cmpbig<T> (c, m, "link range", n, k, 0); MC_CHECK (c.is_linked() && c.begin() == a.begin(), "not linked"); c.unlink(); LIVE (2*k); } }
	    if (k && !X<T>::LIFE) { BI m2; m2.ins (0, k, 0); T* p = (T*) malloc (k*sizeof(T)); for (int i = 0; i < k; ++i) { m2.d[i] = mkv<T> (i); p[i] = X<T>::mk (m2.d[i]); } vector<T> c; c.manage (p, k); MC_CHECK (!c.is_linked() && int(c.capacity()) == k, "manage of %d has room for %zu", k, size_t(c.capacity())); cmpbig<T> (c, m2, "manage", n, k, 0); }
	    { VSTART; BI m2; vector<T> b; b.resize (k, X<T>::mk (mkv<T> (58))); m2.ins (0, k, mkv<T> (58)); a.swap (b); cmpbig<T> (b, m, "swap", n, k, 0); cmpbig<T> (a, m2, "swap", n, k, 1); a = b; cmpbig<T> (a, m, "assignment", n, k, 0); LIVE (2*n); a.clear(); MC_CHECK (a.empty(), "clear"); LIVE (n); }
	    LIVE (0);
	}
	mc_state (mc_mix (n, sizeof(T))); mc_outcome (mc_mix (n, sizeof(T)));
    }
}
MC_SCENARIO (vector_sizes_int, 16)	{ sizes<int> (shard, 140000); }
MC_SCENARIO (vector_sizes_3byte, 16)	{ sizes<T3> (shard, MC_TIER (5000, 140000)); }
MC_SCENARIO (vector_sizes_tracked, 16)	{ sizes<E> (shard, 5000); }
