// C27: iterator and functional adaptors against what they wrap.
#include "u.h"
//{{{ a random access iterator that checks its range
struct BI {
    typedef int value_type; typedef ptrdiff_t difference_type; typedef const int* pointer; typedef const int& reference; typedef random_access_iterator_tag iterator_category;
    const int* b; int n, i;
    BI (void) : b (nullptr), n (0), i (0) {}
    BI (const int* p, int cnt, int at) : b (p), n (cnt), i (at) {}
    void in (const char* w) const { if (i < 0 || i > n) mc_fail ("%s leaves the range: %d of %d", w, i, n); }
    reference operator* (void) const { if (i < 0 || i >= n) mc_fail ("dereferences %d of %d", i, n); return b[i]; }
    pointer operator-> (void) const { return &**this; }
    BI& operator++ (void) { ++i; in ("++"); return *this; }
    BI& operator-- (void) { --i; in ("--"); return *this; }
    BI operator++ (int) { BI r (*this); ++*this; return r; }
    BI operator-- (int) { BI r (*this); --*this; return r; }
    BI& operator+= (ptrdiff_t k) { i += k; in ("+="); return *this; }
    BI& operator-= (ptrdiff_t k) { i -= k; in ("-="); return *this; }
    BI operator+ (ptrdiff_t k) const { BI r (*this); return r += k; }
    BI operator- (ptrdiff_t k) const { BI r (*this); return r -= k; }
    ptrdiff_t operator- (const BI& o) const { return i - o.i; }
    bool operator== (const BI& o) const { return b == o.b && i == o.i; }
    bool operator< (const BI& o) const { return i < o.i; }
};
//}}}
//{{{ reverse, move and index iterators: every history of moves within the range
enum { MOVES = 8 };
// X: at (pos) makes the adaptor at position pos; value (it, pos) whether *it is element pos
template <typename X> static void walk (X& x, int n, int depth)
{
    typedef typename X::It It;
    int p = mc_choose (n+1); It i = x.at (p);
    mc_note ("at %d of %d", p, n);
    for (int d = 0; ; ++d) {
	if (p < n) x.look (i, p);
	for (int q = 0; q <= n; ++q) {
	    It j = x.at (q); mc_steps (8);
	    MC_CHECK ((i == j) == (p == q) && (i != j) == (p != q) && (i < j) == (p < q) && (i > j) == (p > q) && (i <= j) == (p <= q) && (i >= j) == (p >= q), "comparison of positions %d and %d", p, q);
	    MC_CHECK (i - j == p - q && j - i == q - p, "difference of positions %d and %d is %td", p, q, i - j);
	    if (q < n && q >= p) x.sub (i, q-p, q);
	}
	MC_CHECK (x.basepos (i) == x.model (p), "base is at %d at position %d", x.basepos (i), p);
	mc_state (mc_hash (n, &p, sizeof(p))); if (d == depth) break;
	const int op = mc_choose (MOVES); int k;
	switch (op) {
	    case 0: if (p == n) return; mc_note ("++"); { It& r = ++i; MC_CHECK (&r == &i, "++ returns another"); } ++p; break;
	    case 1: if (!p) return; mc_note ("--"); { It& r = --i; MC_CHECK (&r == &i, "-- returns another"); } --p; break;
	    case 2: { if (p == n) return; mc_note ("i++"); It r = i++; MC_CHECK (r == x.at (p), "i++ returns another"); x.look (r, p); ++p; break; }
	    case 3: { if (!p) return; mc_note ("i--"); It r = i--; MC_CHECK (r == x.at (p), "i-- returns another"); --p; break; }
	    case 4: { k = mc_choose (n-p+1); mc_note ("+= %d", k); It& r = (i += k); MC_CHECK (&r == &i, "+= returns another"); p += k; break; }
	    case 5: { k = mc_choose (p+1); mc_note ("-= %d", k); It& r = (i -= k); MC_CHECK (&r == &i, "-= returns another"); p -= k; break; }
	    case 6: { k = mc_choose (n-p+1); mc_note ("+ %d", k); It r = i + k; MC_CHECK (i == x.at (p), "+ changes it"); i = r; p += k; break; }
	    case 7: { k = mc_choose (p+1); mc_note ("- %d", k); It r = i - k; MC_CHECK (i == x.at (p), "- changes it"); i = r; p -= k; break; }
	}
    }
}
static const int DATA[] = { 11, 22, 33, 44, 55, 66, 77, 88 };
template <typename B> struct Base;
template <> struct Base<BI> { static BI make (int n, int i) { return BI (DATA, n, i); } static int pos (BI b) { return b.i; } static const int* addr (int i) { return DATA+i; } };
template <> struct Base<const int*> { static const int* make (int, int i) { return DATA+i; } static int pos (const int* b) { return b-DATA; } static const int* addr (int i) { return DATA+i; } };
static int dcopy[8];
template <> struct Base<int*> { static int* make (int, int i) { return dcopy+i; } static int pos (int* b) { return b-dcopy; } static int* addr (int i) { return dcopy+i; } };
template <typename B> struct RevX { typedef reverse_iterator<B> It; int n;
    It at (int p) { return p%2 ? It (Base<B>::make (n, n-p)) : make_reverse_iterator (Base<B>::make (n, n-p)); }
    int model (int p) { return n-p; } int basepos (const It& i) { return Base<B>::pos (i.base()); }
    void look (const It& i, int p) { MC_CHECK (&*i == Base<B>::addr (n-1-p) && i.operator->() == Base<B>::addr (n-1-p), "reverse position %d of %d: value %d", p, n, *i); }
    void sub (const It& i, int k, int p) { MC_CHECK (&i[k] == Base<B>::addr (n-1-p), "reverse position %d[%d] is %d", p-k, k, i[k]); }
};
template <typename B> struct MovX { typedef move_iterator<B> It; int n;
    It at (int p) { return p%2 ? It (Base<B>::make (n, p)) : make_move_iterator (Base<B>::make (n, p)); }
    int model (int p) { return p; } int basepos (const It& i) { return Base<B>::pos (i.base()); }
    void look (const It& i, int p) { int&& v = *i; MC_CHECK (&v == Base<B>::addr (p) && i.operator->() == Base<B>::addr (p), "move position %d of %d: value %d", p, n, *i); }
    void sub (const It& i, int k, int p) { int&& v = i[k]; MC_CHECK (&v == Base<B>::addr (p), "move position %d[%d] is %d", p-k, k, v); }
};
struct IdxX { typedef index_iterate<const int*, vector<uoff_t>::const_iterator> It; vector<uoff_t> x; 
    It at (int p) { return p%2 ? It (DATA, x.begin()+p) : index_iterator (DATA+0, vector<uoff_t>::const_iterator (x.begin()+p)); }
    int model (int p) { return p; } int basepos (const It& i) { return i.base() - x.begin(); }
    void look (const It& i, int p) { MC_CHECK (*i == DATA + x[p], "index position %d: element %td, expected %zu", p, *i - DATA, x[p]); }
    void sub (const It& i, int k, int p) { MC_CHECK (i[k] == DATA + x[p], "index position %d[%d]: element %td, expected %zu", p-k, k, i[k] - DATA, x[p]); }
};
MC_SCENARIO (iterator_moves, 6)
{
    memcpy (dcopy, DATA, sizeof(dcopy)); const int n = mc_choose (MC_TIER (6, 7)), depth = MC_TIER (4, 5);
    switch (shard) {
	case 0: { RevX<BI> x = { n }; walk (x, n, depth); break; }
	case 1: { RevX<const int*> x = { n }; walk (x, n, depth); break; }
	case 2: { RevX<int*> x = { n }; walk (x, n, depth); break; }
	case 3: { MovX<int*> x = { n }; walk (x, n, depth); break; }
	case 4: { RevX<int*> x = { n }; walk (x, n, 1); break; }
	case 5: { IdxX x; const bool all = n <= MC_TIER (4, 5); for (int i = 0; i < n; ++i) x.x.push_back (all ? mc_choose (3)*2 : (i*5+2)%7); walk (x, n, depth-1); break; }	// every repetition of the short ones
    }
}
// steps longer than 8 and 16 bits count
template <typename It, typename A> static void farmoves (const char* nm, It b, It e, int n, A addr)
{
    static const int K[] = { 0, 1, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
    for (int f : { 0, 1, 255, 300, 65536, 66000, 140000 }) for (int k : K) {
	if (f + k > n) continue; It i (b); i += f; It j (i); mc_at ("%s from %d by %d", nm, f, k);
	j += k; MC_CHECK (j - i == k && i - j == -k && j - b == f+k && e - j == n-f-k && (i < j) == (k > 0) && (i == j) == !k, "%s: += %d from %d arrives %td away", nm, k, f, j-i);
	MC_CHECK (i + k == j && j - k == i, "%s: + or - %d from %d", nm, k, f); if (f+k < n) MC_CHECK (addr (&i[k] - &b[0]) == f+k && &*j == &i[k], "%s: element %d from %d", nm, k, f);
	j -= k; MC_CHECK (j == i, "%s: -= %d from %d", nm, k, f+k); It z (i); advance (z, k); MC_CHECK (distance (i, z) == k, "%s: advance by %d from %d is %td", nm, k, f, distance (i, z)); mc_steps (6);
    }
    mc_state (mc_hash (n, nm, strlen (nm)));
}
MC_SCENARIO (far_moves, 3)
{
    const int n = 150000; vector<int> v (n); for (int i = 0; i < n; ++i) v[i] = i; const vector<int>& c = v;
    if (shard == 0) { farmoves ("reverse", v.rbegin(), v.rend(), n, [](ptrdiff_t d) { return int(-d); }); farmoves ("const reverse", c.rbegin(), c.rend(), n, [](ptrdiff_t d) { return int(-d); }); }
    if (shard == 1) { typedef move_iterator<int*> M; M b (v.begin()), e (v.end()); for (int k : { 1, 255, 256, 257, 65535, 65536, 65537, 140000 }) { M i (b); i += k; MC_CHECK (i.base() == v.begin()+k && (b+k).base() == i.base() && *i == k && b[k] == k && i - b == k, "move += %d", k); i -= k; MC_CHECK (i == b && ((b+k)-k) == b && (e-k).base() == v.end()-k, "move -= %d", k); mc_step(); } }
    if (shard == 2) { vector<uoff_t> x (n); for (int i = 0; i < n; ++i) x[i] = (i*7ll)%n; typedef index_iterate<const int*, const uoff_t*> X; X b (c.begin(), x.begin());
	for (int k : { 1, 255, 256, 257, 65535, 65536, 65537, 140000 }) { X i (b); i += k; MC_CHECK (i.base() == x.begin()+k && *i == c.begin() + x[k] && b[k] == *i && (b+k) == i && i - b == k, "index += %d", k); i -= k; MC_CHECK (i == b && ((b+k)-k) == b, "index -= %d", k); mc_step(); }
	vector<vector<int>::iterator> iv; indexv_to_iteratorv (v.begin(), x, iv); MC_CHECK (int(iv.size()) == n, "indexv_to_iteratorv of %d makes %zu", n, size_t(iv.size())); for (int i = 0; i < n; ++i) MC_CHECK (iv[i] == v.begin()+x[i], "indexv_to_iteratorv %d", i);
	vector<int> o; copy (v.begin(), v.end(), back_inserter (o)); MC_CHECK (o == v, "back_inserter of %d", n); vector<int> q; copy (v.begin(), v.begin()+66000, inserter (q, q.begin())); MC_CHECK (q.size() == 66000 && q[65999] == 65999 && q[0] == 0, "inserter"); }
}
template <typename C> static void both (const char* name, C& c)
{
    const C& cc = c; size_t n = 0; for (auto i = c.begin(); i != c.end(); ++i) ++n;
    auto f = c.end(); size_t k = 0; for (auto i = c.rbegin(); i != c.rend(); ++i, ++k) { --f; MC_CHECK (&*i == &*f, "%s: reverse element %zu of %zu", name, k, n); } MC_CHECK (k == n && f == c.begin(), "%s: %zu of %zu visited in reverse", name, k, n);
    f = c.end(); k = 0; for (auto i = cc.rbegin(); i != cc.rend(); ++i, ++k) { --f; MC_CHECK (&*i == &*f, "const %s: reverse element %zu of %zu", name, k, n); } MC_CHECK (k == n, "const %s: %zu of %zu visited in reverse", name, k, n);
    f = c.end(); k = 0; for (auto i = c.crbegin(); i != c.crend(); i++, ++k) { --f; MC_CHECK (&*i == &*f, "%s: const reverse element %zu of %zu", name, k, n); } MC_CHECK (k == n, "%s: %zu of %zu visited in const reverse", name, k, n);
    mc_steps (3*n);
}
MC_SCENARIO (container_reverse, 1)
{
    const int n = mc_choose (10);
    vector<int> v; list<int> l; deque<int> d; string s; set<int> t; multiset<int> u; map<int,int> m; multimap<int,int> w; vector<string> vs;
    for (int i = 0; i < n; ++i) { v.push_back (i*7%5); l.push_back (i); d.push_back (i); s.push_back (char('a'+i)); t.insert (i*3%10); u.insert (i/2); m.insert (make_pair (i*7%10, i)); w.insert (make_pair (i/2, i)); vs.push_back (s); }
    both ("vector", v); both ("list", l); both ("deque", d); both ("string", s); both ("set", t); both ("multiset", u); both ("map", m); both ("multimap", w); both ("vector<string>", vs);
    // the sequence read through reverse iterators by an algorithm
    vector<int> o (v.size()); copy (v.rbegin(), v.rend(), o.begin()); for (int i = 0; i < n; ++i) MC_CHECK (o[i] == v[n-1-i], "copy in reverse of %d", n);
    copy (v.begin(), v.end(), o.rbegin()); for (int i = 0; i < n; ++i) MC_CHECK (o[i] == v[n-1-i], "copy to reverse of %d", n);
    MC_CHECK (find (v.rbegin(), v.rend(), 99) == v.rend(), "find in reverse"); for (int x = 0; x < 5; ++x) { auto r = find (v.rbegin(), v.rend(), x); int e = n-1; while (e >= 0 && v[e] != x) --e; MC_CHECK (r.base() - v.begin() == e+1, "find of %d in reverse of %d", x, n); }
    auto b = make_reverse_iterator (v.rend()), e = make_reverse_iterator (v.rbegin()); int k = 0; for (auto i = b; i != e; ++i, ++k) MC_CHECK (&*i == &v[k], "reverse of reverse"); MC_CHECK (k == n, "reverse of reverse visits %d of %d", k, n);
    // indexes
    vector<vector<int>::iterator> iv; vector<uoff_t> xv; for (int i = 0; i < n; ++i) xv.push_back (i*i%n); indexv_to_iteratorv (v.begin(), xv, iv);
    MC_CHECK (iv.size() == size_t(n), "indexv_to_iteratorv makes %zu", size_t(iv.size())); for (int i = 0; i < n; ++i) MC_CHECK (iv[i] == v.begin()+i*i%n, "indexv_to_iteratorv element %d", i);
    for (int i = 0; i < n; ++i) {
	const vector<int>& cv = v; const vector<string>& cs = vs; mc_steps (5);
	MC_CHECK (ibyi (v.begin()+i, v, vs) == vs.begin()+i && ibyi (cv.begin()+i, cv, cs) == cs.begin()+i, "ibyi of %d", i);
	MC_CHECK ((ibyi<vector<int>,vector<string> > (cv.begin()+i, cv, vs)) == vs.begin()+i && (ibyi<vector<int>,vector<string> > (v.begin()+i, v, cs)) == cs.begin()+i, "ibyi of %d between const and not", i);
	vector<int>::const_iterator ci = cv.begin()+i; MC_CHECK (unconst (ci, v) == v.begin()+i, "unconst");
    }
}
// the free functions for ranges, on what is and is not constant
template <typename C> static void rends (const char* name, C& c)
{
    const C& cc = c; size_t n = 0; for (auto i = c.begin(); i != c.end(); ++i) ++n;
    MC_CHECK (ustl::begin (c) == c.begin() && ustl::end (c) == c.end(), "begin and end of %s", name);
    MC_CHECK (ustl::begin (cc) == cc.begin() && ustl::end (cc) == cc.end() && ustl::cbegin (c) == cc.begin() && ustl::cend (c) == cc.end() && ustl::cbegin (cc) == cc.begin() && ustl::cend (cc) == cc.end(), "begin and end of const %s", name);
    MC_CHECK (ustl::rbegin (c) == c.rbegin() && ustl::rend (c) == c.rend(), "rbegin and rend of %s", name);
    MC_CHECK (ustl::rbegin (cc) == cc.rbegin() && ustl::rend (cc) == cc.rend() && ustl::crbegin (c) == cc.rbegin() && ustl::crend (c) == cc.rend(), "rbegin and rend of const %s", name);
    MC_CHECK (ustl::size (c) == n && ustl::size (cc) == n && ustl::empty (c) == !n && ustl::empty (cc) == !n && c.empty() == !n, "size of %s with %zu", name, n);
    auto f = c.begin(); size_t k = 0; foreach (typename C::iterator, i, c) { MC_CHECK (&*i == &*f, "foreach of %s at %zu", name, k); ++f; ++k; } MC_CHECK (k == n, "foreach visits %zu of %zu of %s", k, n, name);
    f = c.begin(); k = 0; foreach (typename C::const_iterator, i, cc) { MC_CHECK (&*i == &*f, "foreach of const %s at %zu", name, k); ++f; ++k; } MC_CHECK (k == n, "foreach visits %zu of %zu of const %s", k, n, name);
    f = c.end(); k = 0; eachfor (typename C::reverse_iterator, i, c) { --f; MC_CHECK (&*i == &*f, "eachfor of %s at %zu", name, k); ++k; } MC_CHECK (k == n, "eachfor visits %zu of %zu of %s", k, n, name);
    f = c.end(); k = 0; eachfor (typename C::const_reverse_iterator, i, cc) { --f; MC_CHECK (&*i == &*f, "eachfor of const %s at %zu", name, k); ++k; } MC_CHECK (k == n, "eachfor visits %zu of %zu of const %s", k, n, name);
    f = c.begin(); k = 0; for (auto& x : c) { MC_CHECK (&x == &*f, "for of %s at %zu", name, k); ++f; ++k; } MC_CHECK (k == n, "for visits %zu of %zu of %s", k, n, name);
    mc_steps (6*n+12); mc_state (mc_hash (n, name, strlen(name)));
}
template <typename C> static void datas (const char* name, C& c)
{
    const C& cc = c;
    MC_CHECK (ustl::data (c) == c.data() && ustl::data (cc) == cc.data() && (c.begin() == c.end() || (const void*) ustl::data (c) == (const void*) &*c.begin()), "data of %s", name);
}
MC_SCENARIO (range_access, 1)
{
    const int n = mc_choose (10);
    vector<int> v; list<int> l; deque<int> d; string s; set<int> t; multiset<int> u; map<int,int> m; multimap<int,int> w; vector<string> vs;
    for (int i = 0; i < n; ++i) { v.push_back (i*7%5); l.push_back (i); d.push_back (i); s.push_back (char('a'+i)); t.insert (i*3%10); u.insert (i/2); m.insert (make_pair (i*7%10, i)); w.insert (make_pair (i/2, i)); vs.push_back (s); }
    rends ("vector", v); rends ("list", l); rends ("deque", d); rends ("string", s); rends ("set", t); rends ("multiset", u); rends ("map", m); rends ("multimap", w); rends ("vector<string>", vs);
    datas ("vector", v); datas ("string", s); datas ("set", t); datas ("vector<string>", vs);
}
//}}}
//{{{ moving
struct M {	// counts how it was moved
    int v, from; M (int k = 0) : v (k), from (0) {}
    M (const M& m) : v (m.v), from (0) { mc_fail ("copied instead of moved"); } M& operator= (const M&) { mc_fail ("copied instead of moved"); return *this; }
    M (M&& m) : v (m.v), from (m.from) { ++m.from; } M& operator= (M&& m) { v = m.v; ++m.from; return *this; }
};
MC_SCENARIO (moving, 1)
{
    const int n = mc_choose (7), f = mc_choose (n+1), l = f + mc_choose (n-f+1), how = mc_choose (4);
    M s[8], d[8]; string ss[8], ds[8]; for (int i = 0; i < n; ++i) { s[i].v = 10+i; char t[20]; sprintf (t, "string %d", i); ss[i] = t; }
    move_iterator<M*> b (s+f), e (s+l); move_iterator<string*> sb (ss+f), se (ss+l); M* o = d; string* so = ds;
    switch (how) {
	case 0: o = copy (b, e, d); so = copy (sb, se, ds); break;
	case 1: for (; b != e; ++b, ++sb) { *o++ = *b; *so++ = *sb; } break;
	case 2: for (ptrdiff_t i = 0; i < e - b; ++i) { *o++ = b[i]; *so++ = sb[i]; } break;
	case 3: while (b < e) { *o++ = *b++; *so++ = *sb++; } break;
    }
    MC_CHECK (o - d == l-f && so - ds == l-f, "moved %td elements of %d", o - d, l-f);
    for (int i = 0; i < n; ++i) {
	const bool in = i >= f && i < l; char t[20]; sprintf (t, "string %d", i);
	MC_CHECK (s[i].from == in, "element %d moved %d times", i, s[i].from); if (in) MC_CHECK (d[i-f].v == 10+i && ds[i-f] == t, "element %d moved to the wrong place", i); else MC_CHECK (ss[i] == t, "element %d is lost", i);
	mc_step();
    }
    mc_state (mc_hash (n, &f, sizeof(f)) + l*131 + how);
}
//}}}
//{{{ insert iterators
template <typename It, typename T> static void put (It& i, const T& v, int style)
{
    mc_note ("%s", style == 0 ? "*i = v; ++i" : style == 1 ? "*i++ = v" : style == 2 ? "i = v" : "*i = v; i++");
    switch (style) { case 0: *i = v; ++i; break; case 1: *i++ = v; break; case 2: i = v; break; case 3: *i = v; i++; break; }
}
template <typename C> static void same (const C& c, const Seq& m, const char* w) { Seq g; for (auto i = c.begin(); i != c.end(); ++i) g.push (*i); MC_CHECK (g == m, "%s: has %s, expected %s", w, g.str(), m.str()); mc_state (g.hash()); }
static void same (const vector<E>& c, const Seq& m, const char* w) { Seq g; for (auto i = c.begin(); i != c.end(); ++i) { i->chk (w); g.push (i->v); } MC_CHECK (g == m, "%s: has %s, expected %s", w, g.str(), m.str()); }
template <typename C> static void inserts (const char* name, int kind)	// kind 0 at a position, 1 back, 2 front
{
    const int n = mc_choose (4), room = mc_choose (2), at = kind == 0 ? mc_choose (n+1) : kind == 1 ? n : 0, cnt = mc_choose (MC_TIER (4, 5)+1), how = mc_choose (2);
    C c; Seq m; for (int i = 0; i < n; ++i) { c.push_back (typename C::value_type ('a'+i)); m.push ('a'+i); } if (room) c.reserve (32);
    int src[8]; for (int k = 0; k < cnt; ++k) src[k] = 'A'+k;
    mc_note ("%s of %d, at %d, %s room", name, n, at, room ? "with" : "without");
    for (int k = 0; k < cnt; ++k) m.ins (kind == 2 ? 0 : at+k, src[k]);
    if (kind == 0) {
	auto i = inserter (c, c.begin()+at);
	if (how) { mc_note ("copy of %d", cnt); copy (src+0, src+cnt, i); } else for (int k = 0; k < cnt; ++k) put (i, typename C::value_type (src[k]), mc_choose (4));
    } else if (kind == 1) {
	auto i = back_inserter (c);
	if (how) { mc_note ("copy of %d", cnt); copy (src+0, src+cnt, i); } else for (int k = 0; k < cnt; ++k) put (i, typename C::value_type (src[k]), mc_choose (4));
    }
    same (c, m, name); mc_steps (cnt);
}
template <typename C> static void fronts (const char* name)
{
    const int n = mc_choose (4), cnt = mc_choose (MC_TIER (4, 5)+1); C c; Seq m; for (int i = 0; i < n; ++i) { c.push_back (i); m.push (i); }
    auto i = front_inserter (c); for (int k = 0; k < cnt; ++k) { put (i, 10+k, mc_choose (4)); m.ins (0, 10+k); } same (c, m, name); mc_steps (cnt);
}
MC_SCENARIO (insert_iterators, 12)
{
    E::reset();
    switch (shard) {
	case 0: inserts<vector<int> > ("inserter of a vector", 0); break;
	case 1: inserts<vector<E> > ("inserter of a vector of objects", 0); break;
	case 2: inserts<list<int> > ("inserter of a list", 0); break;
	case 3: inserts<deque<int> > ("inserter of a deque", 0); break;
	case 4: inserts<vector<int> > ("back_inserter of a vector", 1); break;
	case 5: inserts<vector<E> > ("back_inserter of a vector of objects", 1); break;
	case 6: inserts<list<int> > ("back_inserter of a list", 1); break;
	case 7: inserts<string> ("back_inserter of a string", 1); break;
	case 8: inserts<string> ("inserter of a string", 0); break;
	case 9: fronts<list<int> > ("front_inserter of a list"); break;
	case 10: fronts<deque<int> > ("front_inserter of a deque"); break;
	case 11: {	// sorted containers keep their order whatever the position
	    const int n = mc_choose (4), at = mc_choose (n+1), cnt = mc_choose (4); set<int> c; Seq m; for (int i = 0; i < n; ++i) { c.insert (i*2); m.push (i*2); }
	    auto i = inserter (c, c.begin()+at); for (int k = 0; k < cnt; ++k) { const int v = mc_choose (8); put (i, v, mc_choose (2) ? 2 : 0); bool in = false; for (int j = 0; j < m.n; ++j) in |= m.d[j] == v; if (!in) { m.push (v); m.sort(); } same (c, m, "inserter of a set"); }
	    multiset<int> u; Seq w; auto j = back_inserter (u); for (int k = 0; k < cnt; ++k) { const int v = (k*5+at)%3; put (j, v, k); w.push (v); w.sort(); } same (u, w, "back_inserter of a multiset"); break; }
    }
    MC_CHECK (E::nlive_ == 0, "%d objects left", E::nlive_);
}
//}}}
//{{{ function objects
template <typename T> static void arith (const T* v, int n, const char* tn)
{
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
	const T a = v[i], b = v[j]; mc_steps (16); mc_state (mc_hash (mc_hash (sizeof(T), &a, sizeof(a)), &b, sizeof(b)));
	#define F(name, e) MC_CHECK (name<T>() (a, b) == (e), #name "<%s> (%g, %g) is %g, expected %g", tn, double(a), double(b), double(name<T>() (a, b)), double(e))
	F(plus, T(a+b)); F(minus, T(a-b)); F(multiplies, T(a*b)); if (b != T(0)) F(divides, T(a/b));
	F(logical_and, T(a && b)); F(logical_or, T(a || b)); F(equal_to, (a == b)); F(not_equal_to, (a != b)); F(greater, (a > b)); F(less, (a < b)); F(greater_equal, (a >= b)); F(less_equal, (a <= b)); F(compare, (a < b ? -1 : a > b ? 1 : 0));
	const project1st<T,T> p1 = project1st<T,T>(); const project2nd<T,T> p2 = project2nd<T,T>(); MC_CHECK (&p1 (a, b) == &a && &p2 (a, b) == &b, "project");
	MC_CHECK (negate<T>() (a) == T(-a) && logical_not<T>() (a) == T(!a) && identity<T>() (a) == a, "negate, not or identity<%s> of %g", tn, double(a));
    }
}
template <typename T> static void bits (const T* v, int n, const char* tn)
{
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
	const T a = v[i], b = v[j]; mc_steps (5);
	if (b != T(0) && !(b == T(-1) && sizeof(T) > 2)) F(modulus, T(a%b)); F(bitwise_or, T(a|b)); F(bitwise_and, T(a&b)); F(bitwise_xor, T(a^b));
	MC_CHECK (bitwise_not<T>() (a) == T(~a), "bitwise_not<%s> of %g", tn, double(a));
    }
}
template <typename T> static void small (const char* tn) { static T v[256]; for (int i = 0; i < 256; ++i) v[i] = T(i); arith (v, 256, tn); bits (v, 256, tn); }
static int lastcalls;
static int f1 (int a) { ++lastcalls; return a*3+1; }
static int f2 (int a, int b) { ++lastcalls; return a*31+b*7+5; }
static bool p1 (int a) { ++lastcalls; return a%3 == 1; }
static int r1 (const int& a) { ++lastcalls; return a-7; }
static int r2 (int& a, int b) { ++lastcalls; const int o = a; a += b; return o*5+b; }
struct P {
    int k, j; P (int a = 0, int b = 0) : k (a), j (b) {}
    int get (void) { ++lastcalls; return k*2; } int cget (void) const { ++lastcalls; return k*3; } int add (int v) { ++lastcalls; k += v; return k; } int sub (int v) const { ++lastcalls; return k*100-v; } void inc (void) { ++lastcalls; ++k; }
};
struct Set9 : public unary_function<int&,int> { int operator() (int& v) const { int o = v; v = o+9; return o; } };
static const int AV[] = { -3, -1, 0, 1, 2, 5, 100 };
#define CALLS(n, what) do { MC_CHECK (lastcalls == (n), "%s calls the function %d times, expected %d", what, lastcalls, int(n)); lastcalls = 0; } while (0)
MC_SCENARIO (functors, 12)
{
    switch (shard) {
	case 0: small<int8_t> ("int8"); break; case 1: small<uint8_t> ("uint8"); break;
	case 2: { static const int v[] = { -32768, -1000, -3, -2, -1, 0, 1, 2, 3, 7, 100, 32767 }; arith (v, 12, "int"); bits (v, 12, "int"); static const unsigned u[] = { 0, 1, 2, 3, 10, 65535, 0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF }; arith (u, 10, "unsigned"); bits (u, 10, "unsigned"); break; }
	case 3: { static const int64_t v[] = { -INT64_C(0x7FFFFFFF), -3, -1, 0, 1, 2, 5, INT64_C(0x7FFFFFFF) }; arith (v, 8, "int64"); bits (v, 8, "int64"); static const uint64_t u[] = { 0, 1, 2, 7, UINT64_C(0xFFFFFFFF), UINT64_C(0x100000000), UINT64_C(0x8000000000000000), UINT64_MAX }; arith (u, 8, "uint64"); bits (u, 8, "uint64"); static const int16_t s[] = { -32768, -1, 0, 1, 2, 32767 }; arith (s, 6, "int16"); bits (s, 6, "int16"); break; }
	case 4: { static const double v[] = { -1e300, -2.5, -1, -0.0, 0, 0.25, 1, 3, 1e300 }; arith (v, 9, "double"); static const float f[] = { -2.5f, 0, 1, 1e30f }; arith (f, 4, "float"); break; }
	case 5: { static const char* const S[] = { "", "a", "b", "ab", "abc", "B" }; for (const char* sa : S) for (const char* sb : S) { string a (sa), b (sb); int c = strcmp (sa, sb);
	    MC_CHECK (less<string>() (a, b) == (c < 0) && greater<string>() (a, b) == (c > 0) && equal_to<string>() (a, b) == !c && not_equal_to<string>() (a, b) == !!c && less_equal<string>() (a, b) == (c <= 0) && greater_equal<string>() (a, b) == (c >= 0) && compare<string>() (a, b) == (c < 0 ? -1 : c > 0), "comparison of strings '%s' and '%s'", sa, sb);
	    MC_CHECK (plus<string>() (a, b) == a + b && identity<string>() (a) == a, "sum of strings"); mc_steps (9); } break; }
	case 6: for (int a : AV) for (int b : AV) {	// pointers to functions, binders
	    lastcalls = 0; mc_steps (12);
	    MC_CHECK (ptr_fun (f1) (a) == a*3+1, "ptr_fun"); MC_CHECK (ptr_fun (f2) (a, b) == a*31+b*7+5, "ptr_fun of two"); MC_CHECK (ptr_fun (r1) (a) == a-7, "ptr_fun of a reference"); int w = a; MC_CHECK (ptr_fun (r2) (w, b) == a*5+b && w == a+b, "ptr_fun changing its argument"); CALLS (4, "ptr_fun");
	    MC_CHECK (bind1st (ptr_fun (f2), a) (b) == a*31+b*7+5, "bind1st (%d) (%d)", a, b); MC_CHECK (bind2nd (ptr_fun (f2), a) (b) == b*31+a*7+5, "bind2nd (%d) (%d)", a, b); CALLS (2, "binder");
	    const auto k1 = bind1st (minus<int>(), a); const auto k2 = bind2nd (minus<int>(), a); for (int c : AV) MC_CHECK (k1 (c) == a-c && k2 (c) == c-a && k1 (b) == a-b, "binder used again");
	    MC_CHECK (unary_negator (ptr_fun (p1)) (a) == !(a%3 == 1), "unary_negator of %d", a); CALLS (1, "unary_negator"); MC_CHECK (unary_negator (bind2nd (less<int>(), b)) (a) == (a >= b), "unary_negator of a binder");
	} break;
	case 7: for (int a : AV) for (int b : AV) for (int c : AV) {	// compositions
	    lastcalls = 0; mc_steps (6);
	    MC_CHECK (compose1 (ptr_fun (f1), bind2nd (minus<int>(), b)) (a) == (a-b)*3+1, "compose1 (%d)", a); CALLS (1, "compose1");
	    MC_CHECK (compose1 (bind1st (ptr_fun (f2), b), ptr_fun (f1)) (a) == b*31+(a*3+1)*7+5, "compose1 of a binder"); CALLS (2, "compose1");
	    MC_CHECK (compose2 (ptr_fun (f2), bind2nd (plus<int>(), b), bind1st (multiplies<int>(), c)) (a) == (a+b)*31+(c*a)*7+5, "compose2 (%d, %d, %d)", a, b, c); CALLS (1, "compose2");
	    MC_CHECK (compose2 (minus<int>(), ptr_fun (f1), bind2nd (ptr_fun (f2), c)) (a) == a*3+1 - (a*31+c*7+5), "compose2 of pointers"); CALLS (2, "compose2");
	    MC_CHECK (compose1 (compose1 (negate<int>(), bind1st (minus<int>(), b)), bind2nd (plus<int>(), c)) (a) == -(b-(a+c)), "nested compose1");
	    MC_CHECK (bind1st (ptr_fun (f2), c) (bind2nd (minus<int>(), b) (a)) == c*31+(a-b)*7+5, "nested binders");
	} break;
	case 8: for (int a : AV) for (int b : AV) {	// member functions
	    P p (a, b); const P c (b, a); lastcalls = 0; mc_steps (10);
	    MC_CHECK (mem_fun (&P::get) (&p) == a*2 && mem_fun (&P::cget) (&c) == b*3 && mem_fun (&P::cget) (&p) == a*3, "mem_fun"); CALLS (3, "mem_fun");
	    MC_CHECK (mem_fun_ref (&P::get) (p) == a*2 && mem_fun_ref (&P::cget) (c) == b*3 && mem_fun_ref (&P::cget) (p) == a*3, "mem_fun_ref"); CALLS (3, "mem_fun_ref");
	    mem_fun (&P::inc) (&p); mem_fun_ref (&P::inc) (p); MC_CHECK (p.k == a+2 && p.j == b, "mem_fun changing the object"); CALLS (2, "mem_fun");
	    MC_CHECK (mem_fun (&p, &P::add) (b) == a+2+b && p.k == a+2+b && mem_fun (&c, &P::sub) (a) == b*100-a, "mem_fun of a given object"); CALLS (2, "mem_fun of an object");
	} break;
	case 9: for (int a : AV) for (int b : AV) {	// member variables
	    P p (a, 1), q (b, 2); const P cp (a, 3), cq (b, 4); mc_steps (10);
	    MC_CHECK (mem_var1 (&P::k, bind2nd (minus<int>(), b)) (p) == a-b && mem_var1 (&P::k, ptr_fun (f1)) (p) == a*3+1, "mem_var1"); MC_CHECK (mem_var1 (&P::k, Set9()) (p) == a && p.k == a+9 && p.j == 1, "mem_var1 changing the variable"); p.k = a;
	    MC_CHECK ((const_mem_var1<ustl::pointer_to_unary_function<int,int>,P,int> (&P::k, ptr_fun (f1)) (cp) == a*3+1), "const_mem_var1");
	    MC_CHECK (mem_var2 (&P::k, ptr_fun (f2)) (p, q) == a*31+b*7+5 && mem_var2 (&P::j, minus<int>()) (p, q) == -1, "mem_var2"); MC_CHECK ((const_mem_var2<minus<int>,P,int> (&P::k, minus<int>()) (cp, cq) == a-b), "const_mem_var2");
	    MC_CHECK (mem_var_equal_to (&P::k, b) (cp) == (a == b) && mem_var_less (&P::k, b) (cp) == (a < b) && mem_var_equal_to (&P::j, 3) (cp), "mem_var_equal_to or less with a value"); MC_CHECK (mem_var_equal_to (&P::k) (cp, cq) == (a == b) && mem_var_less (&P::k) (cp, cq) == (a < b) && mem_var_less (&P::j) (cp, cq), "mem_var_equal_to or less of two");
	} break;
	case 10: for (int a : AV) for (int b : AV) {	// pointers
	    int x = a, y = b; const int* px = &x; const int* py = &y; mc_steps (4);
	    MC_CHECK (dereference (less<int>()) (&x, &y) == (a < b) && dereference (minus<int>()) (&x, &y) == a-b && dereference (negate<int>()) (&x) == -a && dereference (bind2nd (minus<int>(), b)) (&x) == a-b, "dereference");
	    MC_CHECK ((_dereference<const int> (less<const int>(), less<const int>()) (px, py) == (a < b)), "dereference of const pointers");
	} break;
	case 11: {	// adaptors inside algorithms
	    const int n = mc_choose (5); vector<int> v; for (int i = 0; i < n; ++i) v.push_back (AV[mc_choose (4)]); vector<int> o (v.size()); vector<P> pv; for (int i = 0; i < n; ++i) pv.push_back (P (v[i], i)); 
	    transform (v.begin(), v.end(), o.begin(), compose1 (ptr_fun (f1), bind2nd (minus<int>(), 2))); for (int i = 0; i < n; ++i) MC_CHECK (o[i] == (v[i]-2)*3+1, "transform with compose1");
	    int e = 0; while (e < n && v[e] >= 0) ++e; MC_CHECK (find_if (v.begin(), v.end(), bind2nd (less<int>(), 0)) == v.begin()+e, "find_if with bind2nd"); MC_CHECK (find_if (pv.begin(), pv.end(), mem_var_less (&P::k, 0)) == pv.begin()+e, "find_if with mem_var_less");
	    sort (pv.begin(), pv.end(), mem_var_less (&P::k)); for (int i = 1; i < n; ++i) MC_CHECK (pv[i-1].k <= pv[i].k, "sort with mem_var_less");
	    vector<const int*> ptrs; for (int i = 0; i < n; ++i) ptrs.push_back (&v[i]); sort (ptrs.begin(), ptrs.end(), _dereference<const int> (greater<const int>(), greater<const int>())); for (int i = 1; i < n; ++i) MC_CHECK (*ptrs[i-1] >= *ptrs[i], "sort with dereference");
	    for_each (pv.begin(), pv.end(), mem_fun_ref (&P::inc)); int s = 0, t = 0; for (int i = 0; i < n; ++i) { s += pv[i].k; t += v[i]; } MC_CHECK (s == t+n, "for_each with mem_fun_ref"); mc_steps (6);
	} break;
    }
}
//}}}
//{{{ stream iterators
template <typename T> static void streamits (int depth)
{
    const int n = 1 + mc_choose (MC_TIER (4, 6)); T v[8]; for (int i = 0; i < n; ++i) v[i] = T(i*37+3);
    memblock mb (n*sizeof(T)); { ostream os (mb); ostream_iterator<T> o (os); for (int i = 0; i < n; ++i) { if (i&1) *o++ = v[i]; else { *o = v[i]; ++o; } } MC_CHECK (os.pos() == mb.size() && !memcmp (mb.data(), v, mb.size()), "ostream_iterator writes something else"); }
    istream is (mb); is.exceptions (ios_base::goodbit); istream_iterator<T> i (is), end; int p = 0;
    for (int d = 0; ; ++d) {
	MC_CHECK ((i == end) == (p == n) && (i != end) == (p < n), "istream_iterator is %sat the end at %d of %d", i == end ? "" : "not ", p, n); if (p == n) return; 
	MC_CHECK (*i == v[p], "istream_iterator at %d of %d reads another value", p, n); MC_CHECK (size_t(is.pos()) == (p+1)*sizeof(T), "stream at %zu", size_t(is.pos())); mc_state (mc_hash (n, &p, sizeof(p)) + sizeof(T)); if (d == depth) return; mc_step();
	int k;
	switch (mc_choose (6)) {
	    case 0: mc_note ("++"); ++i; ++p; break;
	    case 1: { mc_note ("i++"); auto r = i++; MC_CHECK (*r == v[p], "i++ returns another value"); ++p; break; }
	    case 2: if (!p) return; mc_note ("--"); --i; --p; break;
	    case 3: { if (!p) return; mc_note ("i--"); auto r = i--; MC_CHECK (*r == v[p], "i-- returns another value"); --p; break; }
	    case 4: k = mc_choose (n-p+1); mc_note ("+= %d", k); i += k; p += k; break;
	    case 5: k = mc_choose (p+1); mc_note ("-= %d", k); i -= k; p -= k; break;
	}
    }
}
MC_SCENARIO (stream_iterators, 3) { const int d = MC_TIER (5, 6); switch (shard) { case 0: streamits<uint8_t> (d); break; case 1: streamits<uint32_t> (d); break; case 2: streamits<double> (d); break; } }
//}}}
