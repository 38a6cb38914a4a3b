// C28: comparisons of all types that have them, over all pairs of small values built in different ways.
#include "u.h"
// A value is a sequence of ranks; tables map ranks to elements in increasing order.
enum { ML = 5 };
struct Val { int n, m[ML]; };
static int cmp (const Val& a, const Val& b) { for (int i = 0; i < a.n && i < b.n; ++i) if (a.m[i] != b.m[i]) return a.m[i] < b.m[i] ? -1 : 1; return a.n < b.n ? -1 : a.n > b.n; }
static const char* show (const Val& v) { static char b[4][40]; static int k; char* o = b[k++&3]; char* p = o; *p++ = '{'; for (int i = 0; i < v.n; ++i) p += sprintf (p, "%d ", v.m[i]); strcpy (p, "}"); return o; }
static Val vals[4000]; static int nvals;
static void values (int minlen, int maxlen, int letters) { nvals = 0; for (int n = minlen; n <= maxlen; ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= letters; for (int k = 0; k < tot; ++k) { Val v; memset (&v, 0, sizeof(v)); v.n = n; for (int i = 0, q = k; i < n; ++i, q /= letters) v.m[i] = q % letters; if (nvals >= 4000) mc_fail ("harness error: too many values"); vals[nvals++] = v; } } }
template <class T> static void eqs (const char* name, const T& x, const T& y, int c, int i, int j, int a, int b)
{
    mc_at ("%s: %s made in way %d with %s made in way %d", name, show (vals[i]), a, show (vals[j]), b);
    MC_CHECK ((x == y) == (c == 0), "%s: == of %s and %s (made in ways %d and %d) is %d", name, show (vals[i]), show (vals[j]), a, b, x == y);
    MC_CHECK ((x != y) == (c != 0), "%s: != of %s and %s (made in ways %d and %d) is %d", name, show (vals[i]), show (vals[j]), a, b, x != y);
    mc_eval(); mc_step();
}
template <class T> static void lts (const char* name, const T& x, const T& y, int c, int i, int j, int a, int b)
{
    MC_CHECK ((x < y) == (c < 0), "%s: < of %s and %s (made in ways %d and %d) is %d", name, show (vals[i]), show (vals[j]), a, b, x < y);
    MC_CHECK ((x > y) == (c > 0), "%s: > of %s and %s (made in ways %d and %d) is %d", name, show (vals[i]), show (vals[j]), a, b, x > y);
    MC_CHECK ((x <= y) == (c <= 0), "%s: <= of %s and %s (made in ways %d and %d) is %d", name, show (vals[i]), show (vals[j]), a, b, x <= y);
    MC_CHECK ((x >= y) == (c >= 0), "%s: >= of %s and %s (made in ways %d and %d) is %d", name, show (vals[i]), show (vals[j]), a, b, x >= y);
}
// M::make (T&, Val, way), M::WAYS, M::LESS
template <bool L> struct Order { template <class T> static void go (const char*, const T&, const T&, int, int, int, int, int) {} };
template <> struct Order<true> { template <class T> static void go (const char* n, const T& x, const T& y, int c, int i, int j, int a, int b) { lts (n, x, y, c, i, j, a, b); } };
template <class M> static void pairs (const char* name)
{
    for (int i = 0; i < nvals; ++i) for (int a = 0; a < M::WAYS; ++a) {
	typename M::T x; M::make (x, vals[i], a);
	for (int j = 0; j < nvals; ++j) for (int b = 0; b < M::WAYS; ++b) {
	    typename M::T y; M::make (y, vals[j], b); const int c = cmp (vals[i], vals[j]);
	    eqs (name, x, y, c, i, j, a, b); Order<M::LESS>::go (name, x, y, c, i, j, a, b);
	}
	mc_state (mc_mix (mc_hash (i, name, strlen (name)), a));
    }
    mc_outcome (mc_hash (nvals, name, strlen (name)));
    if (mc_want_sample()) mc_sample ("%s: all pairs of %d values", name, nvals);
}
// ---- elements ------------------------------------------------------------
template <class T> struct El { static T at (int r, int way); };
#define ELI(T,...) template <> struct El<T> { static T at (int r, int) { static const T t[] = { __VA_ARGS__ }; return t[r]; } }
ELI (int, -1, 0, 0x10000, 0x7fffffff); ELI (signed char, -128, -1, 0, 127); ELI (uint8_t, 0, 1, 128, 255); ELI (short, -256, -1, 1, 256); ELI (uint16_t, 1, 255, 256, 0x8000); ELI (unsigned, 0, 1, 0x80000000u, 0xffffffffu); ELI (int64_t, -0x100000000ll, -1, 0, 0x100000000ll); ELI (uint64_t, 0, 0xffffffffu, 0x100000000ull, 0x8000000000000000ull); ELI (bool, false, true);
template <> struct El<float> { static float at (int r, int way) { static const float t[] = { -2.5f, 0, 1e-30f, 1e30f }; return r == 1 && way ? -0.0f : t[r]; } };
template <> struct El<double> { static double at (int r, int way) { static const double t[] = { -2.5, 0, 1e-300, 1e300 }; return r == 1 && way ? -0.0 : t[r]; } };
template <> struct El<string> { static string at (int r, int way) { static const char t[] = "a\0" "b\0" "\xe9"; string s; if (r && way == 1) s.link (t+2*(r-1), 1); else if (r) s.assign (t+2*(r-1), 1); if (way == 2) { s.append ("trailing", 8); s.resize (!!r); } return s; } };
template <> struct El<vector<int> > { static vector<int> at (int r, int way) { vector<int> v; if (way) v.resize (9), v.clear(); for (int i = 0; i < r; ++i) v.push_back (i); return v; } };
template <class A, class B> struct El<pair<A,B> > { static pair<A,B> at (int r, int way) { return pair<A,B> (El<A>::at (r/2, way), El<B>::at (r%2+1, way)); } };	// ranks 0..3
template <class A> struct El<tuple<2,A> > { static tuple<2,A> at (int r, int way) { tuple<2,A> t; t[0] = El<A>::at (r/2, way); t[1] = El<A>::at (r%2+1, way); return t; } };
// ---- makers ---------------------------------------------------------------
template <class C> struct SeqM { typedef C T; enum { WAYS = 4, LESS = 0 }; typedef typename C::value_type E_;
    static void plain (C& c, const Val& v, int way) { for (int i = 0; i < v.n; ++i) c.push_back (El<E_>::at (v.m[i], way)); }
    static void make (C& c, const Val& v, int way) {
	switch (way) {
	    case 0: plain (c, v, 0); break;
	    case 1: for (int i = 0; i < 7; ++i) c.push_back (El<E_>::at (1, 1)); c.erase (c.begin(), c.end()); plain (c, v, 1); break;	// capacity and stale elements
	    case 2: { C t; plain (t, v, 2); t.push_back (El<E_>::at (0, 0)); t.pop_back(); c = t; break; }
	    case 3: { C t; plain (t, v, 0); c.swap (t); c.shrink_to_fit(); break; }
	} } };
template <class C> struct LinkM { typedef C T; enum { WAYS = 2, LESS = 0 }; typedef typename C::value_type E_;
    static void make (C& c, const Val& v, int way) { static E_ pool[8192][ML]; static int k; E_* p = pool[k++&8191]; for (int i = 0; i < v.n; ++i) p[i] = El<E_>::at (v.m[i], 0); if (way) c.link (p, v.n); else { c.link (p, v.n); c.copy_link(); } } };
template <class S, bool L> struct TextM { typedef S T; enum { WAYS = 4, LESS = L };
    static void text (char* p, const Val& v) { static const char t[] = { '\0', 'a', '\x7f', '\xe9' }; for (int i = 0; i < v.n; ++i) p[i] = t[v.m[i]]; p[v.n] = 0; }
    static void make (S& s, const Val& v, int way) {
	static char pool[8192][ML+2]; static int k; char* p = pool[k++&8191]; text (p, v);
	switch (way) { case 0: s.assign (p, v.n); break; case 1: s.link (p, v.n); break; case 2: s.assign ("longer text before", 18); s.assign (p, v.n); break; case 3: s.reserve (60); s.assign (p, v.n); s.shrink_to_fit(); break; }
    } };
template <class P_> struct PairM { typedef P_ T; enum { WAYS = 2, LESS = 1 }; static void make (T& p, const Val& v, int way) { p.first = El<typename T::first_type>::at (v.m[0], way); p.second = El<typename T::second_type>::at (v.m[1], way); } };
template <class P_> struct PairE : PairM<P_> { enum { LESS = 0 }; };
template <class A, int N, int L = 1> struct ArrM { typedef A T; enum { WAYS = 2, LESS = L }; static void make (T& a, const Val& v, int way) { for (int i = 0; i < N; ++i) a[i] = El<typename A::value_type>::at (v.m[i], way); } };
template <class C> struct SetM { typedef C T; enum { WAYS = 4, LESS = 0 }; typedef typename C::value_type E_;
    static void make (C& c, const Val& v, int way) { if (way == 3) { for (int i = 0; i < 4; ++i) c.insert (El<E_>::at (i, 0)); for (int i = 0; i < 4; ++i) c.erase (El<E_>::at (i, 0)); } for (int i = 0; i < v.n; ++i) c.insert (El<E_>::at (v.m[way == 1 ? v.n-1-i : i], way)); if (way == 2) { C t (c); c.clear(); c = t; } } };
template <class C> struct MapM { typedef C T; enum { WAYS = 3, LESS = 0 }; typedef typename C::key_type K; typedef typename C::data_type D;
    static void make (C& c, const Val& v, int way) { for (int i = 0; i < v.n; ++i) { int k = v.m[way == 1 ? v.n-1-i : i]; c.insert (make_pair (El<K>::at (k/2, way), El<D>::at (k%2+1, way))); } if (way == 2) { C t (c); c.clear(); c = t; } } };
template <class C> struct AdaptM { typedef C T; enum { WAYS = 3, LESS = 1 };	typedef typename C::value_type E_;
    static void make (C& c, const Val& v, int way) { int extra = 0; if (way == 1) { for (int i = 0; i < 3; ++i) c.push (El<E_>::at (2, 0)); for (int i = 0; i < 3; ++i) c.pop(); } if (way == 2) { c.push (El<E_>::at (0, 0)); extra = 1; } if (extra) c.pop(); for (int i = 0; i < v.n; ++i) c.push (El<E_>::at (v.m[i], way)); } };
// queues whose front has been popped while they hold elements
template <class C> struct QueueM { typedef C T; enum { WAYS = 4, LESS = 1 };	typedef typename C::value_type E_;
    static void make (C& c, const Val& v, int way) { for (int i = 0; i < way; ++i) c.push (El<E_>::at (3-i, 0)); for (int i = 0; i < v.n; ++i) c.push (El<E_>::at (v.m[i], way)); for (int i = 0; i < way; ++i) c.pop(); } };
template <class P_> struct PtrM { struct T { P_ p; T (void) : p (nullptr) {} ~T (void) { p.release(); } bool operator== (const T& b) const { return p == b.p; } bool operator< (const T& b) const { return p < b.p; } }; enum { WAYS = 1, LESS = 1 }; static void make (T& t, const Val& v, int) { static int pool[4]; t.p = P_ (v.n ? pool + v.m[0] : nullptr); } };
// ---- scenarios --------------------------------------------------------------
#define SEQ(C) pairs<SeqM<C > > (#C)
MC_SCENARIO (sequences, 20)
{
    values (0, MC_TIER (4, 5), 3);
    switch (shard) {
	case 0: SEQ (vector<int>); break; case 1: SEQ (vector<signed char>); break; case 2: SEQ (vector<uint8_t>); break; case 3: SEQ (vector<short>); break; case 4: SEQ (vector<int64_t>); break;
	case 5: SEQ (vector<float>); break; case 6: SEQ (vector<double>); break; case 7: SEQ (vector<string>); break; case 8: SEQ (vector<vector<int> >); break; case 9: { typedef vector<pair<int,string> > V; SEQ (V); } break;
	case 10: SEQ (list<int>); break; case 11: SEQ (list<string>); break; case 12: SEQ (deque<uint16_t>); break; case 13: { typedef vector<tuple<2,int> > V; SEQ (V); } break; case 14: { typedef vector<tuple<2,float> > V; SEQ (V); } break;
	case 15: pairs<LinkM<vector<int> > > ("linked vector<int>"); pairs<LinkM<vector<uint8_t> > > ("linked vector<uint8_t>"); break;
	case 16: pairs<AdaptM<stack<int> > > ("stack<int>"); break; case 17: pairs<AdaptM<stack<string> > > ("stack<string>"); break;
	case 18: pairs<QueueM<queue<int> > > ("queue<int>"); break; case 19: pairs<QueueM<queue<string> > > ("queue<string>"); break;
    }
}
MC_SCENARIO (fixed, 18)
{
    values (2, 2, 4);
    switch (shard) {
	case 0: pairs<PairM<pair<int,int> > > ("pair<int,int>"); break; case 1: { typedef pair<string,int64_t> P_; pairs<PairM<P_> > ("pair<string,int64_t>"); } break; case 2: { typedef pair<pair<int,uint8_t>,string> P_; pairs<PairM<P_> > ("pair<pair<int,uint8_t>,string>"); } break;
	case 3: { typedef pair<float,double> P_; pairs<PairM<P_> > ("pair<float,double>"); } break; case 4: { typedef pair<vector<int>,string> P_; pairs<PairE<P_> > ("pair<vector<int>,string>"); } break;
	case 5: values (1, 1, 4); pairs<ArrM<array<int,1>,1> > ("array<int,1>"); pairs<ArrM<tuple<1,int>,1> > ("tuple<1,int>"); break;
	case 6: pairs<ArrM<array<string,2>,2> > ("array<string,2>"); pairs<ArrM<tuple<2,string>,2> > ("tuple<2,string>"); break;
	case 7: values (3, 3, 4); pairs<ArrM<tuple<3,float>,3> > ("tuple<3,float>"); pairs<ArrM<array<float,3>,3> > ("array<float,3>"); break;
	case 8: values (4, 4, 4); pairs<ArrM<tuple<4,float>,4> > ("tuple<4,float>"); break; case 9: values (4, 4, 4); pairs<ArrM<tuple<4,uint16_t>,4> > ("tuple<4,uint16_t>"); break; case 10: values (4, 4, 4); pairs<ArrM<tuple<4,int>,4> > ("tuple<4,int>"); break;
	case 11: pairs<ArrM<tuple<2,double>,2> > ("tuple<2,double>"); pairs<ArrM<tuple<2,int64_t>,2> > ("tuple<2,int64_t>"); pairs<ArrM<tuple<2,unsigned>,2> > ("tuple<2,unsigned>"); break; case 12: values (4, 4, 4); pairs<ArrM<array<signed char,4>,4> > ("array<signed char,4>"); break;
	case 13: { values (2, 2, 4); typedef array<pair<int,uint8_t>,2> A; pairs<ArrM<A,2> > ("array<pair<int,uint8_t>,2>"); } break; case 14: { typedef array<vector<int>,2> A; pairs<ArrM<A,2,0> > ("array<vector<int>,2>"); } break;
	case 15: values (0, 1, 4); pairs<PtrM<unique_ptr<int> > > ("unique_ptr"); pairs<PtrM<unique_ptr<int[]> > > ("unique_ptr[]"); break;
	case 16: { values (0, 1, 4); int* p = new int[3]; shared_ptr<char> s[4]; (void) p; delete [] p; for (int i = 1; i < 4; ++i) s[i] = shared_ptr<char> (new char);
	    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { const shared_ptr<char> a (s[i]), b (s[j]); const int c = a.get() < b.get() ? -1 : a.get() > b.get(); eqs ("shared_ptr", a, b, c, i, j, 0, 0); lts ("shared_ptr", a, b, c, i, j, 0, 0); mc_state (i*4+j); } } break;
	case 17: { values (0, 2, 4); static const size_t SZ[] = { 1, 7, 31, 32, 33, 64, 70 }; (void) SZ;
	    #define BS(N) for (int i = 0; i < nvals; ++i) for (int j = 0; j < nvals; ++j) { bitset<N> a, b; for (int k = 0; k < vals[i].n; ++k) a.set (vals[i].m[k]*(N-1)/3); for (int k = 0; k < vals[j].n; ++k) b.set (vals[j].m[k]*(N-1)/3); bool same = true; for (int k = 0; k < N; ++k) same = same && a.test (k) == b.test (k); eqs ("bitset<" #N ">", a, b, !same, i, j, 0, 0); mc_state (N*10000+i*nvals+j); }
	    BS(1) BS(7) BS(31) BS(32) BS(33) BS(64) BS(70) } break;
    }
}
// sets and maps: values that are canonical, so that equal contents have equal models
static void ascending (bool strict, int letters) { values (0, 4, letters); int k = 0; for (int i = 0; i < nvals; ++i) { bool ok = true; for (int j = 1; j < vals[i].n; ++j) if (strict ? vals[i].m[j] <= vals[i].m[j-1] : vals[i].m[j] < vals[i].m[j-1]) ok = false; if (ok) vals[k++] = vals[i]; } nvals = k; }
static void distinctkeys (void) { int k = 0; for (int i = 0; i < nvals; ++i) { bool ok = true; for (int j = 1; j < vals[i].n; ++j) if (vals[i].m[j]/2 == vals[i].m[j-1]/2) ok = false; if (ok) vals[k++] = vals[i]; } nvals = k; }
// in a multimap, values of one key keep the order of insertion: insertion in another order makes another value
template <class C> struct MultimapM : MapM<C> { enum { WAYS = 2 }; static void make (C& c, const Val& v, int way) { MapM<C>::make (c, v, way*2); } };
MC_SCENARIO (associative, 10)
{
    switch (shard) {
	case 0: ascending (true, 4); pairs<SetM<set<int> > > ("set<int>"); break; case 1: ascending (true, 4); pairs<SetM<set<string> > > ("set<string>"); break;
	case 2: ascending (false, 4); pairs<SetM<multiset<int> > > ("multiset<int>"); break; case 3: ascending (false, 4); pairs<SetM<multiset<string> > > ("multiset<string>"); break;
	case 4: { ascending (true, 6); distinctkeys(); typedef map<int,int> M; pairs<MapM<M> > ("map<int,int>"); } break; case 5: { ascending (true, 6); distinctkeys(); typedef map<string,float> M; pairs<MapM<M> > ("map<string,float>"); } break;
	case 6: { ascending (false, 6); typedef multimap<int,int> M; pairs<MultimapM<M> > ("multimap<int,int>"); } break; case 7: { ascending (false, 6); typedef multimap<string,string> M; pairs<MultimapM<M> > ("multimap<string,string>"); } break;
	case 8: { ascending (true, 4); typedef set<pair<int,uint8_t> > S; pairs<SetM<S> > ("set<pair<int,uint8_t>>"); } break; case 9: { ascending (true, 6); distinctkeys(); typedef map<int,vector<int> > M; pairs<MapM<M> > ("map<int,vector<int>>"); } break;
    }
}
// ---- text: strings against strings, C text and characters; hashes ------------------
MC_SCENARIO (texts, 8)
{
    values (0, MC_TIER (3, 5), 4);
    switch (shard) {
	case 0: pairs<TextM<string,true> > ("string"); break;
	case 1: pairs<TextM<memblock,false> > ("memblock"); break;
	case 2: for (int i = 0; i < nvals; ++i) for (int j = 0; j < nvals; ++j) {	// blocks, links and strings with each other
	    char p[ML+2], q[ML+2]; typedef TextM<string,true> TM; TM::text (p, vals[i]); TM::text (q, vals[j]); const int c = cmp (vals[i], vals[j]);
	    memblock b (cmemlink (p, vals[i].n)); memlink l (q, vals[j].n); cmemlink k (q, vals[j].n); string s; s.assign (q, vals[j].n); mc_at ("%s with %s", show (vals[i]), show (vals[j]));
	    MC_CHECK ((b == k) == !c && (b == l) == !c && (b == s) == !c && (static_cast<const cmemlink&>(l) == b) == !c && (k == b) == !c && (k == l) == (true) && (k == s), "blocks, links and strings of %s and %s compare different", show (vals[i]), show (vals[j])); mc_eval(); mc_state (mc_mix (i, j)); } break;
	case 3: for (int i = 0; i < nvals; ++i) for (int w = 0; w < 4; ++w) for (int j = 0; j < nvals; ++j) {	// C text ends at the first nul
	    typedef TextM<string,true> TM; char q[ML+2]; TM::text (q, vals[j]); Val e = vals[j]; for (int k = e.n-1; k >= 0; --k) if (!e.m[k]) e.n = k;
	    string s; TM::make (s, vals[i], w); const int c = cmp (vals[i], e); mc_at ("%s with text %s", show (vals[i]), show (vals[j]));
	    MC_CHECK ((s == q) == !c && (s != q) == !!c && (s < q) == (c < 0), "string %s (made in way %d) and C text %s: == %d, != %d, < %d", show (vals[i]), w, show (e), s == q, s != q, s < q);
	    const int k = s.compare (q); MC_CHECK ((k < 0) == (c < 0) && (k > 0) == (c > 0), "compare of string %s and C text %s is %d", show (vals[i]), show (e), k); mc_eval(); mc_state (mc_mix (i*4+w, j)); } break;
	case 4: for (int i = 0; i < nvals; ++i) for (int w = 0; w < 4; ++w) for (int ch = 0; ch < 256; ++ch) {
	    typedef TextM<string,true> TM; string s; TM::make (s, vals[i], w); static const int t[] = { 0, 'a', 0x7f, 0xe9 }; int c = vals[i].n ? t[vals[i].m[0]] - ch : -1; if (!c && vals[i].n > 1) c = 1; mc_at ("%s with character %d", show (vals[i]), ch);
	    const char v = ch; const unsigned char u = ch; MC_CHECK ((s == v) == !c && (s != v) == !!c && (s < v) == (c < 0), "string %s and character %d: == %d, != %d, < %d", show (vals[i]), ch, s == v, s != v, s < v);
	    MC_CHECK ((s == u) == !c && (s != u) == !!c && (s < u) == (c < 0), "string %s and unsigned character %d: == %d, != %d, < %d", show (vals[i]), ch, s == u, s != u, s < u); mc_eval(); mc_state (mc_mix (i*4+w, ch)); } break;
	case 5: {	// hashes depend on the characters, on all of them, and on nothing else
	    typedef TextM<string,true> TM;
	    for (int i = 0; i < nvals; ++i) { char p[ML+2]; TM::text (p, vals[i]); const hashvalue_t h = string::hash (p, p+vals[i].n);
		for (int w = 0; w < 4; ++w) { string s; TM::make (s, vals[i], w); MC_CHECK (string::hash (s.begin(), s.end()) == h && hash_value (s.begin(), s.end()) == h, "the hash of %s depends on how the string was made", show (vals[i])); }
		if (!memchr (p, 0, vals[i].n)) MC_CHECK (hash_value (p) == h, "the hash of the C text %s differs from that of the string", show (vals[i]));
		mc_state (h); mc_eval();
		for (int j = 0; j < nvals; ++j) if (vals[j].n == vals[i].n) { int d = 0; for (int k = 0; k < vals[i].n; ++k) d += vals[i].m[k] != vals[j].m[k]; if (d != 1) continue; char q[ML+2]; TM::text (q, vals[j]); MC_CHECK (string::hash (q, q+vals[j].n) != h, "%s and %s, which differ in one character, have one hash", show (vals[i]), show (vals[j])); } }
	    for (int n = 1; n <= 40; ++n) for (int k = 0; k < n; ++k) { char p[41], q[41]; for (int i = 0; i < n; ++i) p[i] = q[i] = 'A'+i*7%60; for (int ch = 0; ch < 256; ++ch) { q[k] = ch; MC_CHECK ((string::hash (p, p+n) == string::hash (q, q+n)) == (p[k] == q[k]), "the hash of %d characters: the one at %d changed to %d", n, k, ch); mc_eval(); } } } break;
	case 6: for (int i = 0; i < nvals; ++i) for (int w = 0; w < 4; ++w) for (int j = 0; j < nvals; ++j) {	// usable as keys in any form
	    typedef TextM<string,true> TM; set<string> st; string a, b; TM::make (a, vals[i], w); TM::make (b, vals[j], (w+1)&3); st.insert (a); st.insert (b); MC_CHECK (int(st.size()) == 1 + !!cmp (vals[i], vals[j]), "a set of %s and %s has %u elements", show (vals[i]), show (vals[j]), unsigned(st.size()));
	    MC_CHECK (st.find (a) != st.end() && *st.find (a) == a && st.count (b) == 1, "a set does not find %s among %s", show (vals[i]), show (vals[j])); mc_eval(); mc_state (mc_mix (i*4+w, j)); } break;
	case 7: for (int n = 0; n <= 70; ++n) for (int k = 0; k < n; ++k) for (int d = 0; d < 4; ++d) {	// long texts that differ in one character
	    static const int D[] = { -1, 1, 0x80, 0 }; char p[72], q[72]; for (int i = 0; i < n; ++i) p[i] = q[i] = 0x60+i%30; q[k] += D[d]; string a, b; a.assign (p, n); b.assign (q, n); int c = D[d] == 0 ? 0 : (unsigned char) p[k] < (unsigned char) q[k] ? -1 : 1;
	    MC_CHECK ((a == b) == !c && (a < b) == (c < 0) && (b < a) == (c > 0) && (a.compare (b) < 0) == (c < 0) && (a.compare (b) > 0) == (c > 0), "texts of %d characters that differ by %d at %d", n, D[d], k); memblock x (a), y (b); MC_CHECK ((x == y) == !c, "blocks of %d bytes that differ by %d at %d", n, D[d], k); mc_eval(); mc_state (n*1000+k*10+d); } break;
    }
}
// ---- values longer than 8 and 16 bits count: where they differ, or where one ends ------------------
template <typename C> static void far (const char* nm, size_t n, bool less)
{
    typedef typename C::value_type T; const size_t AT[] = { 0, 1, 254, 255, 256, 257, 65534, 65535, 65536, 65537, n-2, n-1 };
    C a; a.resize (n); for (size_t i = 0; i < n; ++i) a[i] = T(i*7%101+1); C b (a); b.reserve (n+10);
    mc_at ("%s of %zu", nm, n); MC_CHECK (a == b && b == a && !(a != b) && !(b != a), "equal %s of %zu differ", nm, n);
    for (size_t at : AT) { if (at >= n) continue; b[at] = T(b[at]+1); MC_CHECK (!(a == b) && !(b == a) && a != b && b != a, "%s of %zu that differ at %zu compare equal", nm, n, at); b[at] = a[at]; mc_step(); }
    for (size_t k : { size_t(1), size_t(2), size_t(255), size_t(256), size_t(257), size_t(65535), size_t(65536), size_t(65537), n }) { if (k > n) continue; C c (a); c.resize (n-k); MC_CHECK (!(a == c) && !(c == a) && a != c && c != a, "%s of %zu equals its first %zu", nm, n, n-k); mc_step(); }
    MC_CHECK (a == b, "equal again"); mc_state (mc_mix (n, mc_hash (0, nm, strlen (nm)))); (void) less;
}
static void fartext (size_t n)
{
    const size_t AT[] = { 0, 1, 254, 255, 256, 257, 65534, 65535, 65536, 65537, n-2, n-1 };
    string a (n, 'm'); for (size_t i = 0; i < n; ++i) a[i] = char('b'+i*7%20); string b (a.begin(), a.end()); memblock k (a.data(), n); mc_at ("string of %zu", n);
    MC_CHECK (a == b && !(a < b) && !(b < a) && !a.compare (b) && a.hash (a.begin(), a.end()) == b.hash (b.begin(), b.end()) && hash_value (a) == hash_value (b) && hash_value (a.c_str()) == hash_value (b.c_str()) && a == b.c_str() && !(a != b.c_str()), "equal strings of %zu differ", n);
    for (size_t at : AT) { if (at >= n) continue;
	for (int d = -1; d < 2; d += 2) { b[at] = a[at]+d; const int c = -d;
	    MC_CHECK (a != b && a.compare (b) == c && b.compare (a) == -c && (a < b) == (c < 0) && (b < a) == (c > 0) && (a > b) == (c > 0) && (a <= b) == (c < 0) && a.compare (b.c_str()) == c && a != b.c_str() && !(a == b.c_str()), "strings of %zu that differ at %zu by %d", n, at, d);
	    MC_CHECK (!(k == cmemlink (b)) && k == cmemlink (a), "blocks of %zu that differ at %zu", n, at); mc_step(); }
	b[at] = a[at]; }
    for (size_t j : { size_t(1), size_t(2), size_t(255), size_t(256), size_t(257), size_t(65535), size_t(65536), size_t(65537), n }) { if (j > n) continue; string c (a); c.resize (n-j);
	MC_CHECK (a != c && a.compare (c) == 1 && c.compare (a) == -1 && c < a && !(a < c) && c != a.c_str() && a.compare (c.c_str()) == 1 && c.compare (a.c_str()) == -1, "string of %zu and its first %zu", n, n-j); mc_step(); }
    // parts of one with parts of another that begin anywhere
    const string t (string ("##") + a); const char* ts = t.c_str();
    for (size_t f : AT) { if (f >= n) continue; for (size_t l : { size_t(0), size_t(1), size_t(255), size_t(256), size_t(257), size_t(65535), size_t(65536), size_t(65537), n }) { if (f+l > n) continue; mc_at ("%zu at %zu of %zu", l, f, n);
	MC_CHECK (!a.compare (f, l, t, f+2, l) && !a.compare (f, l, ts+f+2, l) && !a.compare (f, l, string (ts+f+2, l)) && !a.compare (f, l, string (ts+f+2, l).c_str()), "equal parts of strings of %zu: %zu at %zu", n, l, f);
	if (l) { MC_CHECK (a.compare (f, l, t, f+2, l-1) == 1 && a.compare (f, l-1, t, f+2, l) == -1 && a.compare (f, l, ts+f+2, l-1) == 1 && a.compare (f, l-1, ts+f+2, l) == -1 && a.compare (f, l-1, string (ts+f+2, l)) == -1 && a.compare (f, l-1, string (ts+f+2, l).c_str()) == -1, "a part and one less: %zu at %zu of %zu", l, f, n);
	    b[f+l-1] = a[f+l-1]+1; MC_CHECK (a.compare (f, l, b, f, l) == -1 && b.compare (f, l, a, f, l) == 1 && a.compare (f, l, b.c_str()+f, l) == -1, "parts that differ in the last: %zu at %zu of %zu", l, f, n); b[f+l-1] = a[f+l-1]; }
	mc_step(); } }
    mc_state (mc_mix (n, 77));
}
MC_SCENARIO (far_differences, 10)
{
    static const size_t N[] = { 2, 255, 256, 257, 513, 65535, 65536, 65537, 70001, 131073 }; const size_t n = N[shard];
    far<vector<int> > ("vector<int>", n, false); far<vector<uint8_t> > ("vector<uint8_t>", n, false); far<vector<double> > ("vector<double>", n, false); fartext (n);
    { list<int> a, b; for (size_t i = 0; i < n; ++i) { a.push_back (i%100); b.push_back (i%100); } MC_CHECK (a == b, "equal lists of %zu", n); b.back() += 1; MC_CHECK (!(a == b), "lists of %zu that differ at the end", n); b.back() -= 1; b.pop_back(); MC_CHECK (!(a == b) && !(b == a), "list and its beginning"); }
    { set<int> a, b; for (size_t i = 0; i < n; ++i) { a.insert (i); b.insert (i); } MC_CHECK (a == b && a.size() == n, "equal sets of %zu", n); b.erase (int(n-1)); MC_CHECK (!(a == b), "set and its beginning"); b.insert (int(n)); MC_CHECK (!(a == b), "sets that differ at the end"); }
}
