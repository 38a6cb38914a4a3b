// C30: copying, moving, swapping and exchanging values of any library type.
#include "u.h"
// ---- how to make and read a value of each type; values 0..2, of growing size --------
typedef uint64_t H;
static const int NV[3] = { 0, 2, 5 };
static void mk (int& o, int v) { o = v*7+1; }
static H sh (int o) { return o+100; }
static void mk (float& o, int v) { o = v*0.5f; }
static H sh (float o) { return uint64_t(o*16); }
static void mk (E& o, int v) { o.chk ("making"); o.v = v*3+1; }
static H sh (const E& o) { o.chk ("reading"); return o.v+1000; }
static void mk (string& o, int v) { static const char* const T[3] = { "", "ab", "a longer text than the others" }; o = T[v]; }
static H sh (const string& o) { MC_CHECK (!o.c_str() || !o.c_str()[o.size()], "not terminated"); return mc_hash (3, o.data(), o.size()); }
static void mk (memblock& o, int v) { o.clear(); if (v) { o.resize (v*9); for (int i = 0; i < v*9; ++i) o.data()[i] = char(v*16+i); } }
static H sh (const memblock& o) { return mc_hash (4, o.cdata(), o.size()); }
static char g_bytes[3][8] = { "zero", "one", "two2" };
// the first two have the same start, the last two the same size
static void mk (cmemlink& o, int v) { o.link (g_bytes[v == 2], v ? 4 : 2); }
static H sh (const cmemlink& o) { return mc_mix (mc_hash (5, o.cdata(), o.size()), o.size() ? uintptr_t(o.cdata()) : 0); }
static void mk (memlink& o, int v) { o.link (g_bytes[v == 2], v ? 4 : 2); }
static H sh (const memlink& o) { return sh (static_cast<const cmemlink&>(o)); }
template <class A, class B> static void mk (pair<A,B>& o, int v);
template <class A, class B> static H sh (const pair<A,B>& o);
template <class T> static void mk (vector<T>& o, int v) { o.clear(); for (int i = 0; i < NV[v]; ++i) { T t = T(); mk (t, (v+i)%3); o.push_back (t); } }
template <class T> static H sh (const vector<T>& o) { H h = o.size(); for (auto i = o.begin(); i != o.end(); ++i) h = mc_mix (h, sh (*i)); return h; }
template <class T> static void mk (list<T>& o, int v) { o.clear(); for (int i = 0; i < NV[v]; ++i) { T t = T(); mk (t, (v+i)%3); if (i&1) o.push_front (t); else o.push_back (t); } }
template <class T> static H sh (const list<T>& o) { return sh (static_cast<const vector<T>&>(o)); }
template <class T> static void mk (set<T>& o, int v) { o.clear(); for (int i = 0; i < v; ++i) { T t = T(); mk (t, (v+i)%3); o.insert (t); } }
template <class T> static H sh (const set<T>& o) { H h = o.size(); for (auto i = o.begin(); i != o.end(); ++i) h = mc_mix (h, sh (*i)); return h; }
template <class T> static void mk (multiset<T>& o, int v) { o.clear(); for (int i = 0; i < NV[v]; ++i) { T t = T(); mk (t, (v+i)%3); o.insert (t); } }
template <class T> static H sh (const multiset<T>& o) { H h = o.size(); for (auto i = o.begin(); i != o.end(); ++i) h = mc_mix (h, sh (*i)); return h; }
template <class K, class D> static void mk (map<K,D>& o, int v) { o.clear(); for (int i = 0; i < v; ++i) { K k = K(); mk (k, (v+i)%3); mk (o[k], i); } }
template <class K, class D> static H sh (const map<K,D>& o) { H h = o.size(); for (auto i = o.begin(); i != o.end(); ++i) h = mc_mix (mc_mix (h, sh (i->first)), sh (i->second)); return h; }
template <class K, class D> static void mk (multimap<K,D>& o, int v) { o.clear(); for (int i = 0; i < NV[v]; ++i) { pair<K,D> p; mk (p.first, (v+i)%3); mk (p.second, i%3); o.insert (p); } }
template <class K, class D> static H sh (const multimap<K,D>& o) { H h = o.size(); for (auto i = o.begin(); i != o.end(); ++i) h = mc_mix (mc_mix (h, sh (i->first)), sh (i->second)); return h; }
template <class T, class C> static void mk (stack<T,C>& o, int v) { while (!o.empty()) o.pop(); for (int i = 0; i < NV[v]; ++i) { T t = T(); mk (t, (v+i)%3); o.push (t); } }
template <class T, class C> static H sh (const stack<T,C>& s) { stack<T,C> o (s); H h = o.size(); while (!o.empty()) { h = mc_mix (h, sh (o.top())); o.pop(); } return h; }
template <class T, class C> static void mk (queue<T,C>& o, int v) { while (!o.empty()) o.pop(); for (int i = 0; i < NV[v]+1; ++i) { T t = T(); mk (t, (v+i)%3); o.push (t); } o.pop(); }
template <class T, class C> static H sh (const queue<T,C>& s) { queue<T,C> o (s); H h = o.size(); while (!o.empty()) { h = mc_mix (h, sh (o.front())); o.pop(); } return h; }
template <class T> static void mk (priority_queue<T>& o, int v) { while (!o.empty()) o.pop(); for (int i = 0; i < NV[v]; ++i) { T t = T(); mk (t, (v+i)%3); o.push (t); } }
template <class T> static H sh (const priority_queue<T>& o) { return o.empty() ? 0 : mc_mix (o.size(), sh (o.top())); }
template <class A, class B> static void mk (pair<A,B>& o, int v) { mk (o.first, v); mk (o.second, (v+1)%3); }
template <class A, class B> static H sh (const pair<A,B>& o) { return mc_mix (sh (o.first), sh (o.second)); }
template <size_t N, class T> static void mk (tuple<N,T>& o, int v) { for (size_t i = 0; i < N; ++i) mk (o[i], (v+i)%3); }
template <size_t N, class T> static H sh (const tuple<N,T>& o) { H h = N; for (size_t i = 0; i < N; ++i) h = mc_mix (h, sh (o[i])); return h; }
template <class T, size_t N> static void mk (array<T,N>& o, int v) { for (size_t i = 0; i < N; ++i) mk (o[i], (v+i)%3); }
template <class T, size_t N> static H sh (const array<T,N>& o) { H h = N; for (size_t i = 0; i < N; ++i) h = mc_mix (h, sh (o[i])); return h; }
template <size_t X, size_t Y, class T> static void mk (matrix<X,Y,T>& o, int v) { for (size_t i = 0; i < X*Y; ++i) mk (o.begin()[i], (v+i)%3); }
template <size_t X, size_t Y, class T> static H sh (const matrix<X,Y,T>& o) { H h = X; for (size_t i = 0; i < X*Y; ++i) h = mc_mix (h, sh (o.begin()[i])); return h; }
template <size_t N> static void mk (bitset<N>& o, int v) { o.clear(); for (size_t i = v; i < N; i += v+2) o.set (i); }
template <size_t N> static H sh (const bitset<N>& o) { H h = N; for (size_t i = 0; i < N; ++i) h = mc_mix (h, o.test (i)); return h; }
template <class R, class P> static void mk (chrono::duration<R,P>& o, int v) { o = chrono::duration<R,P> (v*1000-7); }
template <class R, class P> static H sh (const chrono::duration<R,P>& o) { return o.count()+10000; }
template <class C, class D> static void mk (chrono::time_point<C,D>& o, int v) { o = chrono::time_point<C,D> (D (v*999+3)); }
template <class C, class D> static H sh (const chrono::time_point<C,D>& o) { return o.time_since_epoch().count()+10000; }
static void mk (chrono::hrtime_t& o, int v) { o = chrono::hrtime_t (v*11, v*999); }
static H sh (const chrono::hrtime_t& o) { return mc_mix (o.tv_sec, o.tv_nsec); }
template <class T> static void mk (shared_ptr<T>& o, int v) { if (v) { o = make_shared<T>(); mk (*o, v); } else o.reset(); }
template <class T> static H sh (const shared_ptr<T>& o) { return o ? sh (*o) : 1; }
template <class T> static void mk (unique_ptr<T>& o, int v) { if (v) { o = make_unique<T>(); mk (*o, v); } else o.reset(); }
template <class T> static H sh (const unique_ptr<T>& o) { return o ? sh (*o) : 1; }
static void mk (istringstream& o, int v) { static const char* const T[3] = { "", "12", "7 8 9" }; o.clear(); o.link (T[v], strlen (T[v])); if (v == 2) o.skip (2); }
static H sh (const istringstream& o) { return mc_mix (mc_hash (o.pos(), o.begin(), o.size()), o.rdstate()); }
static void mk (istream& o, int v) { o.clear(); o.link (g_bytes[v == 2], v ? 4 : 2); if (v) o.skip (v); }
static void mk (ostream& o, int v) { o.clear(); o.link (g_bytes[v == 2], v ? 4 : 2); if (v) o.skip (v); }
static H sh (const ostream& o) { return mc_mix (mc_mix (uintptr_t(o.begin()), o.size()), mc_mix (o.pos(), o.rdstate())); }
static H sh (const istream& o) { return mc_mix (mc_hash (o.pos(), o.begin(), o.size()), o.rdstate()); }
template <class I> static void mk (reverse_iterator<I>& o, int v) { o = reverse_iterator<I> (g_bytes[1]+v); }
template <class I> static H sh (const reverse_iterator<I>& o) { return uintptr_t(o.base()); }
static void mk (error_code& o, int v) { o = error_code (v*5, system_category()); }
static H sh (const error_code& o) { return o.value()+7; }
// ---- what a type supports --------------------------------------------------------------
struct Yes {}; struct No {};
#define OP2(NAME,CALL) template <class T> static bool NAME (T& a, T& b, Yes) { CALL; return true; } template <class T> static bool NAME (T&, T&, No) { return false; }
OP2 (cpa, a = b) OP2 (msw, a.swap (b)) OP2 (gsw, swap (a, b)) OP2 (isw, iter_swap (&a, &b))
template <class T> static bool tmpcopy (T& a, H& h, int v, Yes) { T t (a); h = sh (t); mk (t, v); return true; }
template <class T> static bool tmpcopy (T&, H&, int, No) { return false; }
template <class T> static bool exch (T& a, int v, H& h, Yes) { T t; mk (t, v); T r (exchange (a, move(t))); h = sh (r); return true; }
template <class T> static bool exch (T&, int, H&, No) { return false; }
template <class T, class CC, class CA, class MS, class EX = Yes, class SW = Yes> static void values (int len)
{
    E::reset();
    H hv[3]; for (int v = 0; v < 3; ++v) { T t; mk (t, v); hv[v] = sh (t); }
    MC_CHECK (hv[0] != hv[1] && hv[1] != hv[2] && hv[0] != hv[2], "harness error: values are not distinct");
    {
	struct { T o[2]; } oo = {}; T* const o = oo.o; H m[2] = { sh (o[0]), sh (o[1]) }; MC_CHECK (m[0] == m[1], "two new objects differ");
	for (int k = 0; k < len; ++k) {
	    const int op = mc_choose (9), i = mc_choose (2); int j = i, v = 0; const char* what = "";
	    if (op == 0 || op == 5 || op == 7) v = mc_choose (3);
	    if (op == 1 || op == 3 || op == 4 || op == 6) j = mc_choose (2);
	    if (op == 2) j = !i;
	    mc_note ("operation %d on %d, %d, value %d", op, i, j, v);
	    switch (op) {
		case 0: what = "making"; mk (o[i], v); m[i] = hv[v]; break;
		case 1: what = "copying"; if (cpa (o[i], o[j], CA())) m[i] = m[j]; break;
		case 2: what = "moving"; o[i] = move(o[j]); m[i] = m[j]; m[j] = sh (o[j]); break;
		case 3: what = "member swap"; if (msw (o[i], o[j], MS())) { H t = m[i]; m[i] = m[j]; m[j] = t; } break;
		case 4: { what = "swap"; if (gsw (o[i], o[j], SW())) { H t = m[i]; m[i] = m[j]; m[j] = t; } } break;
		case 5: { what = "copy"; H h; if (tmpcopy (o[i], h, v, CC())) MC_CHECK (h == m[i], "a copy differs from its source"); } break;
		case 6: { what = "move construction"; T t (move(o[i])); MC_CHECK (sh (t) == m[i], "a moved object differs from its source"); H h = m[i]; m[i] = sh (o[i]); o[j] = move(t); m[j] = h; } break;
		case 7: { what = "exchange"; H h; if (exch (o[i], v, h, EX())) { MC_CHECK (h == m[i], "exchange returned another value"); m[i] = hv[v]; } } break;
		case 8: { what = "iter_swap"; if (isw (o[0], o[1], SW())) { H t = m[0]; m[0] = m[1]; m[1] = t; } } break;
	    }
	    for (int x = 0; x < 2; ++x) MC_CHECK (sh (o[x]) == m[x], "after %s (%d, %d) object %d has another value", what, i, j, x);
	    mc_step(); mc_state (mc_mix (m[0], m[1]));
	}
    }
    MC_CHECK (!E::nlive_, "%d elements were not destroyed", E::nlive_);
    MC_CHECK (!mc_heap_live(), "%d blocks were not freed", int(mc_heap_live()));
    if (mc_want_sample()) mc_sample ("%d operations on two objects of %d bytes", len, int(sizeof(T)));
}
typedef chrono::time_point<chrono::system_clock, chrono::milliseconds> tp_t;
typedef pair<int,string> p_is; typedef pair<vector<E>,string> p_vs; typedef tuple<2,string> t_2s; typedef array<string,2> a_s2; typedef map<int,string> m_is; typedef multimap<string,E> mm_se; typedef pair<int,int> p_ii; typedef vector<p_is> v_p; typedef map<string,vector<E> > m_sv;
MC_SCENARIO (histories, 61)
{
    const int L = MC_TIER (3, 4);
    switch (shard) {
	#define T0(N,...) case N: values<__VA_ARGS__> (L); break;
	T0 (0, int,Yes,Yes,No) T0 (1, E,Yes,Yes,No) T0 (2, string,Yes,Yes,Yes) T0 (3, memblock,Yes,Yes,Yes) T0 (4, cmemlink,Yes,Yes,Yes) T0 (5, memlink,Yes,Yes,Yes)
	T0 (6, vector<int>,Yes,Yes,Yes) T0 (7, vector<E>,Yes,Yes,Yes) T0 (8, vector<string>,Yes,Yes,Yes) T0 (9, vector<vector<E> >,Yes,Yes,Yes) T0 (10, v_p,Yes,Yes,Yes)
	T0 (11, list<int>,Yes,Yes,Yes) T0 (12, list<E>,Yes,Yes,Yes) T0 (13, list<string>,Yes,Yes,Yes)
	T0 (14, set<int>,Yes,Yes,Yes) T0 (15, set<string>,Yes,Yes,Yes) T0 (16, set<E>,Yes,Yes,Yes) T0 (17, multiset<int>,Yes,Yes,Yes,No) T0 (18, multiset<E>,Yes,Yes,Yes,No)
	T0 (19, m_is,Yes,Yes,Yes) T0 (20, m_sv,Yes,Yes,Yes) T0 (21, mm_se,Yes,Yes,Yes)
	T0 (22, stack<E>,Yes,No,Yes) T0 (23, queue<E>,Yes,No,Yes) T0 (24, priority_queue<int>,No,No,Yes,No,No) T0 (25, priority_queue<E>,No,No,Yes,No,No) T0 (26, queue<string>,Yes,No,Yes)
	T0 (27, p_ii,Yes,Yes,Yes) T0 (28, p_is,Yes,Yes,Yes) T0 (29, p_vs,Yes,Yes,Yes)
	T0 (30, tuple<3 , int>,Yes,Yes,Yes) T0 (31, t_2s,Yes,Yes,Yes) T0 (32, tuple<2 , E>,Yes,Yes,Yes) T0 (33, tuple<4 , float>,Yes,Yes,Yes) T0 (34, tuple<2 , float>,Yes,Yes,Yes) T0 (35, tuple<2 , int>,Yes,Yes,Yes)
	T0 (36, array<int , 3>,Yes,Yes,Yes) T0 (37, a_s2,Yes,Yes,Yes) T0 (38, array<E , 3>,Yes,Yes,Yes)
	T0 (39, matrix<2 , 2 , float>,Yes,Yes,No) T0 (40, matrix<3 , 2 , int>,Yes,Yes,No)
	T0 (41, bitset<7>,Yes,Yes,No) T0 (42, bitset<32>,Yes,Yes,No) T0 (43, bitset<70>,Yes,Yes,No)
	T0 (44, chrono::milliseconds,Yes,Yes,No) T0 (45, tp_t,Yes,Yes,No) T0 (46, chrono::hrtime_t,Yes,Yes,No)
	T0 (47, shared_ptr<E>,Yes,Yes,Yes) T0 (48, unique_ptr<E>,No,No,Yes) T0 (49, unique_ptr<string>,No,No,Yes) T0 (50, shared_ptr<vector<E> >,Yes,Yes,Yes)
	T0 (51, istringstream,Yes,Yes,Yes) T0 (52, istream,Yes,Yes,Yes) T0 (60, ostream,Yes,Yes,Yes) T0 (53, reverse_iterator<char*>,Yes,Yes,No) T0 (54, error_code,Yes,Yes,No)
	T0 (55, stack<string>,Yes,No,Yes) T0 (56, pair<E , E>,Yes,Yes,Yes) T0 (57, list<p_is>,Yes,Yes,Yes) T0 (58, tuple<3 , vector<E> >,Yes,Yes,Yes) T0 (59, array<m_is , 2>,Yes,Yes,Yes)
    }
}
// ---- pairs made and converted ------------------------------------------------------------
template <class A, class B> static void madeof (A& a, B& b, int how)
{
    const H ha = sh (a), hb = sh (b); H g1 = 0, g2 = 0; A ca (a); B cb (b); const A& ka = a; const B& kb = b;
    #define CHANGE { mk (a, 1); mk (b, 0); if (sh (a) == ha) mk (a, 0); if (sh (b) == hb) mk (b, 1); }
    switch (how) {
	case 0: { auto p = make_pair (a, b); CHANGE; g1 = sh (p.first); g2 = sh (p.second); } break;
	case 1: { auto p = make_pair (ka, kb); CHANGE; g1 = sh (p.first); g2 = sh (p.second); } break;
	case 2: { auto p = make_pair (a, kb); CHANGE; g1 = sh (p.first); g2 = sh (p.second); } break;
	case 3: { auto p = make_pair (move(ca), b); CHANGE; g1 = sh (p.first); g2 = sh (p.second); } break;
	case 4: { auto p = make_pair (A (a), B (b)); CHANGE; g1 = sh (p.first); g2 = sh (p.second); } break;
	case 5: { pair<A,B> p = make_pair (a, b); CHANGE; g1 = sh (p.first); g2 = sh (p.second); } break;
	case 6: { pair<A,B> p (a, b); CHANGE; g1 = sh (p.first); g2 = sh (p.second); } break;
	case 7: { pair<A,B> p (move(ca), move(cb)); CHANGE; g1 = sh (p.first); g2 = sh (p.second); } break;
	case 8: { pair<A,B> p; p = make_pair (a, b); CHANGE; g1 = sh (p.first); g2 = sh (p.second); } break;
	case 9: { pair<A,B> q (a, b); auto p (q); mk (q.first, sh (a) == hb); CHANGE; g1 = sh (p.first); g2 = sh (p.second); } break;
	case 10: { pair<A,B> q (a, b), p; CHANGE; p.swap (q); g1 = sh (p.first); g2 = sh (p.second); } break;
	case 11: { pair<A,B> p; p.swap (pair<A,B> (a, b)); CHANGE; g1 = sh (p.first); g2 = sh (p.second); } break;
	case 12: { vector<pair<A,B> > v; v.push_back (make_pair (a, b)); CHANGE; g1 = sh (v[0].first); g2 = sh (v[0].second); } break;
	case 13: { const pair<A,B> p (a, b); CHANGE; g1 = sh (select1st<pair<A,B> >()(p)); g2 = sh (select2nd<pair<A,B> >()(p)); } break;
	case 14: { pair<A,B> p; select1st<pair<A,B> >()(p) = a; select2nd<pair<A,B> >()(p) = b; CHANGE; g1 = sh (p.first); g2 = sh (p.second); } break;
    }
    MC_CHECK (g1 == ha && g2 == hb, "the pair does not hold the values it was made of");
}
MC_SCENARIO (pairs, 5)
{
    E::reset();
    { int i1 = 0, i2 = 0; string s1, s2; E e1 (0), e2 (0); vector<E> v1; const int how = mc_choose (15), v = mc_choose (3), w = mc_choose (3);
    switch (shard) {
	case 0: mk (i1, v); mk (i2, w); madeof (i1, i2, how); break;
	case 1: mk (i1, v); mk (s2, w); madeof (i1, s2, how); break;
	case 2: mk (s1, v); mk (s2, w); madeof (s1, s2, how); break;
	case 3: mk (e1, v); mk (e2, w); madeof (e1, e2, how); break;
	case 4: mk (v1, v); mk (e2, w); madeof (v1, e2, how); break;
    } }
    MC_CHECK (!E::nlive_ && !mc_heap_live(), "%d elements and %d blocks are left", E::nlive_, int(mc_heap_live())); mc_step(); mc_eval();
}
// pairs of other types of members
MC_SCENARIO (conversions, 1)
{
    const int a = mc_choose (256)-128; static const long B[] = { 0, 1, -1, 100, -128, 127 }; const long b = B[mc_choose (6)]; const int how = mc_choose (5); pair<long,string> r;
    pair<int8_t,const char*> q (int8_t(a), b & 1 ? "odd" : "even text");
    switch (how) {
	case 0: { pair<long,string> p (q); r = p; } break;
	case 1: r = q; break;
	case 2: { pair<long,string> p (move(q)); r = p; } break;
	case 3: r = pair<int8_t,const char*> (int8_t(a), q.second); break;
	case 4: { pair<long,string> p (int8_t(a), q.second); r = move(p); } break;
    }
    MC_CHECK (r.first == a && r.second == (b & 1 ? "odd" : "even text"), "converted to %ld, '%s'", r.first, r.second.c_str());
    pair<int8_t,long> x (int8_t(a), b); pair<long,int> y (x), z; z = x; MC_CHECK (y.first == a && y.second == b && z == y, "converted to %ld, %d", y.first, y.second);
    pair<int,int> mm = minmax (a, int(b)) ; MC_CHECK (mm.first == min (a, int(b)) && mm.second == max (a, int(b)), "minmax");
    int u = a, w = b; auto rm = minmax (u, w); rm.first = 1000; MC_CHECK ((a < b ? u : w) == 1000, "minmax of variables does not refer to them");
    mc_step(); mc_eval();
}
