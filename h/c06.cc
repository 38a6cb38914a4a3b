// C06: queue, stack, priority_queue, list and deque against simple sequences.
#include "big.h"
static int iv (int x) { return x; }
static int iv (const E& e) { e.chk ("read"); return e.v; }

//--- queue and stack: one driver, LIFO selects the end that is popped
template <class Q, int LIFO> struct Ends;
template <class Q> struct Ends<Q,0> {
    static int out (Q& q) { const Q& c = q; MC_CHECK (&c.front() == &q.front() && &c.back() == &q.back(), "const and non-const front or back differ"); return iv (c.front()); }
    static int in (Q& q) { return iv (q.back()); }
    static void set (Q& q, int v) { q.front() = typename Q::value_type (v); }
};
template <class Q> struct Ends<Q,1> {
    static int out (Q& q) { const Q& c = q; MC_CHECK (&c.top() == &q.top(), "const and non-const top differ"); return iv (c.top()); }
    static int in (Q& q) { return iv (q.top()); }
    static void set (Q& q, int v) { q.top() = typename Q::value_type (v); }
};
template <class Q, int LIFO> static void cmpq (Q& q, const Seq& m, const char* who)
{
    const Q& c = q;
    MC_CHECK (c.size() == size_t(m.n) && c.empty() == !m.n, "%s: size %zu empty %d, expected %s", who, c.size(), c.empty(), m.str());
    if (!m.n) return;
    typedef Ends<Q,LIFO> EQ; int o = EQ::out (q), e = m.d[LIFO ? m.n-1 : 0];
    MC_CHECK (o == e, "%s: next out is %d, expected %d of %s", who, o, e, m.str());
    MC_CHECK (EQ::in (q) == m.d[m.n-1], "%s: last in is %d, expected %d of %s", who, EQ::in (q), m.d[m.n-1], m.str());
}
// empties a copy, checking everything in it
template <class Q, int LIFO> static void drain (Q& q, Seq m, const char* who)
{
    while (m.n) { cmpq<Q,LIFO> (q, m, who); q.pop(); if (LIFO) --m.n; else m.del (0); }
    cmpq<Q,LIFO> (q, m, who);
}
enum { QOPS = 9 };
template <class Q, int LIFO> static void runq (int first, int depth)
{
    typedef typename Q::value_type T; typedef typename Q::container_type C;
    E::reset();
    {
	Q a, b; Seq m, mb; int fresh = 10;
	for (int step = 0; step < depth; ++step) {
	    int op = step ? mc_choose (QOPS) : first;
	    switch (op) {
		case 0: { mc_note ("push %d", fresh); const T v (fresh); a.push (v); m.push (fresh++); } break;
		case 1: if (!m.n) break; mc_note ("pop"); a.pop(); if (LIFO) --m.n; else m.del (0); break;
		case 2: { mc_note ("copy, drain the copy"); Q c (a); MC_CHECK (c == a, "a copy of %s is not equal to it", m.str()); drain<Q,LIFO> (c, m, "copy"); } break;
		case 3: { mc_note ("replace by a copy"); Q c (a); a = move (c); } break;
		case 4: { mc_note ("swap"); a.swap (b); Seq t (m); m = mb; mb = t; } break;
		case 5: { mc_note ("emplace %d", fresh); a.emplace (fresh); m.push (fresh++); } break;
		case 6: { mc_note ("move construct"); Q c (move (a)); cmpq<Q,LIFO> (c, m, "moved-to");
		    { Seq me; cmpq<Q,LIFO> (a, me, "moved-from"); a.push (T (5)); a.push (T (6)); me.push (5); me.push (6); cmpq<Q,LIFO> (a, me, "moved-from, used again"); drain<Q,LIFO> (a, me, "moved-from"); a.push (T (4)); }
		    Q e; a = move (e); MC_CHECK (a.empty(), "assigned from an empty one, not empty"); a.swap (c); } break;
		case 7: { mc_note ("from a container of 2"); C s; s.push_back (T (fresh)); s.push_back (T (fresh+1)); m.n = 0; m.push (fresh); m.push (fresh+1);
		    if (mc_choose (2)) { Q c (move (s)); a.swap (c); } else { const C& cs = s; Q c (cs); MC_CHECK (s.size() == 2, "source container changed"); a.swap (c); }
		    MC_CHECK ((a == b) == (m == mb), "operator== of %s and %s", m.str(), mb.str()); fresh += 2; } break;
		case 8: if (!m.n) break; mc_note ("assign to the next out"); Ends<Q,LIFO>::set (a, 7); m.d[LIFO ? m.n-1 : 0] = 7; break;
	    }
	    mc_step(); mc_state (mc_mix (m.hash(), mb.hash()));
	    cmpq<Q,LIFO> (a, m, "a"); cmpq<Q,LIFO> (b, mb, "b");
	}
	if (mc_want_sample()) mc_sample ("%s after %d operations: a %s b %s", LIFO ? "stack" : "queue", depth, m.str(), mb.str());
	// equal contents reached by another way compare equal, different ones do not
	Q r; for (int i = 0; i < m.n; ++i) r.push (T (m.d[i]));
	MC_CHECK (r == a && a == r, "a rebuilt from %s is not equal to it", m.str());
	MC_CHECK (!(r < a) && !(a < r), "equal ones are ordered"); MC_CHECK (!(a < b && b < a), "each of two is before the other");
	r.push (T (1)); MC_CHECK (!(r == a), "equal with one more element");
	if (m.n) { r.pop(); if (!LIFO) { r.push (T (99)); MC_CHECK (!(r == a), "equal to a rotated one"); } }
	drain<Q,LIFO> (a, m, "a"); drain<Q,LIFO> (b, mb, "b");
    }
    MC_CHECK (!E::nlive_, "%d elements leaked", E::nlive_);
}
typedef queue<int,list<int> > ql_t; typedef stack<int,list<int> > sl_t;
MC_SCENARIO (queue_E, QOPS) { runq<queue<E>,0> (shard, MC_TIER (6, 7)); }
MC_SCENARIO (queue_list, QOPS) { runq<ql_t,0> (shard, MC_TIER (5, 7)); }
MC_SCENARIO (stack_E, QOPS) { runq<stack<E>,1> (shard, MC_TIER (5, 7)); }
MC_SCENARIO (stack_list, QOPS) { runq<sl_t,1> (shard, MC_TIER (4, 6)); }
// long mixes of push and pop only: every moving-front and compaction pattern
MC_SCENARIO (queue_long, 4)
{
    E::reset();
    { queue<E> q; int in = 0, out = 0; Seq m;
    for (int step = 0; step < MC_TIER (18, 22); ++step) {
	int o = step < 2 ? shard>>step&1 : mc_choose (2);
	if (o == 0 || in == out) { q.push (E (in)); m.push (in++); } else { q.pop(); ++out; m.del (0); }
	cmpq<queue<E>,0> (q, m, "q"); mc_step();
    }
    mc_state (mc_mix (in, out)); drain<queue<E>,0> (q, m, "q"); }
    MC_CHECK (!E::nlive_, "%d elements leaked", E::nlive_);
}

//--- priority_queue. The order is by value; with bytens several values are equivalent
struct bytens { int sign; bytens (int s = 1) : sign (s) {} bool operator() (int a, int b) const { return sign*(a/10) < sign*(b/10); } bool operator() (const E& a, const E& b) const { return (*this) (iv(a), iv(b)); } };
struct lessv { bool operator() (int a, int b) const { return a < b; } bool operator() (const E& a, const E& b) const { return iv(a) < iv(b); } };
template <class Q, class Cmp> static void cmpp (const Q& q, const Seq& m, Cmp c, const char* who)
{
    MC_CHECK (q.size() == size_t(m.n) && q.empty() == !m.n, "%s: size %zu, expected %s", who, q.size(), m.str());
    if (!m.n) return;
    int t = iv (q.top()), has = 0;
    for (int i = 0; i < m.n; ++i) { has += m.d[i] == t; MC_CHECK (!c (t, m.d[i]), "%s: top is %d with %d in %s", who, t, m.d[i], m.str()); }
    MC_CHECK (has, "%s: top is %d, not in %s", who, t, m.str());
}
template <class Q, class Cmp> static void pop1 (Q& q, Seq& m, Cmp c, const char* who)
{
    cmpp (q, m, c, who); int t = iv (q.top()), i = 0; while (m.d[i] != t) ++i; m.del (i); q.pop(); cmpp (q, m, c, who);
}
enum { POPS = 8 };
template <class Q, class Cmp> static void runp (int first, int depth, Cmp cmp)
{
    typedef typename Q::value_type T; typedef typename Q::container_type C;
    static const int V[] = { 10, 11, 20, 31 };
    E::reset();
    {
	Q a (cmp), b (cmp); Seq m, mb;
	for (int step = 0; step < depth; ++step) {
	    int op = step ? mc_choose (POPS) : first;
	    switch (op) {
		case 0: { int v = V[mc_choose (4)]; mc_note ("push %d", v); const T e (v); a.push (e); m.push (v); } break;
		case 1: if (m.n) { mc_note ("pop"); pop1 (a, m, cmp, "a"); } break;
		case 2: { int v = V[mc_choose (4)]; mc_note ("emplace %d", v); a.emplace (v); m.push (v); } break;
		case 3: { mc_note ("swap"); a.swap (b); Seq t (m); m = mb; mb = t; } break;
		case 4: { mc_note ("move out and back"); Q c (move (a)); cmpp (c, m, cmp, "moved-to"); { Seq me; cmpp (a, me, cmp, "moved-from"); a.push (T (20)); a.push (T (10)); me.push (20); me.push (10); cmpp (a, me, cmp, "moved-from, used again"); a.pop(); } a = move (c); } break;
		case 5: { int n = step ? 1+2*mc_choose (2) : mc_choose (4), k = step ? mc_choose (2) : 0; C s; Seq x; for (int i = 0; i < n; ++i) { int v = V[step ? (k+1)*(i+1)&3 : mc_choose (4)]; s.push_back (T (v)); x.push (v); } mc_note ("from range %s", x.str()); const C& cs = s; Q c (cs.begin(), cs.end(), cmp); cmpp (c, x, cmp, "from range"); a.swap (c); m = x; } break;
		case 6: { int n = step ? 3 : 2+mc_choose (2), k = step ? mc_choose (2) : 0; C s; Seq x; for (int i = 0; i < n; ++i) { int v = V[step ? (k+1)*(i+1)&3 : mc_choose (4)]; s.push_back (T (v)); x.push (v); } mc_note ("from container %s", x.str()); const C& cs = s;
		    Q c (cmp, cs); cmpp (c, x, cmp, "from container"); Q d (cmp, move (s)); cmpp (d, x, cmp, "from moved container"); a.swap (mc_choose (2) ? c : d); m = x; } break;
		case 7: { C s, x; s.push_back (T (20)); x.push_back (T (10)); x.push_back (T (31)); mc_note ("from range and container"); Q c (x.begin(), x.end(), cmp, move (s)); a.swap (c); m.n = 0; m.push (20); m.push (10); m.push (31); } break;
	    }
	    mc_step(); Seq o (m); o.sort(); mc_state (o.hash());
	    cmpp (a, m, cmp, "a"); cmpp (b, mb, cmp, "b");
	}
	if (mc_want_sample()) mc_sample ("priority_queue: a %s b %s", m.str(), mb.str());
	while (m.n) pop1 (a, m, cmp, "a");
	while (mb.n) pop1 (b, mb, cmp, "b");
    }
    MC_CHECK (!E::nlive_, "%d elements leaked", E::nlive_);
}
typedef priority_queue<E,vector<E>,lessv> pqE; typedef priority_queue<int,vector<int>,greater<int> > pqg; typedef priority_queue<int,vector<int>,bytens> pqt;
MC_SCENARIO (pq_less_E, POPS) { runp<pqE> (shard, MC_TIER (4, 5), lessv()); }
MC_SCENARIO (pq_greater, POPS) { runp<pqg> (shard, MC_TIER (4, 5), greater<int>()); }
MC_SCENARIO (pq_state, POPS) { runp<pqt> (shard, MC_TIER (4, 5), bytens (-1)); }
// every sequence of pushes of up to 7 (8) values out of 4, with pops between
MC_SCENARIO (pq_order, 16)
{
    priority_queue<int> q; Seq m; const int N = MC_TIER (7, 8);
    for (int i = 0; i < N; ++i) { int v = i == 0 ? shard>>2 : i == 1 ? shard&3 : mc_choose (4); q.push (v); m.push (v); cmpp (q, m, lessv(), "q"); if (i == N/2 && mc_choose (2)) pop1 (q, m, lessv(), "q"); }
    mc_step(); mc_state (m.hash()); int last = 99; while (m.n) { MC_CHECK (q.top() <= last, "popped %d after %d", q.top(), last); last = q.top(); pop1 (q, m, lessv(), "q"); }
}

//--- list and deque
template <class L> static void cmpl (const L& c, const Seq& m, const char* who)
{
    MC_CHECK (c.size() == size_t(m.n) && c.end() - c.begin() == m.n && c.empty() == !m.n, "%s: size %zu, expected %s", who, c.size(), m.str());
    for (int i = 0; i < m.n; ++i) MC_CHECK (iv (c.begin()[i]) == m.d[i], "%s: element %d is %d, expected %s", who, i, iv (c.begin()[i]), m.str());
    if (m.n) MC_CHECK (iv (c.front()) == m.d[0] && iv (c.back()) == m.d[m.n-1], "%s: front or back", who);
}
enum { LOPS = 18 };
struct odd { bool operator() (int v) const { return v & 1; } bool operator() (const E& e) const { return iv (e) & 1; } };
template <class L> static void runl (int first, int depth)
{
    typedef typename L::value_type T; E::reset();
    {
	L a, b; Seq m, mb;
	for (int i = 0; i < 3; ++i) { static const int s[] = { 2, 1, 2 }; b.push_back (T (s[i])); mb.push (s[i]); }
	#define VAL() (mc_choose (3))
	for (int step = 0; step < depth; ++step) {
	    int op = step ? mc_choose (LOPS) : first;
	    switch (op) {
		case 0: { int v = VAL(); mc_note ("push_front %d", v); const T e (v); a.push_front (e); m.ins (0, v); } break;
		case 1: { int v = VAL(); mc_note ("push_back %d", v); const T e (v); a.push_back (e); m.push (v); } break;
		case 2: if (m.n) { mc_note ("pop_front"); a.pop_front(); m.del (0); } break;
		case 3: if (m.n) { mc_note ("pop_back"); a.pop_back(); --m.n; } break;
		case 4: { int v = VAL(); mc_note ("push_front (move), emplace_front %d", v); a.push_front (T (v)); a.emplace_front (v+1); m.ins (0, v); m.ins (0, v+1); } break;
		case 5: { int v = VAL(); mc_note ("remove %d", v); a.remove (T (v)); int k = 0; for (int i = 0; i < m.n; ++i) if (m.d[i] != v) m.d[k++] = m.d[i]; m.n = k; } break;
		case 6: { mc_note ("remove_if odd"); a.remove_if (odd()); int k = 0; for (int i = 0; i < m.n; ++i) if (!(m.d[i]&1)) m.d[k++] = m.d[i]; m.n = k; } break;
		case 7: { mc_note ("reverse"); a.reverse(); for (int i = 0; i < m.n/2; ++i) { int t = m.d[i]; m.d[i] = m.d[m.n-1-i]; m.d[m.n-1-i] = t; } } break;
		case 8: { mc_note ("unique"); a.unique(); int k = 0; for (int i = 0; i < m.n; ++i) if (!k || m.d[k-1] != m.d[i]) m.d[k++] = m.d[i]; m.n = k; } break;
		case 9: { mc_note ("sort"); a.sort(); m.sort(); } break;
		case 10: { mc_note ("sort both and merge"); a.sort(); b.sort(); a.merge (b); m.insv (m.n, mb.d, mb.n); m.sort(); mb.n = 0; } break;
		case 11: { int at = m.n ? mc_choose (m.n+1) : 0; mc_note ("splice all of b at %d", at); a.splice (a.begin()+at, b); m.insv (at, mb.d, mb.n); mb.n = 0; } break;
		case 12: { int at = m.n; int f = mb.n ? mc_choose (mb.n) : 0, l = mb.n ? f+mc_choose (mb.n-f+1) : 0; if (!mb.n) break; mc_note ("splice b[%d,%d) at the end", f, l); a.splice (a.begin()+at, b, b.begin()+f, b.begin()+l); m.insv (at, mb.d+f, l-f); mb.del (f, l-f); } break;
		case 13: { mc_note ("swap"); a.swap (b); Seq t (m); m = mb; mb = t; } break;
		case 14: { mc_note ("copy, move, assign"); L c (a); cmpl (c, m, "copy"); L d (move (c)); cmpl (d, m, "moved"); { Seq me; cmpl (c, me, "moved-from"); c.push_back (T (5)); c.push_front (T (6)); me.push (6); me.push (5); cmpl (c, me, "moved-from, used again"); } a.clear(); a = move (d); } break;
		case 15: { mc_note ("from list, range, size"); L c { T(1), T(0) }; Seq mc; mc.push (1); mc.push (0); cmpl (c, mc, "{1,0}"); const L& ca = a; L d (ca.begin(), ca.end()); cmpl (d, m, "range"); L e (2, T (5)); mc.n = 0; mc.push (5); mc.push (5); cmpl (e, mc, "2 of 5"); L f (size_t (1)); MC_CHECK (f.size() == 1, "list (1)"); MC_CHECK ((a == b) == (m == mb), "operator=="); } break;
		case 16: { if (!m.n) break; int at = mc_choose (m.n); mc_note ("erase %d", at); a.erase (a.begin()+at); m.del (at); } break;
		case 17: { int at = m.n ? mc_choose (m.n+1) : 0; mc_note ("insert 2 of 9 at %d", at); a.insert (a.begin()+at, 2, T (9)); m.ins (at, 9, 2); } break;
	    }
	    mc_step(); mc_state (mc_mix (m.hash(), mb.hash())); cmpl (a, m, "a"); cmpl (b, mb, "b");
	}
	if (mc_want_sample()) mc_sample ("list: a %s b %s", m.str(), mb.str());
    }
    MC_CHECK (!E::nlive_, "%d elements leaked", E::nlive_);
}
MC_SCENARIO (list_E, LOPS) { runl<list<E> > (shard, MC_TIER (4, 5)); }
MC_SCENARIO (deque_int, LOPS) { runl<deque<int> > (shard, MC_TIER (4, 5)); }
// merging every pair of sorted lists of up to 4 (5) elements: equal ones stay in order, this list's before the other's
struct Rec { int k, t; Rec (int k = 0, int t = 0) : k (k), t (t) {} bool operator< (const Rec& r) const { return k < r.k; } bool operator== (const Rec& r) const { return k == r.k; } };
struct ERec : public E { int t; ERec (int k = 0, int t = 0) : E (k), t (t) {} };
static int rk (const Rec& r) { return r.k; }
static int rk (const ERec& r) { return iv (r); }
template <class L> static void merge1 (void)
{
    typedef typename L::value_type R; E::reset();
    {
    const int N = MC_TIER (4, 5); int n1 = mc_choose (N+1), n2 = mc_choose (N+1), k[2][8];
    L a, b; int v = 0;
    for (int i = 0; i < n1; ++i) { v += mc_choose (2); a.push_back (R (v, i)); k[0][i] = v; }
    v = mc_choose (3)-1; for (int i = 0; i < n2; ++i) { v += mc_choose (2); b.push_back (R (v, 100+i)); k[1][i] = v; }
    a.merge (b); mc_step();
    MC_CHECK (a.size() == size_t(n1+n2) && b.empty(), "merging %d and %d gave %zu, left %zu", n1, n2, a.size(), b.size());
    for (int i = 0, j = 0; i+j < n1+n2;) {
	const bool first = j == n2 || (i < n1 && k[0][i] <= k[1][j]); const R& r = a.begin()[i+j]; const int ek = first ? k[0][i] : k[1][j], et = first ? i : 100+j;
	MC_CHECK (rk (r) == ek && r.t == et, "merged element %d is %d (number %d), expected %d (number %d)", i+j, rk (r), r.t, ek, et);
	mc_state (mc_mix (i*16+j, ek)); if (first) ++i; else ++j;
    }
    b.push_back (R (7, 7)); a.merge (b); MC_CHECK (a.size() == size_t(n1+n2+1), "merging another one");
    }
    MC_CHECK (!E::nlive_, "%d elements leaked", E::nlive_);
}
MC_SCENARIO (merge_all, 3) { switch (shard) { case 0: merge1<list<Rec> >(); break; case 1: merge1<list<ERec> >(); break; case 2: merge1<deque<Rec> >(); break; } }
// stable orders of sort and the first of equal ones kept by unique, for every list of up to 5 (6) of 3 keys
MC_SCENARIO (records, 1)
{
    (void) shard; const int N = MC_TIER (5, 6); int n = mc_choose (N+1), k[8], c[3] = {}; list<Rec> a;
    for (int i = 0; i < n; ++i) { k[i] = mc_choose (3); ++c[k[i]]; a.push_back (Rec (k[i], i)); }
    list<Rec> u (a); u.unique(); int j = 0; for (int i = 0; i < n; ++i) if (!i || k[i] != k[i-1]) { MC_CHECK (j < int(u.size()) && u.begin()[j].k == k[i] && u.begin()[j].t == i, "unique kept number %d, expected %d", u.begin()[j].t, i); ++j; } MC_CHECK (u.size() == size_t(j), "unique left %zu, expected %d", u.size(), j);
    list<Rec> r (a); r.remove (Rec (1, 55)); j = 0; for (int i = 0; i < n; ++i) if (k[i] != 1) { MC_CHECK (j < int(r.size()) && r.begin()[j].t == i, "remove kept the wrong one"); ++j; } MC_CHECK (r.size() == size_t(j), "remove left %zu, expected %d", r.size(), j);
    list<Rec> v (a); v.reverse(); for (int i = 0; i < n; ++i) MC_CHECK (v.begin()[i].t == n-1-i, "reversed");
    list<Rec> s (a); s.sort(); mc_step(); bool seen[8] = {}; for (int i = 0; i < n; ++i) { const Rec& e = s.begin()[i]; MC_CHECK (!i || s.begin()[i-1].k <= e.k, "not sorted"); MC_CHECK (e.t >= 0 && e.t < n && !seen[e.t] && k[e.t] == e.k, "sort lost or repeated number %d", e.t); seen[e.t] = true; }
    mc_state (mc_hash (1, k, n*sizeof(int)));
}

//--- sizes: long ones, around every power of two
static inline int bval (int i) { return int (uint32_t(i)*2654435761u >> 9); }
static void bcmp (const list<int>& c, const Big<int>& m, const char* who)
{
    MC_CHECK (c.size() == size_t(m.n) && c.end() - c.begin() == m.n && c.empty() == !m.n, "%s: size %zu, expected %d", who, size_t(c.size()), m.n);
    for (int i = 0; i < m.n; ++i) if (c.begin()[i] != m.d[i]) mc_fail ("%s: element %d of %d is %d, expected %d", who, i, m.n, c.begin()[i], m.d[i]);
}
static int cmpint (const void* a, const void* b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }
MC_SCENARIO (sizes, 8)
{
    const int n = bigsize (mc_choose (bigsizes())); mc_note ("%d elements", n); mc_state (mc_mix (n, shard)); mc_step();
    switch (shard) {
	case 0: case 1: {	// fifo: k popped from n, then more pushed, and all popped
	    const int k = BIGK[mc_choose (NBIGK)], extra = shard ? n : 3; if (k > n) break;
	    queue<int> q; for (int i = 0; i < n; ++i) { if (shard) q.emplace (bval (i)); else q.push (bval (i)); }
	    MC_CHECK (q.size() == size_t (n) && q.empty() == !n, "queue of %d has %zu", n, size_t (q.size()));
	    for (int i = 0; i < k; ++i) { if (q.front() != bval (i)) mc_fail ("queue of %d: pop %d gives %d, expected %d", n, i, q.front(), bval (i)); q.pop(); }
	    MC_CHECK (q.size() == size_t (n-k), "%d popped from a queue of %d leave %zu", k, n, size_t (q.size()));
	    for (int i = n; i < n+extra; ++i) q.push (bval (i));
	    queue<int> c (q), r; MC_CHECK (c == q && c.size() == q.size(), "a copy of %d of %d pushed and %d popped differs", extra, n, k);
	    for (int i = k; i < n+extra; ++i) r.push (bval (i));
	    MC_CHECK (r == q && !(r < q) && !(q < r), "rebuilt from %d of %d pushed and %d popped differs", extra, n, k);
	    for (int i = k; i < n+extra; ++i) { if (q.front() != bval (i) || q.back() != bval (n+extra-1)) mc_fail ("queue of %d+%d: pop %d gives %d, expected %d", n, extra, i, q.front(), bval (i)); q.pop(); }
	    MC_CHECK (q.empty() && c.size() == size_t (n+extra-k), "drained queue of %d", n);
	    if (n+extra > k) { r.back() = -1; MC_CHECK (!(r == c) && (r < c) && !(c < r), "queue of %d with a smaller last element", n+extra-k); }
	    } break;
	case 2: {
	    stack<int> q; for (int i = 0; i < n; ++i) q.push (bval (i));
	    stack<int> c (q); MC_CHECK (c == q && c.size() == size_t (n), "a copy of a stack of %d differs", n);
	    for (int i = n; i-- > 0;) { if (q.top() != bval (i)) mc_fail ("stack of %d: pop at %d gives %d, expected %d", n, i, q.top(), bval (i)); q.pop(); if (q.size() != size_t (i)) mc_fail ("stack of %d: size %zu at %d", n, size_t (q.size()), i); }
	    MC_CHECK (q.empty() && (c == q) == !n && (q < c) == !!n, "stack of %d against an empty one", n);
	    } break;
	case 3: {
	    const int p = mc_choose (4); Big<int> m; priority_queue<int> q;
	    for (int i = 0; i < n; ++i) m.d[i] = p == 0 ? i : p == 1 ? n-i : p == 2 ? bval (i) : i%7; m.n = n;
	    if (mc_choose (2)) { vector<int> v; v.assign (m.d, m.d+n); priority_queue<int> x (v.begin(), v.end()); q.swap (x); }
	    else for (int i = 0; i < n; ++i) q.push (m.d[i]);
	    qsort (m.d, n, sizeof(int), cmpint);
	    for (int i = n; i-- > 0;) { if (q.top() != m.d[i] || q.size() != size_t (i+1)) mc_fail ("priority queue of %d pattern %d: number %d out is %d, expected %d (size %zu)", n, p, n-1-i, q.top(), m.d[i], size_t (q.size())); q.pop(); }
	    MC_CHECK (q.empty(), "priority queue of %d not empty", n);
	    } break;
	default: {
	    Big<int> m, o; list<int> a, b; for (int i = 0; i < n; ++i) { m.d[i] = bval (i) % (shard == 4 ? 1<<20 : 3); a.push_back (m.d[i]); } m.n = n; bcmp (a, m, "filled");
	    const int op = mc_choose (4);
	    if (shard == 4) switch (op) {
		case 0: a.sort(); qsort (m.d, n, sizeof(int), cmpint); break;
		case 1: a.reverse(); for (int i = 0; i < n/2; ++i) { int t = m.d[i]; m.d[i] = m.d[n-1-i]; m.d[n-1-i] = t; } break;
		case 2: { list<int> c (a), d; d = a; bcmp (c, m, "copy"); bcmp (d, m, "assigned"); MC_CHECK (c == a && d == a, "copy of %d differs", n); list<int> e (move (c)); bcmp (e, m, "moved"); } break;
		case 3: a.push_front (5); a.push_front (6); m.ins (0, 1, 5); m.ins (0, 1, 6); if (n) { bcmp (a, m, "pushed in front"); a.pop_front(); a.pop_back(); m.del (0, 1); --m.n; } break;
	    } else if (shard == 5) switch (op) {
		case 0: { a.remove (1); int k = 0; for (int i = 0; i < n; ++i) if (m.d[i] != 1) m.d[k++] = m.d[i]; m.n = k; } break;
		case 1: { a.remove_if (odd()); int k = 0; for (int i = 0; i < n; ++i) if (!(m.d[i]&1)) m.d[k++] = m.d[i]; m.n = k; } break;
		case 2: { a.unique(); int k = 0; for (int i = 0; i < n; ++i) if (!k || m.d[k-1] != m.d[i]) m.d[k++] = m.d[i]; m.n = k; } break;
		case 3: { list<int> z (n); MC_CHECK (int(z.size()) == n, "list (%d) has %d elements", n, int(z.size())); list<int> c (n, 7); for (int i = 0; i < n; ++i) m.d[i] = 7; bcmp (c, m, "n of 7"); c.unique(); m.n = n > 0; bcmp (c, m, "unique of n equal"); a.swap (c); } break;
	    } else if (shard == 6) {	// merge with k
		const int k = BIGK[mc_choose (NBIGK)]; if (op) { o.n = 0; } if (k + n > Big<int>::MAX) return;
		for (int i = 0; i < k; ++i) { o.d[i] = op == 0 ? bval (i) % 3 : op == 1 ? -1 : op == 2 ? 9 : bval (i+7); b.push_back (o.d[i]); } o.n = k;
		a.sort(); b.sort(); a.merge (b); m.insv (n, o.d, k); qsort (m.d, m.n, sizeof(int), cmpint); o.n = 0; bcmp (b, o, "merged from");
	    } else {	// splice k at each of 5 places, all or the inner part
		const int k = BIGK[mc_choose (NBIGK)], at = bigat (n, mc_choose (NBIGAT)); for (int i = 0; i < k; ++i) { o.d[i] = 100+i; b.push_back (o.d[i]); } o.n = k;
		if (op & 1) { if (k < 2) return; const int f = 1, l = op & 2 ? k : k-1; a.splice (a.begin()+at, b, b.begin()+f, b.begin()+l); m.insv (at, o.d+f, l-f); o.del (f, l-f); }
		else if (op == 2) { a.insert (a.begin()+at, k, 55); m.ins (at, k, 55); }
		else { if (!k) return; a.splice (a.begin()+at, b); m.insv (at, o.d, k); o.n = 0; }
		bcmp (b, o, "spliced from");
	    }
	    bcmp (a, m, "result");
	    } break;
    }
}
