// C20: containers under failing allocations and throwing elements.
#include "c20.h"
int X::live[X::MAXID]; int X::next, X::nlive; bool X::cmpfaults;
template <class C> static Seq got (const C& c) { Seq s; s.n = 0; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) s.push (val (*i)); return s; }
template <class T> static void livecheck (const char*, unsigned, const T*) {}
static void livecheck (const char* what, unsigned n, const X*) { MC_CHECK (X::nlive == int(n), "%s: %d elements are alive, but the containers have %u", what, X::nlive, n); }
// ---- vectors and lists --------------------------------------------------------
enum { NVOPS = 27, NLOPS = NVOPS+7 };
template <class C> struct ListOps { static int run (int, C&, C&, const typename C::value_type&, const Seq&, const Seq&, Seq&, int&, const char*&) { return 0; } };
template <class T> struct ListOps<list<T> > {
    static int run (int o, list<T>& a, list<T>& b, const T& t, const Seq& pre, const Seq& pb, Seq& post, int& cls, const char*& what) {
	switch (o) {
	    case NVOPS: what = "push_front"; cls = GROW; post.ins (0, val (t)); return attempt (what, [&] { a.push_front (t); });
	    case NVOPS+1: what = "emplace_front"; cls = GROW; post.ins (0, val (t)); return attempt (what, [&] { a.emplace_front (t); });
	    case NVOPS+2: { what = "sort and merge"; a.sort(); b.sort(); Seq p = got (a); cls = ANY; post = p; post.insv (post.n, pb.d, pb.n); post.sort(); return attempt (what, [&] { a.merge (b); }); }
	    case NVOPS+3: what = "splice"; cls = GROW; post.insv (pre.n/2, pb.d, pb.n); return attempt (what, [&] { a.splice (a.iat (pre.n/2), b); });
	    case NVOPS+4: what = "remove"; cls = ANY; post.n = 0; for (int i = 0; i < pre.n; ++i) if (pre.d[i] != val (t)) post.push (pre.d[i]); return attempt (what, [&] { a.remove (t); });
	    case NVOPS+5: what = "unique"; cls = ANY; post.n = 0; for (int i = 0; i < pre.n; ++i) if (!post.n || pre.d[i] != post.d[post.n-1]) post.push (pre.d[i]); return attempt (what, [&] { a.unique(); });
	    default: what = "reverse"; cls = ANY; for (int i = 0; i < pre.n; ++i) post.d[i] = pre.d[pre.n-1-i]; return attempt (what, [&] { a.reverse(); });
	}
    }
};
template <class C> static void seqop (int o, C& a, C& b, int step)
{
    typedef typename C::value_type T; const char* what = ""; int r = 0, cls = KEEP, n = a.size(), mid = n/2;
    const Seq pre = got (a), pb = got (b); Seq post = pre;
    {
	T t = MK (T, 50+step), u = MK (T, 50+step); const int v = 50+step;
	switch (o) {
	    case 0: what = "push_back"; cls = GROW; post.push (v); r = attempt (what, [&] { a.push_back (t); }); break;
	    case 1: what = "push_back of an rvalue"; cls = GROW; post.push (v); r = attempt (what, [&] { a.push_back (move (t)); }); break;
	    case 2: what = "emplace_back"; cls = GROW; post.push (v); r = attempt (what, [&] { a.emplace_back (t); }); break;
	    case 3: what = "insert"; cls = GROW; post.ins (mid, v); r = attempt (what, [&] { a.insert (a.iat (mid), t); }); break;
	    case 4: what = "insert of 2 copies"; cls = GROW; post.ins (mid, v, 2); r = attempt (what, [&] { a.insert (a.iat (mid), 2, t); }); break;
	    case 5: what = "insert of a range"; cls = GROW; post.insv (mid, pb.d, pb.n); r = attempt (what, [&] { a.insert (a.iat (mid), b.begin(), b.end()); }); break;
	    case 6: what = "emplace"; cls = GROW; post.ins (0, v); r = attempt (what, [&] { a.emplace (a.begin(), t); }); break;
	    case 7: what = "insert of an rvalue"; cls = GROW; post.ins (mid, v); r = attempt (what, [&] { a.insert (a.iat (mid), move (t)); }); break;
	    case 8: what = "resize"; cls = GROW; post.ins (n, 0, 2); r = attempt (what, [&] { a.resize (n+2); }); break;
	    case 9: what = "resize with a value"; cls = GROW; post.ins (n, v, 3); r = attempt (what, [&] { a.resize (n+3, t); }); break;
	    case 10: what = "assign of copies"; cls = ANY; post.n = 0; post.ins (0, v, 3); r = attempt (what, [&] { a.assign (3, t); }); break;
	    case 11: what = "assign of a range"; cls = ANY; post = pb; r = attempt (what, [&] { a.assign (b.begin(), b.end()); }); break;
	    case 12: what = "assignment"; cls = ANY; post = pb; r = attempt (what, [&] { a = b; }); break;
	    case 13: what = "copy construction"; r = attempt (what, [&] { C c (a); armed = false; MC_CHECK (got (c) == pre, "the copy is %s, expected %s", got (c).str(), pre.str()); }); break;
	    case 14: what = "construction from a range"; post = pb; r = attempt (what, [&] { C c (b.begin(), b.end()); a.swap (c); }); break;
	    case 15: what = "construction of copies"; post.n = 0; post.ins (0, v, 3); r = attempt (what, [&] { C c (3, t); a.swap (c); }); break;
	    case 16: what = "construction from a list"; post.n = 0; post.ins (0, v, 2); r = attempt (what, [&] { C c { t, u }; a.swap (c); }); break;
	    case 17: what = "reserve"; r = attempt (what, [&] { a.reserve (n+5); }); break;
	    case 18: what = "shrink_to_fit"; r = attempt (what, [&] { a.shrink_to_fit(); }); break;
	    case 19: what = "shrinking"; cls = ANY; if (n) --post.n; r = attempt (what, [&] { a.resize (n ? n-1 : 0); }); break;
	    case 20: what = "erase"; cls = ANY; if (n) post.del (mid); r = attempt (what, [&] { if (n) a.erase (a.iat (mid)); }); break;
	    case 21: what = "move assignment"; cls = ANY; post = pb; r = attempt (what, [&] { a = move (b); }); break;
	    case 22: what = "clear"; cls = ANY; post.n = 0; r = attempt (what, [&] { a.clear(); }); break;
	    case 23: what = "insert of a list"; cls = GROW; post.ins (mid, v, 2); r = attempt (what, [&] { a.insert (a.iat (mid), { t, u }); }); break;
	    case 24: what = "sort"; cls = ANY; post.sort(); r = attempt (what, [&] { sort (a.begin(), a.end()); }); break;
	    case 25: what = "construction of a size"; post.n = 0; post.ins (0, 0, 3); r = attempt (what, [&] { C c (3); a.swap (c); }); break;
	    case 26: what = "move construction"; r = attempt (what, [&] { C c (move (a)); a.swap (c); }); break;
	    default: r = ListOps<C>::run (o, a, b, t, pre, pb, post, cls, what);
	}
    }
    judge (what, cls, r, pre, post, got (a));
    if (r && o != 21 && o != 24 && o < NVOPS) MC_CHECK (got (b) == pb, "%s failed, and changed its source from %s to %s", what, pb.str(), got (b).str());
    livecheck (what, a.size()+b.size(), (const T*) 0);
    mc_state (mc_mix (got (a).hash(), o));
}
template <class C> static void seqs (int nops, int first)
{
    typedef typename C::value_type T;
    X::reset(); faults_reset();
    {
	C a, b; const int na = mc_choose (3); for (int i = 0; i < na*2; ++i) a.push_back (MK (T, i+1)); for (int i = 0; i < 2; ++i) b.push_back (MK (T, 20+i));
	X::cmpfaults = mc_choose (2);
	const int D = MC_TIER (2, 3);
	for (int s = 0; s < D; ++s) { seqop (s ? mc_choose (nops) : first, a, b, s); }
	a.push_back (MK (T, 99)); b.insert (b.begin(), MK (T, 98)); MC_CHECK (val (a.back()) == 99 && val (b.front()) == 98, "the container is not usable afterwards");
    }
    MC_CHECK (X::nlive == 0, "%d elements were never destroyed", X::nlive); mc_heap_ask = 0;
    if (mc_want_sample()) mc_sample ("history of %d operations from operation %d", MC_TIER (2, 3), first);
}
MC_SCENARIO_F (vectors, NVOPS, NVOPS, 2, 2, 0) { seqs<vector<X> > (NVOPS, shard); }
MC_SCENARIO_F (lists, NLOPS, NLOPS, 2, 2, 0) { seqs<list<X> > (NLOPS, shard); }
MC_SCENARIO_F (string_vectors, NVOPS, NVOPS, 1, 2, 0) { seqs<vector<string> > (NVOPS, shard); }
MC_SCENARIO_F (string_lists, NLOPS, NLOPS, 1, 2, 0) { seqs<list<string> > (NLOPS, shard); }
// ---- sets and maps ------------------------------------------------------------
template <class T> struct El { static int code (const T& t) { return val (t); } static T make (int k) { return MK (T, k); } static int mcode (int k) { return k; } static const T& key (const T& t) { return t; } enum { per = 1 }; };
template <class K, class V> struct El<pair<K,V> > { typedef pair<K,V> P; static int code (const P& t) { return val (t.first)*1000 + val (t.second); } static P make (int k) { return P (MK (K, k), MK (V, k+7)); } static int mcode (int k) { return k*1000+k+7; } static const K& key (const P& t) { return t.first; } enum { per = 2 }; };
template <class C> struct Multi { enum { v = 0 }; };
template <class T> struct Multi<multiset<T> > { enum { v = 1 }; };
template <class K, class V> struct Multi<multimap<K,V> > { enum { v = 1 }; };
template <class C> static Seq codes (const C& c) { Seq s; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) s.push (El<typename C::value_type>::code (*i)); return s; }
static void madd (Seq& s, int c, int per, bool multi) { int d = per > 1 ? 1000 : 1, i = 0; while (i < s.n && s.d[i]/d <= c/d) { if (s.d[i]/d == c/d && !multi) return; ++i; } s.ins (i, c); }
template <class C> struct Sub { static int run (C&, const typename C::value_type&) { return -1; } };
template <class K, class V> struct Sub<map<K,V> > { static int run (map<K,V>& a, const pair<K,V>& t) { return attempt ("operator[]", [&] { a[t.first]; }); } };
static void alive (const char* what, unsigned n, const X*) { livecheck (what, n, (const X*) 0); }
static void alive (const char* what, unsigned n, const pair<X,X>*) { livecheck (what, 2*n, (const X*) 0); }
template <class T> static void alive (const char*, unsigned, const T*) {}
enum { NAOPS = 20 };
template <class C> static void assocop (int o, C& a, C& b, int step)
{
    typedef typename C::value_type T; typedef El<T> L; const char* what = ""; int r = 0, cls = KEEP; const bool mu = Multi<C>::v; const int per = L::per;
    const Seq pre = codes (a), pb = codes (b); Seq post = pre;
    {
	const int v = 12+step*10, w = 5; T t = L::make (v), u = L::make (w), x = pre.n ? L::make (per > 1 ? pre.d[0]/1000 : pre.d[0]) : t; const int xc = pre.n ? L::code (x) : L::mcode (v);
	switch (o) {
	    case 0: what = "insert"; cls = GROW; madd (post, L::mcode (v), per, mu); r = attempt (what, [&] { a.insert (t); }); break;
	    case 1: what = "insert of an rvalue"; cls = GROW; madd (post, L::mcode (v), per, mu); r = attempt (what, [&] { a.insert (move (t)); }); break;
	    case 2: what = "insert with a hint"; cls = GROW; madd (post, L::mcode (v), per, mu); r = attempt (what, [&] { a.insert (a.begin(), T (t)); }); break;
	    case 3: what = "emplace"; cls = GROW; madd (post, L::mcode (v), per, mu); r = attempt (what, [&] { a.emplace (t); }); break;
	    case 4: what = "push_back"; cls = GROW; madd (post, L::mcode (w), per, mu); r = attempt (what, [&] { a.push_back (u); }); break;
	    case 5: what = "insert of a range"; cls = GROW; for (int i = 0; i < pb.n; ++i) madd (post, pb.d[i], per, mu); r = attempt (what, [&] { a.insert (b.begin(), b.end()); }); break;
	    case 6: what = "insert of a list"; cls = GROW; madd (post, L::mcode (v), per, mu); madd (post, L::mcode (w), per, mu); r = attempt (what, [&] { a.insert ({ t, u }); }); break;
	    case 7: what = "erase by key"; cls = ANY; post.n = 0; for (int i = 0; i < pre.n; ++i) if (per > 1 ? pre.d[i]/1000 != xc/1000 : pre.d[i] != xc) post.push (pre.d[i]); r = attempt (what, [&] { a.erase (L::key (x)); }); break;
	    case 8: what = "erase"; cls = ANY; if (pre.n) post.del (0); r = attempt (what, [&] { if (!a.empty()) a.erase (a.begin()); }); break;
	    case 9: what = "assignment"; cls = ANY; post = pb; r = attempt (what, [&] { a = b; }); break;
	    case 10: what = "copy construction"; r = attempt (what, [&] { C c (a); armed = false; MC_CHECK (codes (c) == pre, "the copy is %s, expected %s", codes (c).str(), pre.str()); }); break;
	    case 11: what = "assign of a range"; cls = ANY; post = pb; r = attempt (what, [&] { a.assign (b.begin(), b.end()); }); break;
	    case 12: what = "construction from a list"; post.n = 0; madd (post, L::mcode (v), per, mu); madd (post, L::mcode (w), per, mu); r = attempt (what, [&] { C c { t, u }; a.swap (c); }); break;
	    case 13: what = "search"; r = attempt (what, [&] { a.find (L::key (t)); a.lower_bound (L::key (x)); a.upper_bound (L::key (x)); a.equal_range (L::key (t)); a.count (L::key (x)); }); break;
	    case 14: what = "move assignment"; cls = ANY; post = pb; r = attempt (what, [&] { a = move (b); }); break;
	    case 15: what = "clear"; cls = ANY; post.n = 0; r = attempt (what, [&] { a.clear(); }); break;
	    case 16: what = "emplace with a hint"; cls = GROW; madd (post, L::mcode (v), per, mu); r = attempt (what, [&] { a.emplace_hint (a.begin(), t); }); break;
	    case 17: what = "insert of a present key"; cls = GROW; madd (post, L::code (x), per, mu); r = attempt (what, [&] { a.insert (x); }); break;
	    case 18: what = "emplace_back"; cls = GROW; madd (post, L::mcode (w), per, mu); r = attempt (what, [&] { a.emplace_back (u); }); break;
	    case 19: what = "operator[]"; cls = GROW; r = Sub<C>::run (a, t); if (r < 0) return; madd (post, v*1000, per, false); break;
	}
    }
    const Seq now = codes (a); judge (what, cls, r, pre, post, now);
    for (int i = 1; i < now.n; ++i) { const int d = per > 1 ? 1000 : 1; MC_CHECK (mu ? now.d[i-1]/d <= now.d[i]/d : now.d[i-1]/d < now.d[i]/d, "%s%s left the container unsorted: %s", what, r ? " failed, and" : "", now.str()); }
    if (r && o != 14) MC_CHECK (codes (b) == pb, "%s failed, and changed its source from %s to %s", what, pb.str(), codes (b).str());
    alive (what, a.size()+b.size(), (const T*) 0);
    mc_state (mc_mix (now.hash(), o));
}
template <class C> static void assocs (int first)
{
    typedef typename C::value_type T; typedef El<T> L;
    X::reset(); faults_reset();
    {
	C a, b; const int na = mc_choose (3); for (int i = 0; i < na*2; ++i) a.insert (L::make (i*10+10)); b.insert (L::make (3)); b.insert (L::make (15)); b.insert (L::make (25));
	X::cmpfaults = mc_choose (2);
	const int D = MC_TIER (2, 3);
	for (int s = 0; s < D; ++s) assocop (s ? mc_choose (NAOPS) : first, a, b, s);
	a.insert (L::make (2)); MC_CHECK (L::code (*a.begin()) == L::mcode (2), "the container is not usable afterwards");
    }
    MC_CHECK (X::nlive == 0, "%d elements were never destroyed", X::nlive); mc_heap_ask = 0;
}
MC_SCENARIO_F (sets, NAOPS, NAOPS, 1, 2, 0) { assocs<set<X> > (shard); }
MC_SCENARIO_F (multisets, NAOPS, NAOPS, 1, 2, 0) { assocs<multiset<X> > (shard); }
MC_SCENARIO_F (maps, NAOPS, NAOPS, 1, 2, 0) { typedef map<X,X> M; assocs<M> (shard); }
MC_SCENARIO_F (multimaps, NAOPS, NAOPS, 1, 2, 0) { typedef multimap<X,X> M; assocs<M> (shard); }
MC_SCENARIO_F (string_sets, NAOPS, NAOPS, 1, 2, 0) { assocs<set<string> > (shard); }
MC_SCENARIO_F (string_multisets, NAOPS, NAOPS, 1, 2, 0) { assocs<multiset<string> > (shard); }
MC_SCENARIO_F (string_maps, NAOPS, NAOPS, 1, 2, 0) { typedef map<string,string> M; assocs<M> (shard); }
MC_SCENARIO_F (string_multimaps, NAOPS, NAOPS, 1, 2, 0) { typedef multimap<string,string> M; assocs<M> (shard); }
