// C17: smart pointers and scope guards against a model of slots that own objects.
#include "u.h"

//--- model: variables 0..NV-1, each object has one outgoing slot, one raw slot
enum { NV = 3, MAXO = 24, RAW = NV };
struct Own {
    int var[NV+1]; int next[MAXO]; bool live[MAXO]; int n;
    void init (void) { n = 0; for (int i = 0; i <= NV; ++i) var[i] = -1; }
    int& slot (int s) { return s > RAW ? next[s-RAW-1] : var[s]; }
    int refs (int o) const { int r = 0; for (int i = 0; i <= NV; ++i) r += var[i] == o; for (int i = 0; i < n; ++i) r += live[i] && next[i] == o; return r; }
    int mk (void) { if (n >= MAXO) mc_fail ("harness error: too many objects"); next[n] = -1; live[n] = true; return n++; }
    void lost (int o) { if (o < 0 || !live[o] || refs (o)) return; live[o] = false; int x = next[o]; lost (x); }
    void put (int s, int o) { int old = slot (s); slot (s) = o; lost (old); }
    int take (int s) { int o = slot (s); slot (s) = -1; return o; }
    bool reaches (int from, int to) const { for (int k = 0; from >= 0 && k < MAXO; ++k) { if (from == to) return true; from = next[from]; } return false; }
    static int nextof (int o) { return RAW+1+o; }
    uint64_t hash (void) const { uint64_t h = 1; for (int i = 0; i <= NV; ++i) { h = mc_mix (h, 77); for (int o = var[i]; o >= 0; o = next[o]) { int f = 0; for (int j = 0; j <= NV; ++j) if (var[j] == o) f |= 1<<j; h = mc_mix (h, mc_mix (f, refs (o))); } } return h; }
};
static Own M; static bool alive[MAXO]; static int nalive;
struct Base {
    int id;
    Base (int i) : id (i) { alive[i] = true; ++nalive; }
    ~Base (void) {
	if (id < 0 || id >= MAXO || !alive[id]) mc_fail ("object %d is deleted a second time", id);
	if (M.live[id]) mc_fail ("object %d is deleted while it still has an owner", id);
	alive[id] = false; --nalive; id = -1;
    }
};
template <template <class> class P> struct Node : public Base { P<Node> next; Node (int i) : Base (i), next() {} };

template <template <class> class P> struct Kind;
template <> struct Kind<auto_ptr> {
    typedef Node<auto_ptr> N; typedef auto_ptr<N> Q; enum { SHARED = 0, RELEASE = 1 };
    static const char* name (void) { return "auto_ptr"; }
    static void mv (Q& d, Q& s) { d = s; }
    static void cp (Q&, Q&) {}
    static void mvc (void* d, Q& s) { new (d) Q (s); }
    static void cpc (void*, Q&) {}
    static N* rel (Q& q) { return q.release(); }
    static void clear (Q& q) { q.reset (nullptr); }
    static void sw (Q& a, Q& b, int) { Q t (a); a = b; b = t; }
    static void same (Q& q) { q.reset (q.get()); }
    static void more (const Q&, int) {}
    static void more2 (const Q&, const Q&) {}
};
template <> struct Kind<unique_ptr> {
    typedef Node<unique_ptr> N; typedef unique_ptr<N> Q; enum { SHARED = 0, RELEASE = 1 };
    static const char* name (void) { return "unique_ptr"; }
    static void mv (Q& d, Q& s) { d = move (s); }
    static void cp (Q&, Q&) {}
    static void mvc (void* d, Q& s) { new (d) Q (move (s)); }
    static void cpc (void*, Q&) {}
    static N* rel (Q& q) { return q.release(); }
    static void clear (Q& q) { q.reset(); }
    static void sw (Q& a, Q& b, int how) { if (how) ::ustl::swap (a, b); else a.swap (b); }
    static void same (Q& q) { Q t (q.release()); q = move (t); }
    static void more (const Q& q, int o) {
	MC_CHECK (bool (q) == (o >= 0), "unique_ptr: conversion to bool is %d", bool (q));
	MC_CHECK ((q != (N*) nullptr) == (o >= 0), "unique_ptr: != nullptr is wrong");
	if (o >= 0) MC_CHECK (&q[0] == q.get() && !(q != q.get()), "unique_ptr: [0] or != is wrong");
    }
    static void more2 (const Q&, const Q&) {}
};
template <> struct Kind<shared_ptr> {
    typedef Node<shared_ptr> N; typedef shared_ptr<N> Q; enum { SHARED = 1, RELEASE = 0 };
    static const char* name (void) { return "shared_ptr"; }
    static void mv (Q& d, Q& s) { d = move (s); }
    static void cp (Q& d, Q& s) { const Q& c = s; d = c; }
    static void mvc (void* d, Q& s) { new (d) Q (move (s)); }
    static void cpc (void* d, Q& s) { const Q& c = s; new (d) Q (c); }
    static N* rel (Q&) { return nullptr; }
    static void clear (Q& q) { q.reset(); }
    static void sw (Q& a, Q& b, int how) { if (how) ::ustl::swap (a, b); else a.swap (b); }
    static void same (Q& q) { Q t (q); q = t; }
    static void more (const Q& q, int o) {
	MC_CHECK (bool (q) == (o >= 0), "shared_ptr: conversion to bool is %d", bool (q));
	MC_CHECK ((q != (N*) nullptr) == (o >= 0), "shared_ptr: != nullptr is wrong");
	size_t r = o >= 0 ? M.refs (o) : 0;
	MC_CHECK (q.use_count() == r, "shared_ptr: use_count is %zu with %zu owners", size_t (q.use_count()), r);
	MC_CHECK (q.unique() == (r == 1), "shared_ptr: unique is %d with %zu owners", q.unique(), r);
	if (o >= 0) MC_CHECK (&q[0] == q.get() && !(q != q.get()), "shared_ptr: [0] or != is wrong");
    }
    static void more2 (const Q&, const Q&) {}
};

template <template <class> class P> struct Drv {
    typedef Kind<P> K; typedef typename K::N N; typedef typename K::Q Q;
    char buf[NV][sizeof(Q)]; N* raw; N* obj[MAXO]; int nv;
    Q& v (int i) { return *(Q*) buf[i]; }
    N* mk (void) { int o = M.mk(); return obj[o] = new N (o); }
    void one (const Q& q, int o, const char* what, int i) {
	const Q& c = q;
	MC_CHECK (c.get() == (o < 0 ? nullptr : obj[o]), "%s: %s %d does not hold object %d", K::name(), what, i, o);
	if (o >= 0) MC_CHECK (&*c == c.get() && c.operator->() == c.get() && c->id == o, "%s: dereferences wrong", K::name());
	MC_CHECK (c == c.get() && (o < 0) == (c == (N*) nullptr), "%s: == with a pointer is wrong", K::name());
	K::more (c, o);
    }
    void check (void) {
	int nl = 0;
	for (int i = 0; i < M.n; ++i) {
	    nl += M.live[i];
	    MC_CHECK (alive[i] == M.live[i], "%s: object %d is %s", K::name(), i, alive[i] ? "not deleted though its last owner is gone" : "deleted though it has an owner");
	}
	MC_CHECK (nl == nalive, "harness error: %d %d", nl, nalive);
	for (int i = 0; i < nv; ++i) one (v(i), M.var[i], "pointer", i);
	for (int i = 0; i < M.n; ++i) if (M.live[i]) one (obj[i]->next, M.next[i], "member of object", i);
	for (int i = 0; i < nv; ++i) for (int j = 0; j < nv; ++j) {
	    const Q &a = v(i), &b = v(j);
	    MC_CHECK ((a == b) == (M.var[i] == M.var[j]), "%s: == of pointers %d and %d is wrong", K::name(), i, j);
	    MC_CHECK ((a < b) == (a.get() < b.get()), "%s: < of pointers %d and %d is wrong", K::name(), i, j);
	}
    }
    int nops (void) const { return nv*(8 + 3*nv) + nv*nv*4 + 3; }
    bool step (int op) {	// false if it does not apply
	const int n1 = nv, n2 = nv*nv;
	if (op < n1) { int i = op; mc_note ("p%d.reset (new object %d)", i, M.n); N* p = mk(); M.put (i, p->id); v(i).reset (p); return true; } op -= n1;
	if (op < n1) { int i = op; mc_note ("p%d = new object %d", i, M.n); N* p = mk(); M.put (i, p->id); v(i) = p; return true; } op -= n1;
	if (op < n1) { int i = op; mc_note ("p%d.reset()", i); M.put (i, -1); K::clear (v(i)); return true; } op -= n1;
	if (op < n1) { int i = op; mc_note ("p%d = null pointer", i); M.put (i, -1); v(i) = (N*) nullptr; return true; } op -= n1;
	if (op < n2) { int i = op/n1, j = op%n1; mc_note ("p%d = move (p%d)", i, j); int o = M.take (j); M.put (i, o); K::mv (v(i), v(j)); return true; } op -= n2;
	if (op < n2) { int i = op/n1, j = op%n1; if (!K::SHARED) return false; mc_note ("p%d = p%d", i, j); M.put (i, M.var[j]); K::cp (v(i), v(j)); return true; } op -= n2;
	if (op < n2) { int i = op/n1, j = op%n1; if (i == j) return false; mc_note ("destroy p%d and construct it from move (p%d)", i, j); M.put (i, -1); v(i).~Q(); M.var[i] = M.take (j); K::mvc (buf[i], v(j)); return true; } op -= n2;
	if (op < n2) { int i = op/n1, j = op%n1; if (i == j || !K::SHARED) return false; mc_note ("destroy p%d and construct it from p%d", i, j); M.put (i, -1); v(i).~Q(); M.var[i] = M.var[j]; K::cpc (buf[i], v(j)); return true; } op -= n2;
	if (op < n2) { int i = op/n1, j = op%n1; mc_note ("swap p%d p%d %s", i, j, i <= j ? "member" : "function"); int t = M.var[i]; M.var[i] = M.var[j]; M.var[j] = t; K::sw (v(i), v(j), i > j); return true; } op -= n2;
	// chains
	if (op < n2) { int i = op/n1, j = op%n1, o = M.var[i]; if (o < 0 || i == j || M.reaches (M.var[j], o)) return false;
	    mc_note ("p%d->next = move (p%d)", i, j); int x = M.take (j); M.put (Own::nextof(o), x); K::mv (v(i)->next, v(j)); return true; } op -= n2;
	if (op < n2) { int i = op/n1, j = op%n1, o = M.var[i]; if (o < 0 || !K::SHARED || M.reaches (M.var[j], o)) return false;
	    mc_note ("p%d->next = p%d", i, j); M.put (Own::nextof(o), M.var[j]); K::cp (v(i)->next, v(j)); return true; } op -= n2;
	if (op < n1) { int i = op, o = M.var[i]; if (o < 0) return false; mc_note ("p%d = move (p%d->next)", i, i); int x = M.take (Own::nextof(o)); M.put (i, x); K::mv (v(i), v(i)->next); return true; } op -= n1;
	if (op < n1) { int i = op, o = M.var[i]; if (o < 0 || !K::SHARED) return false; mc_note ("p%d = p%d->next", i, i); M.put (i, M.next[o]); K::cp (v(i), v(i)->next); return true; } op -= n1;
	// ownership given up and taken again
	if (op < n1) { int i = op; if (!K::RELEASE || M.var[RAW] >= 0) return false; mc_note ("raw = p%d.release()", i); int o = M.take (i); M.var[RAW] = o; raw = K::rel (v(i)); MC_CHECK (raw == (o < 0 ? nullptr : obj[o]), "%s: release returns another pointer", K::name()); return true; } op -= n1;
	if (op < n1) { int i = op; if (M.var[RAW] < 0) return false; mc_note ("p%d.reset (raw)", i); int o = M.take (RAW); M.put (i, o); v(i).reset (raw); raw = nullptr; return true; } op -= n1;
	if (op < 1) { if (M.var[RAW] < 0) return false; mc_note ("delete raw"); M.put (RAW, -1); delete raw; raw = nullptr; return true; } op -= 1;
	if (op < 1) { mc_note ("reset p0 to what it has"); K::same (v(0)); return true; } op -= 1;
	if (op < 1) { mc_note ("temporary from move (p0), dropped"); M.put (0, -1); char b[sizeof(Q)]; K::mvc (b, v(0)); ((Q*) b)->~Q(); return true; } op -= 1;
	return false;
    }
    void run (int first, int n, int depth) {
	nv = n; raw = nullptr; nalive = 0; M.init(); memset (alive, 0, sizeof(alive));
	for (int i = 0; i < nv; ++i) new (buf[i]) Q;
	check();
	for (int s = 0; s < depth; ++s) {
	    if (!step (s ? mc_choose (nops()) : first % nops())) break;	// a shorter history, explored as such
	    mc_step(); mc_state (M.hash()); check();
	}
	if (mc_want_sample()) mc_sample ("%s: %d objects made, %d alive before the end", K::name(), M.n, nalive);
	for (int i = 0; i < nv; ++i) { M.put (i, -1); v(i).~Q(); }
	if (raw) { M.put (RAW, -1); delete raw; }
	MC_CHECK (!nalive, "%s: %d objects are never deleted", K::name(), nalive);
    }
};
MC_SCENARIO (auto2, 64) { Drv<auto_ptr> d; if (shard < 59) d.run (shard, 2, MC_TIER (5, 6)); }
MC_SCENARIO (unique2, 64) { Drv<unique_ptr> d; if (shard < 59) d.run (shard, 2, MC_TIER (5, 6)); }
MC_SCENARIO (shared2, 64) { Drv<shared_ptr> d; if (shard < 59) d.run (shard, 2, MC_TIER (5, 6)); }
MC_SCENARIO (auto3, 128) { Drv<auto_ptr> d; d.nv = 3; if (shard < d.nops()) d.run (shard, 3, MC_TIER (4, 5)); }
MC_SCENARIO (unique3, 128) { Drv<unique_ptr> d; d.nv = 3; if (shard < d.nops()) d.run (shard, 3, MC_TIER (4, 5)); }
MC_SCENARIO (shared3, 128) { Drv<shared_ptr> d; d.nv = 3; if (shard < d.nops()) d.run (shard, 3, MC_TIER (4, 5)); }

//--- arrays
static int acount, amade;
struct A { int v; A (void) : v (7) { ++acount; ++amade; } ~A (void) { MC_CHECK (v == 7, "an array element is destroyed twice"); v = 0; --acount; } };
MC_SCENARIO (arrays, 12)
{
    typedef unique_ptr<A[]> Q; acount = 0; int want[2] = { 0, 0 }; A* p[2] = { nullptr, nullptr };
    {
	Q q[2];
	int depth = MC_TIER (4, 5);
	for (int s = 0; s < depth; ++s) {
	    int op = s ? mc_choose (12) : shard, i = op & 1, j = !i;
	    switch (op>>1) {
		case 0: { int n = mc_range (0, 3); mc_note ("q%d.reset (new A[%d])", i, n); p[i] = new A[n]; want[i] = n; q[i].reset (p[i]); } break;
		case 1: { mc_note ("q%d = move (q%d)", i, j); q[i] = move (q[j]); want[i] = want[j]; p[i] = p[j]; want[j] = 0; p[j] = nullptr; } break;
		case 2: { mc_note ("swap"); if (i) q[0].swap (q[1]); else ::ustl::swap (q[0], q[1]); ::ustl::swap (want[0], want[1]); ::ustl::swap (p[0], p[1]); } break;
		case 3: { mc_note ("q%d.release, delete[]", i); A* r = q[i].release(); MC_CHECK (r == p[i] && !q[i].get(), "release of an array"); delete [] r; p[i] = nullptr; want[i] = 0; } break;
		case 4: { mc_note ("q%d = make_unique<A[]>", i); int n = mc_range (0, 3); q[i] = make_unique<A[]> (n); p[i] = q[i].get(); want[i] = n; } break;
		case 5: { mc_note ("q%d = null", i); if (mc_choose (2)) q[i] = (A*) nullptr; else { Q t (move (q[i])); MC_CHECK (t.get() == p[i] && !q[i], "move construction of an array"); } p[i] = nullptr; want[i] = 0; } break;
	    }
	    mc_step(); mc_state (want[0]*8+want[1]);
	    MC_CHECK (acount == want[0]+want[1], "%d array elements alive, expected %d", acount, want[0]+want[1]);
	    for (int k = 0; k < 2; ++k) {
		const Q& c = q[k];
		MC_CHECK (c.get() == p[k] && bool (c) == !!p[k] && c == p[k] && !(c != p[k]) && (c < q[!k]) == (p[k] < p[!k]), "array pointer %d reports wrong", k);
		for (int e = 0; e < want[k]; ++e) MC_CHECK (c[e].v == 7 && &c[e] == p[k]+e, "array element %d", e);
		if (want[k]) MC_CHECK (&*c == p[k] && c->v == 7, "array dereference");
	    }
	}
    }
    MC_CHECK (!acount, "%d array elements are never destroyed", acount);
}

//--- more owners than 8 and 16 bits count
struct Once { static int alive; Once (void) { ++alive; } ~Once (void) { --alive; } }; int Once::alive;
MC_SCENARIO (many_owners, 4)
{
    static const int N[] = { 255, 257, 65537, 70001 }; const int n = N[shard], order = mc_choose (3); Once::alive = 0;
    {
	shared_ptr<Once> p (new Once); { vector<shared_ptr<Once> > v (n, p); mc_at ("%d owners, order %d", n, order);
	MC_CHECK (p.use_count() == n+1 && Once::alive == 1 && !p.unique(), "%d owners are counted as %ld", n+1, long(p.use_count()));
	if (order == 2) { p.reset(); MC_CHECK (Once::alive == 1, "released with %d owners left", n); }
	for (int i = 0; i < n; ++i) { shared_ptr<Once>& q = v[order ? n-1-i : i]; MC_CHECK (q.use_count() == n-i+(order != 2), "%d owners are counted as %ld", n-i+(order != 2), long(q.use_count())); q.reset(); MC_CHECK (Once::alive == (order != 2 || i < n-1), "alive %d with %d owners left", Once::alive, n-1-i+(order != 2)); } }
	mc_step();
    }
    MC_CHECK (!Once::alive, "never released"); mc_state (mc_mix (n, order));
    for (int k = 0; k < 1; ++k) { unique_ptr<Once[]> a = make_unique<Once[]> (n); MC_CHECK (Once::alive == n, "%d of %d made", Once::alive, n); for (int i = 0; i < n; ++i) MC_CHECK (&a[i] == a.get()+i, "[%d] of %d", i, n); a.reset(); MC_CHECK (!Once::alive, "%d of %d left", Once::alive, n); }
}
//--- making an object fails at every point
struct Thrower { static int n, at; char pad[24]; Thrower (int = 0) { if (n == at) throw 5; ++n; } ~Thrower (void) { --n; } };
int Thrower::n, Thrower::at;
MC_SCENARIO (failing, 9)
{
    Thrower::n = 0; Thrower::at = mc_range (-1, 3); long k = mc_range (-1, 2); bool thrown = false; long live0 = mc_heap_live();
    {
	shared_ptr<Thrower> a; unique_ptr<Thrower> u; unique_ptr<Thrower[]> ua; bool had = mc_choose (2);
	if (had) { if (Thrower::at == 0 || Thrower::at == 1) return; a.reset (new Thrower); u.reset (new Thrower); }
	Thrower *pa = a.get(), *pu = u.get(); int n0 = Thrower::n;
	mc_heap_fail_at (k);
	int what = shard; Thrower* t = nullptr;
	try {
	    switch (what) {
		case 0: a = make_shared<Thrower> (1); break;
		case 1: u = make_unique<Thrower> (1); break;
		case 2: ua = make_unique<Thrower[]> (3); break;
		case 3: t = new Thrower; a.reset (t); break;
		case 4: t = new Thrower; a = t; break;
		case 5: { t = new Thrower; shared_ptr<Thrower> b (t); a = b; } break;
		case 6: a = shared_ptr<Thrower> (new Thrower); break;
		case 7: { shared_ptr<Thrower> b (a); a.reset (new Thrower); } break;
		case 8: { shared_ptr<Thrower> b (a), c; c = b; a = c; } break;
	    }
	} catch (int) { thrown = true; } catch (ustl::exception& e) { thrown = true; } catch (...) { thrown = true; }
	mc_heap_fail_at (-1);
	mc_step(); mc_state (what*4+thrown*2+had);
	if (thrown) MC_CHECK (a.get() == pa && u.get() == pu && Thrower::n == n0, "operation %d: after a failure pointers changed or %d objects are left, %d before", what, Thrower::n, n0);
	else MC_CHECK (a.use_count() == !!a, "operation %d: use count %zu", what, size_t (a.use_count()));
    }
    MC_CHECK (!Thrower::n, "%d objects are never deleted", Thrower::n);
    (void) live0;
}

//--- scope guards
static int fired[8];
struct Fn {	// a function object that knows whether it was moved from
    int k; Fn (int n) : k (n) {} Fn (Fn&& f) : k (f.k) { f.k = -1; } Fn (const Fn& f) : k (f.k) {}
    void operator() (void) const { if (k < 0) mc_fail ("a guard calls a function it was moved from"); ++fired[k]; }
};
MC_SCENARIO (scope_guards, 1)
{
    memset (fired, 0, sizeof(fired)); int want[3] = {0,0,0};
    typedef scope_exit<Fn> G; char b[3][sizeof(G)]; int k[3] = {-1,-1,-1}; bool on[3] = {}; bool there[3] = {}; int fresh = 0;
    #define G_(i) (*(G*) b[i])
    for (int s = 0; s < 6; ++s) {
	int op = mc_choose (4), i = mc_choose (3);
	switch (op) {
	    case 0: if (there[i] || fresh == 3) return; mc_note ("g%d made with function %d", i, fresh); if (mc_choose (2)) new (b[i]) G (Fn (fresh)); else new (b[i]) G (make_scope_exit (Fn (fresh))); k[i] = fresh++; on[i] = there[i] = true; break;
	    case 1: { int j = mc_choose (3); if (!there[i] || there[j]) return; mc_note ("g%d made from move (g%d)", j, i); new (b[j]) G (move (G_(i))); k[j] = k[i]; on[j] = on[i]; there[j] = true; on[i] = false; } break;
	    case 2: if (!there[i]) return; mc_note ("g%d.release()", i); G_(i).release(); on[i] = false; break;
	    case 3: if (!there[i]) return; mc_note ("destroy g%d", i); if (on[i]) ++want[k[i]]; G_(i).~G(); there[i] = on[i] = false; break;
	}
	mc_step(); mc_state (mc_mix (mc_hash (3, on, sizeof(on)), mc_hash (5, want, sizeof(want))));
	for (int x = 0; x < 3; ++x) MC_CHECK (fired[x] == want[x], "function %d was called %d times, expected %d", x, fired[x], want[x]);
    }
    for (int i = 0; i < 3; ++i) if (there[i]) { if (on[i]) ++want[k[i]]; G_(i).~G(); }
    for (int x = 0; x < 3; ++x) MC_CHECK (fired[x] == want[x], "at the end function %d was called %d times, expected %d", x, fired[x], want[x]);
}
MC_SCENARIO (scope_unwinding, 1)
{
    // guards run in reverse order of their making, on the normal path and on unwinding
    int at = mc_range (0, 3), rel = mc_choose (8), mvd = mc_choose (2); bool caught = false;
    static char log[8]; int n = 0; memset (log, 0, sizeof(log));
    try {
	auto a = make_scope_exit ([&]{ log[n++] = 'a'; }); if (rel & 1) a.release();
	if (at == 1) throw 1;
	auto b = make_scope_exit ([&]{ log[n++] = 'b'; }); if (rel & 2) b.release();
	if (at == 2) throw 2;
	if (mvd) {
	    auto c (move (a)); if (rel & 4) c.release();
	    if (at == 3) throw 3;
	} else if (at == 3) throw 3;
    } catch (int) { caught = true; }
    char want[8] = ""; int w = 0;
    bool moved = mvd && (at == 0 || at == 3);
    if (moved && !(rel & 1) && !(rel & 4)) want[w++] = 'a';
    if (at != 1 && !(rel & 2)) want[w++] = 'b';
    if (!moved && !(rel & 1)) want[w++] = 'a';
    mc_step(); mc_state (at*16+rel*2+mvd);
    MC_CHECK (caught == !!at, "exception lost");
    MC_CHECK (!strcmp (log, want), "guards ran as '%s', expected '%s'", log, want);
}

//--- unique_resource: which resources have been released, by which deleter
static int closed[32], closedby[32];
struct Del { int tag; bool good; Del (int t) : tag (t), good (true) {} Del (Del&& d) : tag (d.tag), good (d.good) { d.good = false; } Del& operator= (Del&& d) { tag = d.tag; bool g = d.good; d.good = false; good = g; return *this; }
    void operator() (int r) const { if (!good) mc_fail ("resource %d is released by a moved-from deleter", r); ++closed[r]; closedby[r] = tag; } };
MC_SCENARIO (resources, 2)
{
    typedef unique_resource<int,Del> U; char b[2][sizeof(U)]; int r[2] = {0,1}, tag[2]; bool on[2] = {true,true}; int fresh = 2;
    memset (closed, 0, sizeof(closed)); int want[32] = {}, wantby[32] = {};
    #define U_(i) (*(U*) b[i])
    for (int i = 0; i < 2; ++i) {
	tag[i] = 10+i;
	int how = i ? 0 : mc_choose (5);
	switch (how) {
	    case 0: new (b[i]) U (int (i), Del (tag[i])); break;
	    case 1: new (b[i]) U (int (i), Del (tag[i]), false); on[i] = false; break;
	    case 2: new (b[i]) U (make_unique_resource (int (i), Del (tag[i]))); break;
	    case 3: new (b[i]) U (make_unique_resource_checked (i, -1, Del (tag[i]))); break;
	    case 4: new (b[i]) U (make_unique_resource_checked (i, i, Del (tag[i]))); on[i] = false; break;
	}
    }
    int depth = MC_TIER (5, 6);
    for (int s = 0; s < depth; ++s) {
	int i = s ? mc_choose (2) : shard, j = !i, op = mc_choose (6);
	#define WANT(x) if (on[x]) { ++want[r[x]]; wantby[r[x]] = tag[x]; }
	switch (op) {
	    case 0: mc_note ("u%d.reset()", i); WANT (i); on[i] = false; U_(i).reset(); break;
	    case 1: mc_note ("u%d.reset (%d)", i, fresh); WANT (i); on[i] = true; r[i] = fresh; U_(i).reset (int (fresh++)); break;
	    case 2: mc_note ("u%d.release()", i); on[i] = false; MC_CHECK (U_(i).release() == r[i], "release returns %d, expected %d", U_(i).get(), r[i]); break;
	    case 3: mc_note ("u%d = move (u%d)", i, j); WANT (i); on[i] = on[j]; on[j] = false; r[i] = r[j]; tag[i] = tag[j]; U_(i) = move (U_(j)); break;
	    case 4: { mc_note ("u%d destroyed and made from move (u%d)", i, j); WANT (i); U_(i).~U(); new (b[i]) U (move (U_(j))); on[i] = on[j]; on[j] = false; r[i] = r[j]; tag[i] = tag[j]; } break;
	    case 5: { mc_note ("temporary from move (u%d), dropped", i); WANT (i); on[i] = false; { U t (move (U_(i))); MC_CHECK (t.get() == r[i], "moved-to resource"); } } break;
	}
	// a moved-from one has no deleter to use any more: give it a new value
	int mf = op == 3 || op == 4 ? j : op == 5 ? i : -1;
	if (mf >= 0) { U_(mf) = U (int (fresh), Del (tag[mf] = 20+fresh)); r[mf] = fresh++; on[mf] = true; }
	mc_step(); mc_state (on[0]*2+on[1]+s*4+op*64);
	for (int x = 0; x < fresh; ++x) MC_CHECK (closed[x] == want[x] && (!closed[x] || closedby[x] == wantby[x]), "resource %d was released %d times, expected %d; by deleter %d, expected %d", x, closed[x], want[x], closedby[x], wantby[x]);
	for (int x = 0; x < 2; ++x) MC_CHECK (U_(x).get() == r[x] && int (U_(x)) == r[x] && U_(x).get_deleter().tag == tag[x], "u%d holds %d, expected %d", x, U_(x).get(), r[x]);
    }
    for (int i = 0; i < 2; ++i) { WANT (i); U_(i).~U(); }
    for (int x = 0; x < fresh; ++x) MC_CHECK (closed[x] == want[x], "at the end resource %d was released %d times, expected %d", x, closed[x], want[x]);
}
static int fp_closed;
static void fp_close (int* p) { ++fp_closed; MC_CHECK (*p == 3, "pointer resource"); delete p; }
MC_SCENARIO (pointer_resources, 1)
{
    fp_closed = 0;
    { int* p = new int (3); unique_resource<int*,void(*)(int*)> u (move (p), fp_close); MC_CHECK (*u == 3 && u.operator->() == u.get() && *(int*)u == 3, "pointer resource reads %d", *u);
      int w = mc_choose (3); if (w == 1) u.reset(); if (w == 2) delete u.release(); mc_step(); mc_state (w); MC_CHECK (fp_closed == (w == 1), "%d", fp_closed); if (w == 2) ++fp_closed; }
    MC_CHECK (fp_closed == 1, "pointer resource released %d times", fp_closed);
}

//--- a deleter that, while it is called, uses the resource that it is called for
struct ReDel { int inner; void operator() (int r) const; };
typedef unique_resource<int,ReDel> ReRes;
static ReRes* re_res; static int re_closed [4];
void ReDel::operator() (int r) const
{
    MC_CHECK (r >= 0 && r < 4, "resource %d was never given", r);
    if (++re_closed[r] > 1) mc_fail ("resource %d is released again by a deleter that uses it", r);
    ReRes& u = *re_res; MC_CHECK (u.get() == r, "the resource reads %d while %d is released", u.get(), r);
    switch (inner) { case 1: u.reset(); break; case 2: u.release(); break; case 3: { ReRes t (move (u)); } break; }
}
MC_SCENARIO (reentrant_resources, 1)
{
    memset (re_closed, 0, sizeof(re_closed)); char b[sizeof(ReRes)]; int inner = mc_choose (4), outer = mc_choose (4), kept = 0;
    re_res = new (b) ReRes (0, ReDel {inner}); ReRes& u = *re_res;
    mc_note ("deleter does %d during %d", inner, outer);
    switch (outer) {
	case 0: u.reset(); break;
	case 1: u.reset (1); kept = 1; break;
	case 2: { ReRes v (1, ReDel {inner}); u = move (v); kept = 1; } break;
	case 3: break;
    }
    if (outer < 3) MC_CHECK (re_closed[0] == 1 && u.get() == kept, "resource 0 was released %d times, and now there is %d", re_closed[0], u.get());
    MC_CHECK (!re_closed[1], "resource 1 is released early");
    u.~ReRes(); mc_step(); mc_state (inner*4+outer);
    MC_CHECK (re_closed[0] == 1 && re_closed[1] == kept, "at the end resources 0 and 1 were released %d and %d times", re_closed[0], re_closed[1]);
}

//--- an object that, while it is being deleted, uses the pointer that owned it
struct Reent { static int alive, mode; void* owner; int kind; Reent (void* o, int k) : owner (o), kind (k) { ++alive; } ~Reent (void); };
int Reent::alive, Reent::mode;
template <class Q> static void reent (Reent* self, Q& q)
{
    MC_CHECK (q.get() != self, "while an object is deleted by reset its pointer still owns it");
    int m = Reent::mode; Reent::mode = 0;
    if (m == 1) q.reset();
    else if (m == 2) q.reset (new Reent (self->owner, self->kind));
    else if (m == 3) { Q t; t.swap (q); }
    else if (m == 4) { Q t (move (q)); }
}
Reent::~Reent (void) { --alive; if (owner) { if (kind) reent (this, *(shared_ptr<Reent>*) owner); else reent (this, *(unique_ptr<Reent>*) owner); } }
template <class Q> static void reentrant (int kind)
{
    Reent::alive = 0; Reent::mode = 0;
    {
	Q q; q.reset (new Reent (&q, kind)); Reent::mode = mc_choose (5); int how = mc_choose (4); Reent* n = nullptr;
	mc_note ("mode %d how %d", Reent::mode, how); int m = Reent::mode;
	switch (how) { case 0: q.reset(); break; case 1: n = new Reent (&q, kind); q.reset (n); break; case 2: { Q e; q = move (e); } break; case 3: { n = new Reent (&q, kind); Q e (n); q = move (e); } break; }
	mc_step(); mc_state (kind*32+m*4+how);
	MC_CHECK (Reent::alive == !!q.get(), "%d objects alive, owner holds %p", Reent::alive, (void*) q.get());
	if (m == 0) MC_CHECK (q.get() == n, "holds %p, expected %p", (void*) q.get(), (void*) n);
	if (m == 2) MC_CHECK (q.get() && q.get() != n, "the object set by the destructor is lost");
	if (q.get()) q.get()->owner = nullptr;
    }
    MC_CHECK (!Reent::alive, "%d objects are never deleted", Reent::alive);
}
MC_SCENARIO (reentrant_reset, 2) { if (shard) reentrant<shared_ptr<Reent> > (1); else reentrant<unique_ptr<Reent> > (0); }
