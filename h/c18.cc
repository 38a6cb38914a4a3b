// C18: shared_ptr owned by several threads, every interleaving of its atomic operations.
#include "u.h"
#include "thr.h"
static int deaths[64], births; static const void* target0;
THR_HIDDEN static int born (void) { if (births >= 64) mc_fail ("harness error: objects"); deaths[births] = 0; return births++; }
THR_HIDDEN static void died (int id) { if (id < 0 || id >= births || deaths[id]++) mc_fail ("object %d is destroyed a second time", id); }
struct Obj { int v; int id; Obj (int n) : v (n), id (born()) {} ~Obj (void) { died (id); v = -1; } };
typedef shared_ptr<Obj> P;
enum { MAXOPS = 4, NOPS = 12 };
struct Arg { int self, n; int op[MAXOPS]; P p[2]; const P* g; int final_; };
static const char* const opname[NOPS] = { "copy and drop", "p1 = p0", "p0.reset", "p1.reset", "p1 = move (p0)", "swap", "p0.reset (new)", "read *p0", "use_count", "p1 = g", "p0 = p0", "copy through vector" };
static int nthreads;
static void body (void* vp)
{
    Arg& a = *(Arg*) vp; P &p0 = a.p[0], &p1 = a.p[1];
    for (int i = 0; i < a.n; ++i) {
	mc_note ("thread %d: %s", a.self, opname[a.op[i]]);
	switch (a.op[i]) {
	    case 0: { P t (p0); if (t) MC_CHECK (t->v == 5, "object reads %d through a copy", t->v); } break;
	    case 1: p1 = p0; break;
	    case 2: p0.reset(); break;
	    case 3: p1.reset(); break;
	    case 4: p1 = move (p0); break;
	    case 5: p0.swap (p1); break;
	    case 6: p0.reset (new Obj (5)); break;
	    case 7: if (p0) MC_CHECK (p0->v == 5, "object reads %d", p0->v); break;
	    case 8: { size_t c = p0.use_count(); MC_CHECK (p0 ? c >= 1 && c <= size_t (3*nthreads+1) : !c, "use_count is %zu", c);
		if (p0 && p1 && p0 == p1) MC_CHECK (p0.use_count() >= 2 && !p0.unique(), "this thread has two owners, use_count is %zu", p0.use_count()); } break;
	    case 9: p1 = *a.g; break;
	    case 10: { const P& r = p0; p0 = r; } break;
	    case 11: { vector<P> v (2); v[0] = p0; v[1] = v[0]; if (p0) MC_CHECK (v[1]->v == 5, "object reads %d", v[1]->v); } break;
	}
    }
    if (p0) MC_CHECK (p0->v == 5, "object reads %d at the end", p0->v);
    if (a.final_ & 1) p0.reset();
    if (a.final_ & 2) p1.reset();
}
static void one (int nt, Arg* a, bool mainowns)
{
    thr_reset(); births = 0; nthreads = nt;
    bool full;
    {
	P g (new Obj (5)); static char empty[sizeof(P)]; P* none = new (empty) P;
	void* args[THR_MAX];
	for (int i = 0; i < nt; ++i) { a[i].self = i; a[i].p[0] = g; a[i].g = mainowns ? &g : none; args[i] = &a[i]; }
	if (!mainowns) g.reset();
	full = thr_run (nt, body, args);
	if (mainowns) MC_CHECK (!deaths[0] && g->v == 5, "the object is destroyed while the main thread owns it");
	size_t own = mainowns; for (int i = 0; i < nt; ++i) for (int k = 0; k < 2; ++k) own += a[i].p[k] && a[i].p[k]->id == 0;
	if (own) MC_CHECK (!deaths[0], "the object is destroyed with %zu owners left", own);
	if (mainowns) MC_CHECK (g.use_count() == own, "use_count is %zu, there are %zu owners", g.use_count(), own);
	for (int i = 0; i < nt; ++i) for (int k = 0; k < 2; ++k) a[i].p[k].reset();
	if (mainowns) MC_CHECK (g.unique() && !deaths[0], "after the threads released it the object has %zu owners", g.use_count());
    }
    for (int i = 0; i < births; ++i) MC_CHECK (deaths[i] == 1, "object %d is destroyed %d times", i, deaths[i]);
    mc_steps (thr_ops()); if (full) mc_outcome (mc_hash (births, a[0].op, sizeof(a[0].op)) ^ mc_hash (nt, a[1].op, sizeof(a[1].op)));
}
static void pick (Arg& a, int n, int first)
{
    a.n = n; memset (a.op, 0, sizeof(a.op));
    for (int i = 0; i < n; ++i) a.op[i] = i || first < 0 ? mc_choose (NOPS) : first;
    a.final_ = 3;
}
// two threads, the second's program not before the first's (they are symmetric)
MC_SCENARIO (two, 24)
{
    Arg a[2]; int n = MC_TIER (2, 3);
    pick (a[0], n, shard/2); pick (a[1], n, -1);
    if (memcmp (a[0].op, a[1].op, sizeof(a[0].op)) > 0) return;
    mc_state (mc_hash (shard, a[1].op, sizeof(a[1].op)) ^ mc_hash (1, a[0].op, sizeof(a[0].op)));
    one (2, a, shard & 1);
    if (mc_want_sample()) mc_sample ("thread 0: %s, %s; thread 1: %s, %s: %llu operations interleaved", opname[a[0].op[0]], opname[a[0].op[1]], opname[a[1].op[0]], opname[a[1].op[1]], (unsigned long long) thr_ops());
}
MC_SCENARIO (three, 24)
{
    Arg a[3]; pick (a[0], 1, shard/2); pick (a[1], 1, -1); pick (a[2], MC_TIER (0, 1), -1);
    mc_state (shard*1000 + a[1].op[0]*20 + a[2].op[0]);
    one (3, a, shard & 1);
}
// threads that leave their pointers to the main thread
MC_SCENARIO (leaving, 24)
{
    Arg a[2]; pick (a[0], MC_TIER (1, 2), shard/2); pick (a[1], MC_TIER (1, 2), -1); a[0].final_ = mc_choose (4); a[1].final_ = mc_choose (4);
    mc_state (shard*1000 + a[1].op[0]*20 + a[0].final_*4 + a[1].final_);
    one (2, a, shard & 1);
}
