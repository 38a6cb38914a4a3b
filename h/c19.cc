// C19: atomic<T>, atomic_flag, fences and TestAndSet under every interleaving.
#include "u.h"
#include "thr.h"
#include <signal.h>

//--- sequential meaning of every operation; r is what it returns
enum { NOP = 31 };
static const char* const opn[NOP] = { "++a", "a++", "--a", "a--", "a+=", "a-=", "a&=", "a|=", "a^=", "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor",
    "add_fetch", "sub_fetch", "and_fetch", "or_fetch", "xor_fetch", "exchange", "cas_strong", "cas_weak", "cas_weak 2 orders", "load", "T(a)", "store", "a=",
    "a+= dropped", "++a dropped", "a-- dropped", "a|= dropped" };
template <typename T> THR_HIDDEN static T ref (T& s, int op, T v, T& e, bool& ok)
{
    T o = s; ok = true;
    switch (op) {
	case 0: case 28: return s = T(s+1); case 1: s = T(s+1); return o; case 2: return s = T(s-1); case 3: case 29: s = T(s-1); return o;
	case 4: case 14: case 27: return s = T(s+v); case 5: case 15: return s = T(s-v); case 6: case 16: return s = T(s&v); case 7: case 17: case 30: return s = T(s|v); case 8: case 18: return s = T(s^v);
	case 9: s = T(s+v); return o; case 10: s = T(s-v); return o; case 11: s = T(s&v); return o; case 12: s = T(s|v); return o; case 13: s = T(s^v); return o;
	case 19: s = v; return o;
	case 20: case 21: case 22: ok = o == e; if (ok) s = v; else e = o; return o;
	case 23: case 24: return o;
	case 25: case 26: s = v; return v;
    }
    mc_fail ("harness error");
}
template <typename T> static T real (atomic<T>& a, int op, T v, T& e, bool& ok)
{
    ok = true;
    switch (op) {
	case 0: { T r = ++a; return r; } case 1: { T r = a++; return r; } case 2: { T r = --a; return r; } case 3: { T r = a--; return r; }
	case 4: { T r = (a += v); return r; } case 5: { T r = (a -= v); return r; } case 6: { T r = (a &= v); return r; } case 7: { T r = (a |= v); return r; } case 8: { T r = (a ^= v); return r; }
	case 9: return a.fetch_add (v); case 10: return a.fetch_sub (v); case 11: return a.fetch_and (v); case 12: return a.fetch_or (v); case 13: return a.fetch_xor (v);
	case 14: return a.add_fetch (v); case 15: return a.sub_fetch (v); case 16: return a.and_fetch (v); case 17: return a.or_fetch (v); case 18: return a.xor_fetch (v);
	case 19: return a.exchange (v);
	case 20: { T b = e; ok = a.compare_exchange_strong (e, v, memory_order_seq_cst, memory_order_seq_cst); return ok ? b : e; }
	case 21: { T b = e; ok = a.compare_exchange_weak (e, v); return ok ? b : e; }
	case 22: { T b = e; ok = a.compare_exchange_weak (e, v, memory_order_acq_rel, memory_order_acquire); return ok ? b : e; }
	case 23: return a.load(); case 24: return T (a);
	case 25: a.store (v); return v; case 26: a = v; return v;
	case 27: a += v; return 0; case 28: ++a; return 0; case 29: a--; return 0; case 30: a |= v; return 0;
    }
    mc_fail ("harness error");
}
template <typename T> static void seq1 (T s, int op, T v, T e)
{
    T rs = s, re = e, ee = e; bool rok, ok; T rr = ref (rs, op, v, re, rok);
    struct { T before; atomic<T> a; T after; } x; x.before = x.after = T (0x5A); x.a.store (s);
    T r = real (x.a, op, v, ee, ok);
    if (op < 27) MC_CHECK (r == rr, "%s on %lld with %lld returns %lld, expected %lld", opn[op], (long long) s, (long long) v, (long long) r, (long long) rr);
    MC_CHECK (ok == rok && ee == re, "%s on %lld expecting %lld: %d, expected value becomes %lld", opn[op], (long long) s, (long long) e, ok, (long long) ee);
    MC_CHECK (x.a.load() == rs, "%s on %lld with %lld leaves %lld, expected %lld", opn[op], (long long) s, (long long) v, (long long) x.a.load(), (long long) rs);
    MC_CHECK (x.before == T (0x5A) && x.after == T (0x5A), "%s wrote beside the atomic", opn[op]);
    mc_step();
}
template <typename T> static void allbytes (int op) { for (int s = 0; s < 256; ++s) { mc_eval(); for (int v = 0; v < 256; ++v) { if (op >= 20 && op <= 22) { seq1<T> (T(s), op, T(v), T(s)); seq1<T> (T(s), op, T(v), T(v)); seq1<T> (T(s), op, T(v), T(s+v)); } else seq1<T> (T(s), op, T(v), 0); } } }
template <typename T> static void bounds (int op)
{
    static const uint64_t B[] = { 0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x100000000ull, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, ~0ull, 0x0123456789ABCDEFull };
    enum { N = sizeof(B)/sizeof(B[0]) };
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) seq1<T> (T(B[i]), op, T(B[j]), T(B[k]));
    mc_eval();
}
MC_SCENARIO (sequential, NOP)
{
    switch (mc_choose (8)) {
	case 0: allbytes<uint8_t> (shard); break; case 1: allbytes<int8_t> (shard); break;
	case 2: bounds<uint16_t> (shard); break; case 3: bounds<int16_t> (shard); break; case 4: bounds<uint32_t> (shard); break; case 5: bounds<int32_t> (shard); break;
	case 6: bounds<uint64_t> (shard); break; case 7: bounds<int64_t> (shard); break;
    }
    mc_state (shard);
}
MC_SCENARIO (other_types, 1)
{
    int x[2]; atomic<int*> p (&x[0]); int* e = &x[1]; atomic<bool> b (false); bool be = true;
    MC_CHECK (p.load() == x && p.is_lock_free() && b.is_lock_free() && atomic<uint64_t>(0).is_lock_free(), "pointer");
    MC_CHECK (!p.compare_exchange_weak (e, &x[1]) && e == x && p.compare_exchange_weak (e, &x[1]) && p.exchange (x) == &x[1] && p == x, "pointer compare exchange");
    MC_CHECK (!b.compare_exchange_weak (be, true) && !be && b.compare_exchange_weak (be, true) && b && b.exchange (false) && !b, "bool compare exchange");
    atomic_flag f ATOMIC_FLAG_INIT; MC_CHECK (!f.test_and_set() && f.test_and_set(), "flag"); f.clear(); MC_CHECK (!f.test_and_set (memory_order_acquire), "cleared flag"); f.clear (memory_order_release); MC_CHECK (!f.test_and_set(), "cleared flag");
    atomic<int> i ATOMIC_VAR_INIT; MC_CHECK (!i && kill_dependency (i.load()) == 0, "initialiser"); atomic_signal_fence (memory_order_seq_cst);
    mc_step(); mc_state (1);
}

//--- concurrent operations on one atomic: some order of them explains all results
typedef uint8_t T;
enum { MAXK = 3 };
struct Prog { atomic<T>* a; int k; int op[MAXK]; T res[MAXK], ex[MAXK]; bool ok[MAXK]; };
static const T ARG[] = { 6, 3, 12 };
static void progbody (void* vp) { Prog& p = *(Prog*) vp; for (int i = 0; i < p.k; ++i) { T e = p.op[i] == 22 ? 6 : 1; bool ok; p.res[i] = real<T> (*p.a, p.op[i], ARG[i], e, ok); p.ok[i] = ok; p.ex[i] = e; } }
static int NT; static Prog PR[3];
THR_HIDDEN static bool explain (int* pos, T s, T fin)
{
    bool end = true;
    for (int t = 0; t < NT; ++t) if (pos[t] < PR[t].k) {
	end = false; int i = pos[t], op = PR[t].op[i]; T s2 = s, e = op == 22 ? 6 : 1; bool ok; T r = ref<T> (s2, op, ARG[i], e, ok);
	if ((op < 27 && r != PR[t].res[i]) || ok != PR[t].ok[i] || e != PR[t].ex[i]) continue;
	++pos[t]; bool y = explain (pos, s2, fin); --pos[t]; if (y) return true;
    }
    return end && s == fin;
}
static void runprogs (int nt, T init)
{
    thr_reset(); NT = nt; atomic<T> a (init); void* args[3];
    for (int t = 0; t < nt; ++t) { PR[t].a = &a; args[t] = &PR[t]; }
    bool full = thr_run (nt, progbody, args);
    mc_steps (thr_ops()); if (!full) return;
    int pos[3] = {}; T fin = a.load();
    if (!explain (pos, init, fin)) {
	char b[600]; int n = 0;
	for (int t = 0; t < nt; ++t) for (int i = 0; i < PR[t].k; ++i) n += sprintf (b+n, "thread %d: %s returned %d; ", t, opn[PR[t].op[i]], PR[t].res[i]);
	mc_fail ("no order of the operations explains what happened from %d: %sfinal value %d", init, b, fin);
    }
    uint64_t h = fin; for (int t = 0; t < nt; ++t) h = mc_hash (h, PR[t].res, PR[t].k); mc_outcome (h);
    if (mc_want_sample()) mc_sample ("from %d: thread 0 %s = %d, thread 1 %s = %d, final %d", init, opn[PR[0].op[0]], PR[0].res[0], opn[PR[1].op[0]], PR[1].res[0], fin);
}
MC_SCENARIO (pairs, NOP)	// one operation each, from 0 and 1; then two each
{
    PR[0].k = PR[1].k = 1 + mc_choose (2); PR[0].op[0] = shard; PR[1].op[0] = mc_choose (NOP);
    if (PR[0].k == 2) { if (PR[1].op[0] < shard) return; PR[0].op[1] = mc_choose (NOP); PR[1].op[1] = mc_choose (NOP); }
    mc_state (mc_hash (PR[0].k, PR[0].op, 8) ^ mc_hash (7, PR[1].op, 8));
    runprogs (2, T (mc_choose (2)));
}
MC_SCENARIO (triples, NOP)
{
    PR[0].k = PR[1].k = PR[2].k = 1; PR[0].op[0] = shard; PR[1].op[0] = mc_choose (NOP); PR[2].op[0] = mc_choose (NOP);
    if (PR[1].op[0] < shard || PR[2].op[0] < PR[1].op[0]) return;
    mc_state (shard*10000 + PR[1].op[0]*100 + PR[2].op[0]);
    runprogs (3, T (mc_choose (2)));
}
MC_SCENARIO_F (long_programs, 1, 8, -1, -1, MC_THOROUGH_ONLY)
{
    static const int few[] = { 0, 1, 4, 9, 19, 21, 23, 25 };
    for (int t = 0; t < 2; ++t) { PR[t].k = 3; for (int i = 0; i < 3; ++i) PR[t].op[i] = few[t || i ? mc_choose (8) : shard]; }
    mc_state (mc_hash (3, PR[0].op, 12) ^ mc_hash (7, PR[1].op, 12));
    runprogs (2, 0);
}

//--- locks
struct Lock { atomic_flag f; atomic<int> a; Lock (void) : f (false), a (0) {} };
struct LockArg { Lock* l; int kind, rounds; int* data; };
static bool tryl (Lock& l, int kind)
{
    switch (kind) {
	case 0: return !l.f.test_and_set(); case 1: return !l.f.test_and_set (memory_order_acquire);
	case 2: return !l.a.exchange (1); case 3: return !l.a.exchange (1, memory_order_acquire);
	case 4: { int e = 0; return l.a.compare_exchange_weak (e, 1); } case 5: { int e = 0; return l.a.compare_exchange_strong (e, 1, memory_order_acquire, memory_order_relaxed); }
	case 6: return !(l.a.fetch_or (1) & 1); case 7: { int e = 0; return l.a.compare_exchange_weak (e, 1, memory_order_acquire); }
    }
    return false;
}
static void unl (Lock& l, int kind)
{
    switch (kind) {
	case 0: l.f.clear(); break; case 1: l.f.clear (memory_order_release); break;
	case 2: l.a.store (0); break; case 3: l.a.store (0, memory_order_release); break;
	case 4: l.a = 0; break; case 5: l.a.exchange (0, memory_order_release); break;
	case 6: l.a.fetch_and (~1); break; case 7: l.a.fetch_sub (1, memory_order_release); break;
    }
}
static void lockbody (void* vp)
{
    LockArg& a = *(LockArg*) vp;
    for (int r = 0; r < a.rounds; ++r) {
	while (!tryl (*a.l, a.kind)) thr_wait (a.kind < 2 ? (void*) &a.l->f : (void*) &a.l->a);
	int v = a.data[0]; a.data[1] = v+1; a.data[0] = v+1; MC_CHECK (a.data[1] == v+1, "guarded data changed under the lock");
	unl (*a.l, a.kind);
    }
}
MC_SCENARIO (locks, 8)
{
    thr_reset(); Lock l; int data[2] = { 0, 0 }; int nt = mc_range (2, 3); int rounds = nt == 3 ? 1 : MC_TIER (2, 3);
    LockArg a = { &l, shard, rounds, data }; void* args[3] = { &a, &a, &a };
    bool full = thr_run (nt, lockbody, args); mc_steps (thr_ops()); mc_state (shard*4+nt); if (full) mc_outcome (shard*4+nt);
    MC_CHECK (data[0] == nt*rounds && data[1] == nt*rounds, "%d increments under the lock gave %d", nt*rounds, data[0]);
}

//--- publishing data
struct Pub { atomic<int> a, b; int data; int pub, obs; int got; Pub (void) : a (0), b (0), data (0), got (0) {} };
enum { NPUB = 18, NOBS = 14 };
static void publish (atomic<int>& a, int how)
{
    switch (how) {
	case 0: a.store (1); break; case 1: a = 1; break; case 2: a.exchange (1); break; case 3: ++a; break; case 4: a += 1; break; case 5: a.fetch_add (1); break; case 6: a.add_fetch (1); break; case 7: a |= 1; break; case 8: a.fetch_xor (1); break;
	case 9: { int e = 0; a.compare_exchange_weak (e, 1); } break; case 10: { int e = 0; a.compare_exchange_strong (e, 1, memory_order_seq_cst, memory_order_seq_cst); } break;
	case 11: a.store (1, memory_order_release); break; case 12: a.exchange (1, memory_order_release); break; case 13: a.fetch_add (1, memory_order_acq_rel); break; case 14: a.or_fetch (1, memory_order_release); break;
	case 15: { int e = 0; a.compare_exchange_strong (e, 1, memory_order_release, memory_order_relaxed); } break;
	case 16: atomic_thread_fence (memory_order_release); a.store (1, memory_order_relaxed); break;
	case 17: a++; break;
    }
}
static bool observe (atomic<int>& a, int how)
{
    switch (how) {
	case 0: return a.load(); case 1: return a; case 2: return a.fetch_add (0); case 3: return a.exchange (1); case 4: { int e = 0; a.compare_exchange_weak (e, 0); return e; }
	case 5: { int e = 0; return !a.compare_exchange_strong (e, 0, memory_order_seq_cst, memory_order_seq_cst); } case 6: { int e = 1; return a.compare_exchange_strong (e, 2, memory_order_acquire, memory_order_relaxed); }
	case 7: return a.load (memory_order_acquire); case 8: { bool r = a.load (memory_order_relaxed); atomic_thread_fence (memory_order_acquire); return r; }
	case 9: return a.fetch_and (~0, memory_order_acquire); case 10: { int e = 0; return !a.compare_exchange_weak (e, 0, memory_order_relaxed, memory_order_acquire); }
	case 11: return (a += 2) & 1; case 12: return a.load (memory_order_consume); case 13: return a.and_fetch (3, memory_order_acq_rel) & 1;
    }
    return false;
}
static void publisher (Pub& p) { p.data = 42; publish (p.a, p.pub); }
static void observer (Pub& p) { if (p.obs == 3 ? p.a.load() && observe (p.a, 3) : observe (p.a, p.obs)) { int d = p.data; MC_CHECK (d == 42, "published data reads %d", d); p.got = 1; } }
struct PubArg { Pub* p; int who; };
static void pubbody (void* vp) { PubArg& a = *(PubArg*) vp; if (a.who) observer (*a.p); else publisher (*a.p); }
MC_SCENARIO (publishing, NPUB)
{
    thr_reset(); Pub p; p.pub = shard; p.obs = mc_choose (NOBS); PubArg a[2] = { { &p, 0 }, { &p, 1 } }; void* args[2] = { &a[0], &a[1] };
    // an observer that writes may make a compare-exchange publisher fail; harmless
    bool full = thr_run (2, pubbody, args); mc_steps (thr_ops()); mc_state (shard*64+p.obs); if (full) mc_outcome (shard*64+p.obs*2+p.got);
}
// through an intermediate thread, and through a read-modify-write by a third thread in between
static void chainbody (void* vp) { PubArg& a = *(PubArg*) vp; Pub& p = *a.p; if (a.who == 0) publisher (p); else if (a.who == 1) { if (observe (p.a, p.obs & 1 ? 7 : 0)) { if (p.obs & 2) p.b.store (1, memory_order_release); else p.b = 1; } } else if (p.b.load (p.obs & 4 ? memory_order_acquire : memory_order_seq_cst)) { MC_CHECK (p.data == 42, "data published through a chain reads %d", p.data); p.got = 1; } }
static void relseq (void* vp) { PubArg& a = *(PubArg*) vp; Pub& p = *a.p; if (a.who == 0) publisher (p); else if (a.who == 1) p.a.fetch_add (2, memory_order_relaxed); else if (p.a.load (memory_order_acquire) & 1) { MC_CHECK (p.data == 42, "data reads %d after an increment in between", p.data); p.got = 1; } }
MC_SCENARIO (chains, 24)
{
    thr_reset(); Pub p; p.pub = shard < 8 ? (shard & 1 ? 11 : 0) : shard-8; p.obs = shard; if (shard >= 8 && (p.pub == 9 || p.pub == 10 || p.pub == 15)) return;
    PubArg a[3] = { { &p, 0 }, { &p, 1 }, { &p, 2 } }; void* args[3] = { &a[0], &a[1], &a[2] };
    bool full = thr_run (3, shard < 8 ? chainbody : relseq, args); mc_steps (thr_ops()); mc_state (shard); if (full) mc_outcome (shard*2+p.got);
}

//--- store buffering: with sequentially consistent operations one thread sees the other's store
struct Dek { atomic<int> x[2]; int r[2]; int st[2], ld[2]; Dek (void) : x{{0},{0}} {} };
struct DekArg { Dek* d; int me; };
static void dekbody (void* vp)
{
    DekArg& a = *(DekArg*) vp; Dek& d = *a.d; atomic<int> &mine = d.x[a.me], &other = d.x[!a.me]; int e = 0;
    switch (d.st[a.me]) {
	case 0: mine.store (1); break; case 1: mine = 1; break; case 2: mine.exchange (1); break; case 3: ++mine; break; case 4: mine.fetch_add (1); break; case 5: mine |= 1; break; case 6: mine.compare_exchange_weak (e, 1); break;
	case 7: mine.store (1, memory_order_relaxed); atomic_thread_fence (memory_order_seq_cst); break; case 8: mine.store (1, memory_order_seq_cst); break; case 9: mine.store (1, memory_order_release); atomic_thread_fence (memory_order_seq_cst); break;
    }
    switch (d.ld[a.me]) { case 0: d.r[a.me] = other.load(); break; case 1: d.r[a.me] = other; break; case 2: d.r[a.me] = other.fetch_add (0); break; case 3: d.r[a.me] = other.load (memory_order_seq_cst); break; }
}
MC_SCENARIO (store_buffering, 10)
{
    thr_reset(); Dek d; d.st[0] = shard; d.st[1] = mc_choose (10); d.ld[0] = mc_choose (4); d.ld[1] = mc_choose (4); DekArg a[2] = { { &d, 0 }, { &d, 1 } }; void* args[2] = { &a[0], &a[1] };
    bool full = thr_run (2, dekbody, args); mc_steps (thr_ops()); mc_state (shard*100+d.st[1]*10+d.ld[0]*4+d.ld[1]); if (full) mc_outcome (mc_hash (shard, d.r, sizeof(d.r)));
    MC_CHECK (d.r[0] || d.r[1], "neither of two threads saw the other's store (stores %d and %d, loads %d and %d)", d.st[0], d.st[1], d.ld[0], d.ld[1]);
}
//--- TestAndSet, one machine instruction at a time
static int tas_instr;
THR_HIDDEN static void singlestep (bool on)
{
    if (on) asm volatile ("sub $128,%%rsp\n pushfq\n orq $0x100,(%%rsp)\n popfq\n add $128,%%rsp" ::: "cc", "memory");
    else asm volatile ("sub $128,%%rsp\n pushfq\n andq $~0x100,(%%rsp)\n popfq\n add $128,%%rsp" ::: "cc", "memory");
}
THR_HIDDEN static void ontrap (int, siginfo_t*, void* ucv)
{
    if (thr_self() < 0) return;
    const unsigned char* ip = *(const unsigned char**) ((char*) ucv + 168);	// uc_mcontext.gregs[REG_RIP]
    bool lock = false; int i = 0;
    for (; i < 8 && (ip[i] == 0xF0 || ip[i] == 0x66 || ip[i] == 0xF2 || ip[i] == 0xF3 || (ip[i] & 0xF0) == 0x40); ++i) lock |= ip[i] == 0xF0;
    if (ip[i] == 0x0F && !lock) {
	unsigned char o = ip[i+1], mod = ip[i+2] >> 6, reg = (ip[i+2] >> 3) & 7;
	if (mod != 3 && (o == 0xB0 || o == 0xB1 || o == 0xC0 || o == 0xC1 || o == 0xAB || o == 0xB3 || o == 0xBB || (o == 0xBA && reg >= 5)))
	    mc_fail ("TestAndSet uses a read-modify-write instruction (0F %02X) without the lock prefix", o);
    }
    ++tas_instr;
    mc_step();
    thr_preempt();
}
struct TasArg { int* x; int won; };
__attribute__((noinline,no_sanitize("thread"))) static bool tas (int* x) { return TestAndSet (x); }
THR_HIDDEN static void tasbody (void* vp) { TasArg& a = *(TasArg*) vp; singlestep (true); bool w = tas (a.x); singlestep (false); a.won = w; }
MC_SCENARIO_F (test_and_set, 9, 9, 2, 3, 0)
{
    struct sigaction sa; memset (&sa, 0, sizeof(sa)); sa.sa_sigaction = ontrap; sa.sa_flags = SA_SIGINFO|SA_NODEFER; sigaction (SIGTRAP, &sa, nullptr);
    thr_reset(); int nt = 1+shard%3, init = shard/3, x = init == 2 ? -7 : init; TasArg a[3] = { { &x, -1 }, { &x, -1 }, { &x, -1 } }; void* args[3] = { &a[0], &a[1], &a[2] };
    tas_instr = 0; thr_run_stepped (nt, tasbody, args);
    int won = 0; for (int i = 0; i < nt; ++i) won += a[i].won;
    MC_CHECK (tas_instr >= nt, "harness error: not single stepped");
    MC_CHECK (won == !init && x == 1, "%d of %d threads won a TestAndSet of %d, which is %d now", won, nt, init, x);
    mc_state (nt*3+init); mc_outcome (mc_hash (nt, &a, sizeof(a)) );
}
