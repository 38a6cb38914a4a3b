#define _GNU_SOURCE
#include "thr.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <link.h>
#include <stdarg.h>

enum { NC = THR_MAX+1, MAIN = THR_MAX, STK = 128*1024, NBUF = 8 };
typedef struct { uint32_t c[NC]; } vc;
enum { K_NONE, K_LOAD, K_STORE, K_BUFSTORE, K_RMW, K_FENCE, K_WAIT };
typedef struct { int k; uintptr_t a; int n; } op_t;
typedef struct { uintptr_t a; int n; uint64_t v; vc clk; } sbe;
static struct thr {
    void* sp; thr_fn f; void* arg; int done; op_t op;
    vc C, acqp, relf; sbe buf[NBUF]; int nbuf; uint32_t waitep;
} T[THR_MAX];
static char* stk[THR_MAX];
static void* schedsp; static int cur = -1, nthr; static vc mainC; static uint64_t nops; static int started;

static void join (vc* a, const vc* b) { for (int i = 0; i < NC; ++i) if (a->c[i] < b->c[i]) a->c[i] = b->c[i]; }

//--- shadow memory
typedef struct { uintptr_t a; uint32_t gen; vc w, r, aw, ar; int wt; } sh_t;	// plain and atomic accesses, per byte
typedef struct { uintptr_t a; uint32_t gen; uint32_t epoch; vc sync; } at_t;	// atomic locations
enum { NSH = 1<<18, NAT = 1<<10 };
static sh_t SH[NSH]; static at_t AT[NAT]; static uint32_t gen = 1;
static unsigned hsh (uintptr_t a) { return (unsigned)((a * 0x9E3779B97F4A7C15ull) >> 40); }
static sh_t* shadow (uintptr_t a)
{
    for (unsigned i = hsh (a) & (NSH-1), n = 0; n < NSH/2; i = (i+1) & (NSH-1), ++n) {
	if (SH[i].gen != gen) { memset (&SH[i], 0, sizeof(sh_t)); SH[i].gen = gen; SH[i].a = a; }
	if (SH[i].a == a) return &SH[i];
    }
    mc_fail ("harness error: too many shared bytes"); return NULL;
}
static at_t* atloc (uintptr_t a)
{
    for (unsigned i = hsh (a) & (NAT-1), n = 0; n < NAT/2; i = (i+1) & (NAT-1), ++n) {
	if (AT[i].gen != gen) { memset (&AT[i], 0, sizeof(at_t)); AT[i].gen = gen; AT[i].a = a; }
	if (AT[i].a == a) return &AT[i];
    }
    mc_fail ("harness error: too many atomics"); return NULL;
}
static uintptr_t tlsat; static size_t tlsn; int thr_at_functions;
static int after (const vc* hb, const vc* ev) { for (int i = 0; i < NC; ++i) if (ev->c[i] > hb->c[i]) return i+1; return 0; }
extern int mc_heap_bad (const void* p);
enum { A_READ = 0, A_WRITE = 1, A_ATOMIC = 2, A_FREE = 4 };
static void access_ (uintptr_t a, int n, int how)
{
    struct thr* t = &T[cur];
    char* s = stk[cur];
    if (a >= (uintptr_t) s && a < (uintptr_t) s + STK) return;
    if (a >= tlsat && a < tlsat + tlsn) return;
    if (!(how & A_FREE) && (mc_heap_bad ((void*) a) || mc_heap_bad ((void*)(a+n-1))))
	mc_fail ("thread %d %s memory that was freed (or never allocated)", cur, how & A_WRITE ? "writes" : "reads");
    uint32_t me = t->C.c[cur];
    for (int i = 0; i < n; ++i) {
	sh_t* x = shadow (a+i); int c;
	const char* what = NULL;
	if ((c = after (&t->C, &x->w))) what = "write";
	else if (!(how & A_ATOMIC) && (c = after (&t->C, &x->aw))) what = "atomic write";
	else if ((how & A_WRITE) && (c = after (&t->C, &x->r))) what = "read";
	else if ((how & A_WRITE) && !(how & A_ATOMIC) && (c = after (&t->C, &x->ar))) what = "atomic read";
	if (what) mc_fail ("data race: %s%s of %d byte(s) by thread %d is not ordered after a %s by thread %d",
		how & A_ATOMIC ? "atomic " : how & A_FREE ? "release " : "", how & A_FREE ? "(free)" : how & A_WRITE ? "write" : "read", n, cur, what, c-1);
	vc* v = how & A_ATOMIC ? (how & A_WRITE ? &x->aw : &x->ar) : (how & A_WRITE ? &x->w : &x->r);
	v->c[cur] = me;
    }
}
// called by the heap
void thr_heap_event (void* p, size_t n, int isfree)
{
    if (cur < 0) return;
    if (isfree) { access_ ((uintptr_t) p, (int) n, A_WRITE|A_FREE); return; }
    for (size_t i = 0; i < n; ++i) { sh_t* x = shadow ((uintptr_t) p + i); memset (&x->w, 0, 4*sizeof(vc)); x->w.c[cur] = T[cur].C.c[cur]; }
    for (unsigned i = 0; i < NAT; ++i) if (AT[i].gen == gen && AT[i].a >= (uintptr_t) p && AT[i].a < (uintptr_t) p + n) memset (&AT[i].sync, 0, sizeof(vc));
}

//--- context switch
// Variables with a value for each thread: those of the program are swapped, with errno
static char* tls[THR_MAX+1]; static int errs[THR_MAX+1];
static int tlsfind (struct dl_phdr_info* i, size_t n, void* d)
{
    (void) n; (void) d;
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { tlsat = (uintptr_t) i->dlpi_tls_data; tlsn = i->dlpi_phdr[k].p_memsz; }
    return 1;	// the program itself comes first
}
static void tlsinit (void)
{
    if (tls[0]) return;
    dl_iterate_phdr (tlsfind, NULL);
    for (int i = 0; i <= THR_MAX; ++i) tls[i] = mc_raw_alloc (tlsn+1);
}
__attribute__((naked,noinline)) static void swtch (void** save __attribute__((unused)), void* to __attribute__((unused)))
{
    asm volatile (
	"push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
	"mov %rsp, (%rdi)\n mov %rsi, %rsp\n"
	"pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret");
}
static void swtch (void** save, void* to);
static void resume (int i)
{
    errs[THR_MAX] = errno; errno = errs[i];
    if (tlsn) { memcpy (tls[THR_MAX], (void*) tlsat, tlsn); memcpy ((void*) tlsat, tls[i], tlsn); }
    cur = i; swtch (&schedsp, T[i].sp); cur = -1;
    if (tlsn) { memcpy (tls[i], (void*) tlsat, tlsn); memcpy ((void*) tlsat, tls[THR_MAX], tlsn); }
    errs[i] = errno; errno = errs[THR_MAX];
}
static void finish (void);
static void entry (void) { T[cur].f (T[cur].arg); finish(); }
static void finish (void)
{
    int me = cur; T[me].done = 1; T[me].op.k = K_NONE;
    swtch (&T[me].sp, schedsp);
    abort();
}
static void point (int k, uintptr_t a, int n)
{
    int me = cur;
    T[me].op.k = k; T[me].op.a = a; T[me].op.n = n;
    swtch (&T[me].sp, schedsp);
    ++nops;
}
static int dependent (const op_t* a, const op_t* b)
{
    if (a->k == K_BUFSTORE || b->k == K_BUFSTORE || a->k == K_FENCE || b->k == K_FENCE) return 0;
    if (a->a + a->n <= b->a || b->a + b->n <= a->a) return 0;
    int ra = a->k == K_LOAD || a->k == K_WAIT, rb = b->k == K_LOAD || b->k == K_WAIT;
    return !(ra && rb);
}
static void writemem (uintptr_t a, int n, uint64_t v)
{
    uint64_t o = 0; memcpy (&o, (void*) a, n);
    uint64_t m = n == 8 ? ~0ull : (1ull << 8*n)-1;
    if ((o & m) != (v & m)) atloc (a)->epoch++;
    memcpy ((void*) a, &v, n);
}
static void flush (int t)
{
    sbe* e = &T[t].buf[0];
    mc_note ("thread %d's store of %llu becomes visible", t, (unsigned long long) e->v);
    writemem (e->a, e->n, e->v);
    atloc (e->a)->sync = e->clk;
    memmove (&T[t].buf[0], &T[t].buf[1], sizeof(sbe)*(--T[t].nbuf));
}
void thr_reset (void) { if (!++gen) { memset (SH, 0, sizeof(SH)); memset (AT, 0, sizeof(AT)); gen = 1; } memset (&mainC, 0, sizeof(mainC)); mainC.c[MAIN] = 1; cur = -1; nops = 0; started = 1; }
uint64_t thr_ops (void) { return nops; }
int thr_self (void) { return cur; }
static void start_threads (int n, thr_fn f, void* const* args)
{
    nthr = n; tlsinit();
    for (int i = 0; i < n; ++i) {
	struct thr* t = &T[i]; memset (t, 0, sizeof(*t));
	if (!stk[i]) stk[i] = mc_raw_alloc (STK);
	t->f = f; t->arg = args[i]; t->C = mainC; t->C.c[i] = ++mainC.c[i];
	void** sp = (void**)(stk[i] + STK - 64);
	*--sp = NULL; *--sp = (void*) entry;
	for (int r = 0; r < 6; ++r) *--sp = NULL;
	t->sp = sp;
	errs[i] = 0; if (tlsn) memcpy (tls[i], (void*) tlsat, tlsn);
    }
    ++mainC.c[MAIN];
}
int thr_run (int n, thr_fn f, void* const* args)
{
    if (!started) thr_reset();
    start_threads (n, f, args);
    for (int i = 0; i < n; ++i) resume (i);
    unsigned sleep = 0;		// processes: thread i is bit i, the store buffer of i is bit i+THR_MAX
    for (;;) {
	unsigned en = 0; int alldone = 1;
	op_t ops[2*THR_MAX];
	for (int i = 0; i < n; ++i) {
	    struct thr* t = &T[i];
	    if (!t->done) {
		alldone = 0; ops[i] = t->op;
		int ok = 1;
		if ((t->op.k == K_RMW || t->op.k == K_STORE || t->op.k == K_FENCE) && t->nbuf) ok = 0;
		if (t->op.k == K_BUFSTORE && t->nbuf >= NBUF) ok = 0;
		if (t->op.k == K_WAIT && atloc (t->op.a)->epoch == t->waitep) ok = 0;
		if (ok) en |= 1u<<i;
	    }
	    if (t->nbuf) { alldone = 0; en |= 1u<<(i+THR_MAX); op_t w = { K_STORE, t->buf[0].a, t->buf[0].n }; ops[i+THR_MAX] = w; }
	}
	if (alldone) break;
	if (!en) mc_fail ("no thread can go on: each waits for a change that nobody makes");
	unsigned el = en & ~sleep;
	if (!el) {	// every continuation is explored elsewhere: let the threads end for a clean exit
	    for (;;) {
		int any = 0;
		for (int i = 0; i < n; ++i) {
		    while (T[i].nbuf) { flush (i); any = 1; }
		    if (!T[i].done) { if (T[i].op.k == K_WAIT && atloc (T[i].op.a)->epoch == T[i].waitep) continue; any = 1; resume (i); }
		}
		if (!any) break;
	    }
	    for (int i = 0; i < n; ++i) { while (T[i].nbuf) flush (i); if (!T[i].done) mc_fail ("no thread can go on: each waits for a change that nobody makes"); }
	    for (int i = 0; i < n; ++i) join (&mainC, &T[i].C);
	    return 0;
	}
	int list[2*THR_MAX], nl = 0;
	for (int i = 0; i < 2*THR_MAX; ++i) if (el & (1u<<i)) list[nl++] = i;
	int c = nl > 1 ? mc_choose (nl) : 0, p = list[c];
	unsigned ns = 0;
	for (int i = 0; i < 2*THR_MAX; ++i) {
	    int in = (sleep >> i) & 1;
	    for (int k = 0; k < c; ++k) in |= list[k] == i;
	    if (!in || !(en & (1u<<i))) continue;
	    if (i % THR_MAX == p % THR_MAX) continue;
	    if (!dependent (&ops[i], &ops[p])) ns |= 1u<<i;
	}
	sleep = ns;
	if (p >= THR_MAX) flush (p-THR_MAX);
	else resume (p);
    }
    for (int i = 0; i < n; ++i) join (&mainC, &T[i].C);
    ++mainC.c[MAIN];
    return 1;
}
static int nextt;
void thr_run_stepped (int n, thr_fn f, void* const* args)
{
    if (!started) thr_reset();
    start_threads (n, f, args);
    for (int left = n; left;) {
	int list[THR_MAX], k = 0;
	for (int i = 0; i < n; ++i) if (!T[i].done) list[k++] = i;
	nextt = list[mc_choose (k)];
	while (nextt >= 0) { int t = nextt; nextt = -1; resume (t); }
	left = 0; for (int i = 0; i < n; ++i) left += !T[i].done;
    }
    for (int i = 0; i < n; ++i) join (&mainC, &T[i].C);
    ++mainC.c[MAIN];
}
void thr_preempt (void)
{
    int me = cur, list[THR_MAX], k = 0;
    if (me < 0) return;
    for (int i = 0; i < nthr; ++i) if (i != me && !T[i].done) list[k++] = i;
    if (!k) return;
    int c = mc_dev (1+k);
    if (!c) return;
    mc_note ("thread %d is preempted by %d", me, list[c-1]);
    nextt = list[c-1];
    swtch (&T[me].sp, schedsp);
}
void thr_wait (const volatile void* p)
{
    if (cur < 0) return;
    mc_note ("thread %d waits", cur);
    T[cur].waitep = atloc ((uintptr_t) p)->epoch;
    point (K_WAIT, (uintptr_t) p, 1);
}
void thr_step (const volatile void* p, int write)
{
    if (cur < 0) return;
    point (write ? K_RMW : K_LOAD, (uintptr_t) p, 1);
}
//--- orders
static int acq (int mo) { mo &= 7; return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static int rel (int mo) { mo &= 7; return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static int sc (int mo) { return (mo & 7) == __ATOMIC_SEQ_CST; }
static void tick (void) { ++T[cur].C.c[cur]; }
static void take (at_t* l, int mo) { join (acq (mo) ? &T[cur].C : &T[cur].acqp, &l->sync); }
static uint64_t rd (uintptr_t a, int n) { uint64_t v = 0; memcpy (&v, (void*) a, n); return v; }
static uint64_t aload (uintptr_t a, int n, int mo)
{
    if (cur < 0) return rd (a, n);
    point (K_LOAD, a, n);
    access_ (a, n, A_READ|A_ATOMIC);
    struct thr* t = &T[cur];
    for (int i = t->nbuf; i--;) if (t->buf[i].a == a) { mc_note ("thread %d loads %llu from its own store", cur, (unsigned long long) t->buf[i].v); return t->buf[i].v; }
    uint64_t v = rd (a, n);
    mc_note ("thread %d loads %llu, order %d", cur, (unsigned long long) v, mo);
    take (atloc (a), mo);
    return v;
}
static void astore (uintptr_t a, int n, uint64_t v, int mo)
{
    if (cur < 0) { memcpy ((void*) a, &v, n); return; }
    point (sc (mo) ? K_STORE : K_BUFSTORE, a, n);
    access_ (a, n, A_WRITE|A_ATOMIC);
    struct thr* t = &T[cur];
    mc_note ("thread %d stores %llu, order %d", cur, (unsigned long long) v, mo);
    if (sc (mo)) { writemem (a, n, v); atloc (a)->sync = t->C; }
    else { sbe* e = &t->buf[t->nbuf++]; e->a = a; e->n = n; e->v = v; e->clk = rel (mo) ? t->C : t->relf; }
    if (rel (mo)) tick();
}
enum { R_XCHG, R_ADD, R_SUB, R_AND, R_OR, R_XOR, R_NAND };
static uint64_t calc (int op, uint64_t o, uint64_t v)
{
    switch (op) { case R_XCHG: return v; case R_ADD: return o+v; case R_SUB: return o-v; case R_AND: return o&v; case R_OR: return o|v; case R_XOR: return o^v; default: return ~(o&v); }
}
static uint64_t armw (uintptr_t a, int n, uint64_t v, int mo, int op)
{
    if (cur < 0) { uint64_t o = rd (a, n), w = calc (op, o, v); memcpy ((void*) a, &w, n); return o; }
    point (K_RMW, a, n);
    access_ (a, n, A_WRITE|A_ATOMIC);
    uint64_t o = rd (a, n), w = calc (op, o, v); at_t* l = atloc (a);
    mc_note ("thread %d replaces %llu by %llu, order %d", cur, (unsigned long long) o, (unsigned long long) w, mo);
    take (l, mo); writemem (a, n, w);
    join (&l->sync, rel (mo) ? &T[cur].C : &T[cur].relf);
    if (rel (mo)) tick();
    return o;
}
static int acas (uintptr_t a, int n, void* exp, uint64_t v, int mo, int fmo)
{
    uint64_t e = 0; memcpy (&e, exp, n);
    if (cur >= 0) { point (K_RMW, a, n); access_ (a, n, A_WRITE|A_ATOMIC); access_ ((uintptr_t) exp, n, A_READ); }
    uint64_t o = rd (a, n); int ok = o == e;
    if (cur >= 0) {
	at_t* l = atloc (a);
	mc_note ("thread %d compares %llu with %llu, order %d", cur, (unsigned long long) o, (unsigned long long) e, mo);
	take (l, ok ? mo : fmo);
	if (ok) { writemem (a, n, v); join (&l->sync, rel (mo) ? &T[cur].C : &T[cur].relf); if (rel (mo)) tick(); }
    } else if (ok) memcpy ((void*) a, &v, n);
    if (!ok) { if (cur >= 0) access_ ((uintptr_t) exp, n, A_WRITE); memcpy (exp, &o, n); }
    return ok;
}
//--- what the compiler calls
void __tsan_init (void) {}
void __tsan_func_entry (void* p) { (void) p; if (thr_at_functions && cur >= 0) thr_preempt(); }
void __tsan_func_exit (void) {}
#define PLAIN(n) \
    void __tsan_read##n (void* p) { if (cur >= 0) access_ ((uintptr_t) p, n, A_READ); } \
    void __tsan_write##n (void* p) { if (cur >= 0) access_ ((uintptr_t) p, n, A_WRITE); } \
    void __tsan_unaligned_read##n (void* p) { if (cur >= 0) access_ ((uintptr_t) p, n, A_READ); } \
    void __tsan_unaligned_write##n (void* p) { if (cur >= 0) access_ ((uintptr_t) p, n, A_WRITE); } \
    void __tsan_volatile_read##n (void* p) { if (cur >= 0) access_ ((uintptr_t) p, n, A_READ); } \
    void __tsan_volatile_write##n (void* p) { if (cur >= 0) access_ ((uintptr_t) p, n, A_WRITE); } \
    void __tsan_read##n##_pc (void* p, void* c) { (void) c; if (cur >= 0) access_ ((uintptr_t) p, n, A_READ); } \
    void __tsan_write##n##_pc (void* p, void* c) { (void) c; if (cur >= 0) access_ ((uintptr_t) p, n, A_WRITE); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
void __tsan_vptr_update (void** p, void* v) { (void) v; if (cur >= 0 && *p != v) access_ ((uintptr_t) p, 8, A_WRITE); }
void __tsan_vptr_read (void** p) { if (cur >= 0) access_ ((uintptr_t) p, 8, A_READ); }
void __tsan_read_range (void* p, unsigned long n) { if (cur >= 0 && n) access_ ((uintptr_t) p, (int) n, A_READ); }
void __tsan_write_range (void* p, unsigned long n) { if (cur >= 0 && n) access_ ((uintptr_t) p, (int) n, A_WRITE); }
#define ATOM(bits,type) \
    type __tsan_atomic##bits##_load (const volatile type* a, int mo) { return (type) aload ((uintptr_t) a, sizeof(type), mo); } \
    void __tsan_atomic##bits##_store (volatile type* a, type v, int mo) { astore ((uintptr_t) a, sizeof(type), v, mo); } \
    type __tsan_atomic##bits##_exchange (volatile type* a, type v, int mo) { return (type) armw ((uintptr_t) a, sizeof(type), v, mo, R_XCHG); } \
    type __tsan_atomic##bits##_fetch_add (volatile type* a, type v, int mo) { return (type) armw ((uintptr_t) a, sizeof(type), v, mo, R_ADD); } \
    type __tsan_atomic##bits##_fetch_sub (volatile type* a, type v, int mo) { return (type) armw ((uintptr_t) a, sizeof(type), v, mo, R_SUB); } \
    type __tsan_atomic##bits##_fetch_and (volatile type* a, type v, int mo) { return (type) armw ((uintptr_t) a, sizeof(type), v, mo, R_AND); } \
    type __tsan_atomic##bits##_fetch_or (volatile type* a, type v, int mo) { return (type) armw ((uintptr_t) a, sizeof(type), v, mo, R_OR); } \
    type __tsan_atomic##bits##_fetch_xor (volatile type* a, type v, int mo) { return (type) armw ((uintptr_t) a, sizeof(type), v, mo, R_XOR); } \
    type __tsan_atomic##bits##_fetch_nand (volatile type* a, type v, int mo) { return (type) armw ((uintptr_t) a, sizeof(type), v, mo, R_NAND); } \
    int __tsan_atomic##bits##_compare_exchange_strong (volatile type* a, type* c, type v, int mo, int f) { return acas ((uintptr_t) a, sizeof(type), c, v, mo, f); } \
    int __tsan_atomic##bits##_compare_exchange_weak (volatile type* a, type* c, type v, int mo, int f) { return acas ((uintptr_t) a, sizeof(type), c, v, mo, f); } \
    type __tsan_atomic##bits##_compare_exchange_val (volatile type* a, type c, type v, int mo, int f) { acas ((uintptr_t) a, sizeof(type), &c, v, mo, f); return c; }
ATOM(8,uint8_t) ATOM(16,uint16_t) ATOM(32,uint32_t) ATOM(64,uint64_t)
void __tsan_atomic_thread_fence (int mo)
{
    if (cur < 0) return;
    if (sc (mo)) point (K_FENCE, 0, 0);
    if (acq (mo)) join (&T[cur].C, &T[cur].acqp);
    if (rel (mo)) { T[cur].relf = T[cur].C; tick(); }
}
void __tsan_atomic_signal_fence (int mo) { (void) mo; }

//--- functions of the C library that the code calls, renamed in its object files
static void reads (const void* p, size_t n) { if (cur >= 0 && n) access_ ((uintptr_t) p, (int) n, A_READ); }
static void writes (const void* p, size_t n) { if (cur >= 0 && n) access_ ((uintptr_t) p, (int) n, A_WRITE); }
void* thr_memcpy (void* d, const void* s, size_t n) { reads (s, n); writes (d, n); return memcpy (d, s, n); }
void* thr_memmove (void* d, const void* s, size_t n) { reads (s, n); writes (d, n); return memmove (d, s, n); }
void* thr_memset (void* d, int c, size_t n) { writes (d, n); return memset (d, c, n); }
int thr_memcmp (const void* a, const void* b, size_t n) { reads (a, n); reads (b, n); return memcmp (a, b, n); }
void* thr_memchr (const void* a, int c, size_t n) { void* p = (void*) memchr (a, c, n); reads (a, p ? (size_t)((char*) p - (char*) a)+1 : n); return p; }
void* thr_memrchr (const void* a, int c, size_t n) { reads (a, n); return memrchr (a, c, n); }
size_t thr_strlen (const char* a) { size_t n = strlen (a); reads (a, n+1); return n; }
char* thr_strcpy (char* d, const char* s) { size_t n = strlen (s)+1; return thr_memcpy (d, s, n); }
int thr_strcmp (const char* a, const char* b) { thr_strlen (a); thr_strlen (b); return strcmp (a, b); }
char* thr_strchr (const char* a, int c) { thr_strlen (a); return (char*) strchr (a, c); }
char* thr_strstr (const char* a, const char* b) { thr_strlen (a); thr_strlen (b); return (char*) strstr (a, b); }
int thr_vsnprintf (char* d, size_t n, const char* f, va_list a) { int k = vsnprintf (d, n, f, a); if (n && k >= 0) writes (d, (size_t) k < n ? (size_t) k+1 : n); return k; }
int thr_snprintf (char* d, size_t n, const char* f, ...) { va_list a; va_start (a, f); int k = thr_vsnprintf (d, n, f, a); va_end (a); return k; }
int thr_sprintf (char* d, const char* f, ...) { va_list a; va_start (a, f); int k = thr_vsnprintf (d, 1<<20, f, a); va_end (a); return k; }
void thr_qsort (void* p, size_t n, size_t k, int (*f)(const void*, const void*)) { qsort (p, n, k, f); writes (p, n*k); }
