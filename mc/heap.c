// Checking allocator, linked with --wrap=malloc,free,realloc,calloc,strdup.
// Each block ends exactly at an unmapped page, is preceded by a canary, is
// poisoned before use and after free, is reused FIFO, and moves on realloc.
#define _GNU_SOURCE
#include "mc.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/mman.h>
#include <errno.h>

void* __real_malloc (size_t n); void __real_free (void* p);
void* __real_realloc (void* p, size_t n);

#define PG 4096ul
#define CAN 32
enum { NSMALL = 384, NBIG = 24, NHUGE = 64 };
#define SSMALL (2*PG)
#define SBIG (80*PG)
struct slot { unsigned char* end; unsigned char* user; size_t n; int live; int used; };
// a thread scheduler that wants to know (mc/thr.c)
extern void thr_heap_event (void* p, size_t n, int isfree) __attribute__((weak));
static struct slot small[NSMALL], big[NBIG];
static struct { unsigned char* base; size_t map; unsigned char* user; size_t n; } huge_[NHUGE];
static int qs[NSMALL], qsh, qsn, qb[NBIG], qbh, qbn;
static unsigned char *rs, *rb;
static int inited;
static long live, baselive, failat = -1, nalloc, failed;
static size_t livebytes, basebytes;
int mc_heap_strict_null_free;

static void init (void)
{
    inited = 1;
    rs = mmap (NULL, NSMALL*(SSMALL+PG), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    rb = mmap (NULL, NBIG*(SBIG+PG), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (rs == MAP_FAILED || rb == MAP_FAILED) abort();
    for (int i = 0; i < NSMALL; ++i) { small[i].end = rs + i*(SSMALL+PG) + SSMALL; mprotect (small[i].end, PG, PROT_NONE); qs[i] = i; }
    for (int i = 0; i < NBIG; ++i) { big[i].end = rb + i*(SBIG+PG) + SBIG; mprotect (big[i].end, PG, PROT_NONE); qb[i] = i; }
    qsn = NSMALL; qbn = NBIG;
}
static void fill (unsigned char* p, int c, size_t n) { memset (p, c, n > 4096 ? 4096 : n); }
static struct slot* slot_of (void* p, int* isbig)
{
    unsigned char* u = p;
    if (u >= rs && u < rs + NSMALL*(SSMALL+PG)) { *isbig = 0; return &small[(u-rs)/(SSMALL+PG)]; }
    if (u >= rb && u < rb + NBIG*(SBIG+PG)) { *isbig = 1; return &big[(u-rb)/(SBIG+PG)]; }
    return NULL;
}
static void check_canary (const unsigned char* user, size_t n)
{
    for (int i = 1; i <= CAN; ++i)
	if (user[-i] != 0xC3) mc_fail ("heap: write %d byte(s) before the start of a %zu byte block", i, n);
}
static void* place (struct slot* s, size_t n)
{
    if (s->used) {	// write after free?
	size_t k = s->n > 512 ? 512 : s->n;
	for (size_t i = 0; i < k; ++i)
	    if (s->user[i] != 0xDD) mc_fail ("heap: freed block of %zu bytes was written at offset %zu", s->n, i);
    }
    size_t al = n ? (n & -n) : 16; if (al > 16) al = 16;
    s->user = (unsigned char*)((uintptr_t)(s->end - (n ? n : 16)) & ~(al-1));
    s->n = n; s->live = 1; s->used = 1;
    memset (s->user-CAN, 0xC3, CAN);
    fill (s->user, 0xA5, n);
    return s->user;
}
static void* raw (size_t n)
{
    if (!inited) init();
    void* r;
    if (n <= SSMALL-CAN-16 && qsn) {
	int i = qs[qsh]; qsh = (qsh+1)%NSMALL; --qsn;
	r = place (&small[i], n);
    } else if (n <= SBIG-CAN-16 && qbn) {
	int i = qb[qbh]; qbh = (qbh+1)%NBIG; --qbn;
	r = place (&big[i], n);
    } else {
	int i = 0;
	while (i < NHUGE && huge_[i].base) ++i;
	if (i >= NHUGE) mc_fail ("heap: harness ran out of blocks (allocation of %zu bytes, %ld live)", n, live);
	if (n > (6ul<<30)) { errno = ENOMEM; return NULL; }
	size_t m = ((n + CAN + 16 + PG-1) & ~(PG-1)) + PG;
	unsigned char* b = mmap (NULL, m, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if (b == MAP_FAILED) { errno = ENOMEM; return NULL; }
	mprotect (b+m-PG, PG, PROT_NONE);
	size_t al = n ? (n & -n) : 16; if (al > 16) al = 16;
	huge_[i].base = b; huge_[i].map = m; huge_[i].n = n;
	huge_[i].user = (unsigned char*)((uintptr_t)(b+m-PG-n) & ~(al-1));
	memset (huge_[i].user-CAN, 0xC3, CAN);
	fill (huge_[i].user, 0xA5, n);
	r = huge_[i].user;
    }
    ++live; livebytes += n;
    if (thr_heap_event) thr_heap_event (r, n, 0);
    return r;
}
int (*mc_heap_ask) (void);
static int inject (void)
{
    if (mc_heap_ask && mc_heap_ask()) { errno = ENOMEM; return 1; }
    long k = nalloc++;
    if (failat >= 0 && k >= failat && !failed) { failed = 1; errno = ENOMEM; return 1; }
    return 0;
}
// size of a live block, or -1 when p is not ours
static long find (void* p, struct slot** sp, int* isbig, int* hi)
{
    *sp = NULL; *hi = -1;
    if (!inited) return -1;
    unsigned char* q = p;
    struct slot* s = slot_of (q ? q-1 : q, isbig);	// a zero size block may sit on the boundary
    if (s) {
	if (!s->live) mc_fail ("heap: block freed twice, or never allocated");
	if (s->user != p) mc_fail ("heap: free of a pointer %ld bytes inside a %zu byte block", (long)((unsigned char*)p - s->user), s->n);
	*sp = s; return (long) s->n;
    }
    for (int i = 0; i < NHUGE; ++i) if (huge_[i].base && huge_[i].user == p) { *hi = i; return (long) huge_[i].n; }
    return -1;
}
void* __wrap_malloc (size_t n) { if (inject()) return NULL; return raw (n); }
void* __wrap_calloc (size_t a, size_t b)
{
    if (inject()) return NULL;
    void* p = raw (a*b); if (p) memset (p, 0, a*b); return p;
}
void __wrap_free (void* p)
{
    if (!p) return;
    struct slot* s; int isbig = 0, hi;
    long n = find (p, &s, &isbig, &hi);
    if (n < 0) { __real_free (p); return; }
    check_canary (p, n);
    if (thr_heap_event) thr_heap_event (p, n, 1);
    --live; livebytes -= n;
    if (s) {
	fill (s->user, 0xDD, s->n);
	s->live = 0;
	if (isbig) { qb[(qbh+qbn)%NBIG] = (int)(s-big); ++qbn; }
	else { qs[(qsh+qsn)%NSMALL] = (int)(s-small); ++qsn; }
    } else { munmap (huge_[hi].base, huge_[hi].map); huge_[hi].base = NULL; }
}
void* __wrap_realloc (void* p, size_t n)
{
    if (!p) return __wrap_malloc (n);
    struct slot* s; int isbig = 0, hi;
    long on = find (p, &s, &isbig, &hi);
    if (on < 0) return __real_realloc (p, n);
    if (!n) { __wrap_free (p); return NULL; }
    if (inject()) return NULL;
    void* q = raw (n); if (!q) return NULL;
    memcpy (q, p, (size_t) on < n ? (size_t) on : n);
    __wrap_free (p);
    return q;
}
char* __wrap_strdup (const char* s)
{
    size_t n = strlen (s)+1;
    char* p = __wrap_malloc (n);
    return p ? memcpy (p, s, n) : NULL;
}
void mc_heap_fail_at (long k) { failat = k; nalloc = 0; failed = 0; }
int  mc_heap_failed (void) { return (int) failed; }
long mc_heap_count (void) { return nalloc; }
long mc_heap_live (void) { return live - baselive; }
size_t mc_heap_live_bytes (void) { return livebytes - basebytes; }
void mc_heap_reset (void) { if (!inited) init(); failat = -1; nalloc = 0; failed = 0; baselive = live; basebytes = livebytes; }
// whether p is heap memory that is not part of a live block
int mc_heap_bad (const void* p)
{
    if (!inited) return 0;
    const unsigned char* u = p; int isbig;
    struct slot* s = slot_of ((void*) p, &isbig);
    return s && (!s->live || u < s->user || u >= s->user + s->n);
}
void mc_heap_check (void)
{
    if (live == 0) return;
    for (int i = 0; i < NSMALL; ++i) if (small[i].live) check_canary (small[i].user, small[i].n);
    for (int i = 0; i < NBIG; ++i) if (big[i].live) check_canary (big[i].user, big[i].n);
}
void mc_heap_execend (void)
{
    failat = -1;
    if (live != baselive)
	mc_fail ("heap: %ld block(s), %ld byte(s) were not released", live-baselive, (long)(livebytes-basebytes));
}
// read only copies ending at an unmapped page
enum { NRO = 64 };
static unsigned char* ro; static unsigned char* rouser[NRO]; static int rolive[NRO]; static int ronext; static size_t ron[NRO];
static uint64_t rohash[NRO];
static int guard_protect = 1;
// those that do not fit in a slot: read only, or writable without data
static struct { unsigned char *u, *base; size_t len; } bgd[64];
static void* biggd (const void* data, size_t n)
{
    int i = 0; while (bgd[i].u) if (++i == 64) mc_fail ("harness error: out of guard blocks");
    size_t len = (n + 64 + PG-1)/PG*PG;
    unsigned char* b = mmap (NULL, len+PG, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) mc_fail ("harness error: no memory for a guard block");
    bgd[i].base = b; bgd[i].len = len; bgd[i].u = b + len - n;
    memset (bgd[i].u-16, 0xE7, 16);
    if (data) memcpy (bgd[i].u, data, n); else memset (bgd[i].u, 0xA5, n);
    mprotect (b+len, PG, PROT_NONE); if (data) mprotect (b, len, PROT_READ);
    return bgd[i].u;
}
void* mc_guard_ro (const void* data, size_t n)
{
    if (!ro) {
	ro = mmap (NULL, NRO*(SSMALL+PG), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if (ro == MAP_FAILED) abort();
	for (int i = 0; i < NRO; ++i) mprotect (ro + i*(SSMALL+PG) + SSMALL, PG, PROT_NONE);
    }
    if (n > SSMALL-64) return biggd (data, n);
    int i, k = 0;
    for (i = ronext; rolive[i]; i = (i+1)%NRO) if (++k > NRO) mc_fail ("harness error: out of guard blocks");
    ronext = (i+1)%NRO;
    unsigned char* base = ro + i*(SSMALL+PG);
    memset (base+SSMALL-n-16, 0xE7, 16);
    unsigned char* u = base + SSMALL - n;
    if (data) memcpy (u, data, n); else memset (u, 0xA5, n);
    if (guard_protect) mprotect (base, SSMALL, PROT_READ);
    rolive[i] = 1+guard_protect; rouser[i] = u; ron[i] = n; rohash[i] = guard_protect || !data ? 0 : mc_hash (1, u, n);
    return u;
}
// as mc_guard_ro, cheaper: writes are noticed when it is given back, not as they happen
void* mc_guard (const void* data, size_t n)
{
    guard_protect = 0;
    void* r = mc_guard_ro (data, n);
    guard_protect = 1;
    return r;
}
void mc_guard_free (void* p)
{
    if (!p) return;
    for (int i = 0; i < NRO; ++i)
	if (rolive[i] && rouser[i] == p) {
	    if (rolive[i] == 2) mprotect (ro + i*(SSMALL+PG), SSMALL, PROT_READ|PROT_WRITE);
	    else if (rohash[i] && rohash[i] != mc_hash (1, p, ron[i])) mc_fail ("a const source argument of %zu bytes was modified", ron[i]);
	    for (int k = 1; k <= 16; ++k) if (((unsigned char*) p)[-k] != 0xE7) mc_fail ("byte %d before a buffer of %zu bytes was written", k, ron[i]);
	    rolive[i] = 0; return;
	}
    for (int i = 0; i < 64; ++i) if (bgd[i].u == p) {
	for (int k = 1; k <= 16; ++k) if (((unsigned char*) p)[-k] != 0xE7) mc_fail ("byte %d before a big buffer was written", k);
	munmap (bgd[i].base, bgd[i].len+PG); bgd[i].u = NULL; return;
    }
    mc_fail ("harness error: mc_guard_free of an unknown block");
}
void* mc_raw_alloc (size_t n)
{
    void* p = mmap (NULL, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    return p == MAP_FAILED ? NULL : p;
}
