// Exploration engine. See mc.h.
#define _GNU_SOURCE
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>

#define MAXSCN 256
#define MAXCH 4096
#define MAXW 16
#define HSIZE (1u<<22)
#define NSAMP 24
#define SAMPLEN 400
#define MAXKNOWN 64

static struct mc_scn scns[MAXSCN];
static int nscn;
int mc_thorough, mc_tracing;

struct wslot {
    volatile uint64_t execs, steps, evals, heartbeat;
    volatile int scn, shard, nch, maxch, running;
    volatile int choice[MAXCH], arity[MAXCH];
    volatile int failed; char msg[2000]; char ctx[600];
};
struct shared {
    volatile long next_task; volatile int stop;
    struct wslot w[MAXW+1];
    volatile uint64_t nstates, noutcomes, hfull, tasks_done;
    volatile int nsamp; volatile int scn_samp[MAXSCN]; char samp[NSAMP][SAMPLEN];
    volatile uint64_t known_hits[MAXKNOWN];
    volatile uint64_t scn_execs[MAXSCN];
    volatile uint64_t htab[HSIZE], otab[HSIZE>>4];
};
static struct shared* S;
static struct wslot* W;
static char* known_keys[MAXKNOWN]; static int nknown;
static FILE* tracef;
static int curdev, devbound, replaying, replay_n;
static int devcost[MAXCH];
static int cur_scn_idx;

void mc_register (const char* name, mc_fn fn, int qs, int ts, int qd, int td, int flags)
{
    if (nscn >= MAXSCN) abort();
    struct mc_scn* s = &scns[nscn++];
    s->name = name; s->fn = fn; s->nshards[0] = qs; s->nshards[1] = ts;
    s->devbound[0] = qd; s->devbound[1] = td; s->flags = flags;
}

static int choose (int n, int dev)
{
    if (n <= 0) mc_fail ("harness error: choose(%d)", n);
    int i = W->nch;
    if (i >= MAXCH) mc_fail ("harness error: too many choices in one execution");
    int c;
    if (i < W->maxch) {
	c = W->choice[i];
	if (W->arity[i] != n && W->arity[i] != -1)
	    mc_fail ("execution is not deterministic: choice %d had %d alternatives, now %d", i, W->arity[i], n);
	if (c >= n) mc_fail ("replay diverged: choice %d is %d of %d", i, c, n);
    } else
	c = 0;
    W->choice[i] = c;
    W->arity[i] = n;
    devcost[i] = dev;
    if (dev && c) ++curdev;
    W->nch = i+1;
    return c;
}
int mc_choose (int n) { return choose (n, 0); }
int mc_dev (int n) { return choose (n, 1); }

// What the ABI requires of every function that returns: an empty floating-point
// stack (packed integers share its registers), upward string instructions, and
// the rounding and exception modes it was called with.
static void mc_cpu_check (void)
{
#if defined(__x86_64__)
    static _Thread_local unsigned char fx[512] __attribute__((aligned(16)));
    unsigned long fl;
    __asm__ volatile ("fxsave %0\n\tpushfq\n\tpopq %1" : "=m"(fx), "=r"(fl) :: "memory");
    if (fx[4]) { __asm__ volatile ("emms"); mc_fail ("the floating-point registers are left in use (tags %02x): the caller's long double arithmetic gives NaN", fx[4]); }
    if (fl & 0x400) { __asm__ volatile ("cld"); mc_fail ("the direction of string instructions is left downwards"); }
    const unsigned mode = (fx[24] | (unsigned) fx[25] << 8) & 0xffc0, cw = (fx[0] | (unsigned) fx[1] << 8) & 0xf3f;
    if (mode != 0x1f80 || cw != 0x33f) mc_fail ("the floating-point rounding or exception modes are left changed (%04x, %04x)", mode, cw);
#endif
}

// Advances to the next choice vector in DFS order; 0 when the tree is finished.
static int advance (void)
{
    int i = W->nch;
    while (i > 0) {
	--i;
	if (W->choice[i]+1 < W->arity[i]) {
	    if (devcost[i] && devbound >= 0) {
		int d = 0;
		for (int j = 0; j < i; ++j) if (devcost[j] && W->choice[j]) ++d;
		if (d + 1 > devbound) continue;
	    }
	    W->choice[i]++;
	    W->maxch = i+1;
	    return 1;
	}
    }
    return 0;
}

void mc_note_ (const char* fmt, ...)
{
    if (!tracef) return;
    va_list a; va_start (a, fmt);
    fputs ("    ", tracef);
    vfprintf (tracef, fmt, a);
    fputc ('\n', tracef);
    fflush (tracef);
    va_end (a);
}
void mc_at_ (const char* fmt, ...)
{
    va_list a; va_start (a, fmt);
    vsnprintf (W->ctx, sizeof W->ctx, fmt, a);
    va_end (a);
}
void mc_fail (const char* fmt, ...)
{
    char buf[2000];
    va_list a; va_start (a, fmt);
    vsnprintf (buf, sizeof buf, fmt, a);
    va_end (a);
    if (W && !W->failed) { memcpy (W->msg, buf, sizeof buf); W->failed = 1; }
    if (tracef) { fprintf (tracef, "  => %s\n", buf); fflush (tracef); }
    _exit (77);
}
static int hinsert (volatile uint64_t* t, unsigned size, uint64_t h, volatile uint64_t* count)
{
    if (!h) h = 1;
    unsigned i = (unsigned)(h ^ (h>>29)) & (size-1);
    for (unsigned n = 0; n < 64; ++n, i = (i+1) & (size-1)) {
	uint64_t v = t[i];
	if (v == h) return 0;
	if (!v) {
	    if (__sync_bool_compare_and_swap (&t[i], 0, h)) { __sync_fetch_and_add (count, 1); return 1; }
	    if (t[i] == h) return 0;
	}
    }
    __sync_fetch_and_add (&S->hfull, 1);
    return 0;
}
void mc_state (uint64_t h) { if (!replaying) hinsert (S->htab, HSIZE, mc_mix (h, 77+cur_scn_idx), &S->nstates); }
void mc_outcome (uint64_t h) { if (!replaying) hinsert (S->otab, HSIZE>>4, mc_mix (h, 99+cur_scn_idx), &S->noutcomes); }
void mc_step (void) { W->steps++; mc_cpu_check(); }
void mc_steps (uint64_t n) { W->steps += n; }
void mc_eval (void) { W->evals++; W->heartbeat++; }
int mc_want_sample (void) { return !replaying && S->nsamp < NSAMP && S->scn_samp[cur_scn_idx] < 3 && !((W->execs + 1) % 37); }
void mc_sample (const char* fmt, ...)
{
    if (replaying || S->nsamp >= NSAMP) return;
    S->scn_samp[cur_scn_idx]++;
    int i = __sync_fetch_and_add (&S->nsamp, 1);
    if (i >= NSAMP) return;
    va_list a; va_start (a, fmt);
    vsnprintf (S->samp[i], SAMPLEN, fmt, a);
    va_end (a);
}
int mc_known (const char* key)
{
    for (int i = 0; i < nknown; ++i)
	if (!strcmp (known_keys[i], key)) { if (!replaying) __sync_fetch_and_add (&S->known_hits[i], 1); return 1; }
    return 0;
}
uint64_t mc_hash (uint64_t h, const void* p, size_t n)
{
    const unsigned char* b = p;
    h ^= 0xcbf29ce484222325ull;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
    return mc_mix (h, n);
}
const char* mc_hex (const void* p, size_t n)
{
    static char bufs[8][600]; static int bi;
    char* o = bufs[bi++ & 7]; char* s = o;
    const unsigned char* b = p;
    for (size_t i = 0; i < n && i < 250; ++i) s += sprintf (s, "%02x", b[i]);
    *s = 0;
    return o;
}

static void run_one (struct mc_scn* s, int shard)
{
    W->nch = 0; curdev = 0;
    W->running = 1;
    mc_heap_reset();
    s->fn (shard);
    mc_cpu_check();
    if (!(s->flags & MC_NOHEAPCHECK))
	mc_heap_execend();
    W->running = 0;
    W->execs++; W->heartbeat++;
}
static int scn_enabled (struct mc_scn* s)
{
    if (mc_thorough && (s->flags & MC_QUICK_ONLY)) return 0;
    if (!mc_thorough && (s->flags & MC_THOROUGH_ONLY)) return 0;
    return 1;
}
static long total_tasks (void)
{
    long n = 0;
    for (int i = 0; i < nscn; ++i) if (scn_enabled (&scns[i])) n += scns[i].nshards[mc_thorough];
    return n;
}
// interleave: task t -> scenario/shard in registration order
static void task_at (long t, int* si, int* sh)
{
    for (int i = 0; i < nscn; ++i) {
	if (!scn_enabled (&scns[i])) continue;
	int n = scns[i].nshards[mc_thorough];
	if (t < n) { *si = i; *sh = (int) t; return; }
	t -= n;
    }
    *si = -1;
}
static void run_shard (int si, int sh)
{
    struct mc_scn* s = &scns[si];
    cur_scn_idx = si;
    W->scn = si; W->shard = sh; W->maxch = 0; W->nch = 0;
    devbound = s->devbound[mc_thorough];
    uint64_t n = 0;
    do {
	run_one (s, sh);
	++n;
	if (!(n & 0x3f)) __sync_fetch_and_add (&S->scn_execs[si], 0x40);
	if (S->stop) break;
    } while (advance());
    __sync_fetch_and_add (&S->scn_execs[si], n & 0x3f);
}
static void worker (int w)
{
    W = &S->w[w];
    long total = total_tasks();
    for (;;) {
	long t = __sync_fetch_and_add (&S->next_task, 1);
	if (t >= total || S->stop) break;
	int si, sh;
	task_at (t, &si, &sh);
	if (si < 0) break;
	run_shard (si, sh);
	if (!S->stop) __sync_fetch_and_add (&S->tasks_done, 1);
    }
    _exit (0);
}

static double now (void) { struct timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec/1e9; }
static void child_setup (void)
{
    prctl (PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit r = {0,0}; setrlimit (RLIMIT_CORE, &r);
    r.rlim_cur = r.rlim_max = 12ull<<30; setrlimit (RLIMIT_AS, &r);
    r.rlim_cur = r.rlim_max = 64<<20; setrlimit (RLIMIT_FSIZE, &r);
}

// Replays one execution in a fresh child. Returns 1 failed, 0 passed; fills desc.
static int replay (int si, int sh, const int* ch, int nch, const char* tracepath, double limit, char* desc, size_t dn)
{
    memset ((void*) &S->w[MAXW], 0, sizeof S->w[MAXW]);
    struct wslot* rw = &S->w[MAXW];
    pid_t p = fork();
    if (!p) {
	child_setup();
	W = rw; replaying = 1;
	if (tracepath) { tracef = fopen (tracepath, "a"); mc_tracing = 1; }
	for (int i = 0; i < nch; ++i) { W->choice[i] = ch[i]; W->arity[i] = -1; }
	W->maxch = nch; W->scn = si; W->shard = sh;
	cur_scn_idx = si; devbound = scns[si].devbound[mc_thorough];
	run_one (&scns[si], sh);
	_exit (0);
    }
    double t0 = now(); int st; int timedout = 0;
    uint64_t hb = 0;
    for (;;) {
	pid_t r = waitpid (p, &st, WNOHANG);
	if (r == p) break;
	if (rw->heartbeat != hb) { hb = rw->heartbeat; t0 = now(); }
	if (now() - t0 > limit) { kill (p, SIGKILL); waitpid (p, &st, 0); timedout = 1; break; }
	usleep (2000);
    }
    if (timedout) { snprintf (desc, dn, "execution does not terminate (no progress in %.0f s)", limit); }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    else if (rw->failed) snprintf (desc, dn, "%s", rw->msg);
    else if (WIFSIGNALED(st)) snprintf (desc, dn, "process killed by signal %d (%s)", WTERMSIG(st), strsignal (WTERMSIG(st)));
    else snprintf (desc, dn, "process exited unexpectedly with status %d", WEXITSTATUS(st));
    if (tracepath && rw->ctx[0]) { FILE* f = fopen (tracepath, "a"); if (f) { fprintf (f, "  at: %s\n", rw->ctx); fclose (f); } }
    if (tracepath && !rw->failed) { FILE* f = fopen (tracepath, "a"); if (f) { fprintf (f, "  => %s\n", desc); fclose (f); } }
    return 1;
}
// Fallback: replays a whole shard (failure depends on earlier executions in the same process).
static int replay_shard (int si, int sh, double limit, char* desc, size_t dn)
{
    memset ((void*) &S->w[MAXW], 0, sizeof S->w[MAXW]);
    struct wslot* rw = &S->w[MAXW];
    S->stop = 0;
    pid_t p = fork();
    if (!p) { child_setup(); W = rw; replaying = 1; run_shard (si, sh); _exit (0); }
    double t0 = now(); int st, timedout = 0; uint64_t hb = 0;
    for (;;) {
	if (waitpid (p, &st, WNOHANG) == p) break;
	if (rw->heartbeat != hb) { hb = rw->heartbeat; t0 = now(); }
	if (now() - t0 > limit) { kill (p, SIGKILL); waitpid (p, &st, 0); timedout = 1; break; }
	usleep (2000);
    }
    if (timedout) snprintf (desc, dn, "execution does not terminate");
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    else if (rw->failed) snprintf (desc, dn, "%s", rw->msg);
    else snprintf (desc, dn, "process ended abnormally (wait status 0x%x)", st);
    return 1;
}

static void jstr (FILE* f, const char* s)
{
    fputc ('"', f);
    for (; *s; ++s) {
	unsigned char c = *s;
	if (c == '"' || c == '\\') fprintf (f, "\\%c", c);
	else if (c < 32 || c >= 127) fprintf (f, "\\u%04x", c);
	else fputc (c, f);
    }
    fputc ('"', f);
}

int main (int argc, char** argv)
{
    const char* out = "result.json"; const char* rpath = "replay.txt"; const char* rin = NULL;
    int nw = 8; const char* only = NULL; double hang = 10;
    setvbuf (stdout, NULL, _IOLBF, 0);
    for (int i = 1; i < argc; ++i) {
	if (!strcmp (argv[i], "--thorough")) mc_thorough = 1;
	else if (!strcmp (argv[i], "--out")) out = argv[++i];
	else if (!strcmp (argv[i], "--replay-out")) rpath = argv[++i];
	else if (!strcmp (argv[i], "--replay")) rin = argv[++i];
	else if (!strcmp (argv[i], "--workers")) nw = atoi (argv[++i]);
	else if (!strcmp (argv[i], "--only")) only = argv[++i];
	else if (!strcmp (argv[i], "--hang")) hang = atof (argv[++i]);
	else if (!strcmp (argv[i], "--known") && nknown < MAXKNOWN) known_keys[nknown++] = argv[++i];
	else { fprintf (stderr, "bad argument %s\n", argv[i]); return 2; }
    }
    if (nw > MAXW) nw = MAXW;
    if (only) { int k = 0; for (int i = 0; i < nscn; ++i) if (!strncmp (scns[i].name, only, strlen(only))) scns[k++] = scns[i]; nscn = k; }
    S = mmap (NULL, sizeof *S, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror ("mmap"); return 2; }
    if (rin) {	// file: scenario shard tier choices...
	FILE* f = fopen (rin, "r"); char line[65536]; char nm[200]; int sh = 0, th = 0; int ch[MAXCH], n = 0, si = -1;
	if (!f) { perror (rin); return 2; }
	while (fgets (line, sizeof line, f)) {
	    if (sscanf (line, "scenario: %199s shard: %d thorough: %d", nm, &sh, &th) == 3) {
		mc_thorough = th;
		for (int i = 0; i < nscn; ++i) if (!strcmp (scns[i].name, nm)) si = i;
	    } else if (!strncmp (line, "choices:", 8)) {
		char* p = line+8; int v, l;
		while (sscanf (p, "%d%n", &v, &l) == 1) { ch[n++] = v; p += l; }
	    }
	}
	if (si < 0) { fprintf (stderr, "no such scenario\n"); return 2; }
	char desc[2000];
	int r = replay (si, sh, ch, n, "/dev/stdout", 60, desc, sizeof desc);
	printf (r ? "FAILED: %s\n" : "passed%s\n", r ? desc : "");
	return r;
    }
    double t0 = now();
    int attempt = 0;
again:;
    pid_t pids[MAXW]; uint64_t hb[MAXW]; double hbt[MAXW]; int alive = 0;
    fflush (NULL);
    for (int w = 0; w < nw; ++w) {
	pids[w] = fork();
	if (!pids[w]) { child_setup(); worker (w); }
	hb[w] = 0; hbt[w] = now(); ++alive;
    }
    int bad = -1, hung = 0, badst = 0;
    while (alive) {
	usleep (3000);
	for (int w = 0; w < nw; ++w) {
	    if (!pids[w]) continue;
	    int st;
	    if (waitpid (pids[w], &st, WNOHANG) == pids[w]) {
		pids[w] = 0; --alive;
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (bad < 0) { bad = w; badst = st; } S->stop = 1; }
		continue;
	    }
	    if (S->w[w].heartbeat != hb[w]) { hb[w] = S->w[w].heartbeat; hbt[w] = now(); }
	    else if (now() - hbt[w] > hang) {
		kill (pids[w], SIGKILL); waitpid (pids[w], &st, 0); pids[w] = 0; --alive;
		if (bad < 0) { bad = w; hung = 1; } S->stop = 1;
		continue;
	    }
	    if (S->stop && bad >= 0 && now() - hbt[w] > 3 && w != bad) {
		kill (pids[w], SIGKILL); waitpid (pids[w], &st, 0); pids[w] = 0; --alive;
	    }
	}
    }
    int result = 0; char desc[2000] = ""; int confirmed = 0;
    if (bad >= 0) {
	struct wslot* b = &S->w[bad];
	int n = b->nch > b->maxch ? b->nch : b->maxch; if (n > MAXCH) n = MAXCH;
	static int ch[MAXCH];
	for (int i = 0; i < n; ++i) ch[i] = b->choice[i];
	int si = b->scn, sh = b->shard;
	unlink (rpath);
	FILE* f = fopen (rpath, "w");
	if (f) {
	    fprintf (f, "scenario: %s shard: %d thorough: %d\nchoices:", scns[si].name, sh, mc_thorough);
	    for (int i = 0; i < n; ++i) fprintf (f, " %d", ch[i]);
	    fprintf (f, "\nfirst report: %s\ntrace:\n", b->failed ? b->msg : hung ? "no progress" : "abnormal exit");
	    fclose (f);
	}
	double lim = hung ? 25 : 25;
	confirmed = replay (si, sh, ch, n, rpath, lim, desc, sizeof desc);
	if (confirmed && !hung) { char d2[2000]; confirmed = replay (si, sh, ch, n, NULL, lim, d2, sizeof d2); }
	if (!confirmed) {
	    confirmed = replay_shard (si, sh, 60, desc, sizeof desc);
	    if (confirmed) { f = fopen (rpath, "a"); if (f) { fprintf (f, "(reproduced by running the whole shard)\n  => %s\n", desc); fclose (f); } }
	}
	result = confirmed ? 1 : 3;
	printf ("%s scenario=%s shard=%d: %s", confirmed ? "FAIL" : "NOT-REPRODUCED", scns[si].name, sh,
		confirmed ? desc : b->failed ? b->msg : hung ? "no progress" : "abnormal exit");
	if (!confirmed && !b->failed && !hung) printf (" (wait status 0x%x)", badst);
	printf ("\n");
	if (!confirmed && !attempt++) {	// ended from outside, or starved: explore everything once more
	    printf ("exploring again from the start\n");
	    unlink (rpath); memset ((void*) S->w, 0, sizeof S->w); memset ((void*) S->scn_execs, 0, sizeof S->scn_execs);
	    S->next_task = 0; S->tasks_done = 0; S->stop = 0;
	    goto again;
	}
    }
    uint64_t ex = 0, st = 0, ev = 0;
    for (int w = 0; w < nw; ++w) { ex += S->w[w].execs; st += S->w[w].steps; ev += S->w[w].evals; }
    FILE* f = fopen (out, "w");
    if (!f) { perror (out); return 2; }
    fprintf (f, "{\"result\": %d, \"executions\": %llu, \"transitions\": %llu, \"evals\": %llu, \"states\": %llu, \"outcomes\": %llu, \"hash_overflow\": %llu, \"tasks\": %ld, \"tasks_done\": %llu, \"wall_s\": %.3f,\n",
	result, (unsigned long long) ex, (unsigned long long) st, (unsigned long long) ev, (unsigned long long) S->nstates,
	(unsigned long long) S->noutcomes, (unsigned long long) S->hfull, total_tasks(), (unsigned long long) S->tasks_done, now()-t0);
    fprintf (f, "\"scenarios\": {");
    int first = 1;
    for (int i = 0; i < nscn; ++i) if (scn_enabled (&scns[i])) {
	fprintf (f, "%s\"%s\": {\"shards\": %d, \"deviation_bound\": %d, \"executions\": %llu}", first?"":", ", scns[i].name,
	    scns[i].nshards[mc_thorough], scns[i].devbound[mc_thorough], (unsigned long long) S->scn_execs[i]);
	first = 0;
    }
    fprintf (f, "},\n\"known\": {");
    for (int i = 0; i < nknown; ++i) { fprintf (f, "%s", i?", ":""); jstr (f, known_keys[i]); fprintf (f, ": %llu", (unsigned long long) S->known_hits[i]); }
    fprintf (f, "},\n\"samples\": [");
    int ns = S->nsamp < NSAMP ? S->nsamp : NSAMP;
    for (int i = 0; i < ns; ++i) { if (i) fprintf (f, ", "); jstr (f, S->samp[i]); }
    fprintf (f, "],\n\"desc\": "); jstr (f, desc); fprintf (f, "}\n");
    fclose (f);
    return result == 1 ? 1 : result == 0 ? 0 : 3;
}
