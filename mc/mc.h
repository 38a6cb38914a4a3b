// Bounded-exhaustive exploration engine for harnesses that link against uSTL.
// Plain C interface: the harness is compiled with uSTL's own headers, which
// define parts of namespace std and cannot share a TU with libstdc++ headers.
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

// ---- scenarios -----------------------------------------------------------
// A scenario is a deterministic function of (shard, answers of mc_choose).
// The engine runs it once for every shard in [0,nshards) and every sequence
// of answers (depth first, exhaustively), spread over worker processes.
typedef void (*mc_fn)(int shard);
struct mc_scn { const char* name; mc_fn fn; int nshards[2]; int devbound[2]; int flags; };
enum { MC_THOROUGH_ONLY = 1, MC_QUICK_ONLY = 2, MC_NOHEAPCHECK = 4 };
void mc_register (const char* name, mc_fn fn, int qshards, int tshards, int qdev, int tdev, int flags);
// shards: quick, thorough; dev: deviation bound quick, thorough (-1 unbounded)
#define MC_SCENARIO_F(nm, qs, ts, qd, td, fl)					\
    static void scn_##nm (int shard);						\
    __attribute__((constructor)) static void reg_##nm (void)			\
	{ mc_register (#nm, scn_##nm, qs, ts, qd, td, fl); }			\
    static void scn_##nm (int shard __attribute__((unused)))
#define MC_SCENARIO(nm, shards)	MC_SCENARIO_F(nm, shards, shards, -1, -1, 0)
#define MC_SCENARIO2(nm, qs, ts)	MC_SCENARIO_F(nm, qs, ts, -1, -1, 0)

extern int mc_thorough;			// 1 in the thorough tier
#define MC_TIER(q,t) (mc_thorough ? (t) : (q))

// ---- choices -------------------------------------------------------------
int  mc_choose (int n);			// exhaustively 0..n-1
int  mc_dev (int n);			// 0 free, 1..n-1 cost one deviation of the bound each
static inline int mc_range (int lo, int hi) { return lo + mc_choose (hi-lo+1); }

// ---- reporting -----------------------------------------------------------
extern int mc_tracing;			// set while replaying a failure
void mc_note_ (const char* fmt, ...) __attribute__((format(printf,1,2)));
#define mc_note(...)	do { if (__builtin_expect(mc_tracing,0)) mc_note_(__VA_ARGS__); } while (0)
// where an execution that loops over many inputs is; kept for the report only
void mc_at_ (const char* fmt, ...) __attribute__((format(printf,1,2)));
#define mc_at(...)	do { if (__builtin_expect(mc_tracing,0)) mc_at_(__VA_ARGS__); } while (0)
void mc_fail (const char* fmt, ...) __attribute__((format(printf,1,2),noreturn));
#define MC_CHECK(c, ...) do { if (__builtin_expect(!(c),0)) mc_fail(__VA_ARGS__); } while (0)
void mc_state (uint64_t h);		// a model state that was reached (deduplicated by hash)
void mc_outcome (uint64_t h);		// a distinct observed outcome
void mc_step (void);			// one transition executed and compared
void mc_steps (uint64_t n);
void mc_eval (void);			// one input evaluated inside an execution (also a heartbeat)
void mc_sample (const char* fmt, ...) __attribute__((format(printf,1,2)));
int  mc_want_sample (void);
// A violation listed in known_findings under that exact key: recorded, not reported.
int  mc_known (const char* key);
uint64_t mc_hash (uint64_t h, const void* p, size_t n);
static inline uint64_t mc_mix (uint64_t h, uint64_t v)
    { h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdull; return h ^ (h>>32); }
const char* mc_hex (const void* p, size_t n);	// rotating static buffers

// ---- heap (mc/heap.c, linked with --wrap) ----------------------------------
// Every block ends at an unmapped page and is preceded by a checked canary.
void   mc_heap_fail_at (long k);	// k-th allocation from now on fails (0: next), -1 never
int    mc_heap_failed (void);		// an injected failure has happened since mc_heap_fail_at
long   mc_heap_count (void);		// allocations since last mc_heap_fail_at
extern int (*mc_heap_ask) (void);	// asked before each allocation; fails it if true
long   mc_heap_live (void);		// live blocks
size_t mc_heap_live_bytes (void);
void*  mc_guard_ro (const void* data, size_t n);   // n bytes, read only, ending at an unmapped page
void*  mc_guard (const void* data, size_t n);	   // cheaper: writes are noticed in mc_guard_free; with null data, a writable buffer
void   mc_guard_free (void* p);			   // give it back (verifies nothing)
void   mc_heap_reset (void);
void   mc_heap_check (void);		// canaries of all live blocks
void   mc_heap_execend (void);
void*  mc_raw_alloc (size_t n);	// harness memory, not tracked
extern int mc_heap_strict_null_free;

#ifdef __cplusplus
}
#endif
#endif
