// Threads under a controlled scheduler. The harness and the library templates
// in it are compiled with -fsanitize=thread, whose calls are answered by
// mc/thr.c instead of the sanitizer's own runtime: every atomic operation is a
// scheduling point, every plain access is checked for data races with vector
// clocks built from the memory orders that were asked for, and against the
// state of the heap. Stores weaker than sequentially consistent wait in a
// store buffer (TSO). All interleavings are explored up to equivalence
// (sleep sets).
#ifndef THR_H
#define THR_H
#include "mc.h"
#ifdef __cplusplus
extern "C" {
#endif
enum { THR_MAX = 4 };
typedef void (*thr_fn)(void* arg);
// Runs n functions as threads until all have finished. Returns 0 if this
// interleaving is equivalent to another one that is explored.
int  thr_run (int n, thr_fn f, void* const* args);
int  thr_self (void);		// index of the running thread, -1 outside
void thr_wait (const volatile void* p);	// blocks until a write changes what an atomic operation of this thread last saw at p
void thr_step (const volatile void* p, int write);	// scheduling point for an operation the compiler does not show
// Threads that are preempted only where they call thr_preempt; a preemption costs a deviation.
void thr_run_stepped (int n, thr_fn f, void* const* args);
void thr_preempt (void);
extern int thr_at_functions;	// call thr_preempt at the start of every function compiled with -fsanitize=thread
void thr_reset (void);		// at the start of an execution
uint64_t thr_ops (void);
#ifdef __cplusplus
}
#endif
#define THR_HIDDEN __attribute__((no_sanitize("thread"),noinline))
#endif
