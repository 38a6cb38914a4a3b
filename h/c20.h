// Faults: every allocation and every element construction, copy, assignment or comparison asks the explorer.
#ifndef C20_H
#define C20_H
#include "u.h"
struct Thrown { int n; };
static bool armed; static int fired;
static bool ask (void) { if (!armed || !mc_dev (2)) return false; ++fired; mc_note ("fault"); return true; }
static int heap_ask (void) { return ask(); }
static void efault (void) { if (ask()) { armed = false; throw Thrown(); } }	// the rest of the operation is recovery
static void faults_reset (void) { armed = false; fired = 0; mc_heap_ask = heap_ask; }
// Runs f with faults. Returns 0 if it succeeded, 1 if an element's exception came out, 2 if bad_alloc.
template <class F> static int attempt (const char* what, F f)
{
    int r = 0; fired = 0; armed = true;
    try { f(); armed = false; }
    catch (Thrown&) { armed = false; r = 1; }
    catch (ustl::bad_alloc& e) { armed = false; r = 2; string s; e.info (s); MC_CHECK (s.size() > 20, "%s: the exception says '%s'", what, s.c_str()); }
    catch (ustl::exception& e) { armed = false; r = 3; mc_fail ("%s: after a fault, an exception '%s' of another kind came out", what, e.what()); }
    catch (...) { armed = false; mc_fail ("%s: after a fault, an unknown exception came out", what); }
    MC_CHECK (r == 0 || fired, "%s: an exception without a fault", what);
    mc_note ("%s: %s", what, r == 0 ? "done" : r == 1 ? "element exception" : "bad_alloc");
    mc_step(); mc_outcome (mc_hash (r, what, strlen (what)));
    return r;
}
// An element that checks its own life, and whose every operation may fail
struct X {
    enum { MAXID = 4096, MAGIC = 0x5EED0000 };
    static int live[MAXID]; static int next, nlive; static bool cmpfaults;
    int v; unsigned id;
    static void reset (void) { for (int i = 0; i < next; ++i) live[i] = 0; next = nlive = 0; cmpfaults = false; }
    void born (void) { if (next >= MAXID) mc_fail ("harness error: too many elements"); efault(); id = MAGIC + next; live[next++] = 1; ++nlive; }
    bool ok (void) const { unsigned i = id - MAGIC; return i < unsigned(next) && live[i]; }
    void chk (const char* what) const { if (!ok()) mc_fail ("%s of an element that is not alive (v=%d id=%x)", what, v, id); }
    X (void) : v (0) { born(); }
    X (int n) : v (n) { born(); }
    X (const X& e) : v (e.v) { e.chk ("copy"); born(); }
    X (X&& e) : v (e.v) { e.chk ("move"); born(); }
    X& operator= (const X& e) { chk ("assignment to"); e.chk ("assignment from"); if (cmpfaults) efault(); v = e.v; return *this; }
    X& operator= (X&& e) { chk ("assignment to"); e.chk ("assignment from"); if (cmpfaults) efault(); v = e.v; return *this; }
    ~X (void) { chk ("destruction"); live[id-MAGIC] = 0; --nlive; id = 0xDEAD; }
    bool operator== (const X& e) const { chk ("compare"); e.chk ("compare"); return v == e.v; }
    bool operator!= (const X& e) const { return !(*this == e); }
    bool operator< (const X& e) const { chk ("compare"); e.chk ("compare"); if (cmpfaults) efault(); return v < e.v; }
};
static inline int val (const X& x) { x.chk ("access"); return x.v; }
static inline X mk (int v, const X*) { return X (v); }
// a string as an element; it allocates in construction and assignment
static inline int val (const string& s) { MC_CHECK (s.size() == 0 || s.size() == 12, "a string element has the size %u", unsigned(s.size())); if (s.empty()) return 0; int n = 0; for (int i = 0; i < 12; ++i) { MC_CHECK (s[i] >= '0' && s[i] <= '9', "a string element is '%s'", mc_hex (s.data(), 12)); n = n*10 + s[i]-'0'; } MC_CHECK (!s.c_str()[12], "a string element is not terminated"); return n; }
static inline string mk (int v, const string*) { char b[16]; sprintf (b, "%012d", v); string s; s.assign (b, 12); return s; }
#define MK(T,v) mk (v, (const T*) 0)
// What must be left after a fault: everything as it was; everything that was, and maybe more; or anything, if it is valid.
enum { KEEP, GROW, ANY };
static bool subseq (const Seq& a, const Seq& b) { int i = 0; for (int j = 0; j < b.n && i < a.n; ++j) if (a.d[i] == b.d[j]) ++i; return i == a.n; }
static void judge (const char* what, int cls, int r, const Seq& pre, const Seq& post, const Seq& now)
{
    if (!r) { MC_CHECK (now == post, "%s: result is %s, expected %s%s", what, now.str(), post.str(), fired ? " in spite of the fault" : ""); return; }
    MC_CHECK (cls != KEEP || now == pre, "%s failed, and left %s of %s", what, now.str(), pre.str());
    MC_CHECK (cls != GROW || subseq (pre, now), "%s failed, and left %s, which is not all of %s", what, now.str(), pre.str());
    MC_CHECK (cls != GROW || now.n <= (post.n > pre.n ? post.n : pre.n), "%s failed, and left %s, which is more than asked for (%s)", what, now.str(), post.str());
}
#endif
