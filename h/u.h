// Common helpers for harnesses.
#ifndef U_H
#define U_H
#include <ustl/ustl.h>
#include <stdio.h>
#include <string.h>
#include "mc.h"
using namespace ustl;

// Element with a tracked lifecycle. uSTL containers relocate elements bitwise,
// so identity is an id stored in the object, not its address.
struct E {
    enum { MAXID = 1<<19, MAGIC = 0x5EED0000 };
    static unsigned char live_[MAXID]; static int next_, nlive_, throwat_, moved_;
    int v; unsigned id;
    static void reset (void) { for (int i = 0; i < next_; ++i) live_[i] = 0; next_ = 0; nlive_ = 0; throwat_ = -1; }
    void born (void) {
	if (next_ >= MAXID) mc_fail ("harness error: too many elements");
	if (throwat_ >= 0 && throwat_-- == 0) throw 42;
	id = MAGIC + next_; live_[next_++] = 1; ++nlive_;
    }
    bool ok (void) const { unsigned i = id - MAGIC; return i < unsigned(next_) && live_[i]; }
    void chk (const char* what) const { if (!ok()) mc_fail ("%s of an element that is not alive (v=%d id=%x)", what, v, id); }
    E (void) : v (0) { born(); }
    E (int n) : v (n) { born(); }
    E (const E& e) : v (e.v) { e.chk ("copy"); born(); }
    E (E&& e) : v (e.v) { e.chk ("move"); born(); e.v = -1; }
    E& operator= (const E& e) { chk ("assignment to"); e.chk ("assignment from"); v = e.v; return *this; }
    E& operator= (E&& e) { chk ("move assignment to"); e.chk ("move assignment from"); int t = e.v; if (&e != this) e.v = -1; v = t; return *this; }
    ~E (void) { chk ("destruction"); live_[id-MAGIC] = 0; --nlive_; id = 0xDEAD; }
    bool operator== (const E& e) const { chk ("compare"); e.chk ("compare"); return v == e.v; }
    bool operator!= (const E& e) const { return !(*this == e); }
    bool operator< (const E& e) const { chk ("compare"); e.chk ("compare"); return v < e.v; }
};
#define U_WEAK __attribute__((weak))	// some checks have more than one file
U_WEAK unsigned char E::live_[E::MAXID]; U_WEAK int E::next_; U_WEAK int E::nlive_; U_WEAK int E::throwat_ = -1; U_WEAK int E::moved_;

// Boring reference sequence of ints.
struct Seq {
    enum { MAX = 96 };
    int n; int d[MAX];
    Seq (void) : n (0) {}
    void ins (int at, int v, int cnt = 1) {
	if (n + cnt > MAX) mc_fail ("harness error: model full");
	for (int i = n-1; i >= at; --i) d[i+cnt] = d[i];
	for (int i = 0; i < cnt; ++i) d[at+i] = v;
	n += cnt;
    }
    void insv (int at, const int* p, int cnt) { int t[MAX]; for (int i = 0; i < cnt; ++i) t[i] = p[i]; ins (at, 0, cnt); for (int i = 0; i < cnt; ++i) d[at+i] = t[i]; }
    void del (int at, int cnt = 1) { for (int i = at; i + cnt < n; ++i) d[i] = d[i+cnt]; n -= cnt; }
    void push (int v) { ins (n, v); }
    void resize (int k, int v) { if (k < n) n = k; else ins (n, v, k-n); }
    bool operator== (const Seq& s) const { if (n != s.n) return false; for (int i = 0; i < n; ++i) if (d[i] != s.d[i]) return false; return true; }
    uint64_t hash (void) const { return mc_hash (n, d, n*sizeof(int)); }
    const char* str (void) const { static char b[4][400]; static int k; char* o = b[k++&3]; char* p = o; *p++='['; for (int i = 0; i < n && i < 40; ++i) p += sprintf (p, "%s%d", i?" ":"", d[i]); strcpy (p, "]"); return o; }
    void sort (void) { for (int i = 1; i < n; ++i) for (int j = i; j > 0 && d[j] < d[j-1]; --j) { int t = d[j]; d[j] = d[j-1]; d[j-1] = t; } }
};
#endif
