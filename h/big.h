// Models of large sizes: lists of sizes around every power of two, and a sequence of them.
#ifndef BIG_H
#define BIG_H
#include "u.h"
static const int BIGN[] = { 0,1,2,3,15,16,17,31,32,33,63,64,65,127,128,129,254,255,256,257,300,511,512,513,1000,1023,1024,1025,4095,4096,4097,32767,32768,32769,65534,65535,65536,65537,70000,131072 };
enum { NBIGN = sizeof(BIGN)/sizeof(BIGN[0]) };
static const int BIGK[] = { 0,1,2,3,15,16,17,63,64,127,128,129,254,255,256,257,511,512,4095,4096,4097,32768,65535,65536,65537 };
enum { NBIGK = sizeof(BIGK)/sizeof(BIGK[0]) };
// sizes of a shard: BIGN, and in the thorough tier also all those below 640
static inline int bigsizes (void) { return NBIGN + MC_TIER (0, 640); }
static inline int bigsize (int i) { return i < NBIGN ? BIGN[i] : i-NBIGN; }
static inline int bigat (int n, int i) { switch (i) { case 0: return 0; case 1: return n; case 2: return n/2; case 3: return n > 1 ? 1 : 0; default: return n > 1 ? n-1 : 0; } }
enum { NBIGAT = 5 };
template <class V> struct Big {
    enum { MAX = 300000 };
    int n; V* d;
    int slot; static V pool[6][MAX]; static bool used[6];
    Big (void) : n (0), slot (0) { while (used[slot]) if (++slot == 6) mc_fail ("harness error: too many big models"); used[slot] = true; d = pool[slot]; }
    ~Big (void) { used[slot] = false; }
    Big (const Big&) = delete;
    void room (int k) { if (n + k > MAX) mc_fail ("harness error: model full"); }
    void ins (int at, int cnt) { room (cnt); memmove (d+at+cnt, d+at, (n-at)*sizeof(V)); n += cnt; }
    void ins (int at, int cnt, V v) { ins (at, cnt); for (int i = 0; i < cnt; ++i) d[at+i] = v; }
    void insv (int at, const V* p, int cnt) { ins (at, cnt); memcpy (d+at, p, cnt*sizeof(V)); }
    void del (int at, int cnt) { memmove (d+at, d+at+cnt, (n-at-cnt)*sizeof(V)); n -= cnt; }
    void set (const V* p, int cnt) { n = 0; insv (0, p, cnt); }
};
template <class V> V Big<V>::pool[6][Big<V>::MAX]; template <class V> bool Big<V>::used[6];
#endif
