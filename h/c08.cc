// C08: raw copies, fills and rotations at every length, alignment and overlap.
#include "u.h"
#include <sys/mman.h>
// Areas between unmapped pages
enum { PG = 4096, AREA = 140*PG, FRAME = 96 };
static uint8_t* area (int i)
{
    static uint8_t* a[3];
    if (!a[i]) { uint8_t* p = (uint8_t*) mmap (0, AREA+2*PG, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); mprotect (p+PG, AREA, PROT_READ|PROT_WRITE); a[i] = p+PG; }
    return a[i];
}
static uint8_t pat (int i) { return uint8_t (i*37+11); }
static void frame (uint8_t* p, size_t n, int seed) { uint8_t *lo = p - FRAME, *hi = p + n + FRAME; for (int k = 0; k < 3; ++k) { if (lo < area(k) && p >= area(k) && p <= area(k)+AREA) lo = area(k); if (hi > area(k)+AREA && p >= area(k) && p <= area(k)+AREA) hi = area(k)+AREA; } for (uint8_t* q = lo; q < hi; ++q) *q = pat (q - p + seed); }
static void unframed (const char* what, uint8_t* p, size_t n, int seed)	// bytes around [p,p+n) are as frame left them
{
    uint8_t *lo = p - FRAME, *hi = p + n + FRAME; for (int k = 0; k < 3; ++k) { if (lo < area(k) && p >= area(k) && p <= area(k)+AREA) lo = area(k); if (hi > area(k)+AREA && p >= area(k) && p <= area(k)+AREA) hi = area(k)+AREA; }
    for (uint8_t* q = lo; q < hi; ++q) if ((q < p || q >= p+n) && *q != pat (q - p + seed)) mc_fail ("%s: byte %ld, outside the written range of %zu, changed", what, long(q-p), n);
}
static void same (const char* what, const uint8_t* p, const uint8_t* e, size_t n) { mc_state (mc_mix (mc_hash (n < 64 ? n : 64, p, n < 64 ? n : 64), mc_mix (n, uintptr_t (p) & 31))); for (size_t i = 0; i < n; ++i) if (p[i] != e[i]) mc_fail ("%s: byte %zu of %zu is %02x, expected %02x", what, i, n, p[i], e[i]); }
// start addresses tried for a range of n bytes: all alignments, directly after and before an unmapped page
enum { NAL = 16, NPLACE = NAL+2 };
static uint8_t* place (int a, int w, size_t n) { return w < NAL ? area(a)+512+w : w == NAL ? area(a) : area(a)+AREA-n; }

MC_SCENARIO2 (copies, 64, 64)
{
    static uint8_t e[AREA];
    const int N = MC_TIER (200, 700);
    for (int n = shard; n <= N; n += 64) for (int s = 0; s < NPLACE; ++s) for (int d = 0; d < NPLACE; ++d) {
	uint8_t *src = place (0, s, n), *dst = place (1, d, n);
	for (int f = 0; f < 2; ++f) {
	    mc_at ("%s of %d bytes from alignment %d to %d (places %d, %d)", f ? "copy_backward_fast" : "copy_n_fast", n, int(uintptr_t(src)&15), int(uintptr_t(dst)&15), s, d);
	    frame (src, n, 0); frame (dst, n, 100); memcpy (e, src, n);
	    if (f) copy_backward_fast (src, src+n, dst+n); else copy_n_fast (src, n, dst);
	    same ("copy", dst, e, n); same ("source of copy", src, e, n); unframed ("copy", dst, n, 100); unframed ("copy source", src, n, 0); mc_eval();
	}
	mc_step();
    }
    if (mc_want_sample()) mc_sample ("lengths %d, %d ... %d at %d placements of source and destination", shard, shard+64, N, NPLACE*NPLACE);
}
// moves within one buffer: down with copy_n_fast, up with copy_backward_fast
MC_SCENARIO2 (overlaps, 64, 64)
{
    static uint8_t e[AREA]; const int N = MC_TIER (150, 500), D = MC_TIER (70, 140);
    for (int n = shard; n <= N; n += 64) for (int s = 0; s < NAL; ++s) for (int d = 0; d <= D; ++d) {
	uint8_t *lo = area(2)+1024+s, *hi = lo+d;
	mc_at ("move of %d bytes by %d at alignment %d", n, d, s);
	frame (lo, n+d, 0); memcpy (e, lo, n+d); memmove (e, e+d, n); copy_n_fast (hi, n, lo); same ("move down", lo, e, n+d); unframed ("move down", lo, n+d, 0);
	frame (lo, n+d, 0); memcpy (e, lo, n+d); memmove (e+d, e, n); copy_backward_fast (lo, lo+n, hi+n); same ("move up", lo, e, n+d); unframed ("move up", lo, n+d, 0);
	mc_eval(); mc_eval(); mc_step();
    }
}
template <class T> static void fills (void (*f) (T*, size_t, T), int n, const char* nm)
{
    static const T vals[] = { T(0), T(0x01020304), T(0x80FF7F81), T(~0) };
    for (int w = 0; w < NPLACE; ++w) for (int v = 0; v < 4; ++v) {
	uint8_t* p = place (0, w, n*sizeof(T)); if (uintptr_t(p) % sizeof(T)) continue;
	mc_at ("%s of %d elements at alignment %d, place %d, value %x", nm, n, int(uintptr_t(p)&15), w, unsigned(vals[v])); frame (p, n*sizeof(T), 5); f ((T*) p, n, vals[v]);
	for (int i = 0; i < n; ++i) MC_CHECK (!memcmp (p+i*sizeof(T), &vals[v], sizeof(T)), "element %d is wrong", i);
	unframed (nm, p, n*sizeof(T), 5); mc_eval(); mc_step();
    }
}
MC_SCENARIO2 (fill_raw, 64, 64) { for (int n = shard; n <= MC_TIER (300, 1000); n += 64) { fills<uint8_t> (fill_n8_fast, n, "fill_n8_fast"); fills<uint16_t> (fill_n16_fast, n, "fill_n16_fast"); fills<uint32_t> (fill_n32_fast, n, "fill_n32_fast"); } }
MC_SCENARIO2 (rotations, 64, 64)
{
    static uint8_t e[AREA];
    for (int n = shard; n <= MC_TIER (150, 300); n += 64) for (int m = 0; m <= n; ++m) for (int w = 0; w < NPLACE; ++w) {
	uint8_t* p = place (0, w, n); mc_at ("rotate_fast of %d bytes about %d at place %d", n, m, w); frame (p, n, 0); for (int i = 0; i < n; ++i) e[i] = p[(i+m)%n];
	rotate_fast (p, p+m, p+n); same ("rotate", p, e, n); unframed ("rotate", p, n, 0); mc_eval(); mc_step();
    }
}
// large blocks
MC_SCENARIO (large, 6)
{
    size_t n = (shard&1) ? 40u<<20 : (70u<<10)+3; uint8_t* p = (uint8_t*) mmap (0, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); for (size_t i = 0; i < n; ++i) p[i] = pat (i>>3) ^ i>>16;
    size_t m = shard < 2 ? n/2 : shard < 4 ? n/3+1 : n-n/3; mc_at ("rotate_fast of %zu bytes about %zu", n, m); rotate_fast (p, p+m, p+n); size_t s = m;
    for (size_t i = 0; i < n; ++i) { uint8_t e = pat (s>>3) ^ s>>16; MC_CHECK (p[i] == e, "rotate_fast of %zu bytes about %zu: byte %zu is wrong", n, m, i); if (++s == n) s = 0; if (!(i & 0xFFFFF)) mc_step(); }
    munmap (p, n); mc_eval();
}
// lengths past what 8 and 16 bits hold, and around the sizes where other code could be selected
static const int LN[] = { 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 66001 };
MC_SCENARIO (long_copies, 11*3)
{
    const int n = LN[shard/3]; static uint8_t e[AREA]; static const int W[] = { 0, 1, 7, 15, 16, 17 };
    if (shard%3 == 0) for (int si = 0; si < 6; ++si) for (int di = 0; di < 6; ++di) for (int f = 0; f < 2; ++f) {
	uint8_t *src = place (0, W[si], n), *dst = place (1, W[di], n); mc_at ("%s of %d bytes, places %d, %d", f ? "copy_backward_fast" : "copy_n_fast", n, W[si], W[di]);
	frame (src, n, 0); frame (dst, n, 100); memcpy (e, src, n); if (f) copy_backward_fast (src, src+n, dst+n); else copy_n_fast (src, n, dst);
	same ("copy", dst, e, n); same ("source of copy", src, e, n); unframed ("copy", dst, n, 100); unframed ("copy source", src, n, 0); mc_eval(); mc_step();
    }
    if (shard%3 == 1) for (int d : { 1, 2, 7, 8, 15, 16, 17, 63, 64, 65, 255, 256, 4096 }) {
	uint8_t *lo = area(2)+1024+3, *hi = lo+d; mc_at ("move of %d bytes by %d", n, d);
	frame (lo, n+d, 0); memcpy (e, lo, n+d); memmove (e, e+d, n); copy_n_fast (hi, n, lo); same ("move down", lo, e, n+d); unframed ("move down", lo, n+d, 0);
	frame (lo, n+d, 0); memcpy (e, lo, n+d); memmove (e+d, e, n); copy_backward_fast (lo, lo+n, hi+n); same ("move up", lo, e, n+d); unframed ("move up", lo, n+d, 0); mc_eval(); mc_step();
    }
    if (shard%3 == 2) { fills<uint8_t> (fill_n8_fast, n, "fill_n8_fast"); fills<uint16_t> (fill_n16_fast, n, "fill_n16_fast"); fills<uint32_t> (fill_n32_fast, n, "fill_n32_fast");
	for (int m : { 1, 2, 3, 8, 100, 255, 256, 257, n/2, n-300, n-8, n-1 }) { uint8_t* p = place (0, 5, n); mc_at ("rotate_fast of %d bytes about %d", n, m); frame (p, n, 0); for (int i = 0; i < n; ++i) e[i] = p[(i+m)%n]; rotate_fast (p, p+m, p+n); same ("rotate", p, e, n); unframed ("rotate", p, n, 0); mc_eval(); mc_step(); } }
}
// the templates that select a primitive by element type
template <class T> static T val (int i) { T t; uint8_t* p = (uint8_t*) &t; for (size_t k = 0; k < sizeof(T); ++k) p[k] = pat (i*sizeof(T)+k) & 0x7F; return t; }
struct B3 { uint8_t a[3]; };
template <class T> static void typed (int n, const char* nm)
{
    static uint8_t e[AREA]; const size_t nb = n*sizeof(T);
    for (int o = 0; o < 17; ++o) {
	T *s = (T*)(area(0)+(o == 16 ? AREA-nb : 480+(o%4)*sizeof(T)*((o>>2)+1))), *d = (T*)(area(1)+(o == 16 ? AREA-nb : 480+(o>>2)*sizeof(T)));
	if (uintptr_t(s) % alignof(T) || uintptr_t(d) % alignof(T)) continue;
	uint8_t* db = (uint8_t*) d; const T* cs = s;
	#define START(what) mc_at ("%s of %d %s at %d to %d", what, n, nm, int(uintptr_t(s)&63), int(uintptr_t(d)&63)); frame ((uint8_t*) s, nb, 0); frame (db, nb, 100); memcpy (e, s, nb); const char* w = what
	#define END(r,x) MC_CHECK ((r) == (x), "%s of %d %s returned %ld, expected %ld", w, n, nm, long((r)-d), long((x)-d)); same (w, db, e, nb); unframed (w, db, nb, 100); mc_eval()
	{ START ("copy"); T* r = copy (s, s+n, d); END (r, d+n); } { START ("copy const"); T* r = copy (cs, cs+n, d); END (r, d+n); }
	{ START ("copy_n"); T* r = copy_n (s, n, d); END (r, d+n); } { START ("copy_n const"); T* r = copy_n (cs, n, d); END (r, d+n); }
	{ START ("copy_backward"); T* r = copy_backward (s, s+n, d+n); END (r, d); } { START ("copy_backward const"); T* r = copy_backward (cs, cs+n, d+n); END (r, d); }
	{ START ("fill"); T v (val<T> (3)); for (int i = 0; i < n; ++i) memcpy (e+i*sizeof(T), &v, sizeof(T)); fill (d, d+n, v); END (d+n, d+n); } { START ("fill_n"); T v (val<T> (9)); for (int i = 0; i < n; ++i) memcpy (e+i*sizeof(T), &v, sizeof(T)); T* r = fill_n (d, n, v); END (r, d+n); }
	{ START ("uninitialized_copy"); T* r = uninitialized_copy (cs, cs+n, d); END (r, d+n); } { START ("uninitialized_fill_n"); T v (val<T> (7)); for (int i = 0; i < n; ++i) memcpy (e+i*sizeof(T), &v, sizeof(T)); T* r = uninitialized_fill_n (d, n, v); END (r, d+n); }
	{ START ("uninitialized_copy_n"); T* r = uninitialized_copy_n (cs, n, d); END (r, d+n); } { START ("uninitialized_fill"); T v (val<T> (8)); for (int i = 0; i < n; ++i) memcpy (e+i*sizeof(T), &v, sizeof(T)); uninitialized_fill (d, d+n, v); END (d, d); }
	for (int m = 0; m <= n; m += n < 12 ? 1 : n < 1000 ? 5 : n/3) { START ("rotate"); copy (cs, cs+n, d); for (int i = 0; i < n; ++i) memcpy (e+i*sizeof(T), s+(i+m)%n, sizeof(T)); T* r = rotate (d, d+m, d+n); END (r, d+n-m); }
	for (int k = 0; k <= n; k += n < 12 ? 1 : n < 1000 ? 7 : n/2-1) { { START ("copy to the left"); copy (cs, cs+n, d); memmove (e, e+k*sizeof(T), (n-k)*sizeof(T)); T* r = copy (d+k, d+n, d); END (r, d+n-k); } { START ("copy to the right"); copy (cs, cs+n, d); memmove (e+k*sizeof(T), e, (n-k)*sizeof(T)); T* r = copy_backward (d, d+n-k, d+n); END (r, d+k); } }
	mc_step();
    }
}
MC_SCENARIO2 (templates, 72, 200)
{
    #define T_(t) typed<t> (shard, #t);
    T_(char) T_(int8_t) T_(uint8_t) T_(int16_t) T_(uint16_t) T_(int32_t) T_(uint32_t) T_(int64_t) T_(uint64_t) T_(float) T_(double) T_(B3) T_(wchar_t) T_(bool)
    // untyped
    const int n = shard; static uint8_t e[AREA]; void *s = area(0)+77, *d = area(1)+61; const void* cs = s; uint8_t* db = (uint8_t*) d;
    frame ((uint8_t*) s, n, 0); memcpy (e, s, n);
    #define V(what,expr,ret) frame (db, n, 100); mc_at ("%s of %d untyped bytes", what, n); { void* r = expr; MC_CHECK (r == (ret), "%s of %d untyped bytes returned %ld", what, n, long((uint8_t*)r-db)); same (what, db, e, n); unframed (what, db, n, 100); mc_eval(); }
    V ("copy", copy (s, (void*)((uint8_t*)s+n), d), db+n) V ("copy const", copy (cs, (const void*)((uint8_t*)s+n), d), db+n) V ("copy_n", copy_n (s, n, d), db+n) V ("copy_n const", copy_n (cs, n, d), db+n)
    V ("copy_backward", copy_backward (s, (void*)((uint8_t*)s+n), (void*)(db+n)), db) V ("copy_backward const", copy_backward (cs, (const void*)((uint8_t*)s+n), (void*)(db+n)), db)
    memset (e, 0x5c, n); V ("fill", (fill (d, (void*)(db+n), char(0x5c)), d), d) V ("fill uint8_t", (fill (d, (void*)(db+n), uint8_t(0x5c)), d), d)  V ("fill_n", fill_n (d, n, char(0x5c)), db+n)  V ("fill_n uint8_t", fill_n (d, n, uint8_t(0x5c)), db+n)
    // memlink::fill with elements of 1..8 bytes
    for (int es = 1; es <= 8; ++es) for (int off = 0; off <= 3; ++off) { int cnt = n/es; frame (db, n+8, 100); memcpy (e, db, n+8); for (int i = 0; i < cnt*es; ++i) e[off+i] = (uint8_t) (i%es+1); static const uint8_t pt[] = {1,2,3,4,5,6,7,8}; memlink l (d, n+8); mc_at ("memlink::fill of %d elements of %d bytes at %d", cnt, es, off); l.fill (l.begin()+off, pt, es, cnt); same ("memlink::fill", db, e, n+8); unframed ("memlink::fill", db, n+8, 100); mc_eval(); }
}
MC_SCENARIO (long_templates, 4*14)
{
    const int n = LN[shard/14 == 3 ? 2 : 7+shard/14];
    #undef T_
    #define T_(i,t) case i: typed<t> (n, #t); break;
    switch (shard%14) { T_(0,char) T_(1,int8_t) T_(2,uint8_t) T_(3,int16_t) T_(4,uint16_t) T_(5,int32_t) T_(6,uint32_t) T_(7,int64_t) T_(8,uint64_t) T_(9,float) T_(10,double) T_(11,B3) T_(12,wchar_t) T_(13,bool) }
}
// raw memory made into objects and back, with counts longer than 8 and 16 bits
static long nalive; static uintptr_t alivesum; static bool strange; static void live (const void* p, int d) { nalive += d; alivesum += d * (uintptr_t(p) * uintptr_t(p)); }
struct Obj { Obj* self; int v; Obj (void) : self (this), v (5) { live (this, 1); } explicit Obj (int a) : self (this), v (a) { live (this, 1); } Obj (const Obj& o) : self (this), v (o.v) { live (this, 1); if (o.self != &o) strange = true; } Obj (Obj&& o) : self (this), v (o.v) { live (this, 1); if (o.self != &o) strange = true; o.v = -1; } ~Obj (void) { if (self != this) strange = true; live (this, -1); } Obj& operator= (const Obj& o) { if (self != this || o.self != &o) strange = true; v = o.v; return *this; } };
MC_SCENARIO (objects, 16)
{
    static const int N[] = { 0, 1, 2, 3, 127, 128, 255, 256, 257, 511, 512, 65535, 65536, 65537, 70001, 140000 }; const int n = N[shard], op = mc_choose (11), un = mc_choose (2);
    static Obj *m = 0, *s = 0; if (!m) { m = (Obj*) mc_raw_alloc (140004*sizeof(Obj)); s = (Obj*) mc_raw_alloc (140004*sizeof(Obj)); } nalive = 0; strange = false; for (int i = 0; i < n+2; ++i) { m[i].self = (Obj*) 8; m[i].v = -7; } for (int i = 0; i < n; ++i) new (s+i) Obj (i+1); nalive = 0; alivesum = 0; Obj* const b = m+1; const Obj filler (77); nalive = 0; alivesum = 0;
    mc_at ("operation %d of %d objects", op, n); Obj* r = b+n; bool moved = false; int def = 0;
    switch (op) {
	case 0: uninitialized_default_construct_n (b, n); def = 5; break; case 1: uninitialized_default_construct (b, b+n); def = 5; break; case 2: uninitialized_value_construct_n (b, n); def = 5; break; case 3: uninitialized_value_construct (b, b+n); def = 5; break;
	case 4: r = uninitialized_copy (s, s+n, b); break; case 5: r = uninitialized_copy_n (s, n, b); break; case 6: r = uninitialized_move (s, s+n, b); moved = true; break; case 7: r = uninitialized_move_n (s, n, b); moved = true; break;
	case 8: r = uninitialized_fill_n (b, n, filler); def = 77; break; case 9: uninitialized_fill (b, b+n, filler); def = 77; break; case 10: construct (b, b+n); def = 5; break;
    }
    MC_CHECK (r == b+n, "operation %d of %d objects returned %ld", op, n, long(r-b)); MC_CHECK (nalive == n && !strange, "operation %d of %d objects made %ld", op, n, nalive);
    for (int i = 0; i < n; ++i) { MC_CHECK (b[i].self == b+i && b[i].v == (def ? def : i+1), "operation %d: object %d of %d is wrong", op, i, n); MC_CHECK (s[i].v == (moved ? -1 : i+1), "operation %d: source %d of %d is wrong", op, i, n); }
    MC_CHECK (m[0].self == (Obj*) 8 && b[n].self == (Obj*) 8, "operation %d of %d objects wrote beyond", op, n); mc_step();
    if (un) destroy_n (b, n); else destroy (b, b+n); MC_CHECK (!nalive && !strange && m[0].self == (Obj*) 8 && b[n].self == (Obj*) 8, "destroying %d objects left %ld", n, nalive); MC_CHECK (!alivesum, "destroyed other objects than those %d that were made", n);
    mc_step(); mc_state (mc_mix (n, op*2+un)); mc_outcome (op);
}
