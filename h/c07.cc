// C07: every algorithm against the C++ standard library's, on every small input.
#include "u.h"
#include <sys/mman.h>
#define C07_TYPES
#define NS ustl
#define C07_CALL call_ustl
#include "c07ops.h"
Res c07_ref (int op, P* a, int n, P* b, int nb, P* o, int v, int m);

// Random access iterator that checks its bounds
template <class T> struct RI {
    T *p, *lo, *hi;
    RI (void) : p (nullptr), lo (nullptr), hi (nullptr) {}
    RI (T* i, T* l, T* h) : p (i), lo (l), hi (h) {}
    T& operator* (void) const { if (p < lo || p >= hi) mc_fail ("element %ld of a range of %ld accessed", long(p-lo), long(hi-lo)); return *p; }
    T* operator-> (void) const { return &**this; }
    T& operator[] (ptrdiff_t n) const { return *(*this + n); }
    RI& operator++ (void) { ++p; return *this; } RI operator++ (int) { RI r (*this); ++p; return r; }
    RI& operator-- (void) { --p; return *this; } RI operator-- (int) { RI r (*this); --p; return r; }
    RI& operator+= (ptrdiff_t n) { p += n; return *this; } RI& operator-= (ptrdiff_t n) { p -= n; return *this; }
    RI operator+ (ptrdiff_t n) const { RI r (*this); r.p += n; return r; } RI operator- (ptrdiff_t n) const { RI r (*this); r.p -= n; return r; }
    ptrdiff_t operator- (const RI& o) const { return p - o.p; }
    bool operator== (const RI& o) const { return p == o.p; } bool operator!= (const RI& o) const { return p != o.p; }
    bool operator< (const RI& o) const { return p < o.p; } bool operator> (const RI& o) const { return p > o.p; }
    bool operator<= (const RI& o) const { return p <= o.p; } bool operator>= (const RI& o) const { return p >= o.p; }
};
namespace ustl { template <class T> struct iterator_traits<RI<T> > { typedef T value_type; typedef ptrdiff_t difference_type; typedef const T* const_pointer; typedef T* pointer; typedef const T& const_reference; typedef T& reference; typedef random_access_iterator_tag iterator_category; }; }

// Ranges end at an unmapped page and have a canary in front
enum { MAXN = 145000, MAXS = 1300, NCAN = 4, GSZ = 2*1024*1024 };
static P* guarded (int i)
{
    static P* end[3];
    if (!end[i]) { char* p = (char*) mmap (0, GSZ+4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); mprotect (p+GSZ, 4096, PROT_NONE); end[i] = (P*)(p+GSZ); }
    return end[i];
}
static P* place (int i, const P* v, int n) { P* p = guarded (i) - n; for (int k = 0; k < n; ++k) p[k] = v[k]; for (int k = 1; k <= NCAN; ++k) p[-k] = P (-1000, k); return p; }
static void canary (int i, int n, const char* opn) { P* p = guarded (i) - n; for (int k = 1; k <= NCAN; ++k) MC_CHECK (p[-k].k == -1000 && p[-k].t == k, "%s wrote before the %s", opn, i == 0 ? "first range" : i == 1 ? "second range" : "output"); }
static const char* show (const P* p, int n) { static char b[6][300]; static int t; char* o = b[t++%6]; char* q = o; *q = 0; for (int i = 0; i < n && i < 20; ++i) q += sprintf (q, "%d/%d ", p[i].k, p[i].t); return o; }
#define X(n,s) #n,
static const char* const opname[] = { C07_OPS(X) C07_OPS2(X) };
#undef X
#define X(n,s) s,
static const int opneed[] = { C07_OPS(X) C07_OPS2(X) };
#undef X
static bool keysonly (int op) { return op >= OP_next_permutation && op <= OP_prev_permutation_p; }

static void one (int op, const P* A, int n, const P* B, int nb, int v, int m)
{
    mc_at ("%s: a {%s} b {%s} v %d m %d", opname[op], show (A, n), show (B, nb), v, m);
    static P ra[MAXN], rb[MAXN], ro[MAXN];
    for (int i = 0; i < n; ++i) ra[i] = A[i];
    for (int i = 0; i < nb; ++i) rb[i] = B[i];
    for (int i = 0; i < n+nb+32; ++i) ro[i] = P (-7, -7);
    const Res R = c07_ref (op, ra, n, rb, nb, ro, v, m); const int w = R.out > 0 ? R.out : 0;
    for (int kind = 0; kind < 2; ++kind) {
	P *a = place (0, A, n), *b = place (1, B, nb), *o = place (2, ro, w);
	for (int i = 0; i < w; ++i) o[i] = P (-7, -7);
	Res r = kind == 0 ? call_ustl (op, a, n, b, nb, o, v, m) : call_ustl (op, RI<P> (a, a, a+n), n, RI<P> (b, b, b+nb), nb, RI<P> (o, o, o+w), v, m);
	MC_CHECK (r.r[0] == R.r[0] && r.r[1] == R.r[1], "%s (%s): returned %ld,%ld, the standard says %ld,%ld", opname[op], kind ? "iterators" : "pointers", r.r[0], r.r[1], R.r[0], R.r[1]);
	MC_CHECK (r.out == R.out, "%s (%s): wrote %ld elements, the standard says %ld", opname[op], kind ? "iterators" : "pointers", r.out, R.out);
	int na = R.r[2] ? R.r[0] : n;
	for (int i = 0; i < na; ++i) MC_CHECK (a[i].k == ra[i].k && (keysonly (op) || a[i].t == ra[i].t), "%s (%s): range became {%s}, the standard says {%s}", opname[op], kind ? "iterators" : "pointers", show (a, n), show (ra, n));
	for (int i = 0; i < nb; ++i) MC_CHECK (b[i].k == rb[i].k && b[i].t == rb[i].t, "%s: second range became {%s}, the standard says {%s}", opname[op], show (b, nb), show (rb, nb));
	for (int i = 0; i < w; ++i) MC_CHECK (o[i].k == ro[i].k && o[i].t == ro[i].t, "%s (%s): output {%s}, the standard says {%s}", opname[op], kind ? "iterators" : "pointers", show (o, w), show (ro, w));
	canary (0, n, opname[op]); canary (1, nb, opname[op]); canary (2, w, opname[op]);
    }
    mc_eval(); mc_state (mc_mix (mc_mix (op, mc_hash (n, ra, n*sizeof(P))), mc_mix (R.r[0], mc_hash (w, ro, w*sizeof(P)))));
}
static bool sorted (const P* a, int n, int s) { for (int i = 1; i < n; ++i) if (s*a[i].k < s*a[i-1].k) return false; return true; }
static bool heap (const P* a, int n, int s) { for (int i = 1; i < n; ++i) if (s*a[(i-1)/2].k < s*a[i].k) return false; return true; }
static bool fits (int need, const P* a, int n, int m)
{
    switch (need) { case SORTED: return sorted (a, n, 1); case SORTEDD: return sorted (a, n, -1); case HALVES: return sorted (a, m, 1) && sorted (a+m, n-m, 1); default: return true; }
}
static void sortk (int* d, int n) { for (int i = 1; i < n; ++i) for (int j = i; j > 0 && d[j] < d[j-1]; --j) { int t = d[j]; d[j] = d[j-1]; d[j-1] = t; } }
// the same elements (identity by tag), whatever the order
static void sameset (const char* what, const P* a, const P* b, int n)
{
    static int x[MAXN], y[MAXN]; for (int i = 0; i < n; ++i) { x[i] = a[i].k*1000+a[i].t; y[i] = b[i].k*1000+b[i].t; }
    sortk (x, n); sortk (y, n); for (int i = 0; i < n; ++i) MC_CHECK (x[i] == y[i], "%s: {%s} is not a permutation of {%s}", what, show (b, n), show (a, n));
}
#define FRESH() a = place (0, A, n)
static bool fup (const P& a, const P& b) { return a.k < b.k; }
static bool fdown (const P& a, const P& b) { return b.k < a.k; }
// algorithms whose result is not unique: checked by their specification
static void unordered (const P* A, int n)
{
    P* a;
    mc_at ("unordered algorithms on {%s}", show (A, n));
    FRESH(); sort (a, a+n); sameset ("sort", A, a, n); MC_CHECK (sorted (a, n, 1), "sort gave {%s}", show (a, n)); canary (0, n, "sort");
    FRESH(); sort (a, a+n, Dn()); sameset ("sort", A, a, n); MC_CHECK (sorted (a, n, -1), "sort descending gave {%s}", show (a, n)); canary (0, n, "sort");
    for (int s = -1; s < 2; s += 2) {	// comparisons with state, functions, and ones that sort something themselves
	FRESH(); sort (a, a+n, Cm (s)); sameset ("sort", A, a, n); MC_CHECK (sorted (a, n, s), "sort with a comparison object gave {%s}", show (a, n));
	FRESH(); int calls = 0; sort (a, a+n, [&](const P& x, const P& y) { ++calls; P t[3] = { P (1), P (3), P (2) }; sort (t, t+3, Cm (-s)); MC_CHECK (sorted (t, 3, -s), "sort inside of a comparison gave {%s}", show (t, 3)); return s*x.k < s*y.k; }); sameset ("sort", A, a, n); MC_CHECK (sorted (a, n, s) && (n < 2 || calls), "sort with a lambda gave {%s}", show (a, n));
	FRESH(); sort (a, a+n, s < 0 ? &fdown : &fup); sameset ("sort", A, a, n); MC_CHECK (sorted (a, n, s), "sort with a function gave {%s}", show (a, n));
	FRESH(); if (n) nth_element (a, a, a+n, Cm (s)); sameset ("nth_element", A, a, n); if (n) for (int i = 1; i < n; ++i) MC_CHECK (s*a[0].k <= s*a[i].k, "nth_element with a comparison object gave {%s}", show (a, n));
    }
    for (int m = 0; m <= n; ++m) {
	mc_at ("unordered algorithms on {%s}, m %d", show (A, n), m);
	static P s[MAXN]; for (int i = 0; i < n; ++i) s[i] = A[i];
	for (int i = 1; i < n; ++i) for (int j = i; j > 0 && s[j].k < s[j-1].k; --j) { P t = s[j]; s[j] = s[j-1]; s[j-1] = t; }
	for (int kind = 0; kind < 2; ++kind) {
	    FRESH(); if (kind) partial_sort (a, a+m, a+n); else { RI<P> i (a, a, a+n); partial_sort (i, i+m, i+n); } sameset ("partial_sort", A, a, n); for (int i = 0; i < m; ++i) MC_CHECK (a[i].k == s[i].k, "partial_sort (%d) gave {%s}", m, show (a, n)); canary (0, n, "partial_sort");
	    FRESH(); partial_sort (a, a+m, a+n, Cm (-1)); sameset ("partial_sort", A, a, n); for (int i = 0; i < m; ++i) MC_CHECK (a[i].k == s[n-1-i].k, "partial_sort (%d) descending gave {%s}", m, show (a, n));
	}
	if (m < n) { FRESH(); nth_element (a, a+m, a+n); sameset ("nth_element", A, a, n); MC_CHECK (a[m].k == s[m].k, "nth_element (%d) gave {%s}", m, show (a, n)); for (int i = 0; i < n; ++i) MC_CHECK (i < m ? a[i].k <= a[m].k : a[i].k >= a[m].k, "nth_element (%d) gave {%s}", m, show (a, n));
	    FRESH(); nth_element (a, a+m, a+n, Dn()); sameset ("nth_element", A, a, n); MC_CHECK (a[m].k == s[n-1-m].k, "nth_element (%d) descending gave {%s}", m, show (a, n)); canary (0, n, "nth_element"); }
	FRESH(); { static P z[MAXN]; P* o = place (2, z, m); P* e = partial_sort_copy (a, a+n, o, o+m); MC_CHECK (e == o+m, "partial_sort_copy wrote %ld of %d", long(e-o), m); for (int i = 0; i < m; ++i) { MC_CHECK (o[i].k == s[i].k, "partial_sort_copy gave {%s}", show (o, m)); } canary (2, m, "partial_sort_copy"); sameset ("partial_sort_copy source", A, a, n);
	    for (int big = 0; big < 2; ++big) { P* o2 = place (2, z, n+2*big); P* e2 = partial_sort_copy (a, a+n, o2, o2+n+2*big, Cm (-1)); MC_CHECK (e2 == o2+n, "partial_sort_copy wrote %ld of %d", long(e2-o2), n); sameset ("partial_sort_copy", A, o2, n); MC_CHECK (sorted (o2, n, -1), "partial_sort_copy gave {%s}", show (o2, n)); canary (2, n+2*big, "partial_sort_copy"); } }
	for (int v = 0; v < 3; ++v) { FRESH(); P* e = partition (a, a+n, Pk (v)); sameset ("partition", A, a, n); for (int i = 0; i < n; ++i) MC_CHECK ((a[i].k == v) == (a+i < e), "partition gave {%s}, %ld", show (a, n), long(e-a)); }
    }
    for (int dir = 0; dir < 2; ++dir) for (int kind = 0; kind < 2; ++kind) {
	const int s = dir ? -1 : 1; FRESH(); RI<P> r (a, a, a+n); mc_at ("heap algorithms on {%s}, %s %s", show (A, n), dir ? "descending" : "ascending", kind ? "iterators" : "pointers");
	if (kind) { if (dir) make_heap (r, r+n, Cm (-1)); else make_heap (r, r+n); } else if (dir) make_heap (a, a+n, Cm (-1)); else make_heap (a, a+n);
	sameset ("make_heap", A, a, n); MC_CHECK (heap (a, n, s), "make_heap gave {%s}", show (a, n));
	static P h[MAXN]; for (int i = 0; i < n; ++i) h[i] = a[i];
	for (int k = n; k > 0; --k) { int top = a[0].k; if (kind) { if (dir) pop_heap (r, r+k, Cm (-1)); else pop_heap (r, r+k); } else if (dir) pop_heap (a, a+k, Cm (-1)); else pop_heap (a, a+k);
	    sameset ("pop_heap", A, a, n); MC_CHECK (heap (a, k-1, s), "pop_heap left {%s} of %d", show (a, n), k-1); MC_CHECK (a[k-1].k == top, "pop_heap put %d at the end, the top was %d", a[k-1].k, top); }
	a = place (0, h, n); if (dir) sort_heap (a, a+n, Cm (-1)); else sort_heap (a, a+n); sameset ("sort_heap", A, a, n); MC_CHECK (sorted (a, n, s), "sort_heap gave {%s}", show (a, n));
	FRESH(); for (int k = 1; k <= n; ++k) { if (kind) { if (dir) push_heap (r, r+k, Cm (-1)); else push_heap (r, r+k); } else if (dir) push_heap (a, a+k, Cm (-1)); else push_heap (a, a+k); sameset ("push_heap", A, a, n); MC_CHECK (heap (a, k, s), "push_heap gave {%s} of %d", show (a, n), k); }
	canary (0, n, "a heap algorithm");
    }
    // elements designated by iterators are left out
    for (int mask = 0; mask < 1<<(n < 5 ? n : 5); ++mask) { FRESH(); P* it[8]; int ni = 0, k = 0; static P x[MAXN]; for (int i = 0; i < n; ++i) if (i < 5 && mask>>i&1) it[ni++] = a+i; else x[k++] = A[i];
	P* o = place (2, x, k); for (int i = 0; i < k; ++i) o[i] = P(); P* e = remove_copy (a, a+n, o, it, it+ni); MC_CHECK (e == o+k, "remove_copy of iterators wrote %ld of %d", long(e-o), k); for (int i = 0; i < k; ++i) MC_CHECK (o[i].t == x[i].t, "remove_copy of iterators gave {%s} expected {%s}", show (o, k), show (x, k)); canary (2, k, "remove_copy"); }
    mc_eval();
}
// the versions that take a container
template <class V> static void cmpv (const char* what, const V& v, const P* a, int n) { MC_CHECK (int(v.size()) == n, "%s: size %d, expected %d", what, int(v.size()), n); for (int i = 0; i < n; ++i) MC_CHECK (v[i].k == a[i].k && v[i].t == a[i].t, "%s gave {%s} expected {%s}", what, show (v.begin(), n), show (a, n)); }
static void containers (const P* A, int n)
{
    mc_at ("container versions on {%s}", show (A, n));
    typedef vector<P> V; P* f = const_cast<P*>(A); const V c (f, f+n); V v; static P x[MAXN], o[MAXN]; V w (n+2);
    #define REF(op,val,mm) for (int i_ = 0; i_ < n; ++i_) x[i_] = A[i_]; const Res R = c07_ref (OP_##op, x, n, x, 0, o, val, mm); (void) R; v = c
    { REF (copy,0,0); MC_CHECK (copy (c, w.begin()) == w.begin()+n, "copy returned"); w.resize (n); cmpv ("copy", w, o, n); w.resize (n+2); }
    { REF (stable_sort,0,0); stable_sort (v); cmpv ("stable_sort", v, x, n); v = c; sort (v); MC_CHECK (sorted (v.begin(), n, 1), "sort"); for (int i = 0; i < 3; ++i) { const V cv (v); MC_CHECK (lower_bound (cv, P (i)) - cv.begin() == lower_bound (v, P (i)) - v.begin(), "lower_bound"); int l = 0, u = 0; for (int j = 0; j < n; ++j) { l += v[j].k < i; u += v[j].k <= i; }
	MC_CHECK (lower_bound (cv, P (i)) - cv.begin() == l && upper_bound (cv, P (i)) - cv.begin() == u && upper_bound (v, P (i)) - v.begin() == u, "bounds of %d: %ld %ld, expected %d %d", i, long(lower_bound (cv, P (i)) - cv.begin()), long(upper_bound (cv, P (i)) - cv.begin()), l, u);
	MC_CHECK (binary_search (cv, P (i)) == (u > l) && binary_search (v, P (i)) == (u > l), "binary_search"); MC_CHECK (equal_range (cv, P (i)).first == cv.begin()+l && equal_range (cv, P (i)).second == cv.begin()+u && equal_range (v, P (i)).first == v.begin()+l && equal_range (v, P (i)).second == v.begin()+u, "equal_range"); } }
    { REF (stable_sort_p,0,0); stable_sort (v, Cm (-1)); cmpv ("stable_sort descending", v, x, n); v = c; sort (v, Dn()); MC_CHECK (sorted (v.begin(), n, -1), "sort descending"); }
    { REF (reverse,0,0); reverse (v); cmpv ("reverse", v, x, n); }
    { REF (unique,0,0); unique (v); cmpv ("unique", v, x, R.r[0]); v = c; unique (v, Bp (0)); cmpv ("unique_p", v, x, R.r[0]); MC_CHECK (unique_copy (c, w.begin()) == w.begin()+R.r[0], "unique_copy"); }
    { REF (for_each,0,0); MC_CHECK (for_each (v, Acc()).s == R.r[0] && for_each (c, Acc()).s == R.r[0], "for_each"); }
    for (int s = 0; s < n; ++s) { { REF (rotate,0,n-s); rotate (v, s); cmpv ("rotate right", v, x, n); } { REF (rotate,0,s); rotate (v, -s); cmpv ("rotate left", v, x, n); } }
    for (int k = 0; k < 3; ++k) { const P K (k, 77), W (9, 9);
	{ REF (find,k,0); MC_CHECK (find (c, K) - c.begin() == R.r[0] && find (v, K) - v.begin() == R.r[0] && find_if (c, Pk (k)) - c.begin() == R.r[0] && find_if (v, Pk (k)) - v.begin() == R.r[0], "find (%d)", k); }
	{ REF (count,k,0); MC_CHECK (long(count (c, K)) == R.r[0] && long(count_if (c, Pk (k))) == R.r[0], "count (%d)", k); }
	{ REF (replace,k,0); replace (v, K, W); cmpv ("replace", v, x, n); v = c; replace_if (v, Pk (k), W); cmpv ("replace_if", v, x, n); w.resize (n); replace_copy (c, w.begin(), K, W); cmpv ("replace_copy", w, x, n); w = c; replace_copy_if (c, w.begin(), Pk (k), W); cmpv ("replace_copy_if", w, x, n); w.resize (n+2); }
	{ REF (remove,k,0); int r = R.r[0]; remove (v, K); cmpv ("remove", v, x, r); v = c; remove_if (v, Pk (k)); cmpv ("remove_if", v, x, r); V u (n); MC_CHECK (remove_copy (c, u.begin(), K) == u.begin()+r, "remove_copy"); u.resize (r); cmpv ("remove_copy", u, x, r); u.resize (n); MC_CHECK (remove_copy_if (c, u.begin(), Pk (k)) == u.begin()+r, "remove_copy_if"); u.resize (r); cmpv ("remove_copy_if", u, x, r); }
	{ REF (copy_if,k,0); V u (n); MC_CHECK (copy_if (v, u.begin(), Pk (k)) == u.begin()+R.out, "copy_if"); u.resize (R.out); cmpv ("copy_if", u, o, R.out); }
	{ REF (fill,k,0); fill (v, K); cmpv ("fill", v, x, n); }
	{ REF (generate,k,0); generate (v, Gn (k)); cmpv ("generate", v, x, n); }
	{ REF (transform,k,0); V u (n); MC_CHECK (transform (v, u.begin(), Un (k)) == u.begin()+n, "transform"); cmpv ("transform", u, o, n); transform (v, Un (k)); cmpv ("transform in place", v, o, n); }
	{ REF (copy,0,0); V u (n), z (c); for (int i = 0; i < n; ++i) z[i].k = 2-z[i].k; transform (v, z.begin(), u.begin(), Bn (k)); for (int i = 0; i < n; ++i) o[i] = Bn (k) (A[i], z[i]); cmpv ("transform of two", u, o, n); }
    }
    if (n > 1) { V u (c); V::iterator it[2] = { u.begin(), u.begin()+n-1 }; static P y[MAXN]; for (int i = 1; i+1 < n; ++i) y[i-1] = A[i]; remove (u, &it[0], &it[2]); cmpv ("remove of iterators", u, y, n-2); }
    mc_eval();
}
static int build (int code, int n, P* a, int base) { for (int i = 0; i < n; ++i) { a[i] = P (code % base, i); code /= base; } return code; }
static int ipow (int b, int n) { int r = 1; while (n--) r *= b; return r; }
// every range of up to 6 (8) elements over three values
MC_SCENARIO2 (single, 7*8, 9*8)
{
    const int n = shard/8, part = shard%8; P a[MAXS], b[MAXS];
    if (n > MC_TIER (6, 8)) return;
    for (int code = part; code < ipow (3, n); code += 8) {
	build (code, n, a, 3);
	unordered (a, n); if (n <= 6) containers (a, n);
	for (int i = 0; i < n; ++i) b[i] = P ((a[i].k*2 + (i*code>>2))%3, 10+i);	// second range, for the few that need one
	for (int op = 0; op < OP_END1; ++op) for (int m = 0; m <= n; ++m) {
	    if (!fits (opneed[op], a, n, m)) continue;
	    for (int v = 0; v < 3; ++v) one (op, a, n, b, n, v, m);
	}
	mc_step();
    }
    if (mc_want_sample()) mc_sample ("all %d single-range algorithms on {%s}", OP_END1, show (a, n));
}
// every pair of ranges of up to 5 and 4 (6 and 5) elements over three values
MC_SCENARIO2 (pairs, 6*5, 7*6)
{
    const int n = shard / MC_TIER (5, 6), nb = shard % MC_TIER (5, 6); P a[MAXS], b[MAXS];
    for (int ca = 0; ca < ipow (3, n); ++ca) for (int cb = 0; cb < ipow (3, nb); ++cb) {
	build (ca, n, a, 3); build (cb, nb, b, 3); for (int i = 0; i < nb; ++i) b[i].t += 10;
	for (int op = OP_END1; op < OP_END2; ++op) if (fits (opneed[op], a, n, 0) && fits (opneed[op], b, nb, 0)) one (op, a, n, b, nb, 1, n);
	if (n == nb || n < nb) for (int op = OP_swap_ranges; op <= OP_iter_swap; ++op) for (int v = 0; v < 2; ++v) one (op, a, n, b, nb, v, n);
	mc_step();
    }
    if (mc_want_sample()) mc_sample ("all %d two-range algorithms on {%s} {%s}", OP_END2-OP_END1, show (a, n), show (b, nb));
}
// stable algorithms and sorts on longer ranges: few distinct keys, every placement
MC_SCENARIO2 (long_sorts, 16, 64)
{
    const int n = MC_TIER (11, 14); P a[MAXS];
    for (int code = shard; code < 1<<n; code += MC_TIER (16, 64)) { build (code, n, a, 2); for (int i = 0; i < n; i += 3) a[i].k += 1; one (OP_stable_sort, a, n, a, 0, 0, 0); one (OP_stable_partition, a, n, a, 0, 1, 0); one (OP_search_n, a, n, a, 0, 1, 3); one (OP_next_permutation, a, n, a, 0, 0, 0);
	P s[MAXS]; for (int i = 0; i < n; ++i) s[i] = a[i]; int m = code % (n+1); stable_sort (s, s+m); stable_sort (s+m, s+n); one (OP_inplace_merge, s, n, a, 0, 0, m); }
}
// ranges of many sizes in 8 patterns of keys
static const int SN[] = { 9,10,12,15,16,17,20,24,31,32,33,40,50,63,64,65,100,127,128,129,255,256,257,300,500,600 };
enum { NSN = sizeof(SN)/sizeof(SN[0]) };
MC_SCENARIO2 (sizes, NSN, NSN)
{
    const int n = SN[shard]; static P a[MAXN], b[MAXN];
    for (int pat = 0; pat < 9; ++pat) for (int scale = 0; scale < 2; ++scale) {
	for (int i = 0; i < n; ++i) {
	    int k = pat == 0 ? i : pat == 1 ? n-1-i : pat == 2 ? (i < n/2 ? i : n-1-i) : pat == 3 ? i%7 : pat == 4 ? 1 : pat == 5 ? i*37%n : pat == 6 ? (i == n-1) : pat == 7 ? (i != 0) : i/3;
	    a[i] = P (scale ? k/5 : k, i); b[i] = P (scale ? (n-k)%3 : k, 1000+i);
	}
	if (n <= MC_TIER (33, 65)) unordered (a, n);
	else for (int s = -1; s < 2; s += 2) {
	    const P* A = a; P* q; mc_at ("sort of %d in pattern %d", n, pat); q = place (0, A, n); sort (q, q+n, Cm (s)); sameset ("sort", A, q, n); MC_CHECK (sorted (q, n, s), "sort gave {%s}", show (q, n));
	    q = place (0, A, n); partial_sort (q, q+n/2, q+n, Cm (s)); sameset ("partial_sort", A, q, n); MC_CHECK (sorted (q, n/2, s), "partial_sort gave {%s}", show (q, n)); nth_element (q, q+n/2, q+n); sameset ("nth_element", A, q, n);
	    q = place (0, A, n); make_heap (q, q+n, Cm (s)); MC_CHECK (heap (q, n, s), "make_heap of %d", n); pop_heap (q, q+n, Cm (s)); MC_CHECK (heap (q, n-1, s), "pop_heap of %d", n); push_heap (q, q+n, Cm (s)); MC_CHECK (heap (q, n, s), "push_heap of %d", n); sort_heap (q, q+n, Cm (s)); sameset ("sort_heap", A, q, n); MC_CHECK (sorted (q, n, s), "sort_heap gave {%s}", show (q, n));
	}
	static const int PM[] = { 0, 1, 2, 3, 4 };
	for (int op = 0; op < OP_END1; ++op) for (int mi = 0; mi < 5; ++mi) {
	    const int m = PM[mi] == 0 ? 0 : PM[mi] == 1 ? n : PM[mi] == 2 ? n/2 : PM[mi] == 3 ? 1 : n-1;
	    if (!fits (opneed[op], a, n, m)) continue;
	    for (int v = 0; v < 3; ++v) one (op, a, n, b, n, v == 2 ? a[n-1].k : v, m);
	}
	static const int BN[] = { 0, 1, 2, 3, 8, 17, 64, 128 };
	for (int op = OP_END1; op < OP_END2; ++op) for (int bi = 0; bi < 8; ++bi) { const int nb = BN[bi]; if (nb > n) continue;
	    for (int at = 0; at < 3; ++at) { const P* q = at == 0 ? b : a + (at == 1 ? n-nb : (n-nb)/2); if (fits (opneed[op], a, n, 0) && fits (opneed[op], q, nb, 0)) one (op, a, n, q, nb, 1, n); } }
	mc_step();
    }
    mc_outcome (n);
}
// ranges longer than 8 and 16 bits can count
static const int LN[] = { 65535, 65536, 65537, 70001 };
MC_SCENARIO2 (long_ranges, 4*3*8, 4*9*8)
{
    const int n = LN[shard/8%4], part = shard%8; static const int PT[] = { 0, 3, 6, 1, 2, 4, 5, 7, 8 }; const int pat = PT[shard/32]; static P a[MAXN], b[MAXN];
    for (int i = 0; i < n; ++i) { int k = pat == 0 ? i : pat == 1 ? n-1-i : pat == 2 ? (i < n/2 ? i : n-1-i) : pat == 3 ? i%7 : pat == 4 ? 1 : pat == 5 ? int(i*37ll%n) : pat == 6 ? (i == n-1) : pat == 7 ? (i != 0) : i/3; a[i] = P (k, i); b[i] = P (pat == 3 ? (n-k)%3 : k, 1000+i); }
    static const int PM[] = { 0, 1, 2, 3, 4 };
    for (int op = part; op < OP_END1; op += 8) {
	if ((op == OP_stable_sort && !sorted (a, n, 1)) || (op == OP_stable_sort_p && !sorted (a, n, -1))) continue;	// these take the square of the size
	for (int mi = 0; mi < 5; ++mi) {
	const int m = PM[mi] == 0 ? 0 : PM[mi] == 1 ? n : PM[mi] == 2 ? n/2 : PM[mi] == 3 ? 1 : n-1;
	if (!fits (opneed[op], a, n, m)) continue;
	one (op, a, n, b, n, mi&1 ? a[n-1].k : a[n/2].k, m); mc_step();
	}
    }
    for (int op = OP_END1+part; op < OP_END2; op += 8) for (int bi = 0; bi < 3; ++bi) { static const int BN[] = { 1, 300, 66000 }; const int nb = BN[bi] < n ? BN[bi] : n; if (nb > 300 && op < OP_lexicographical_compare) continue;
	for (int at = 0; at < 2; ++at) { const P* q = at == 0 ? b : a + (n-nb); if (fits (opneed[op], a, n, 0) && fits (opneed[op], q, nb, 0)) { one (op, a, n, q, nb, 1, n); mc_step(); } } }
}
// every permutation of up to 5 (6) elements is reached once, in order, with repeated elements
MC_SCENARIO (permutations, 1)
{
    (void) shard; int n = mc_choose (MC_TIER (6, 7)); P a[8], prev[8]; int x = 0; long total = 1, cnt = 1; int run = 1;
    for (int i = 0; i < n; ++i) { if (i) { int d = mc_choose (2); x += d; run = d ? 1 : run+1; } a[i] = P (x, 0); total = total*(i+1)/run; }
    for (;; ++cnt) { for (int i = 0; i < n; ++i) prev[i] = a[i]; if (!next_permutation (a, a+n)) break; MC_CHECK (lexicographical_compare (prev, prev+n, a, a+n), "next_permutation did not go up"); P back[8]; for (int i = 0; i < n; ++i) back[i] = a[i]; MC_CHECK (prev_permutation (back, back+n), "prev_permutation of a non-first"); for (int i = 0; i < n; ++i) MC_CHECK (back[i].k == prev[i].k, "prev_permutation is not the inverse"); if (cnt > total) break; }
    MC_CHECK (cnt == total, "%ld permutations of %d elements, expected %ld", cnt, n, total); MC_CHECK (sorted (a, n, 1), "the last call did not restore the first permutation"); mc_step(); mc_state (mc_mix (total, n));
}
static int vshuf; extern "C" int __wrap_rand (void) { return mc_choose (vshuf); }
// random_shuffle under every answer of rand() gives a permutation, and every permutation
MC_SCENARIO (shuffle, 5)
{
    int n = shard; P A[8], *a; build (0, n, A, 1); FRESH(); vshuf = n > 1 ? n : 1; random_shuffle (a, a+n); sameset ("random_shuffle", A, a, n); canary (0, n, "random_shuffle"); mc_step();
    vector<P> v (A, A+n); random_shuffle (v); sameset ("random_shuffle", A, v.begin(), n);
}
// numeric, min, max and the like on plain numbers
MC_SCENARIO (scalars, 1)
{
    (void) shard;
    for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) { mc_at ("a %d b %d", a, b); MC_CHECK (min (a, b) == (b < a ? b : a) && max (a, b) == (a < b ? b : a), "min or max of %d and %d", a, b);
	const P p (a, 1), q (b, 2); MC_CHECK (min (p, q).t == (b < a ? 2 : 1), "min of equal elements is the first"); MC_CHECK (max (p, q).t == (a < b ? 2 : 1), "max of equal elements is the first"); 
	for (int c = -3; c <= 3; ++c) { if (a <= b) { int e = c < a ? a : c > b ? b : c; MC_CHECK (clamp (c, a, b) == e && clamp (c, b, a, greater<int>()) == e, "clamp (%d,%d,%d)", c, a, b); } auto mm = minmax ({ a, b, c }); int lo = min (a, min (b, c)), hi = max (a, max (b, c)); MC_CHECK (mm.first == lo && mm.second == hi, "minmax {%d %d %d}", a, b, c); auto mg = minmax ({ a, b, c }, greater<int>()); MC_CHECK (mg.first == hi && mg.second == lo, "minmax descending {%d %d %d}", a, b, c); } 
	int s = a, t = b; swap (s, t); MC_CHECK (s == b && t == a, "swap"); iter_swap (&s, &t); MC_CHECK (s == a && t == b, "iter_swap"); int old = exchange (s, t); MC_CHECK (old == a && s == b && t == b, "exchange"); mc_eval(); }
    for (int x = -4; x <= 4; ++x) { long e = 1; for (unsigned n = 0; n < 13; ++n, e *= x) { mc_at ("power (%d,%u)", x, n); MC_CHECK (power (long(x), n) == e, "power (%d,%u) is %ld, expected %ld", x, n, power (long(x), n), e); MC_CHECK (power (long(x), n, multiplies<long>()) == e, "power with an operation (%d,%u)", x, n); mc_eval(); } }
    mc_step();
}
// Functions that remember: the standard fixes how often each of these calls its function, so the answers are enumerated by call
static unsigned answers; static int asked; static int seen[64];
struct Ask { bool operator() (const P& a) const { if (asked < 64) seen[asked] = a.t; return answers >> asked++ & 1; } bool operator() (const P&, const P&) const { return answers >> asked++ & 1; } };
struct Once { int* n; P operator() (const P& a) const { ++*n; return P (a.k+1, a.t); } P operator() (const P& a, const P& b) const { ++*n; return P (a.k+b.k, a.t); } P operator() (void) const { int i = (*n)++; return P (i, i); } };
MC_SCENARIO (remembering, 10)
{
    const int n = shard; answers = mc_choose (1 << n); P A[16], *a, *o; for (int i = 0; i < n; ++i) A[i] = P (i % 3, i); int k = 0, w, c = 0; mc_at ("%d elements, answers %x", n, answers);
    #define ANS(i) (answers >> (i) & 1)
    #define START() a = place (0, A, n), asked = 0
    #define CALLS(name, e) MC_CHECK (asked == (e), name ": the function is called %d times, expected %d", asked, e); for (int i = 0; i < asked && i < n; ++i) MC_CHECK (seen[i] == i, name ": call %d is about element %d", i, seen[i]); canary (0, n, name)
    int yes = 0, first = n; for (int i = n-1; i >= 0; --i) if (ANS (i)) ++yes, first = i;
    o = place (2, A, n);
    START(); k = count_if (a, a+n, Ask()); CALLS ("count_if", n); MC_CHECK (k == yes, "count_if is %d, expected %d", k, yes);
    START(); k = find_if (a, a+n, Ask()) - a; CALLS ("find_if", (first < n ? first+1 : n)); MC_CHECK (k == first, "find_if gives element %d, expected %d", k, first);
    START(); w = copy_if (a, a+n, o, Ask()) - o; CALLS ("copy_if", n); MC_CHECK (w == yes, "copy_if wrote %d elements, expected %d", w, yes); for (int i = 0, j = 0; i < n; ++i) if (ANS (i)) { MC_CHECK (o[j].t == i, "copy_if: element %d is %d, expected %d", j, o[j].t, i); ++j; }
    START(); w = remove_copy_if (a, a+n, o, Ask()) - o; CALLS ("remove_copy_if", n); MC_CHECK (w == n-yes, "remove_copy_if wrote %d elements, expected %d", w, n-yes); for (int i = 0, j = 0; i < n; ++i) if (!ANS (i)) { MC_CHECK (o[j].t == i, "remove_copy_if: element %d is %d, expected %d", j, o[j].t, i); ++j; }
    START(); w = remove_if (a, a+n, Ask()) - a; CALLS ("remove_if", n); MC_CHECK (w == n-yes, "remove_if left %d elements, expected %d", w, n-yes); for (int i = 0, j = 0; i < n; ++i) if (!ANS (i)) { MC_CHECK (a[j].t == i, "remove_if: element %d is %d, expected %d", j, a[j].t, i); ++j; }
    START(); replace_if (a, a+n, Ask(), P (9, 99)); CALLS ("replace_if", n); for (int i = 0; i < n; ++i) MC_CHECK (a[i].t == (ANS (i) ? 99 : i), "replace_if: element %d is %d", i, a[i].t);
    START(); w = replace_copy_if (a, a+n, o, Ask(), P (9, 99)) - o; CALLS ("replace_copy_if", n); MC_CHECK (w == n, "replace_copy_if wrote %d elements", w); for (int i = 0; i < n; ++i) MC_CHECK (o[i].t == (ANS (i) ? 99 : i), "replace_copy_if: element %d is %d", i, o[i].t);
    #undef CALLS
    #define CALLS(name, e) MC_CHECK (asked == (e), name ": the function is called %d times, expected %d", asked, e); canary (0, n, name)
    const int pairs = n ? n-1 : 0; int kept[16], nk = 0; if (n) { kept[nk++] = 0; for (int i = 1; i < n; ++i) if (!ANS (i-1)) kept[nk++] = i; }
    START(); w = unique_copy (a, a+n, o, Ask()) - o; CALLS ("unique_copy", pairs); MC_CHECK (w == nk, "unique_copy wrote %d elements, expected %d", w, nk); for (int i = 0; i < nk; ++i) MC_CHECK (o[i].t == kept[i], "unique_copy: element %d is %d, expected %d", i, o[i].t, kept[i]);
    START(); w = unique (a, a+n, Ask()) - a; CALLS ("unique", pairs); MC_CHECK (w == nk, "unique left %d elements, expected %d", w, nk); for (int i = 0; i < nk; ++i) MC_CHECK (a[i].t == kept[i], "unique: element %d is %d, expected %d", i, a[i].t, kept[i]);
    START(); k = adjacent_find (a, a+n, Ask()) - a; int adj = n; for (int i = pairs-1; i >= 0; --i) if (ANS (i)) adj = i; CALLS ("adjacent_find", (adj < n ? adj+1 : pairs)); MC_CHECK (k == adj, "adjacent_find gives element %d, expected %d", k, adj);
    START(); int no = n; for (int i = n-1; i >= 0; --i) if (!ANS (i)) no = i; k = mismatch (a, a+n, A, Ask()).first - a; CALLS ("mismatch", (no < n ? no+1 : n)); MC_CHECK (k == no, "mismatch gives element %d, expected %d", k, no);
    START(); k = equal (a, a+n, A, Ask()); CALLS ("equal", (no < n ? no+1 : n)); MC_CHECK (k == (no == n), "equal is %d", k);
    struct Pos { bool operator() (const P& a) const { ++asked; return answers >> a.t & 1; } };
    START(); w = stable_partition (a, a+n, Pos()) - a; CALLS ("stable_partition", n); MC_CHECK (w == yes, "stable_partition gives %d, expected %d", w, yes);
    START(); w = partition (a, a+n, Pos()) - a; CALLS ("partition", n); MC_CHECK (w == yes, "partition gives %d, expected %d", w, yes);
    if (!answers) { // those that only calculate
	Once f = { &c };
	#define FOR(name, e, call) { a = place (0, A, n); c = 0; call; MC_CHECK (c == (e), name ": the function is called %d times, expected %d", c, e); canary (0, n, name); }
	FOR ("transform", n, transform (a, a+n, o, f)) FOR ("transform of two", n, transform (a, a+n, A, o, f)) FOR ("generate", n, generate (a, a+n, f)) FOR ("generate_n", n, generate_n (a, size_t(n), f)) FOR ("for_each", n, for_each (a, a+n, f))
	FOR ("accumulate", n, accumulate (a, a+n, P (0, 0), f)) FOR ("partial_sum", pairs, partial_sum (a, a+n, o, f)) FOR ("adjacent_difference", pairs, adjacent_difference (a, a+n, o, f)) FOR ("inner_product", 2*n, inner_product (a, a+n, A, P (0, 0), f, f))
	#undef FOR
    }
    #undef ANS
    #undef START
    #undef CALLS
    mc_step(); mc_state (mc_mix (n, answers));
}
