// C29: the algorithms that take whole containers, on every small container of several kinds.
#include "u.h"
enum { ML = 7 };
struct K { int k, t; K (int a = 0, int b = 0) : k (a), t (b) {} bool operator== (const K& o) const { return k == o.k; } bool operator!= (const K& o) const { return k != o.k; } bool operator< (const K& o) const { return k < o.k; } };
static inline int key (const K& e) { return e.k; } static inline int tag (const K& e) { return e.t; } static inline K el (int k, int t, const K*) { return K (k, t); }
static inline int key (const E& e) { e.chk ("access"); return e.v; } static inline int tag (const E&) { return 0; } static inline E el (int k, int, const E*) { return E (k); }
static inline int key (int e) { return e; } static inline int tag (int) { return 0; } static inline int el (int k, int, const int*) { return k; }
static inline int key (char e) { return (unsigned char) e - 'a'; } static inline int tag (char) { return 0; } static inline char el (int k, int, const char*) { return 'a'+k; }
static inline int key (const string& e) { return e.empty() ? 0 : e.size() == 40 ? 1 : e.size() == 41 ? 2 : e.size() == 42 ? 3 : -99; } static inline int tag (const string&) { return 0; } static inline string el (int k, int, const string*) { return k ? string (39+k, 'a'+k) : string(); }
#define EL(T,k,t) el (k, t, (const T*) 0)
struct M { int n; int k[ML*2], t[ML*2]; void push (int a, int b) { k[n] = a; t[n++] = b; } };
static const char* show (const M& m) { static char b[4][120]; static int r; char* o = b[r++&3]; char* p = o; *p++ = '{'; for (int i = 0; i < m.n; ++i) p += sprintf (p, "%d/%d ", m.k[i], m.t[i]); strcpy (p, "}"); return o; }
template <class C> static M model (const C& c) { M m; m.n = 0; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) { if (m.n >= ML*2) mc_fail ("the container has more than %d elements", m.n); m.push (key (*i), tag (*i)); } return m; }
template <class V> static bool tagged (void) { return tag (EL (V, 1, 7)); }
template <class C> static void expect (const char* what, const C& c, const M& m, bool tags = true)
{
    const M g = model (c); bool ok = g.n == m.n; for (int i = 0; ok && i < m.n; ++i) ok = g.k[i] == m.k[i] && (!tags || !tagged<typename C::value_type>() || g.t[i] == m.t[i]);
    MC_CHECK (ok, "%s: container is %s, expected %s", what, show (g), show (m));
}
static int calls;
struct Odd { template <class T> bool operator() (const T& a) const { ++calls; return key (a) & 1; } };
struct Close { template <class T> bool operator() (const T& a, const T& b) const { ++calls; return key (a)/2 == key (b)/2; } };
struct Greater { template <class T> bool operator() (const T& a, const T& b) const { return key (b) < key (a); } };
template <class T> struct Next { T operator() (const T& a) const { ++calls; return EL (T, (key (a)+1)%4, tag (a)+10); } };
template <class T> struct Plus { T operator() (const T& a, const T& b) const { ++calls; return EL (T, (key (a)+key (b))%4, tag (a)*10+tag (b)); } };
template <class T> struct Gen { int n; T operator() (void) { T r (EL (T, n%4, n)); ++n; return r; } };
struct Visit { int n, sum; template <class T> void operator() (const T& a) { sum = sum*4 + key (a) + 1; ++n; } };
template <class T> struct Bump { int n; void operator() (T& a) { a = EL (T, (key (a)+2)%4, tag (a)+50); ++n; } };
template <class C> static void fillc (C& c, const M& m) { for (int i = 0; i < m.n; ++i) c.push_back (EL (typename C::value_type, m.k[i], m.t[i])); }
template <class T, size_t N> static void fillc (array<T,N>& c, const M& m) { for (size_t i = 0; i < N; ++i) c[i] = EL (T, m.k[i], m.t[i]); }
template <class T, size_t N> static void fillc (tuple<N,T>& c, const M& m) { for (size_t i = 0; i < N; ++i) c[i] = EL (T, m.k[i], m.t[i]); }
template <class T> struct Out { T* p; int room; M m (int n) const { M r; r.n = 0; for (int i = 0; i < n; ++i) r.push (key (p[i]), tag (p[i])); return r; } Out (int n) : p (new T[n]), room (n) {} ~Out (void) { delete [] p; } };
template <class T> static void outis (const char* what, const Out<T>& o, T* end, const M& e) { MC_CHECK (end - o.p == e.n, "%s: returned the end after %td elements, expected %d", what, end - o.p, e.n); const M g = o.m (e.n); for (int i = 0; i < e.n; ++i) MC_CHECK (g.k[i] == e.k[i] && (!tagged<T>() || g.t[i] == e.t[i]), "%s: output is %s, expected %s", what, show (g), show (e)); }
static M sorted (const M& m, bool desc) { M r = m; for (int i = 1; i < r.n; ++i) for (int j = i; j > 0 && (desc ? r.k[j] > r.k[j-1] : r.k[j] < r.k[j-1]); --j) { int x = r.k[j]; r.k[j] = r.k[j-1]; r.k[j-1] = x; x = r.t[j]; r.t[j] = r.t[j-1]; r.t[j-1] = x; } return r; }
static bool issorted (const M& m) { for (int i = 1; i < m.n; ++i) if (m.k[i] < m.k[i-1]) return false; return true; }
// what does not change the number of elements
template <class C> static void inplace (const M& m)
{
    typedef typename C::value_type T; typedef typename C::iterator I; typedef typename C::const_iterator CI;
    const int n = m.n;
    { C c; fillc (c, m); const C& cc = c; mc_at ("container %s", show (m));
	for (int v = 0; v < 4; ++v) {
	    const T e (EL (T, v, 99)); int first = n, num = 0; for (int i = n-1; i >= 0; --i) if (m.k[i] == v) first = i, ++num;
	    I i = find (c, e); CI j = find (cc, e); MC_CHECK (i == c.begin()+first && j == cc.begin()+first, "find of %d in %s gives element %td, %td", v, show (m), i - c.begin(), j - cc.begin());
	    MC_CHECK (count (c, e) == size_t(num) && count (cc, e) == size_t(num), "count of %d in %s is %u", v, show (m), unsigned(count (cc, e))); mc_steps (4);
	    if (issorted (m)) {
		int lo = 0, hi = 0; for (int q = 0; q < n; ++q) { lo += m.k[q] < v; hi += m.k[q] <= v; }
		MC_CHECK (lower_bound (c, e) == c.begin()+lo && lower_bound (cc, e) == cc.begin()+lo, "lower_bound of %d in %s", v, show (m));
		MC_CHECK (upper_bound (c, e) == c.begin()+hi && upper_bound (cc, e) == cc.begin()+hi, "upper_bound of %d in %s", v, show (m));
		MC_CHECK (binary_search (c, e) == (lo < hi) && binary_search (cc, e) == (lo < hi), "binary_search of %d in %s", v, show (m));
		pair<I,I> r = equal_range (c, e); pair<CI,CI> q = equal_range (cc, e); MC_CHECK (r.first == c.begin()+lo && r.second == c.begin()+hi && q.first == cc.begin()+lo && q.second == cc.begin()+hi, "equal_range of %d in %s", v, show (m)); mc_steps (8);
	    }
	}
	int first = n, num = 0, sum = 0; for (int i = n-1; i >= 0; --i) if (m.k[i] & 1) first = i, ++num; for (int i = 0; i < n; ++i) sum = sum*4 + m.k[i] + 1;
	MC_CHECK (find_if (c, Odd()) == c.begin()+first && find_if (cc, Odd()) == cc.begin()+first, "find_if in %s", show (m)); calls = 0;
	MC_CHECK (count_if (c, Odd()) == size_t(num) && count_if (cc, Odd()) == size_t(num) && calls == 2*n, "count_if in %s", show (m));
	Visit v0 = { 0, 0 }, a = for_each (c, v0), b = for_each (cc, v0); MC_CHECK (a.n == n && a.sum == sum && b.n == n && b.sum == sum, "for_each over %s visited %d elements, %d constant ones", show (m), a.n, b.n); mc_steps (6);
	{ Out<T> o (n); outis ("copy", o, copy (cc, o.p), m); outis ("copy", o, copy (c, o.p), m); }
	{ Out<T> o (num); M e; e.n = 0; for (int i = 0; i < n; ++i) if (m.k[i] & 1) e.push (m.k[i], m.t[i]); outis ("copy_if", o, copy_if (c, o.p, Odd()), e); outis ("copy_if", o, copy_if (cc, o.p, Odd()), e); }
	{ Out<T> o (n-num); M e; e.n = 0; for (int i = 0; i < n; ++i) if (!(m.k[i] & 1)) e.push (m.k[i], m.t[i]); outis ("remove_copy_if", o, remove_copy_if (cc, o.p, Odd()), e); }
	{ M e; e.n = 0; for (int i = 0; i < n; ++i) if (!i || m.k[i] != m.k[i-1]) e.push (m.k[i], m.t[i]); Out<T> o (e.n); outis ("unique_copy", o, unique_copy (cc, o.p), e); }
	{ Out<T> o (n); M e = m; for (int i = 0; i < n; ++i) if (e.k[i] & 1) e.k[i] = 2, e.t[i] = 98; outis ("replace_copy_if", o, replace_copy_if (cc, o.p, Odd(), EL (T, 2, 98)), e); }
	for (int v = 0; v < 4; ++v) {
	    M e = m, r; r.n = 0; for (int i = 0; i < n; ++i) { if (e.k[i] == v) e.k[i] = (v+1)%4, e.t[i] = 98; else r.push (m.k[i], m.t[i]); }
	    { Out<T> o (n); outis ("replace_copy", o, replace_copy (cc, o.p, EL (T, v, 97), EL (T, (v+1)%4, 98)), e); }
	    { Out<T> o (r.n); outis ("remove_copy", o, remove_copy (cc, o.p, EL (T, v, 97)), r); }
	    { C d; fillc (d, m); replace (d, EL (T, v, 97), EL (T, (v+1)%4, 98)); expect ("replace", d, e); }
	    mc_steps (3);
	}
	{ Out<T> o (n); M e = m; for (int i = 0; i < n; ++i) e.k[i] = (e.k[i]+1)%4, e.t[i] += 10; calls = 0; outis ("transform", o, transform (c, o.p, Next<T>()), e); outis ("transform of a constant", o, transform (cc, o.p, Next<T>()), e); MC_CHECK (calls == 2*n, "transform called the function %d times for %d elements", calls, 2*n); }
	{ Out<T> o (n), s (n); M e = m; for (int i = 0; i < n; ++i) { s.p[i] = EL (T, i%3, i); e.k[i] = (e.k[i]+i%3)%4; e.t[i] = e.t[i]*10+i; } outis ("transform of two", o, transform (cc, s.p, o.p, Plus<T>()), e); outis ("transform of two", o, transform (c, s.p, o.p, Plus<T>()), e); }
	expect ("algorithms that do not modify", c, m); mc_steps (12);
    }
    { C c; fillc (c, m); M e = m; for (int i = 0; i < n; ++i) e.k[i] = (e.k[i]+1)%4, e.t[i] += 10; transform (c, Next<T>()); expect ("transform in place", c, e); }
    { C c; fillc (c, m); M e = m; for (int i = 0; i < n; ++i) if (e.k[i] & 1) e.k[i] = 0, e.t[i] = 98; replace_if (c, Odd(), EL (T, 0, 98)); expect ("replace_if", c, e); }
    { C c; fillc (c, m); M e = m; for (int i = 0; i < n; ++i) e.k[i] = 3, e.t[i] = 98; fill (c, EL (T, 3, 98)); expect ("fill", c, e); }
    { C c; fillc (c, m); M e = m; for (int i = 0; i < n; ++i) e.k[i] = i%4, e.t[i] = i; Gen<T> g = { 0 }; generate (c, g); expect ("generate", c, e); }
    { C c; fillc (c, m); M e = m; for (int i = 0; i < n; ++i) e.k[i] = m.k[n-1-i], e.t[i] = m.t[n-1-i]; reverse (c); expect ("reverse", c, e); }
    { C c; fillc (c, m); M e = m; for (int i = 0; i < n; ++i) e.k[i] = (e.k[i]+2)%4, e.t[i] += 50; Bump<T> b = { 0 }; b = for_each (c, b); MC_CHECK (b.n == n, "for_each returned another function"); expect ("for_each", c, e); }
    for (int o = -(n-1); o < n; ++o) { C c; fillc (c, m); M e = m; for (int i = 0; i < n; ++i) e.k[(i+o+n)%n] = m.k[i], e.t[(i+o+n)%n] = m.t[i]; rotate (c, o); mc_at ("container %s rotated by %d", show (m), o); expect ("rotate", c, e); }
    { C c; fillc (c, m); sort (c); expect ("sort", c, sorted (m, false), false); } { C c; fillc (c, m); sort (c, Greater()); expect ("sort by a function", c, sorted (m, true), false); }
    { C c; fillc (c, m); stable_sort (c); expect ("stable_sort", c, sorted (m, false)); } { C c; fillc (c, m); stable_sort (c, Greater()); expect ("stable_sort by a function", c, sorted (m, true)); }
    { C c; fillc (c, m); random_shuffle (c); expect ("random_shuffle", (sort (c), c), sorted (m, false), false); }
    mc_steps (12+2*n); mc_eval(); mc_state (mc_hash (n, &m, sizeof(m)));
}
template <class C> static void shrinking (const M& m)
{
    typedef typename C::value_type T; const int n = m.n; mc_at ("container %s", show (m));
    for (int v = 0; v < 4; ++v) { C c; fillc (c, m); M e; e.n = 0; for (int i = 0; i < n; ++i) if (m.k[i] != v) e.push (m.k[i], m.t[i]); remove (c, EL (T, v, 97)); expect ("remove", c, e); }
    { C c; fillc (c, m); M e; e.n = 0; for (int i = 0; i < n; ++i) if (!(m.k[i] & 1)) e.push (m.k[i], m.t[i]); remove_if (c, Odd()); expect ("remove_if", c, e); }
    { C c; fillc (c, m); M e; e.n = 0; for (int i = 0; i < n; ++i) if (!i || m.k[i] != m.k[i-1]) e.push (m.k[i], m.t[i]); unique (c); expect ("unique", c, e); }
    { C c; fillc (c, m); M e; e.n = 0; for (int i = 0; i < n; ++i) if (!e.n || m.k[i]/2 != e.k[e.n-1]/2) e.push (m.k[i], m.t[i]); unique (c, Close()); expect ("unique by a function", c, e); }
    mc_steps (8);
}
// functions that remember what they were asked: the container versions ask as the range versions do
static int asked;
struct Third { int k; template <class T> bool operator() (const T&) const { return asked++ % 3 == k; } template <class T> bool operator() (const T&, const T&) const { return asked++ % 3 == k; } };
template <class C> static void remembering (const M& m)
{
    typedef typename C::value_type T; const int n = m.n;
    for (int k = 0; k < 3; ++k) {
	const Third p = { k }; C c, d; fillc (c, m); fillc (d, m); mc_at ("container %s, every third from %d", show (m), k);
	#define BOTH(name, a, b) { asked = 0; a; const int na = asked; asked = 0; b; MC_CHECK (na == asked, name ": the function is called %d times, expected %d", na, asked); }
	size_t x = 0, y = 0; BOTH ("count_if", x = count_if (c, p), y = count_if (d.begin(), d.end(), p)) MC_CHECK (x == y, "count_if is %zu, expected %zu", x, y);
	BOTH ("find_if", x = find_if (c, p) - c.begin(), y = find_if (d.begin(), d.end(), p) - d.begin()) MC_CHECK (x == y, "find_if gives element %zu, expected %zu", x, y);
	{ Out<T> o (n), q (n); T *eo = 0, *eq = 0; BOTH ("copy_if", eo = copy_if (c, o.p, p), eq = copy_if (d.begin(), d.end(), q.p, p)) outis ("copy_if", o, eo, q.m (eq - q.p)); }
	{ Out<T> o (n), q (n); T *eo = 0, *eq = 0; BOTH ("remove_copy_if", eo = remove_copy_if (c, o.p, p), eq = remove_copy_if (d.begin(), d.end(), q.p, p)) outis ("remove_copy_if", o, eo, q.m (eq - q.p)); }
	{ Out<T> o (n), q (n); T *eo = 0, *eq = 0; BOTH ("replace_copy_if", eo = replace_copy_if (c, o.p, p, EL (T, 3, 98)), eq = replace_copy_if (d.begin(), d.end(), q.p, p, EL (T, 3, 98))) outis ("replace_copy_if", o, eo, q.m (eq - q.p)); }
	BOTH ("replace_if", replace_if (c, p, EL (T, 3, 98)), replace_if (d.begin(), d.end(), p, EL (T, 3, 98))) expect ("replace_if", c, model (d));
	{ C a, b; fillc (a, m); fillc (b, m); BOTH ("remove_if", remove_if (a, p), b.erase (remove_if (b.begin(), b.end(), p), b.end())) expect ("remove_if", a, model (b)); }
	{ C a, b; fillc (a, m); fillc (b, m); BOTH ("unique", unique (a, p), b.erase (unique (b.begin(), b.end(), p), b.end())) expect ("unique", a, model (b)); }
	#undef BOTH
	mc_steps (8);
    }
}
// remove (container, first, last) erases the elements at those positions, which are sorted iterators
template <class C> static void positions (const M& m)
{
    typedef typename C::value_type T; typedef typename C::iterator I; const int n = m.n;
    for (int mask = 0; mask < (1<<n); ++mask) {
	C c; fillc (c, m); M e; e.n = 0; vector<I> where; for (int i = 0; i < n; ++i) if (mask & (1<<i)) where.push_back (c.begin()+i); else e.push (m.k[i], m.t[i]);
	mc_at ("container %s without positions %x", show (m), mask); remove (c, where.begin(), where.end()); expect ("remove of positions", c, e); mc_step();
    }
}
template <class F> static void containers (int minlen, int maxlen, int letters, F f)
{
    for (int n = minlen; n <= maxlen; ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= letters; for (int q = 0; q < tot; ++q) { M m; memset (&m, 0, sizeof(m)); for (int i = 0, r = q; i < n; ++i, r /= letters) m.push (r % letters, i+1); f (m); } }
}
template <class C> static void dynamic (const char* name)
{
    const int L = MC_TIER (6,8); mc_note ("%s", name);
    containers (0, L, 4, [] (const M& m) { E::reset(); inplace<C> (m); shrinking<C> (m); if (E::nlive_) mc_fail ("%d elements were never destroyed", E::nlive_); });
    containers (0, ML, 1, [] (const M& m) { E::reset(); remembering<C> (m); if (E::nlive_) mc_fail ("%d elements were never destroyed", E::nlive_); });
    containers (0, 5, 2, [] (const M& m) { E::reset(); remembering<C> (m); positions<C> (m); if (E::nlive_) mc_fail ("%d elements were never destroyed", E::nlive_); });
    mc_outcome (mc_hash (1, name, strlen (name))); if (mc_want_sample()) mc_sample ("%s of up to %d elements", name, L);
}
MC_SCENARIO (dynamic_containers, 8)
{
    switch (shard) {
	case 0: dynamic<vector<K> > ("vector of tagged elements"); break; case 1: dynamic<list<K> > ("list of tagged elements"); break; case 2: dynamic<deque<K> > ("deque of tagged elements"); break;
	case 3: dynamic<vector<E> > ("vector of tracked elements"); break; case 4: dynamic<list<E> > ("list of tracked elements"); break; case 5: dynamic<vector<int> > ("vector<int>"); break;
	case 6: dynamic<string> ("string"); break; case 7: dynamic<vector<string> > ("vector<string>"); break;
    }
}
MC_SCENARIO (fixed_containers, 8)
{
    switch (shard) {
	case 0: containers (1, 1, 4, inplace<array<K,1> >); break; case 1: containers (3, 3, 4, inplace<array<K,3> >); break; case 2: containers (5, 5, 4, inplace<array<K,5> >); break; case 3: containers (4, 4, 4, inplace<array<int,4> >); break;
	case 4: containers (1, 1, 4, inplace<tuple<1,int> >); break; case 5: containers (4, 4, 4, inplace<tuple<4,int> >); break; case 6: containers (5, 5, 4, inplace<tuple<5,K> >); break; case 7: containers (2, 2, 4, inplace<tuple<2,string> >); break;
    }
    mc_outcome (shard);
}
