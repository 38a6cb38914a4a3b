// C33: what operations cost: requests for memory, comparisons, system calls.
#include "u.h"
#include "fakeos.h"
static int lg (long n) { int r = 0; while (n > 0) { ++r; n >>= 1; } return r; }	// bits of n

// ---- growth: how many requests for memory a number of additions makes ------------
static long requests (void) { return mc_heap_count(); }
static void fresh (void) { mc_heap_fail_at (-1); }
struct Wide { uint64_t a[3]; Wide (int v = 0) { a[0] = a[1] = a[2] = v; } bool operator< (const Wide& w) const { return a[0] < w.a[0]; } bool operator== (const Wide& w) const { return a[0] == w.a[0]; } };
template <class T> static T val (int i) { return T(i); }
template <class V> struct Grow {
    typedef typename V::value_type T;
    enum { NHOW = 8, NPRE = 6 };
    static const char* how (int h) { static const char* const n[] = { "push_back", "push_back of a temporary", "emplace_back", "insert at the end", "insert two at the end", "insert a range at the end", "insert at the beginning", "resize by one" }; return n[h]; }
    static void add (V& v, int h, int i)
    {
	T x (i); T two[2] = { T(i), T(i+1) };
	switch (h) {
	    case 0: v.push_back (x); break;
	    case 1: v.push_back (T(i)); break;
	    case 2: v.emplace_back (i); break;
	    case 3: v.insert (v.end(), x); break;
	    case 4: v.insert (v.end(), 2, x); break;
	    case 5: v.insert (v.end(), two, two+2); break;
	    case 6: v.insert (v.begin(), x); break;
	    case 7: v.resize (v.size()+1); break;
	}
    }
    static void run (const char* name, int h)
    {
	int pre = mc_choose (NPRE), N = h == 6 ? MC_TIER (400, 1500) : MC_TIER (12000, 50000); V v;
	mc_note ("%s: %s, start %d", name, how (h), pre);
	switch (pre) {
	    case 1: for (int i = 0; i < 100; ++i) v.push_back (T(i)); break;
	    case 2: for (int i = 0; i < 100; ++i) v.push_back (T(i)); v.shrink_to_fit(); break;
	    case 3: { V w; for (int i = 0; i < 33; ++i) w.push_back (T(i)); v = w; } break;
	    case 4: { V w; for (int i = 0; i < 33; ++i) w.push_back (T(i)); v = move (w); } break;
	    case 5: for (int i = 0; i < 100; ++i) v.push_back (T(i)); v.clear(); break;
	}
	fresh(); size_t peak = 0;
	for (int i = 0; i < N; ++i) {
	    add (v, h, i); mc_step();
	    MC_CHECK (requests() <= 3*lg (i+1) + 8, "%s: %d times %s (start %d) made %ld requests for memory", name, i+1, how (h), pre, requests());
	    if (v.capacity() > peak) peak = v.capacity();
	    MC_CHECK (v.capacity() <= 4*max (v.size(), size_t(128)) + 64, "%s: %d elements after %s take a capacity of %d", name, int(v.size()), how (h), int(v.capacity()));
	}
	// growing and shrinking around one size requests nothing more
	v.push_back (T(1)); fresh(); for (int i = 0; i < 40; ++i) { v.pop_back(); v.push_back (T(i)); v.resize (v.size()-1); v.resize (v.size()+1); mc_step(); }
	MC_CHECK (!requests(), "%s: removing and adding one element again and again makes %ld requests for memory", name, requests());
	// room made in advance is used
	for (int k = 0; k < 3; ++k) { int n = v.size() + (k ? k*77 : 5); v.reserve (n); MC_CHECK (int(v.capacity()) >= n, "%s: capacity %d after reserve (%d)", name, int(v.capacity()), n); fresh(); while (int(v.size()) + (h == 4 || h == 5 ? 2 : 1) <= n) { add (v, h, k); mc_step(); } MC_CHECK (!requests(), "%s: %s within what was reserved makes %ld requests for memory", name, how (h), requests()); }
	// what is moved or exchanged is not copied
	fresh(); { V a (move (v)), b; swap (a, b); v = move (b); b.swap (a); } MC_CHECK (!requests(), "%s: moves and swaps of the container make %ld requests for memory", name, requests());
	v.shrink_to_fit(); MC_CHECK (v.capacity() == v.size(), "%s: capacity %d of %d elements after shrink_to_fit", name, int(v.capacity()), int(v.size()));
	fresh(); v.clear(); for (int i = 0; i < 3; ++i) v.push_back (T(i)); MC_CHECK (!requests(), "%s: an element added after clear makes %ld requests for memory", name, requests());
	mc_state (mc_mix (h*8+pre, peak));
    }
};
MC_SCENARIO (grow_vectors, 24) { int h = shard % 8; switch (shard / 8) { case 0: Grow<vector<uint8_t> >::run ("vector<uint8_t>", h); break; case 1: Grow<vector<int> >::run ("vector<int>", h); break; case 2: Grow<vector<Wide> >::run ("vector<Wide>", h); break; } }
MC_SCENARIO (grow_lists, 8) { Grow<list<int> >::run ("list<int>", shard); }
// the others, by their own additions; ratio is how many elements one addition may make
#define GROW(nm, decl, stmt) \
MC_SCENARIO (nm, 1) { int N = MC_TIER (12000, 50000); decl; fresh(); mc_at (#nm);\
    for (int i = 0; i < N; ++i) { stmt; mc_step(); MC_CHECK (requests() <= 3*lg (i+1) + 8, #nm ": %d times '" #stmt "' made %ld requests for memory", i+1, requests()); } mc_state (requests()); }
typedef map<int,int> MI; typedef multimap<int,int> MM; typedef queue<int,list<int> > QL; typedef stack<int,list<int> > SL;
GROW (grow_front, list<int> v, v.push_front (i))
GROW (grow_queue, queue<int> v, v.push (i))
GROW (grow_queue_list, QL v, v.push (i))
GROW (grow_queue_pop, queue<int> v, v.push (i); v.push (i); v.pop())
GROW (grow_stack, stack<int> v, v.push (i))
GROW (grow_stack_list, SL v, v.push (i))
GROW (grow_priority, priority_queue<int> v, v.push (i*37%101))
GROW (grow_set, set<int> v, v.insert (i))
GROW (grow_set_down, set<int> v, v.insert (-i))
GROW (grow_multiset, multiset<int> v, v.insert (i%7))
GROW (grow_map, MI v, v[i] = i)
GROW (grow_map_insert, MI v, v.insert (make_pair (i, i)))
GROW (grow_multimap, MM v, v.insert (make_pair (i%7, i)))
GROW (grow_block_insert, memblock v, v.insert (v.end(), 1))
GROW (grow_string_insert, string v, v.insert (v.begin(), 'c'))
GROW (grow_string_insert_text, string v, v.insert (0, "cd"))
GROW (grow_text_char, ostringstream v, v << 'a')
GROW (grow_text_int, ostringstream v, v << i)
GROW (grow_text_word, ostringstream v, v << "abc")
GROW (grow_text_format, ostringstream v, v.format ("%d,", i))
GROW (grow_text_write, ostringstream v, v.write ("abcde", 5))
// a queue that goes round keeps the room it needs
MC_SCENARIO (queue_rounds, 1)
{
    int keep = mc_choose (40); queue<int> q; fresh(); size_t room = mc_heap_live_bytes();
    for (int i = 0; i < keep; ++i) q.push (i);
    for (int i = 0; i < MC_TIER (2000, 20000); ++i) { q.push (i+keep); MC_CHECK (q.front() == i, "queue gives %d, expected %d", q.front(), i); q.pop(); mc_step(); }
    MC_CHECK (requests() <= 3*lg (4*keep+8) + 4, "a queue of %d makes %ld requests for memory", keep, requests());
    MC_CHECK (mc_heap_live_bytes() - room <= size_t(16*(keep+2)*4 + 64), "a queue of %d takes %ld bytes", keep, long(mc_heap_live_bytes() - room));
    mc_state (keep);
}
// strings: room made in advance is used, by every way to add
MC_SCENARIO (string_room, 1)
{
    int h = mc_choose (8), n = 1 + mc_choose (70); string s; const string t ("ab"); s.reserve (2*n); MC_CHECK (int(s.capacity()) >= 2*n, "capacity %d after reserve (%d)", int(s.capacity()), 2*n); fresh();
    for (int i = 0; i < n; ++i) { switch (h) { case 0: s += 'a'; s += 'b'; break; case 1: s += "ab"; break; case 2: s += t; break; case 3: s.push_back ('a'); s.push_back ('b'); break; case 4: s.append ("abc", 2); break; case 5: s.append (2, 'x'); break; case 6: s.insert (s.begin(), 'c'); s.insert (s.end(), 'd'); break; case 7: s.insert (0, "cd"); break; } mc_step(); }
    MC_CHECK (int(s.size()) == 2*n && !requests(), "adding %d characters in way %d within what was reserved makes %ld requests for memory", 2*n, h, requests()); mc_state (h*100+n);
    string u (move (s)), w; fresh(); swap (u, w); w.clear(); w = move (u); u.swap (w); MC_CHECK (!requests(), "moves and swaps of strings make requests for memory");
    fresh(); const char* lit = "a literal"; string l (lit); MC_CHECK (!requests() && l.is_linked(), "a string made from a literal makes requests for memory");
}

// ---- comparisons ------------------------------------------------------------------
static long ncmp;
struct Less { bool operator() (int a, int b) const { ++ncmp; return a < b; } };
struct Eq { bool operator() (int a, int b) const { ++ncmp; return a == b; } };
struct Key { int k; Key (int v = 0) : k (v) {} bool operator< (const Key& o) const { ++ncmp; return k < o.k; } bool operator== (const Key& o) const { ++ncmp; return k == o.k; } };
#define COST(what, n, bound, expr) { ncmp = 0; (void)(expr); mc_step(); if (ncmp > (bound)) mc_fail ("%s of %d elements makes %ld comparisons, the bound is %ld", what, int(n), ncmp, long(bound)); }
MC_SCENARIO (binary_searches, 8)
{
    int n = shard + 8*mc_choose (MC_TIER (100, 250)), dup = 1 + mc_choose (3); vector<int> v; vector<Key> k; for (int i = 0; i < n; ++i) { v.push_back (2*(i/dup)); k.push_back (Key (2*(i/dup))); }
    const long B = 2*lg (n) + 3;
    for (int x = -1; x <= 2*n/dup+1; ++x) {
	COST ("lower_bound", n, B, lower_bound (v.begin(), v.end(), x, Less()));
	COST ("upper_bound", n, B, upper_bound (v.begin(), v.end(), x, Less()));
	COST ("lower_bound by <", n, B, lower_bound (k.begin(), k.end(), Key (x)));
	COST ("upper_bound by <", n, B, upper_bound (k.begin(), k.end(), Key (x)));
	COST ("equal_range", n, B+dup+2, equal_range (v.begin(), v.end(), x, Less()));
	COST ("equal_range by <", n, B+dup+2, equal_range (k.begin(), k.end(), Key (x)));
	COST ("binary_search", n, B+2, binary_search (v.begin(), v.end(), x, Less()));
	COST ("binary_search by <", n, B+2, binary_search (k.begin(), k.end(), Key (x)));
    }
    mc_state (n*4+dup);
}
MC_SCENARIO (sorted_containers, 8)
{
    int n = shard + 8*mc_choose (MC_TIER (20, 100)); const long B = 2*lg (n) + 3;
    set<int,Less> s; multiset<int,Less> ms; map<int,int,Less> m; multimap<int,int,Less> mm;
    for (int i = 0; i < n; ++i) { s.insert (2*i); ms.insert (2*(i/2)); m[2*i] = i; mm.insert (make_pair (2*(i/2), i)); }
    for (int x = -1; x <= 2*n; ++x) {
	COST ("set::find", n, B, s.find (x)); COST ("set::count", n, 2*B, s.count (x)); COST ("set::lower_bound", n, B, s.lower_bound (x)); COST ("set::upper_bound", n, B, s.upper_bound (x)); COST ("set::equal_range", n, 2*B, s.equal_range (x));
	COST ("multiset::find", n, B, ms.find (x)); COST ("multiset::count", n, 2*B, ms.count (x)); COST ("multiset::lower_bound", n, B, ms.lower_bound (x)); COST ("multiset::upper_bound", n, B, ms.upper_bound (x));
	COST ("map::find", n, B, m.find (x)); COST ("map::count", n, 2*B, m.count (x)); COST ("map::lower_bound", n, B, m.lower_bound (x)); COST ("map::upper_bound", n, B, m.upper_bound (x)); COST ("map::equal_range", n, 2*B, m.equal_range (x));
	COST ("multimap::find", n, B, mm.find (x)); COST ("multimap::count", n, 2*B, mm.count (x)); COST ("multimap::lower_bound", n, B, mm.lower_bound (x)); COST ("multimap::upper_bound", n, B, mm.upper_bound (x));
	if (!(x & 1) && x < 2*n && x >= 0) { COST ("map::at", n, 2*B, m.at (x)); COST ("map[]", n, B, m[x]); }
	{ COST ("set::insert", n, B, s.insert (x)); if (x & 1) { COST ("set::erase of a key", n+1, B+1, s.erase (x)); } }
	{ COST ("multiset::insert", n, B, ms.insert (x)); COST ("multiset::erase of a key", n+1, 2*B+2, ms.erase (x)); if (!(x & 1) && x >= 0) for (int c = 0; c < 2 && x+c < n; ++c) ms.insert (x); }
	{ COST ("map::insert", n, B, m.insert (make_pair (x, 1))); if (x & 1) { COST ("map::erase of a key", n+1, B+1, m.erase (x)); } }
	{ COST ("multimap::insert", n, B, mm.insert (make_pair (x, 1))); COST ("multimap::erase of a key", n+1, 2*B+2, mm.erase (x)); if (!(x & 1) && x >= 0) for (int c = 0; c < 2 && x+c < n; ++c) mm.insert (make_pair (x, c)); }
    }
    mc_state (n);
}
// contents of n elements by pattern: the first four are the usual bad cases
static int patval (int p, int i, int n) { switch (p) { case 0: return i; case 1: return n-i; case 2: return i < n/2 ? i : n-i; case 3: return 5; case 4: return i & 1 ? i : n-i; case 5: return i*7919 % 1009; case 6: return i % 3; default: return i < n-1 ? i : 0; } }
enum { NPAT = 8 };
static void heapcost (vector<int>& v)
{
    const int n = v.size(); const long L = lg (n); vector<int> w (v);
    COST ("is_heap", n, 2L*n, is_heap (v.begin(), v.end(), Less()));
    COST ("make_heap", n, 8L*n+4, make_heap (w.begin(), w.end(), Less()));
    { vector<int> h (w); for (int k = n; k > 1; --k) COST ("pop_heap", k, 4*L+4, pop_heap (h.begin(), h.begin()+k, Less())); }
    { vector<int> h (v); for (int k = 1; k <= n; ++k) COST ("push_heap", k, 2*L+4, push_heap (h.begin(), h.begin()+k, Less())); }
    { vector<int> h (w); COST ("sort_heap", n, 4L*n*(L+1)+8, sort_heap (h.begin(), h.end(), Less())); }
    { priority_queue<int,vector<int>,Less> q; for (int i = 0; i < n; ++i) { COST ("priority_queue::push", i+1, 2*L+4, q.push (v[i])); } for (int i = n; i > 0; --i) { COST ("priority_queue::pop", i, 4*L+4, q.pop()); } }
}
static void linearcost (vector<int>& v)
{
    const int n = v.size(); vector<int> s (v), o (2*n+1), t; sort (s.begin(), s.end()); const long L = lg (n); vector<Key> ks, ko (2*n+1); for (int i = 0; i < n; ++i) ks.push_back (Key (s[i]));
    COST ("find_if", n, 2L*n+2, find_if (v.begin(), v.end(), [](int a) { ++ncmp; return a == -9; }));
    COST ("count_if", n, 2L*n+2, count_if (v.begin(), v.end(), [](int a) { ++ncmp; return a == 1; }));
    COST ("adjacent_find", n, 2L*n+2, adjacent_find (v.begin(), v.end(), Eq()));
    COST ("min_element", n, 2L*n+2, min_element (v.begin(), v.end(), Less()));
    COST ("max_element", n, 2L*n+2, max_element (v.begin(), v.end(), Less()));
    COST ("equal", n, 2L*n+2, equal (v.begin(), v.end(), v.begin(), Eq()));
    COST ("mismatch", n, 2L*n+2, mismatch (v.begin(), v.end(), v.begin(), Eq()));
    COST ("lexicographical_compare", n, 4L*n+4, lexicographical_compare (v.begin(), v.end(), v.begin(), v.end(), Less()));
    { t = v; COST ("unique", n, 2L*n+2, unique (t.begin(), t.end(), Eq())); }
    COST ("unique_copy", n, 2L*n+2, unique_copy (v.begin(), v.end(), o.begin(), Eq()));
    { t = v; COST ("remove_if", n, 2L*n+2, remove_if (t.begin(), t.end(), [](int a) { ++ncmp; return a & 1; })); }
    { t = v; COST ("partition", n, 4L*n+4, partition (t.begin(), t.end(), [](int a) { ++ncmp; return a & 1; })); }
    { t = v; COST ("stable_partition", n, 4L*n+4, stable_partition (t.begin(), t.end(), [](int a) { ++ncmp; return a & 1; })); }
    COST ("merge", n, 4L*n+4, merge (ks.begin(), ks.end(), ks.begin(), ks.end(), ko.begin()));
    COST ("includes", n, 8L*n+4, includes (s.begin(), s.end(), s.begin(), s.end(), Less()));
    COST ("set_union", n, 8L*n+4, set_union (s.begin(), s.end(), s.begin(), s.end(), o.begin(), Less()));
    COST ("set_intersection", n, 8L*n+4, set_intersection (s.begin(), s.end(), s.begin(), s.end(), o.begin(), Less()));
    COST ("set_difference", n, 8L*n+4, set_difference (s.begin(), s.end(), s.begin(), s.end(), o.begin(), Less()));
    COST ("set_symmetric_difference", n, 8L*n+4, set_symmetric_difference (s.begin(), s.end(), s.begin(), s.end(), o.begin(), Less()));
    { t = v; COST ("next_permutation", n, 4L*n+8, next_permutation (t.begin(), t.end(), Less())); }
    { t = v; COST ("prev_permutation", n, 4L*n+8, prev_permutation (t.begin(), t.end(), Less())); }
    { t = v; sort (t.begin(), t.begin()+n/2); sort (t.begin()+n/2, t.end()); vector<Key> kt; for (int i = 0; i < n; ++i) kt.push_back (Key (t[i])); COST ("inplace_merge", n, 4L*n+4, inplace_merge (kt.begin(), kt.begin()+n/2, kt.end())); }
    { t = v; COST ("sort", n, 6L*n*(L+1)+16, sort (t.begin(), t.end(), Less())); }
    { t = s; COST ("stable_sort of a sorted range", n, 2L*n*(L+2)+8, stable_sort (t.begin(), t.end(), Less())); }
}
MC_SCENARIO (heaps_small, 8) { int n = shard; vector<int> v; for (int i = 0; i < n; ++i) v.push_back (mc_choose (MC_TIER (4, 5))); heapcost (v); mc_state (n); }
MC_SCENARIO (linear_small, 8) { int n = shard; vector<int> v; for (int i = 0; i < n; ++i) v.push_back (mc_choose (MC_TIER (4, 5))); linearcost (v); mc_state (n); }
MC_SCENARIO (heaps_large, NPAT) { int n = 8 + mc_choose (MC_TIER (300, 500)); vector<int> v; for (int i = 0; i < n; ++i) v.push_back (patval (shard, i, n)); heapcost (v); mc_state (n); }
MC_SCENARIO (linear_large, NPAT) { int n = 8 + mc_choose (MC_TIER (500, 1300)); vector<int> v; for (int i = 0; i < n; ++i) v.push_back (patval (shard, i, n)); linearcost (v); mc_state (n); }

// ---- system calls of buffered files ----------------------------------------------
MC_SCENARIO (buffered_output, 6)
{
    os_reset(); os_policy = nullptr; os_mkfile ("f", "", 0); int N = 1000 * (1 + mc_choose (MC_TIER (8, 16))), len = 1 + mc_choose (3)*6; long total = 0; char w[16] = "abcdefghijklmno"; w[len] = 0;
    { ofstream os (os_newfd (0, O_WRONLY)); const long cap = 4096, w0 = os_writes;
      for (int i = 0; i < N; ++i) { switch (shard) { case 0: os << w; total += len; break; case 1: os << 'x'; ++total; break; case 2: os << 12; total += 2; break; case 3: os.write (w, len); total += len; break; case 4: os.format ("%s", w); total += len; break; case 5: os << string (w); total += len; break; } mc_step(); }
      MC_CHECK (os_writes - w0 <= total / (cap/4) + 1, "%d additions of %ld bytes in all made %ld calls of write, through a buffer of %ld", N, total, os_writes - w0, cap); os.flush(); const long w1 = os_writes; os.flush(); MC_CHECK (os_writes == w1, "a flush with nothing to write calls write"); }
    MC_CHECK (os_file[0].n == total, "the file has %d bytes of %ld", os_file[0].n, total); mc_state (N+len); os_reset();
}
MC_SCENARIO (buffered_input, 4)
{
    os_reset(); os_policy = nullptr; static char d[30000]; int N = 1000 * (1 + mc_choose (MC_TIER (10, 29))); for (int i = 0; i < N; ++i) d[i] = i % 6 == 5 ? '\n' : '1' + i % 6; os_mkfile ("f", d, N);
    { ifstream is (os_newfd (0, O_RDONLY)); const long r0 = os_reads; long n = 0; int v; char c; string s;
      switch (shard) { case 0: for (; n < N/6; ++n) is >> v; break; case 1: for (; n < N/6*5; ++n) is >> c; break; case 2: for (; n < N/6; ++n) is >> s; break; case 3: for (; n < N/6; ++n) getline (is, s); break; }
      mc_steps (n); MC_CHECK (os_reads - r0 <= N / 1024 + 2, "reading %ld values from %d bytes made %ld calls of read", n, N, os_reads - r0); }
    mc_state (N); os_reset();
}
