// C31: objects of one thread are not affected by what other threads do with theirs, and constant objects can be read by several.
#include "u.h"
#include "../mc/thr.h"
#include <sys/mman.h>
#include <unistd.h>
struct H { uint64_t h; H (void) : h (1469598103934665603ull) {}
    void mix (uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
    void txt (const string& s) { mix (s.size()); for (size_t i = 0; i < s.size(); ++i) mix (uint8_t(s[i])); }
    void cs (const char* s) { for (; *s; ++s) mix (uint8_t(*s)); mix (256); }
    template <typename C> void seq (const C& c) { for (auto i = c.begin(); i != c.end(); ++i) mix (*i); mix (999); }
};
#define OP(nm) static void nm (H& o, int k)
OP (string_edit) { string s ("abc"); s += char('d'+k); s.insert (string::pos_type(1), "xyz"); s.erase (s.begin(), 2); s.replace (s.begin(), s.begin()+2, "0123456789"); s.push_back ('z'); string t (s); t.resize (4); o.txt (s); o.txt (t); s.swap (t); o.txt (s+t); s.assign (3, 'q'); o.txt (s); o.txt (t.substr (1, 3)); t.pop_back(); o.txt (t); }
OP (string_format) { string s; s.format ("%d %s %x", 100+k, "text", 255*k); o.txt (s); s.format ("%g", 0.5*k); o.txt (s); }
OP (string_search) { string s ("the quick brown fox"); o.mix (s.find ('q')); o.mix (s.find (string("brown"))); o.mix (s.rfind ('o')); o.mix (s.rfind (string("qu"))); o.mix (s.find_first_of ("xyz")); o.mix (s.find_last_not_of ("fox")); o.mix (s.compare ("the quack")+5); o.mix (s == "the"); o.mix (s.hash (s.begin(), s.end())); o.mix (k); }
OP (string_wide) { string s; s += wchar_t (0x20ac+k); s += wchar_t (0xe9); s.insert (string::pos_type(0), 2, wchar_t(0x1f600)); o.txt (s); o.mix (s.length()); for (auto i = s.utf8_begin(); i < s.utf8_end(); ++i) o.mix (*i); o.mix (s.wiat (1)-s.begin()); }
OP (to_numbers) { o.txt (to_string (1234567+k)); o.txt (to_string (-5l)); o.txt (to_string (1.5*k)); o.txt (to_string (77ull)); o.mix (stoi (string("-42"))); o.mix (stoul (string("ff"), nullptr, 16)); o.mix (int(stod (string("2.5"))*2)); o.mix (stoll (string("123456789012"))); }
OP (vectors) { vector<int> v; for (int i = 0; i < 9; ++i) v.push_back (i*k); v.insert (v.begin()+2, 3, 7); v.erase (v.begin()); v.emplace (v.begin()+1, 5); vector<int> w (v); w.resize (5); v.swap (w); v.assign (4, k); v.shrink_to_fit(); o.seq (v); o.seq (w); vector<string> s; s.push_back ("one"); s.push_back (string(3u+k, 'x')); s.insert (s.begin(), "zero"); for (auto& x : s) o.txt (x); }
OP (lists) { list<int> l; l.push_back (3); l.push_front (k); l.push_back (1); l.sort(); list<int> m; m.push_back (2); l.merge (m); l.splice (l.begin(), m); l.remove (1); l.reverse(); o.seq (l); }
OP (sets) { set<int> s; s.insert (5); s.insert (k); s.insert (3); s.erase (5); multiset<int> m (s.begin(), s.end()); m.insert (3); o.seq (s); o.seq (m); o.mix (m.count (3)); o.mix (s.find (3) != s.end()); }
OP (maps) { map<string,int> m; m["b"] = 1; m["a"] = k; m.insert (make_pair (string("c"), 7)); m.erase ("b"); for (auto& x : m) { o.txt (x.first); o.mix (x.second); } multimap<int,int> n; n.insert (make_pair (2, k)); n.insert (make_pair (1, 4)); n.insert (make_pair (2, 5)); for (auto& x : n) o.mix (x.first*100+x.second); o.mix (n.count (2)); }
OP (adaptors) { queue<int> q; q.push (k); q.push (2); q.pop(); o.mix (q.front()); stack<int> s; s.push (1); s.push (k); o.mix (s.top()); priority_queue<int> p; p.push (3); p.push (k*4); p.push (1); p.pop(); o.mix (p.top()); deque<int> d; d.push_front (k); d.push_back (9); o.seq (d); }
OP (sorting) { int a[8] = { 5,2,8,1,k,9,3,7 }; sort (a+0, a+8, greater<int>()); for (int x : a) o.mix (x); struct By { int m; bool operator() (int x, int y) const { return x%m < y%m || (x%m == y%m && x < y); } } by = { 3+k }; sort (a+0, a+8, by); for (int x : a) o.mix (x); stable_sort (a+0, a+8); for (int x : a) o.mix (x); o.mix (binary_search (a+0, a+8, 3)); nth_element (a+0, a+4, a+8); o.mix (a[4]); partial_sort (a+0, a+3, a+8, greater<int>()); for (int x : a) o.mix (x); }
OP (algorithms) { int a[8] = { 1,2,2,3,k,4,4,5 }, b[8]; copy (a+0, a+8, b+0); rotate (b+0, b+3, b+8); for (int x : b) o.mix (x); reverse (b+0, b+8); o.mix (count (b+0, b+8, 2)); o.mix (unique (a+0, a+8)-a); next_permutation (b+0, b+4); for (int x : b) o.mix (x); o.mix (accumulate (b+0, b+8, 0)); partial_sum (b+0, b+8, a+0); o.mix (a[7]); inplace_merge (a+0, a+4, a+8); fill (b+0, b+3, k); o.mix (equal (a+0, a+3, b+0)); o.mix (lexicographical_compare (a+0, a+8, b+0, b+8)); rotate_copy (a+0, a+2, a+8, b+0); o.mix (b[0]); }
OP (big_rotate) { char a[80]; for (int i = 0; i < 80; ++i) a[i] = char(i*7+k); rotate (a+0, a+33, a+80); for (char c : a) o.mix (c); copy_backward (a+0, a+70, a+80); for (char c : a) o.mix (c); }
OP (heaps) { int a[7] = { 3,k,4,1,5,9,2 }; make_heap (a+0, a+7); pop_heap (a+0, a+7); push_heap (a+0, a+6); o.mix (is_heap (a+0, a+6)); sort_heap (a+0, a+6); for (int x : a) o.mix (x); }
OP (text_out) { ostringstream os; os << k << ' ' << -17l << " text " << true << ios::hex << 255 << ios::dec << string("str"); os.width (8); os << 3; os.format ("<%d>", 5+k); os << 1.25 << wchar_t(0xe9) << 18446744073709551615ull; o.txt (os.str()); o.mix (os.pos()); }
OP (text_in) { string t ("17 -4 2.5 true word \"two words\" 0x1f k"); t += char('0'+k); istringstream is (t); int a = 0; long b = 0; double d = 0; bool e = false; string s, u; is >> a >> b >> d >> e >> s >> u; o.mix (a); o.mix (b); o.mix (int(d*4)); o.mix (e); o.txt (s); o.txt (u); is.setf (ios::hex, ios::basefield); is >> a; o.mix (a); string l; getline (is, l); o.txt (l); is.str ("5,6"); is.set_delimiters (","); is >> a >> b; o.mix (a*10+b); }
OP (binary) { memblock m (128u); ostream os (m); os << k << int8_t(3) << ios::align(8) << 77ull << string("text"); os.align(8); vector<int> v; v.push_back (k); v.push_back (9); os << v; o.mix (os.pos()); istream is (m.data(), os.pos()); int a = 0; int8_t b = 0; unsigned long long c = 0; string s; vector<int> w; is >> a >> b >> ios::align(8) >> c >> s; is.align(8); is >> w; o.mix (a); o.mix (b); o.mix (c); o.txt (s); o.seq (w); try { is >> a; o.mix (1); } catch (stream_bounds_exception& e) { o.cs (e.what()); string x; e.info (x); o.txt (x); } }
OP (blocks) { memblock m (8u); m.fill (m.begin(), "ab", 2, 4); m.insert (m.begin()+3, 4); m.erase (m.begin(), 2); memblock n (m); n.resize (6); n.copy_link(); m.resize (m.size()+2); n.swap (m); for (size_t i = 6; i < n.size(); ++i) o.mix (i); o.mix (m.size()*100+n.size()+k); memlink l (m); o.mix (l == m); }
OP (bits) { bitset<70> b; b.set (3+k); b.set (69); b.flip (1); o.txt (b.to_string()); bitset<70> c ("1011"); c |= b; c ^= bitset<70>(7); o.txt ((~c).to_string()); o.mix (c.count()); o.mix (c.any()); o.mix (popcount (0x1234u+k)); o.mix (Rol (uint32_t(5+k), 3)); o.mix (bswap (uint32_t(0x10203+k))); o.mix (NextPow2 (33u)); }
OP (tuples) { tuple<4,float> t (1.f, 2.f, 3.f, float(k)), u (t); u += t; u *= 2.f; for (float x : u) o.mix (int(x)); tuple<8,int8_t> b; fill (b.begin(), b.end(), int8_t(k)); b += b; for (int x : b) o.mix (x); array<int,3> a = {{ 1, k, 3 }}; o.mix (a[1]); matrix<4,4,float> m; load_identity (m); m[0][3] = k; m = m * m; for (float x : m) o.mix (int(x)); tuple<2,int32_t> p (k, 4); o.mix (p[0]+p[1]); }
OP (packed) { tuple<4,uint16_t> a (uint16_t(k), 2, 3, 4), b (a); simd::padds (a, b, b); for (int x : b) o.mix (x); tuple<4,float> f (1.5f, -2.5f, float(k), 0.f); tuple<4,int32_t> i (1, 2, 3, 4); simd::pround (f, i); for (int x : i) o.mix (x); }
OP (unique_owner) { unique_ptr<string> p = make_unique<string> ("own"), q; q = move (p); q->push_back (char('0'+k)); o.txt (*q); o.mix (!p); shared_ptr<int> a (new int (k)), b (a); o.mix (a.use_count()); b.reset(); o.mix (*a); auto g = make_scope_exit ([&]{ o.mix (77); }); auto_ptr<int> c (new int (3)); o.mix (*c); }
OP (exceptions) { try { throw error_message ("trouble in script"); } catch (exception& e) { o.cs (e.what()); string s; e.info (s); o.txt (s); ostringstream os; os << e.what(); o.txt (os.str()); }
    try { throw libc_exception ("doing"); } catch (libc_exception& e) { string s; e.info (s); o.txt (s); }
    try { throw file_exception ("open", "name"); } catch (exception& e) { o.cs (e.what()); string s; e.info (s); o.txt (s); } }
OP (standard_errors) { try { throw out_of_range ("range"); } catch (logic_error& e) { o.cs (e.what()); string s; e.info (s); o.txt (s); } try { throw runtime_error (string("run")+char('0'+k)); } catch (exception& e) { string s; e.info (s); o.txt (s); } error_code c (make_error_code (errc::invalid_argument)); o.txt (c.message()); o.mix (c.value()); try { throw system_error (c, "sys"); } catch (system_error& e) { o.cs (e.what()); } }
OP (records) { runtime_error e ("recorded"); memblock m (e.stream_size()); ostream os (m); e.write (os); runtime_error f ("x"); istream is (m); f.read (is); o.cs (f.what()); o.mix (is.pos() == m.size()); o.mix (k); }
OP (traces) { CBacktrace b; CBacktrace c (b); c = b; string s; { ostringstream os (s); os << c; s = os.str(); } o.mix (s.empty()); o.mix (k); }
OP (durations) { using namespace chrono; milliseconds a (1500+k); o.mix (duration_cast<seconds>(a).count()); o.mix (((a *= 3) - milliseconds(4)).count()); hrtime_t t (1, 999999999); t += hrtime_t (0, k); o.mix (t.tv_sec); o.mix (t.tv_nsec); auto n = steady_clock::now(); o.mix (steady_clock::now() < n); }
OP (functional) { int a[4] = { 1, 2, k, 4 }, b[4]; transform (a+0, a+4, b+0, bind1st (plus<int>(), 3)); for (int x : b) o.mix (x); transform (a+0, a+4, b+0, a+0, multiplies<int>()); for (int x : a) o.mix (x); o.mix (count_if (a+0, a+4, bind2nd (less<int>(), 20))); o.mix (find_if (b+0, b+4, [k](int x){ return x == k+3; })-b); vector<int> v; copy (b+0, b+4, back_inserter (v)); o.mix (*v.rbegin()); o.seq (v); }
OP (containers) { vector<int> v; for (int i = 0; i < 5; ++i) v.push_back ((i*3+k)%5); sort (v); o.seq (v); o.mix (count (v, 3)); reverse (v); o.mix (find (v, 3) != v.end()); unique (v); o.seq (v); random_access_iterator_tag t; (void) t; fill (v, k); o.seq (v); vector<uoff_t> x; x.push_back (1); x.push_back (0); vector<const int*> ic; ic.resize (2); o.mix (*index_iterator (v.begin(), x.begin())[1]); }
OP (files) { int fd = memfd_create ("c31", 0); { ofstream f (dup (fd)); f << "line " << k << endl << 42 << ' ' << "tail\n"; f.flush(); } lseek (fd, 0, SEEK_SET); { ifstream f (dup (fd)); string s; f.getline (s); o.txt (s); int i = 0; f >> i; o.mix (i); f >> s; o.txt (s); } { fstream f; f.attach (fd); f.seek (0); char b[5]; f.read (b, 5); o.mix (memcmp (b, "line ", 5) == 0); o.mix (f.size()); f.write ("x", 1); o.mix (f.pos()); } }
OP (codes) { uint8_t b[16] = {}; utf8out_iterator<uint8_t*> u (b); *u = wchar_t(0x20ac+k); for (uint8_t c : b) o.mix (c); utf8in_iterator<const uint8_t*> i (b); o.mix (*i); o.mix (Utf8Bytes (wchar_t(0x800))); }
OP (numbers) { o.mix (gcd (24*k, 18)); o.mix (lcm (4, 6+k)); o.mix (power (3, 4)); o.mix (int(DivRU (7, 2))); o.mix (Align (13+k)); o.mix (FirstBit (0x40u<<k, 0)); o.mix (numeric_limits<int>::max()); o.mix (sign (-3*k)+2); }
OP (text_of_containers) { vector<int> v; v.push_back (k); v.push_back (5); tuple<3,int> t (1, k, 3); map<int,string> m; m[k] = "v"; ostringstream os; os << v << ' ' << t << ' ' << m << ' ' << make_pair (1, k) << ' ' << bitset<4>(k); o.txt (os.str()); }
OP (failures) { istringstream is ("x"); is.exceptions (ios_base::goodbit); int i = 3; is >> i; is >> i; o.mix (is.rdstate()); istringstream js ("1"); js.exceptions (ios_base::failbit); try { js >> i >> i; o.mix (i); } catch (exception& e) { o.cs (e.what()); } o.mix (k); }
typedef void (*op_t)(H&, int);
#define LIST(X) X(string_edit) X(string_format) X(string_search) X(string_wide) X(to_numbers) X(vectors) X(lists) X(sets) X(maps) X(adaptors) X(sorting) X(algorithms) X(big_rotate) X(heaps) X(text_out) X(text_in) X(binary) X(blocks) X(bits) X(tuples) X(packed) X(unique_owner) X(exceptions) X(standard_errors) X(records) X(traces) X(durations) X(functional) X(containers) X(files) X(codes) X(numbers) X(text_of_containers) X(failures)

// what may be asked of a constant object
struct Shared {
    string s, lk; vector<int> v; vector<string> vs; list<int> l; set<int> st; multiset<int> ms; map<string,int> m; multimap<int,int> mm; bitset<70> b; tuple<4,float> t; array<int,3> a; matrix<4,4,float> x; memblock k; cmemlink c; pair<int,string> p;
    shared_ptr<int> sp; unique_ptr<int> up; queue<int> q; stack<int> sk; priority_queue<int> pq; runtime_error e; error_code ec; CBacktrace bt; chrono::milliseconds ms1; deque<int> d; ostringstream os;
    Shared (void) : s ("the shared \xc3\xa9 text"), lk ("linked"), sp (new int (5)), up (new int (6)), e ("shared error"), ec (make_error_code (errc::invalid_argument)), ms1 (5), x (), t (1.f,2.f,3.f,4.f) {
	s += '!'; for (int i = 0; i < 5; ++i) { v.push_back (i*3%5); vs.push_back (string (size_t(i), 'x')); l.push_back (i); st.insert (i*2); ms.insert (i/2); m[vs.back()] = i; mm.insert (make_pair (i/2, i)); q.push (i); sk.push (i); pq.push (i); d.push_back (i); }
	b.set (3); b.set (69); a[0] = 1; a[1] = 2; a[2] = 3; load_identity (x); k.assign ("block", 5); c.link (k.data(), k.size()); p = make_pair (4, string ("pair")); os << "stream";
    }
};
#define RD(nm) static void nm (H& o, const Shared& z)
RD (rd_string) { const string& s = z.s; o.cs (s.c_str()); o.mix (s.size()); o.mix (s.length()); o.mix (s.find ('e')); o.mix (s.rfind ('e')); o.mix (s.find (string("sha"))); o.mix (s.compare ("the")); o.mix (s == "the"); o.mix (s < string("u")); o.mix (s[2]); o.mix (s.at(3)); o.mix (s.front()+s.back()); o.txt (s.substr (4, 6)); o.txt (s+string("q")); for (auto i = s.utf8_begin(); i < s.utf8_end(); ++i) o.mix (*i); for (auto i = s.rbegin(); i != s.rend(); ++i) o.mix (*i); o.mix (s.capacity() > 0); o.mix (s.stream_size()); char b[8]; o.mix (s.copy (b, 8, 0)); string t (s); o.txt (t); o.mix (z.lk == "linked"); o.cs (z.lk.c_str()); o.mix (s.find_first_of ("xyzh")); o.mix (s.wiat (2)-s.begin()); o.mix (hash_value (s.c_str())); }
RD (rd_vector) { const vector<int>& v = z.v; o.seq (v); o.mix (v.size()); o.mix (v.empty()); o.mix (v.front()+v.back()+v[1]+v.at(2)); o.mix (*v.data()); vector<int> w (v); w.push_back (3); o.seq (w); o.mix (v == w); for (auto i = v.rbegin(); i != v.rend(); ++i) o.mix (*i); o.mix (count (v, 3)); o.mix (find (v, 3)-v.begin()); o.mix (v.capacity() >= 5); o.mix (v.max_size() > 5); vector<string> s (z.vs); for (auto& x : s) o.txt (x); ostringstream os; os << v; o.txt (os.str()); }
RD (rd_list) { list<int> l (z.l); o.seq (l); o.seq (z.l); o.mix (z.l.size()); o.mix (z.l == l); o.mix (z.l.front()+z.l.back()); o.seq (z.d); o.mix (z.d == deque<int>(z.d)); }
RD (rd_sets) { o.seq (z.st); o.mix (z.st.count (2)); o.mix (z.st.find (4)-z.st.begin()); o.mix (z.ms.count (1)); o.seq (z.ms); o.mix (z.ms.size()); o.mix (z.st.lower_bound (3)-z.st.begin()); o.mix (z.ms.upper_bound (1)-z.ms.begin()); set<int> c (z.st); o.mix (c == z.st); }
RD (rd_maps) { for (auto& x : z.m) { o.txt (x.first); o.mix (x.second); } o.mix (z.m.find ("xx")->second); o.mix (z.m.at ("x")); o.mix (z.m["xxx"]); o.mix (z.mm.count (1)); o.mix (z.mm.find (1)-z.mm.begin()); o.mix (z.mm.lower_bound (1)-z.mm.begin()); map<string,int> c (z.m); o.mix (c == z.m); o.mix (z.m.size()); o.mix (z.mm.equal_range (1).second - z.mm.begin()); }
RD (rd_bits) { o.txt (z.b.to_string()); o.mix (z.b.count()); o.mix (z.b.any()+z.b.none()); o.mix (z.b[3]+z.b.test (69)); o.mix (z.b.at (1, 5)); o.mix ((z.b | bitset<70>(5)).count()); o.mix (z.b == bitset<70>(8)); o.mix (z.b.to_value()); o.txt ((~z.b).to_string()); }
RD (rd_tuples) { tuple<4,float> u (z.t); u += z.t; for (float f : u) o.mix (int(f)); o.mix (u == z.t); o.mix (z.a[1]); array<int,3> a (z.a); o.mix (a == z.a); matrix<4,4,float> m = z.x * z.x; for (float f : m) o.mix (int(f)); o.mix (z.p.first); o.txt (z.p.second); pair<int,string> p (z.p); o.mix (p == z.p); ostringstream os; os << z.t << z.p; o.txt (os.str()); }
RD (rd_blocks) { o.mix (z.k.size()); o.mix (z.k.begin()[2]); memblock c (z.k); o.mix (c == z.k); o.mix (z.c == z.k); o.mix (z.k.stream_size()); memblock b (64u); ostream os (b); os << z.k; o.mix (os.pos()); cmemlink l (z.c); o.mix (l.size()); istream is (z.c); char q = 0; is >> q; o.mix (q); o.mix (z.k.is_linked()); }
RD (rd_owners) { o.mix (*z.sp); o.mix (*z.up); o.mix (bool (z.sp)); shared_ptr<int> p (z.sp); o.mix (*p); o.mix (p == z.sp); o.mix (z.up.get() != nullptr); o.mix (z.q.front()+z.q.back()+z.q.size()); o.mix (z.sk.top()+z.sk.size()); o.mix (z.pq.top()); }
RD (rd_errors) { o.cs (z.e.what()); string s; z.e.info (s); o.txt (s); o.mix (z.e.stream_size()); memblock b (z.e.stream_size()); ostream os (b); z.e.write (os); runtime_error c (z.e); o.cs (c.what()); o.txt (z.ec.message()); o.mix (z.ec.value()); o.mix (bool (z.ec)); ostringstream t; t << z.bt; o.mix (t.pos() < 100000); CBacktrace d (z.bt); o.mix (z.ms1.count()); o.mix (z.os.pos()); o.mix (z.os.size() >= 6); }
typedef void (*rd_t)(H&, const Shared&);
#define READS(X) X(rd_string) X(rd_vector) X(rd_list) X(rd_sets) X(rd_maps) X(rd_bits) X(rd_tuples) X(rd_blocks) X(rd_owners) X(rd_errors)
#define FN(n) n,
#define NM(n) #n,
static const op_t ops[] = { LIST(FN) }; static const char* const opname[] = { LIST(NM) };
static const rd_t rds[] = { READS(FN) }; static const char* const rdname[] = { READS(NM) };
enum { NOPS = sizeof(ops)/sizeof(*ops), NRDS = sizeof(rds)/sizeof(*rds) };
struct Arg { int op, k; const Shared* z; H h; };
THR_HIDDEN static void body (void* vp) { Arg& a = *(Arg*) vp; H h; if (a.z) rds[a.op] (h, *a.z); else ops[a.op] (h, a.k); a.h = h; }
THR_HIDDEN static void together (int i, int j, const Shared* z, bool pre)
{
    Arg a[2] = { { i, 1, z }, { j, 2, z } }, e[2] = { { i, 1, z }, { j, 2, z } }; void* args[2] = { &a[0], &a[1] };
    body (&e[0]); body (&e[1]);		// what each does alone
    mc_note ("thread 0: %s, thread 1: %s", z ? rdname[i] : opname[i], z ? rdname[j] : opname[j]);
    thr_reset(); thr_at_functions = pre; thr_run_stepped (2, body, args); thr_at_functions = 0;
    for (int t = 0; t < 2; ++t) MC_CHECK (a[t].h.h == e[t].h.h, "%s of thread %d has another result than it has alone", z ? rdname[a[t].op] : opname[a[t].op], t);
    mc_state (mc_mix (i*100+j, z ? 1 : 0)); mc_step(); mc_outcome (mc_mix (a[0].h.h, a[1].h.h));
    if (mc_want_sample()) mc_sample ("%s with %s", z ? rdname[i] : opname[i], z ? rdname[j] : opname[j]);
}
MC_SCENARIO (separate, NOPS) { together (shard, mc_choose (NOPS), nullptr, false); }
MC_SCENARIO_F (separate_preempted, NOPS, NOPS, 1, 1, 0) { together (shard, mc_thorough ? mc_choose (NOPS) : shard, nullptr, true); }
MC_SCENARIO (shared_constants, NRDS) { Shared z; together (shard, mc_choose (NRDS), &z, false); }
MC_SCENARIO_F (shared_preempted, NRDS, NRDS, 1, 1, 0) { Shared z; together (shard, mc_thorough ? mc_choose (NRDS) : shard, &z, true); }
