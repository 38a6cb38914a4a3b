// C21: bitset against an array of single bits.
#include "u.h"
template <size_t N> struct BM {
    enum { W = (N+31)/32, CAP = W*32 }; uint8_t b[CAP];	// including those past N, which only show where listed as a finding
    BM (void) { memset (b, 0, CAP); }
    void val (uint32_t v) { memset (b, 0, CAP); for (int i = 0; i < 32; ++i) b[i] = (v>>i)&1; }
    void str (const char* s, size_t n) { for (size_t i = 0; i < CAP; ++i) b[i] = i < n && s[n-1-i] != '0'; }
    size_t count (size_t n) const { size_t c = 0; for (size_t i = 0; i < n; ++i) c += b[i]; return c; }
    bool eq (const BM& o, size_t n) const { return !memcmp (b, o.b, n); }
    uint32_t range (size_t f, size_t l) const { uint32_t v = 0; for (size_t i = f; i < l; ++i) v |= uint32_t(b[i]) << (i-f); return v; }
    uint64_t hash (void) const { return mc_hash (N, b, CAP); }
};
template <size_t N> static const char* show (const BM<N>& m) { static char o[4][BM<N>::CAP+1]; static int k; char* s = o[k++&3]; for (size_t i = 0; i < N; ++i) s[i] = '0'+m.b[N-1-i]; s[N] = 0; return s; }
// a result that is wrong only because of bits past N
#define PADDED(exact, padded, got, ...) do { if ((got) != (exact)) { if (N % 32 && (got) == (padded) && mc_known ("bits-past-size")) break; mc_fail (__VA_ARGS__); } } while (0)
template <size_t N> static void check (const bitset<N>& c, const BM<N>& m, bool deep)
{
    typedef BM<N> M;
    for (size_t i = 0; i < N; ++i) {
	MC_CHECK (c.test (i) == m.b[i], "bitset<%zu>: bit %zu is %d, expected %s", N, i, c.test (i), show (m));
	MC_CHECK (c[i] == m.b[i] && c.at (i) == m.b[i], "bitset<%zu>: [%zu] or at is wrong", N, i);
    }
    PADDED (m.count (N), m.count (M::CAP), c.count(), "bitset<%zu>: count is %zu of %s", N, size_t (c.count()), show (m));
    PADDED (m.count (N) != 0, m.count (M::CAP) != 0, c.any(), "bitset<%zu>: any is %d of %s", N, c.any(), show (m));
    PADDED (m.count (N) == 0, m.count (M::CAP) == 0, c.none(), "bitset<%zu>: none is %d of %s", N, c.none(), show (m));
    PADDED (m.range (0, N < 32 ? N : 32), m.range (0, 32), c.to_value(), "bitset<%zu>: to_value is %x of %s", N, c.to_value(), show (m));
    string s (c.to_string()); MC_CHECK (s.size() == N && !memcmp (s.c_str(), show (m), N+1), "bitset<%zu>: to_string is '%s', expected '%s'", N, s.c_str(), show (m));
    MC_CHECK (c.size() == N && c.capacity() >= N && c.capacity() == size_t (c.end()-c.begin())*32 && c.stream_size() == sizeof(c), "bitset<%zu>: size", N);
    for (size_t i = 0; i < N; ++i) MC_CHECK (((c.begin()[i/32] >> i%32) & 1) == m.b[i], "bitset<%zu>: word of bit %zu", N, i);
    if (!deep) return;
    for (size_t f = 0; f < N; ++f) for (size_t l = f; l <= N && (l == f || (l-1)/32 == f/32); ++l)
	MC_CHECK (c.at (f, l) == m.range (f, l), "bitset<%zu>: at (%zu,%zu) is %x of %s", N, f, l, c.at (f, l), show (m));
    bitset<N> r (s); MC_CHECK (r.to_string() == s, "bitset<%zu>: '%s' read back from its string is '%s'", N, s.c_str(), r.to_string().c_str());
    ostringstream os; os << c; MC_CHECK (os.str() == s, "bitset<%zu>: text is '%s', expected '%s'", N, os.str().c_str(), s.c_str());
    istringstream is (s); bitset<N> t (0x5A5A5A5A); t.flip(); is >> t; MC_CHECK (t.to_string() == s, "bitset<%zu>: '%s' read back from text is '%s'", N, s.c_str(), t.to_string().c_str());
    memblock mb (c.stream_size()); ostream bs (mb); bs << c; MC_CHECK (bs.pos() == mb.size(), "bitset<%zu>: writes %zu bytes", N, size_t (bs.pos()));
    istream bi (mb); bitset<N> u (0xA5A5A5A5); bi >> u; MC_CHECK (u.to_string() == s && u == c, "bitset<%zu>: read back from binary is '%s', expected '%s'", N, u.to_string().c_str(), s.c_str());
}
template <size_t N> static void two (const bitset<N>& a, const BM<N>& ma, const bitset<N>& b, const BM<N>& mb)
{
    PADDED (ma.eq (mb, N), ma.eq (mb, BM<N>::CAP), a == b, "bitset<%zu>: == of %s and %s is %d", N, show (ma), show (mb), a == b);
    MC_CHECK ((a != b) == !(a == b), "bitset<%zu>: !=", N);
}
template <size_t N> static size_t pos (void)
{
    static const size_t P[] = { 0, 1, 30, 31, 32, 33, 63, 64, N/2, N-1 }; size_t q[10]; int n = 0;
    for (size_t p : P) if (p < N) { bool dup = false; for (int k = 0; k < n; ++k) dup |= q[k] == p; if (!dup) q[n++] = p; }
    return q[mc_choose (n)];
}
template <size_t N> static void setrange (bitset<N>& a, BM<N>& m, size_t f, size_t l, int pat)
{
    uint32_t mask = l == f ? 0 : ~uint32_t(0) >> (32-(l-f)), v = (pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? ~0u : pat == 3 ? 0x55555555 : 0xAAAAAAAA) & mask;
    mc_note ("set (%zu, %zu, %x)", f, l, v);
    a.set (f, l, v); for (size_t i = f; i < l; ++i) m.b[i] = (v >> (i-f)) & 1;
}
enum { OPS = 20 };
template <size_t N> static void hist (int first, int maxdepth)
{
    const int depth = 1 + mc_choose (maxdepth);
    typedef BM<N> M; bitset<N> a, b (0x2Du); M m, n; n.val (0x2D); 
    for (int s = 0; s < depth; ++s) {
	int op = s ? mc_choose (OPS) : first;
	switch (op) {
	    case 0: { size_t p = pos<N>(); mc_note ("set (%zu)", p); a.set (p); m.b[p] = 1; } break;
	    case 1: { size_t p = pos<N>(); mc_note ("reset (%zu)", p); a.reset (p); m.b[p] = 0; } break;
	    case 2: { size_t p = pos<N>(); mc_note ("flip (%zu)", p); a.flip (p); m.b[p] ^= 1; } break;
	    case 3: { size_t p = pos<N>(); bool v = mc_choose (2); mc_note ("set (%zu, %d)", p, v); a.set (p, v); m.b[p] = v; } break;
	    case 4: mc_note ("set()"); a.set(); memset (m.b, 1, M::CAP); break;
	    case 5: mc_note ("reset()"); if (mc_choose (2)) a.clear(); else a.reset(); memset (m.b, 0, M::CAP); break;
	    case 6: mc_note ("flip()"); a.flip(); for (auto& x : m.b) x ^= 1; break;
	    case 7: mc_note ("a = ~b"); a = ~b; m = n; for (auto& x : m.b) x ^= 1; break;
	    case 8: mc_note ("a &= b"); MC_CHECK (&(a &= b) == &a, "&= returns something else"); for (int i = 0; i < M::CAP; ++i) m.b[i] &= n.b[i]; break;
	    case 9: mc_note ("a |= b"); MC_CHECK (&(a |= b) == &a, "|= returns something else"); for (int i = 0; i < M::CAP; ++i) m.b[i] |= n.b[i]; break;
	    case 10: mc_note ("a ^= b"); MC_CHECK (&(a ^= b) == &a, "^= returns something else"); for (int i = 0; i < M::CAP; ++i) m.b[i] ^= n.b[i]; break;
	    case 11: mc_note ("a = a & b"); a = a & b; for (int i = 0; i < M::CAP; ++i) m.b[i] &= n.b[i]; break;
	    case 12: mc_note ("a = a | b"); a = a | b; for (int i = 0; i < M::CAP; ++i) m.b[i] |= n.b[i]; break;
	    case 13: mc_note ("a = a ^ b"); a = a ^ b; for (int i = 0; i < M::CAP; ++i) m.b[i] ^= n.b[i]; break;
	    case 14: { mc_note ("swap"); bitset<N> t (a); a = b; b = t; M x = m; m = n; n = x; } break;
	    case 15: { static const uint32_t V[] = { 0, 1, 0x80000000u, ~0u, 0x12345678 }; uint32_t v = V[mc_choose (5)]; mc_note ("a = %x", v); a = v; m.val (v); } break;
	    case 16: { static const size_t L[] = { 0, 1, N-1, N, N+1, M::CAP, M::CAP+7 }; size_t l = L[mc_choose (7)]; int pt = mc_choose (3); char s[M::CAP+8]; for (size_t i = 0; i < l; ++i) s[i] = pt == 0 ? '1' : pt == 1 ? '0'+(i%3==0) : '0'+((l-i)%2); mc_note ("a = string of %zu", l); a = bitset<N> (string (s, l)); m.str (s, l); } break;
	    case 17: { size_t f = pos<N>(), l = f + mc_choose (4)*9; if (l > N) l = N; if (l > f && (l-1)/32 != f/32) l = (f/32+1)*32; setrange (a, m, f, l, mc_choose (5)); } break;
	    case 18: mc_note ("b = a"); b = a; n = m; MC_CHECK (a == b && !(a != b), "a copy differs"); break;
	    case 19: mc_note ("a = copy of a and a"); a = bitset<N> (a) & a; a |= a; break;
	}
	mc_step(); mc_state (mc_mix (m.hash(), n.hash()));
	if (s+1 == depth) { check (a, m, depth < maxdepth); check (b, n, false); two (a, m, b, n); }
    }
    if (mc_want_sample()) mc_sample ("bitset<%zu> after %d operations is %s", N, depth, show (m));
}
#define HIST(n,q,t) MC_SCENARIO (histories_##n, OPS) { hist<n> (shard, MC_TIER (q, t)); }
HIST(1,3,4) HIST(33,3,3) HIST(64,3,3) HIST(70,2,3)
#define HISTL(n) HIST(n,2,3)
HISTL(2) HISTL(7) HISTL(8) HISTL(30) HISTL(31) HISTL(32) HISTL(63) HISTL(65) HISTL(96) HISTL(97) HISTL(128) HISTL(256)

// every pair of values of small sets through every operator
template <size_t N> static void allpairs (void)
{
    for (uint32_t x = 0; x < (1u<<N); ++x) {
	bitset<N> a (x); BM<N> m; m.val (x); check (a, m, true);
	for (uint32_t y = 0; y < (1u<<N); ++y) {
	    bitset<N> b (y); BM<N> n; n.val (y); two (a, m, b, n);
	    MC_CHECK ((a&b).to_value() == (x&y) && (a|b).to_value() == (x|y) && (a^b).to_value() == (x^y), "bitset<%zu> operators on %x and %x", N, x, y);
	    MC_CHECK ((a&b).count() == size_t (__builtin_popcount (x&y)) && (a|b).any() == !!(x|y) && (a^b).none() == !(x^y), "bitset<%zu> count, any, none of %x and %x", N, x, y);
	    mc_step();
	}
	mc_eval(); mc_state (mc_mix (N, x));
    }
}
MC_SCENARIO (all_pairs, 5) { switch (shard) { case 0: allpairs<1>(); break; case 1: allpairs<3>(); break; case 2: allpairs<5>(); break; case 3: allpairs<8>(); break; case 4: if (mc_thorough) allpairs<10>(); break; } }
// every range of every word on every background
template <size_t N> static void ranges (void)
{
    for (int bg = 0; bg < 3; ++bg) for (size_t f = 0; f < N; ++f) for (size_t l = f; l <= N && (l == f || (l-1)/32 == f/32); ++l) for (int p = 0; p < 5; ++p) {
	bitset<N> a; BM<N> m; if (bg == 1) { a.set(); memset (m.b, 1, m.CAP); } if (bg == 2) for (size_t i = 0; i < N; i += 3) { a.set (i); m.b[i] = 1; }
	setrange (a, m, f, l, p); mc_step(); mc_eval();
	for (size_t i = 0; i < N; ++i) MC_CHECK (a.test (i) == m.b[i], "bitset<%zu> background %d set (%zu,%zu) pattern %d: bit %zu is %d", N, bg, f, l, p, i, a.test (i));
	MC_CHECK (a.at (f, l) == m.range (f, l), "bitset<%zu> background %d at (%zu,%zu) is %x", N, bg, f, l, a.at (f, l));
    }
    mc_state (N);
}
MC_SCENARIO (all_ranges, 5) { switch (shard) { case 0: ranges<31>(); break; case 1: ranges<64>(); break; case 2: ranges<70>(); break; case 3: ranges<32>(); break; case 4: ranges<1>(); break; } }
// every single bit of every size
template <size_t N> struct Sizes { static void run (void) { Sizes<N-1>::run();
    for (size_t i = 0; i < N; ++i) { bitset<N> a; BM<N> m; a.set (i); m.b[i] = 1; check (a, m, i+1 == N); bitset<N> c (a); a.flip (i); m.b[i] = 0; check (a, m, false); MC_CHECK (a != c, "bitset<%zu> without bit %zu", N, i); mc_step(); }
    mc_eval(); mc_state (N*1000); } };
template <> struct Sizes<0> { static void run (void) {} };
MC_SCENARIO (all_sizes, 1) { Sizes<100>::run(); }
// sets of more bits than 8 and 16 bits count
template <size_t N> static void longset (void)
{
    static bitset<N> a, b; a.reset(); b.reset(); MC_CHECK (!a.any() && a.none() && !a.count() && a.size() == N && a.capacity() >= N, "an empty bitset<%zu>", N);
    a.set(); MC_CHECK (a.any() && a.count() == N, "a full bitset<%zu> counts %zu", N, a.count()); a.flip(); MC_CHECK (a.none() && !a.count(), "a flipped full bitset<%zu>", N); a.flip(); { string f = a.to_string(); MC_CHECK (f.size() == N && f.find ('0') == string::npos, "text of a full bitset<%zu>", N); } a.reset();
    for (size_t p : { size_t(0), size_t(31), size_t(255), size_t(256), size_t(257), size_t(65535), size_t(65536), size_t(65537), N-2, N-1 }) {
	if (p >= N) continue; mc_at ("bit %zu of %zu", p, N);
	a.set (p); MC_CHECK (a.test (p) && a[p] && a.at (p) && a.count() == 1 && a.any() && a != b && !(a == b), "bitset<%zu> with bit %zu", N, p); string s = a.to_string(); MC_CHECK (s.size() == N && s.find ('1') == N-1-p && s.rfind ('1') == N-1-p, "text of bitset<%zu> with bit %zu has it at %zu", N, p, size_t(s.find ('1')));
	bitset<N> c (s); MC_CHECK (c == a, "bitset<%zu> with bit %zu from text", N, p); for (size_t q : { p-256, p-65536, p-1, p+1, p+256, p+65536 }) if (q < N) MC_CHECK (!a.test (q) && !a[q] && !a.at (q), "bit %zu of bitset<%zu> with bit %zu", q, N, p);
	b = a; MC_CHECK (b == a && (a & b) == a && (a | b) == a && (a ^ b).none() && (~a).count() == N-1 && !(~a).test (p), "operators of bitset<%zu> with bit %zu", N, p); const size_t w = p/32*32, e = w+32 < N ? w+32 : N; MC_CHECK (a.at (w, e) == 1u << (p-w), "range of bitset<%zu> with bit %zu", N, p);
	a.flip (p); MC_CHECK (a.none(), "bit %zu flipped", p); a.set (w, e, 1u << (p-w)); MC_CHECK (a == b, "range set in bitset<%zu> at %zu", N, p); a.reset (p); MC_CHECK (a.none() && a != b, "bit %zu reset", p); b.reset(); mc_step();
    }
    mc_state (mc_mix (N, 1)); mc_eval();
}
MC_SCENARIO (long_sets, 9) { switch (shard) { case 0: longset<256>(); break; case 1: longset<288>(); break; case 2: longset<320>(); break; case 3: longset<544>(); break; case 4: longset<8224>(); break; case 5: longset<65536>(); break; case 6: longset<65568>(); break; case 7: longset<70016>(); break; case 8: longset<2097216>(); break; } }
