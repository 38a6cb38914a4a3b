// Serialized types and the enumeration of their values, for C10 and C11.
#ifndef STREAMS_H
#define STREAMS_H
#include "u.h"
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef unsigned long u64; typedef int8_t i8; typedef int16_t i16;
enum Color { RED, GREEN = 7, BLUE = 0x7fffffff };
struct Rec { u32 a; u16 b; bool operator== (const Rec& r) const { return a == r.a && b == r.b; } bool operator< (const Rec& r) const { return a < r.a; } };
struct Obj { u32 a; string s; Obj (void) : a (0), s() {}
    void read (istream& is) { is >> a >> s; is.align (4); }
    void write (ostream& os) const { os << a << s; os.align (4); }
    streamsize stream_size (void) const { return Align (stream_size_of(a) + stream_size_of(s), 4); }
    bool operator== (const Obj& o) const { return a == o.a && s == o.s; } };
CAST_STREAMABLE (Color, uint32_t)
INTEGRAL_STREAMABLE (Rec)
static int gcount_max = 2;	// elements in generated containers
static bool gwide;		// all scalar values
template <typename T> static T pick (T* v, int n) { return v[mc_choose (gwide ? n : 2)]; }
#define PICK(T, ...) static void gen (T& v) { static T a[] = { __VA_ARGS__ }; v = pick (a, sizeof(a)/sizeof(a[0])); }
PICK (u8, 0x81, 0, 1, 0xff)
PICK (char, 'a', 0, '\n', char(0xe9))
PICK (i8, -1, 127, -128, 0)
PICK (bool, true, false)
PICK (u16, 0x8001, 0, 1, 0xffff, 0x1234)
PICK (short, -2, 0x7fff, 0)
PICK (u32, 0x80000001, 0, 0xffffffff, 0x12345678)
PICK (int, -2, 0x7fffffff, 0)
PICK (u64, 0x8000000000000001, 0, 0xffffffffffffffff, 0x123456789abcdef0)
PICK (long, -2, 0x7fffffffffffffff, 0)
PICK (long long, -2, 0x7fffffffffffffff, 0)
PICK (float, 1.5f, -0.0f, 3e38f, 1e-40f)
PICK (double, 1.5, -0.25, 1e308, 5e-324)
PICK (long double, 1.5L, -0.25L, 1e4000L)
PICK (wchar_t, L'a', 0x10ffff, 0)
PICK (void*, (void*) 0x7fff12345678, nullptr)
PICK (Color, BLUE, GREEN, RED)
static void gen (Rec& v) { memset (&v, 0, sizeof(v)); gen (v.a); gen (v.b); }
static void gen (string& v) { int n = mc_choose (gcount_max+1); v.clear(); for (int i = 0; i < n; ++i) v += char(i ? 0xc1 : '\0'); }
static void gen (Obj& v) { gen (v.a); gen (v.s); }
static void gen (memblock& v) { int n = mc_choose (gcount_max+3); v.resize (n); for (int i = 0; i < n; ++i) v.data()[i] = 0x90+i; }
template <typename A, typename B> static void gen (pair<A,B>& v);
template <typename T> static void gen (vector<T>& v);
template <size_t N, typename T> static void gen (tuple<N,T>& v) { for (size_t i = 0; i < N; ++i) { T t; gen (t); v[i] = t; } }
template <size_t N, typename T> static void gen (array<T,N>& v) { for (size_t i = 0; i < N; ++i) { T t; gen (t); v[i] = t; } }
template <size_t N> static void gen (bitset<N>& v) { static u32 p[] = { 0xaaaaaaaa, 0, 0xffffffff, 1 }; u32 m = pick (p, 4); for (size_t i = 0; i < N; ++i) v.set (i, m>>(i%32) & 1); }
template <typename C> static void gen_c (C& v) { typename C::value_type e; int n = mc_choose (gcount_max+1); v.clear(); for (int i = 0; i < n; ++i) { gen (e); v.insert (e); } }
template <typename T> static void gen (set<T>& v) { gen_c (v); }
template <typename T> static void gen (multiset<T>& v) { gen_c (v); }
template <typename K, typename V> static void gen (map<K,V>& v) { gen_c (v); }
template <typename K, typename V> static void gen (multimap<K,V>& v) { gen_c (v); }
template <typename A, typename B> static void gen (pair<A,B>& v) { gen (v.first); gen (v.second); }
template <typename T> static void gen (vector<T>& v) { int n = mc_choose (gcount_max+1); v.clear(); for (int i = 0; i < n; ++i) { T e; gen (e); v.push_back (e); } }
// a value to read over
template <typename T> struct Dirty { static void make (T& v) { memset ((void*) &v, 0x5a, sizeof(v)); } };
template <> struct Dirty<bool> { static void make (bool& v) { v = true; } };
template <> struct Dirty<string> { static void make (string& v) { v = "previous contents"; } };
template <> struct Dirty<memblock> { static void make (memblock& v) { v.resize (21); } };
template <> struct Dirty<Obj> { static void make (Obj& v) { v.a = 5; v.s = "previous"; } };
template <typename T> struct Dirty<vector<T>> { static void make (vector<T>& v) { v.resize (5); for (int i = 0; i < 5; ++i) Dirty<T>::make (v[i]); } };
template <typename T> struct Dirty<set<T>> { static void make (set<T>& v) { v.insert (T()); } };
template <typename T> struct Dirty<multiset<T>> { static void make (multiset<T>& v) { v.insert (T()); v.insert (T()); } };
template <typename K, typename V> struct Dirty<map<K,V>> { static void make (map<K,V>& v) { v.insert (make_pair (K(), V())); } };
template <typename K, typename V> struct Dirty<multimap<K,V>> { static void make (multimap<K,V>& v) { v.insert (make_pair (K(), V())); v.insert (make_pair (K(), V())); } };
template <typename A, typename B> struct Dirty<pair<A,B>> { static void make (pair<A,B>& v) { Dirty<A>::make (v.first); Dirty<B>::make (v.second); } };
template <size_t N, typename T> struct Dirty<tuple<N,T>> { static void make (tuple<N,T>& v) { for (size_t i = 0; i < N; ++i) Dirty<T>::make (v[i]); } };
template <size_t N, typename T> struct Dirty<array<T,N>> { static void make (array<T,N>& v) { for (size_t i = 0; i < N; ++i) Dirty<T>::make (v[i]); } };
template <size_t N> struct Dirty<bitset<N>> { static void make (bitset<N>& v) { for (size_t i = 0; i < N; ++i) v.set (i, i%3==1); } };

typedef map<u8,string> map_bs; typedef map<u32,u16> map_is; typedef map<u64,int> map_li; typedef map<string,vector<u16>> map_sv; typedef map<int,map<u64,u8>> map_mm; typedef multimap<string,int> mmap_si; typedef multimap<u16,u8> mmap_sb;
typedef pair<u8,u32> p_bi; typedef pair<u32,u8> p_ib; typedef pair<u64,u8> p_lb; typedef pair<u8,u64> p_bl; typedef pair<string,u32> p_si; typedef pair<u8,string> p_bs; typedef pair<u8,pair<u8,u8>> p_bp; typedef pair<vector<u16>,u64> p_vl; typedef pair<u16,tuple<3,u8>> p_st; typedef pair<u8,pair<u16,string>> p_bps; typedef pair<u16,bitset<33>> p_sb;
typedef tuple<3,u8> t_b; typedef tuple<4,u16> t_s; typedef tuple<4,float> t_f; typedef tuple<2,double> t_d; typedef tuple<2,string> t_str; typedef tuple<2,p_ib> t_p;
typedef array<u8,3> a_b; typedef array<u32,2> a_i; typedef array<string,2> a_str; typedef array<u64,2> a_l; typedef array<vector<u8>,2> a_v;
typedef vector<pair<u64,u8>> v_plb; typedef vector<p_bi> v_pbi; typedef vector<p_bp> v_pbp; typedef vector<p_bs> v_pbs; typedef vector<p_bps> v_pbps; typedef vector<p_st> v_pst; typedef vector<p_sb> v_psb; typedef vector<vector<u8>> vv_b; typedef vector<vector<u64>> vv_l; typedef vector<set<u64>> vset_l; typedef vector<multiset<u16>> vms; typedef vector<map_li> vmap_l; typedef vector<mmap_si> vmm; typedef vector<vector<p_lb>> vv_p; typedef vector<vector<string>> vv_s; typedef vector<a_l> v_al; typedef vector<t_str> v_tstr; typedef vector<bitset<65>> v_bs; typedef vector<p_vl> v_pvl;
#define SCALARS(X) X(u8) X(char) X(i8) X(bool) X(u16) X(short) X(u32) X(int) X(u64) X(long) X(float) X(double) X(long double) X(wchar_t) X(void*) X(Color) X(Rec) X(t_b) X(t_s) X(t_f) X(t_d)
#define SIMPLE(X) X(string) X(memblock) X(Obj) X(bitset<1>) X(bitset<32>) X(bitset<33>) X(bitset<70>) X(a_b) X(a_i) X(a_l) X(a_str) X(t_str) X(t_p) X(a_v) \
  X(p_bi) X(p_ib) X(p_lb) X(p_bl) X(p_si) X(p_bs) X(p_bp) X(p_vl) X(p_st) X(p_bps) X(p_sb) \
  X(vector<u8>) X(vector<char>) X(vector<u16>) X(vector<u32>) X(vector<u64>) X(vector<bool>) X(vector<float>) X(vector<double>) X(vector<string>) X(vector<t_b>) X(vector<t_f>) X(vector<t_d>) X(vector<Rec>) X(vector<Color>) X(vector<Obj>) \
  X(set<u8>) X(set<u64>) X(set<string>) X(multiset<u16>)
#define NESTED(X) X(map_bs) X(map_is) X(map_li) X(map_sv) X(map_mm) X(mmap_si) X(mmap_sb) X(v_plb) X(v_pbi) X(v_pbp) X(v_pbs) X(v_pbps) X(v_pst) X(v_psb) X(vv_b) X(vv_l) X(vset_l) X(vms) X(vmap_l) X(vmm) X(vv_p) X(vv_s) X(v_al) X(v_tstr) X(v_bs) X(v_pvl)
#define ONE(t) +1
enum { NSCALAR = 0 SCALARS(ONE), NSIMPLE = 0 SIMPLE(ONE), NNESTED = 0 NESTED(ONE), NTYPES = NSCALAR+NSIMPLE+NNESTED };
#endif
