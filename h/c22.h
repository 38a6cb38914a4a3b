// C22: tuples, arrays, matrices and the packed operations on them against one element at a time.
#ifndef C22_H
#define C22_H
#include <ustl/ustl.h>
#include <stdio.h>
#include <string.h>
#include "mc.h"
using namespace ustl;
#include <math.h>
#include <float.h>
typedef __int128 W;
#define NOINL __attribute__((noinline,noclone))
//{{{ types and values
template <typename T> struct TI { enum { FLT = 0, SGN = T(-1) < T(0), BITS = sizeof(T)*8 };
    static W lo (void) { return SGN ? -(W(1) << (BITS-1)) : 0; } static W hi (void) { return (W(1) << (BITS-SGN))-1; }
    static bool fits (W v) { return v >= lo() && v <= hi(); } };
template <> struct TI<float> { enum { FLT = 1, SGN = 1, BITS = 32 }; };
template <> struct TI<double> { enum { FLT = 1, SGN = 1, BITS = 64 }; };
template <typename T> struct Vals { T v[300]; int n;
    Vals (void) : n (0) {
	if (sizeof(T) == 1) { for (int i = 0; i < 256; ++i) v[n++] = T(i); return; }
	const W l = TI<T>::lo(), h = TI<T>::hi(); const W q[] = { 0, 1, 2, 3, 7, h, h-1, h/2, h/2+1, l, l+1, l/2, W(-1), W(-2), W(-3), W(-100), 255, 256, 1000 };
	for (W x : q) if (TI<T>::fits (x)) { bool d = false; for (int i = 0; i < n; ++i) d |= v[i] == T(x); if (!d) v[n++] = T(x); }
    } };
template <> struct Vals<float> { float v[20]; int n; Vals (void) : n (0) { for (float x : { 0.f, 1.f, 2.f, -1.f, 0.5f, 3.f, -2.5f, 1e10f, -1e10f, 1e-10f, 16777215.f, 1.f/3, FLT_MAX, -FLT_MAX, FLT_MIN }) v[n++] = x; } };
template <> struct Vals<double> { double v[20]; int n; Vals (void) : n (0) { for (double x : { 0., 1., 2., -1., 0.5, 3., -2.5, 1e100, -1e100, 1e-100, 16777217., 1./3, DBL_MAX, -DBL_MAX, DBL_MIN }) v[n++] = x; } };
template <typename T> static const Vals<T>& vals (void) { static Vals<T> s; return s; }
template <typename T> static const char* tn (void) { return TI<T>::FLT ? (sizeof(T) == 4 ? "float" : "double") : TI<T>::SGN ? (sizeof(T) == 1 ? "int8" : sizeof(T) == 2 ? "int16" : sizeof(T) == 4 ? "int32" : "int64") : (sizeof(T) == 1 ? "uint8" : sizeof(T) == 2 ? "uint16" : sizeof(T) == 4 ? "uint32" : "uint64"); }
template <typename T> static bool same (T a, T b) { return !memcmp (&a, &b, sizeof(T)) || a == b; }
template <typename T> static double D (T v) { return double (v); }
// a container between guards
template <typename C> struct Fenced { uint8_t pre[64]; C c; uint8_t post[64]; Fenced (void) { memset (pre, 0xA5, 64); memset (post, 0xA5, 64); }
    template <typename A> Fenced (const A& a) : c (a) { memset (pre, 0xA5, 64); memset (post, 0xA5, 64); }
    void check (const char* w) const { for (int i = 0; i < 64; ++i) MC_CHECK (pre[i] == 0xA5 && post[i] == 0xA5, "%s writes outside of the container", w); } };
//}}}
//{{{ the operation on one pair of elements
enum { ADD, SUB, MUL, DIV, AND, OR, XOR, SHL, SHR, ADDS, SUBS, MIN, MAX, AVG, NOPS };
static const char* const ON[] = { "padd","psub","pmul","pdiv","pand","por","pxor","pshl","pshr","padds","psubs","pmin","pmax","pavg" };
template <typename T> static bool ref (int op, T a, T b, T& r, ...)	// false if not defined
{
    const W x = a, y = b; W z; typedef TI<T> I;
    switch (op) {
	case ADD: z = x+y; break; case SUB: z = x-y; break; case MUL: z = x*y; break;
	case DIV: if (!y) return false; z = x/y; break;
	case AND: r = T(a & b); return true; case OR: r = T(a | b); return true; case XOR: r = T(a ^ b); return true;
	case SHL: if (y < 0 || y >= I::BITS || x < 0) return false; r = T(x << int(y)); return I::SGN ? I::fits (x << int(y)) : true;
	case SHR: if (y < 0 || y >= I::BITS || x < 0) return false; z = x >> int(y); break;
	case ADDS: z = x+y; r = T(z > I::hi() ? I::hi() : z < I::lo() ? I::lo() : z); return true;
	case SUBS: z = x-y; r = T(z > I::hi() ? I::hi() : z < I::lo() ? I::lo() : z); return true;
	case MIN: z = x < y ? x : y; break; case MAX: z = x > y ? x : y; break;
	case AVG: z = (x+y+1) >> 1; break;
	default: return false;
    }
    if (!I::fits (z) && I::SGN && I::BITS >= 32) return false;	// the language leaves it undefined
    r = T(z); return true;
}
template <typename T> static bool reff (int op, T a, T b, T& r)
{
    volatile T x = a, y = b;
    switch (op) {
	case ADD: r = x+y; return true; case SUB: r = x-y; return true; case MUL: r = x*y; return true;
	case DIV: if (y == 0) return false; r = x/y; return true;
	case MIN: r = x < y ? x : y; return true; case MAX: r = x > y ? x : y; return true;
	case AVG: r = (x+y)/2; return true;
	case ADDS: case SUBS: { T s = op == ADDS ? x+y : x-y, h = sizeof(T) == 4 ? T(FLT_MAX) : T(DBL_MAX); r = s > h ? h : s < -h ? -h : s; } return true;
    }
    return false;
}
static bool ref (int op, float a, float b, float& r) { return reff (op, a, b, r); }
static bool ref (int op, double a, double b, double& r) { return reff (op, a, b, r); }
template <typename T> static bool all (int o, const T* a, const T* b, T* r, size_t n) { for (size_t i = 0; i < n; ++i) if (!ref (o, a[i], b[i], r[i])) return false; return true; }
template <typename T> static T small (int k) { static const int v[] = { 3, 1, 100, -2, 7, 0 }; return T(v[k]); }
//}}}
#endif
