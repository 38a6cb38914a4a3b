// C24: shared by its parts.
#ifndef C24_H
#define C24_H
#include <ustl/ustl.h>
#include <stdio.h>
#include <string.h>
#include "mc.h"
using namespace ustl;
using namespace ustl::chrono;
typedef __int128 i128;

static const char* s128 (i128 v)
{
    static char b[8][48]; static int k; char* p = b[k = (k+1)&7]+47; *p = 0; bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128) v : v;
    do *--p = '0'+int(u%10); while (u /= 10);
    if (n) *--p = '-'; return p;
}
static i128 rnd0 (i128 n, i128 d) { return n/d; }	// C truncates toward zero
template <typename T> static bool fits (i128 v) { return v >= (i128) numeric_limits<T>::min() && v <= (i128) numeric_limits<T>::max(); }
static const int64_t V[] = { 0,1,-1,2,-2,3,-3,4,5,-5,6,7,-7,8,11,12,13,23,24,25,29,30,31,47,48,59,-59,60,-60,61,-61,89,90,91,99,100,101,119,120,121,127,-128,128,149,150,167,168,169,255,256,364,365,366,
    999,-999,1000,-1000,1001,1023,1024,1439,1440,1441,1499,1500,-1500,3599,3600,3601,-3600,9999,10000,10079,10080,10081,32767,-32768,65535,86399,-86399,86400,86401,-86400,
    999999,1000000,-1000000,1000001,604799,604800,604801,2629799,2629800,2629801,3599999,3600000,31557599,31557600,31557601,-31557600,86399999,86400000,
    999999999,1000000000,-999999999,-1000000000,1000000001,1499999999,1500000000,2147483647,-2147483647-1,2147483648ll,4294967295ll,4294967296ll,3155759999ll,3155760000ll,31557599999ll,31557600000ll,
    59999999999ll,60000000000ll,-60000000000ll,3599999999999ll,3600000000000ll,86399999999999ll,86400000000000ll,9007199254740991ll,9007199254740993ll,604799999999999ll,604800000000000ll,31557599999999999ll,31557600000000000ll,
    1000000000000000000ll,-1000000000000000000ll,9223372036854775807ll,-9223372036854775807ll-1,4611686018427387904ll };
enum { NV = sizeof(V)/sizeof(V[0]) };

template <typename D> static const char* dname (void)
{
    static char b[64]; typedef typename D::rep R;
    snprintf (b, sizeof(b), "duration<%s%zu,%lld/%lld>", is_floating_point<R>::value ? "float" : "int", sizeof(R)*8, (long long) D::period::num, (long long) D::period::den);
    return b;
}
static void text (const char* e, const string& s) { MC_CHECK (s == e, "text is '%s' instead of '%s'", s.c_str(), e); mc_step(); }
#endif
