// C24: durations, times and clocks against exact rational arithmetic.
#include "c24.h"

//--- arithmetic -------------------------------------------------------------
template <typename D> static void arith (int depth, int shard)
{
    typedef typename D::rep R; typedef time_point<system_clock,D> TP;
    static const R W[] = { 0, 1, R(-1), 2, 7, R(-7), 60, 100, numeric_limits<R>::max(), numeric_limits<R>::min() };
    enum { NW = 10, NOP = 14 };
    D d (W[shard%NW]); i128 m = W[shard%NW];
    TP t (d);
    for (int s = 0; s < depth; ++s) {
	int op = s ? mc_choose (NOP) : shard/NW; i128 w = W[op < 8 ? mc_choose (NW) : 0], n = m; D wd = D (R(w));
	// domain: the exact result is representable
	switch (op) {
	    case 0: case 5: n = m+w; break; case 1: case 6: n = m-w; break; case 2: n = m*w; break;
	    case 3: case 7: if (!w) return; n = m/w; break; case 4: if (!w) return; n = m%w; break;
	    case 8: case 10: n = m+1; break; case 9: case 11: n = m-1; break; case 12: n = -m; break; case 13: break;
	}
	if (!fits<R> (n) || (op == 7 && !fits<R> (m%w)) || ((op == 3 || op == 4 || op == 7) && m == (i128) numeric_limits<R>::min() && w == -1)) return;
	mc_note ("%d: op %d with %s", s, op, s128(w));
	D o (d), r (d); bool ref = true;
	switch (op) {
	    case 0: r = d + wd; ref = &(d += wd) == &d; MC_CHECK (r == d, "+ and += differ"); t += wd; break;
	    case 1: r = d - wd; ref = &(d -= wd) == &d; MC_CHECK (r == d, "- and -= differ"); t -= wd; break;
	    case 2: ref = &(d *= R(w)) == &d; t = TP (d); break;
	    case 3: ref = &(d /= R(w)) == &d; t = TP (d); break;
	    case 4: ref = &(d %= R(w)) == &d; t = TP (d); break;
	    case 5: d = d + wd; t = t + wd; break;
	    case 6: { TP u (wd); MC_CHECK (t - u == D (R(m-w)), "time points %s and %s differ by %s", s128(m), s128(w), s128 ((t-u).count())); d = d - wd; t = t - wd; } break;
	    case 7: { D q (d); d %= wd; MC_CHECK ((i128) d.count() == m%w, "%% of durations is %s", s128 (d.count())); d = q; d /= R(w); t = TP (d); } break;
	    case 8: r = ++d; MC_CHECK (r == d, "++ returns another value"); t = TP (d); break;
	    case 9: r = --d; MC_CHECK (r == d, "-- returns another value"); t = TP (d); break;
	    case 10: r = d++; MC_CHECK (r == o, "postfix ++ returns the new value"); t = TP (d); break;
	    case 11: r = d--; MC_CHECK (r == o, "postfix -- returns the new value"); t = TP (d); break;
	    case 12: d = -d; t = TP (d); break;
	    case 13: d = +d; break;
	}
	m = n;
	MC_CHECK (ref, "operation %d does not return its object", op);
	MC_CHECK ((i128) d.count() == m, "operation %d with %s gives %s instead of %s", op, s128(w), s128(d.count()), s128(m));
	MC_CHECK ((i128) t.time_since_epoch().count() == m, "operation %d with %s gives the time point %s instead of %s", op, s128(w), s128(t.time_since_epoch().count()), s128(m));
	for (int i = 0; i < NW; ++i) {
	    D x (W[i]); TP y (x); i128 e = W[i];
	    MC_CHECK ((d == x) == (m == e) && (d < x) == (m < e) && (x < d) == (e < m) && (d != x) == (m != e) && (d > x) == (m > e) && (d <= x) == (m <= e) && (d >= x) == (m >= e), "%s and %s compare wrong", s128(m), s128(e));
	    MC_CHECK ((t == y) == (m == e) && (t < y) == (m < e) && (y < t) == (e < m) && (t != y) == (m != e) && (t > y) == (m > e) && (t <= y) == (m <= e) && (t >= y) == (m >= e), "time points %s and %s compare wrong", s128(m), s128(e));
	}
	mc_step(); mc_state (mc_mix ((uint64_t) m, sizeof(R)));
    }
    MC_CHECK (D::zero().count() == 0 && D::min().count() == numeric_limits<R>::min() && D::max().count() == numeric_limits<R>::max(), "zero, min or max");
    MC_CHECK (TP::zero().time_since_epoch() == D::zero() && TP::min().time_since_epoch() == D::min() && TP::max().time_since_epoch() == D::max(), "zero, min or max of a time point");
    char b[64]; ostream os (b, 64); d.write (os); t.write (os); MC_CHECK (os.pos() == 2*sizeof(R) && d.stream_size() == sizeof(R) && t.stream_size() == sizeof(R), "written size");
    D e (R(1)); TP u (e); istream is (b, os.pos()); e.read (is); u.read (is); MC_CHECK (e == d && u == t, "read back another value");
}
MC_SCENARIO (arith_ms, 140)	{ arith<milliseconds> (MC_TIER(2,3), shard); }
MC_SCENARIO (arith_i32, 140)	{ arith<duration<int,ratio<1,3> > > (MC_TIER(2,3), shard); }
MC_SCENARIO (arith_i8, 140)	{ arith<duration<int8_t,ratio<60> > > (MC_TIER(2,3), shard); }

// durations of different periods, of which one converts to the other
template <typename A, typename B> static void mixed (void)	// A is the finer one
{
    typedef typename A::period P; typedef typename B::period Q; const i128 k = (i128) Q::num*P::den/Q::den/P::num;
    for (int i = 0; i < NV; ++i) for (int j = 0; j < NV; ++j) {
	if (!fits<int64_t> (V[j]*k) || V[j] == numeric_limits<int64_t>::min()) continue;
	A a (V[i]); B b (V[j]); i128 x = V[i], y = V[j]*k;
	MC_CHECK ((a == b) == (x == y) && (a < b) == (x < y), "%s ticks of %lld/%lld and %s of %lld/%lld compare wrong", s128(x), (long long) P::num, (long long) P::den, s128(V[j]), (long long) Q::num, (long long) Q::den);
	if (fits<int64_t> (x+y)) { A c = a + b; MC_CHECK ((i128) c.count() == x+y, "sum is %s", s128 (c.count())); c = a; c += b; MC_CHECK ((i128) c.count() == x+y, "sum is %s", s128 (c.count())); }
	if (fits<int64_t> (x-y)) { A c = a - b; MC_CHECK ((i128) c.count() == x-y, "difference is %s", s128 (c.count())); c = a; c -= b; MC_CHECK ((i128) c.count() == x-y, "difference is %s", s128 (c.count()));
	    time_point<system_clock,A> ta (a); time_point<system_clock,B> tb (b); MC_CHECK ((i128)(ta - tb).count() == x-y, "difference of time points");
	    MC_CHECK ((ta == tb) == (x == y) && (ta < tb) == (x < y), "time points compare wrong");
	    time_point<system_clock,A> tc (tb); MC_CHECK ((i128) tc.time_since_epoch().count() == y, "converted time point"); }
	mc_step();
    }
}
MC_SCENARIO (mixed_periods, 8)
{
    switch (shard) {
	case 0: mixed<milliseconds,seconds>(); break; case 1: mixed<nanoseconds,microseconds>(); break; case 2: mixed<seconds,minutes>(); break; case 3: mixed<minutes,weeks>(); break;
	case 4: mixed<duration<intmax_t,ratio<1,6> >,duration<intmax_t,ratio<3,2> > >(); break; case 5: mixed<days,days>(); break; case 6: mixed<years,centuries>(); break; case 7: mixed<months,years>(); break;
    }
}
#define TXT(D,suf) { ostringstream os; D d (V[i]); d.text_write (os); char e[64]; sprintf (e, "%lld" suf, (long long) V[i]); text (e, os.str()); os << time_point<steady_clock,D> (d); char f[128]; sprintf (f, "%s%s", e, e); text (f, os.str()); }
MC_SCENARIO (texts, 1)
{
    for (int i = 0; i < NV; ++i) {
	mc_at ("value %d", i);
	TXT (nanoseconds,"_ns") TXT (microseconds,"_us") TXT (milliseconds,"_ms") TXT (seconds,"_s") TXT (minutes,"_min") TXT (hours,"_hours") TXT (days,"_days") TXT (weeks,"_weeks")
	TXT (years,"_years") TXT (months,"_months") TXT (centuries,"_centuries") TXT (millenia,"_millenia")
    }
}

//--- hrtime_t ---------------------------------------------------------------
enum { G = 1000000000 };
static const int64_t HS[] = { 0, 1, -1, 2, -2, 3, 59, 60, -60, 86400, 999999999, 1000000000, -1000000001, 1600000000, 9223372035, -9223372036, 4611686018427387903, -4611686018427387904 };
static const int HN[] = { 0, 1, 2, 499999999, 500000000, 500000001, 999999998, 999999999 };
static const int64_t HM[] = { 0, 1, -1, 2, -2, 3, 7, -10, 1000, 60000, 1000000000, -1000000000, 1000000001, 604800000000000, 31557600000000000 };
enum { NHS = 18, NHN = 8, NHM = 15 };
static i128 tot (const hrtime_t& t) { return (i128) t.tv_sec*G + t.tv_nsec; }
static bool hfits (i128 v) { i128 s = v >= 0 ? v/G : -((-v+G-1)/G); return s <= (i128) 4611686018427387904*2-2 && s >= -(i128) 4611686018427387904*2+2; }
static hrtime_t mkhr (i128 v) { i128 s = v >= 0 ? v/G : -((-v+G-1)/G); return hrtime_t (time_t(s), long (v-s*G)); }
static void hcheck (const hrtime_t& t, i128 e, const char* w)
{
    MC_CHECK (t.tv_nsec >= 0 && t.tv_nsec < G, "%s: %ld s %ld ns is not normalised", w, long(t.tv_sec), long(t.tv_nsec));
    MC_CHECK (tot (t) == e, "%s: %ld s %ld ns (%s ns) instead of %s ns", w, long(t.tv_sec), long(t.tv_nsec), s128 (tot (t)), s128 (e));
}
static void hquery (const hrtime_t& t, i128 m)
{
    if (fits<int64_t> (m)) { MC_CHECK ((i128)(intmax_t) t == m, "conversion to an integer of %s is %s", s128(m), s128((intmax_t) t)); if (m > numeric_limits<int64_t>::min()) hcheck (hrtime_t ((intmax_t) m), m, "made from an integer"); }
    long double e = (long double) m / G, d = (double) t, f = (float) t, ae = e < 0 ? -e : e;
    MC_CHECK (d-e <= ae*1e-15L+1e-15L && e-d <= ae*1e-15L+1e-15L, "conversion to double of %s is %.20Lg", s128(m), d);
    MC_CHECK (f-e <= ae*3e-7L+1e-7L && e-f <= ae*3e-7L+1e-7L, "conversion to float of %s is %.20Lg", s128(m), f);
    ostringstream os; t.text_write (os); char b[80]; i128 a = m < 0 ? -m : m; sprintf (b, "%s%s.%09lld", m < 0 ? "-" : "", s128 (a/G), (long long)(a%G)); text (b, os.str());
    char buf[32]; ostream o (buf, 32); t.write (o); MC_CHECK (o.pos() == t.stream_size(), "hrtime_t: stream_size"); hrtime_t r; istream is (buf, o.pos()); r.read (is); hcheck (r, m, "read back");
    for (int i = 0; i < 6; ++i) for (int j = 0; j < NHN; j += 3) {
	hrtime_t x (HS[i], HN[j]); i128 v = tot (x);
	MC_CHECK ((t == x) == (m == v) && (t < x) == (m < v) && (x < t) == (v < m) && (t != x) == (m != v) && (t > x) == (m > v) && (t <= x) == (m <= v) && (t >= x) == (m >= v), "%s and %s ns compare wrong", s128(m), s128(v));
    }
}
MC_SCENARIO (hrtime, NHS*NHN)
{
    hrtime_t t (HS[shard%NHS], HN[shard/NHS]); i128 m = tot (t);
    hquery (t, m);
    enum { NOP = 9 };
    int depth = MC_TIER (2,3);
    for (int s = 0; s < depth; ++s) {
	int op = mc_choose (NOP); i128 n = m, w = 0; hrtime_t o (t), x;
	if (op == 4 || op == 5) { x = hrtime_t (HS[mc_choose (s ? 6 : NHS)], HN[mc_choose (NHN)]); w = tot (x); }
	if (op == 6 || op == 7) w = HM[mc_choose (NHM)];
	switch (op) {
	    case 0: case 2: n = m+1; break; case 1: case 3: n = m-1; break; case 4: n = m+w; break; case 5: n = m-w; break;
	    case 6: { if (w > ((i128)1<<31)) { i128 am = m < 0 ? -m : m; if (am > ((i128)1<<90)/w) return; } n = m*w; } break;
	    case 7: if (!w || w > numeric_limits<int64_t>::max()/1000) return; n = rnd0 (m, w); break; case 8: n = -m; break;
	}
	if (!hfits (n)) return;
	mc_note ("%d: %s ns, op %d with %s", s, s128(m), op, s128(w));
	switch (op) {
	    case 0: { hrtime_t r = ++t; MC_CHECK (r == t, "++ returns another value"); } break;
	    case 1: { hrtime_t r = --t; MC_CHECK (r == t, "-- returns another value"); } break;
	    case 2: { hrtime_t r = t++; MC_CHECK (r == o, "postfix ++ returns the new value"); } break;
	    case 3: { hrtime_t r = t--; MC_CHECK (r == o, "postfix -- returns the new value"); } break;
	    case 4: t += x; MC_CHECK (o + x == t, "+ and += differ"); break;
	    case 5: t -= x; MC_CHECK (o - x == t, "- and -= differ"); break;
	    case 6: t *= (intmax_t) w; MC_CHECK (o * (intmax_t) w == t, "* and *= differ"); break;
	    case 7: t /= (intmax_t) w; MC_CHECK (o / (intmax_t) w == t, "/ and /= differ"); break;
	    case 8: t = -t; MC_CHECK (+t == t, "unary plus"); break;
	}
	static const char* const nm[] = { "++", "--", "++", "--", "+=", "-=", "*=", "/=", "unary -" };
	m = n; hcheck (t, m, nm[op]); hquery (t, m);
	mc_step(); mc_state (mc_mix ((uint64_t) m, (uint64_t)(m>>64)));
    }
    if (mc_want_sample()) mc_sample ("hrtime_t ending as %s ns", s128 (m));
}
MC_SCENARIO (hrtime_real, 1)	// from floating point
{
    static const double fr[] = { 0, 0.5, 0.25, 0.125, 0.875, 0.999999999, 1e-9, 1e-10, 1e-20, 0.0000000015 };
    static const int se[] = { 0, 1, 2, 59, 1000, 1000000, 1600000000 };
    for (int i = 0; i < 7; ++i) for (int j = 0; j < 10; ++j) for (int g = 0; g < 2; ++g) {
	double v = (se[i] + fr[j])*(g ? -1 : 1); hrtime_t t (v);
	mc_at ("%.20g", v);
	long double e = (long double) v * G, x = (long double) tot (t), d = e-x, tol = 1 + (e < 0 ? -e : e)*1e-15L;
	MC_CHECK (t.tv_nsec >= 0 && t.tv_nsec < G, "made from %.20g: %ld s %ld ns is not normalised", v, long(t.tv_sec), long(t.tv_nsec));
	MC_CHECK (d <= tol && -d <= tol, "made from %.20g: is %s ns", v, s128 (tot(t)));
	if (i < 5 && j < 5) { hrtime_t f (float(v), 0.f); (void) f; hrtime_t h ((float) v); hcheck (h, (i128) e, "made from a float"); hcheck (t, (i128) e, "made from a double"); }
	mc_step();
    }
}
template <typename To> static void hcast (const hrtime_t& t, i128 m)
{
    typedef high_resolution_clock::duration H; typedef typename To::period Q; typedef typename To::rep R;
    i128 num = Q::den, den = (i128) Q::num*G; H h (t);
    if (is_floating_point<R>::value) {
	To r = duration_cast<To> (h); long double e = (long double) m * num / den, g = (long double) r.count(), ae = e < 0 ? -e : e;
	MC_CHECK (g-e <= ae*1e-15L+1e-15L && e-g <= ae*1e-15L+1e-15L, "%s ns is %.20Lg of %s", s128(m), g, dname<To>());
    } else {
	if (m > ((i128)1<<100)/num || m < -((i128)1<<100)/num) return;
	i128 e = rnd0 (m*num, den);
	if (!fits<R> (e) || !fits<int64_t> ((m/G+1)*num) || !fits<int64_t> ((m/G-1)*num)) return;
	To r = duration_cast<To> (h);
	MC_CHECK ((i128) r.count() == e, "%s ns is %s of %s instead of %s", s128(m), s128 (r.count()), dname<To>(), s128 (e));
	// and back
	i128 b = (i128) r.count()*den/num;
	if (fits<int64_t> ((i128) r.count()*(den/gcd<int64_t>(den,num)))) { H k = duration_cast<H> (r); hcheck (k.count(), b, "converted back"); H l (r); hcheck (l.count(), b, "converted implicitly"); }
	time_point<high_resolution_clock,H> tp (h); time_point<high_resolution_clock,To> tt = time_point_cast<To> (tp); MC_CHECK (tt.time_since_epoch() == r, "time_point_cast differs");
    }
    mc_step();
}
MC_SCENARIO (hrtime_casts, NHS)
{
    for (int j = 0; j < NHN; ++j) {
	hrtime_t t (HS[shard], HN[j]); i128 m = tot (t);
	mc_at ("%s ns", s128 (m));
	hcast<nanoseconds> (t, m); hcast<microseconds> (t, m); hcast<milliseconds> (t, m); hcast<seconds> (t, m); hcast<minutes> (t, m); hcast<hours> (t, m); hcast<days> (t, m); hcast<weeks> (t, m); hcast<years> (t, m);
	hcast<duration<int> > (t, m); hcast<duration<int8_t,ratio<60> > > (t, m); hcast<duration<int8_t,ratio<604800> > > (t, m); hcast<duration<intmax_t,centi> > (t, m);
	hcast<duration<double> > (t, m); hcast<duration<double,milli> > (t, m); hcast<duration<double,ratio<60> > > (t, m);
	high_resolution_clock::duration h (t), k = duration_cast<high_resolution_clock::duration> (h); hcheck (k.count(), m, "cast to itself");
    }
    // from a floating point duration, whose ticks are the period
    typedef high_resolution_clock::duration H;
    static const double fv[] = { 0, 1, 0.5, 1.5, 2.25, -0.5, -3.75, 1000.125 };
    for (int j = 0; j < 8; ++j) {
	double v = fv[j] * (1+shard);
	hcheck (H (duration<double> (v)).count(), (i128)(v*G), "from seconds");
	hcheck (H (duration<double,milli> (v)).count(), (i128)(v*1000000), "from milliseconds");
	hcheck (H (duration<double,nano> (v*4)).count(), (i128)(v*4), "from nanoseconds");
	hcheck (H (duration<float,ratio<60> > (v)).count(), (i128)(v*60)*G + (i128)((v*60-(int)(v*60))*G), "from minutes");
	time_point<high_resolution_clock,H> tp (H (hrtime_t (5,0))); tp += duration<double> (v); hcheck (tp.time_since_epoch().count(), (i128)(v*G)+5*(i128)G, "a time point moved");
	mc_step();
    }
}
MC_SCENARIO (hrtime_limits, 1)
{
    typedef high_resolution_clock::duration H;
    hrtime_t a = H::min().count(), b = H::max().count(), z = H::zero().count();
    hcheck (z, 0, "zero");
    MC_CHECK (tot (a) == (i128) numeric_limits<time_t>::min()*G, "min is %s", s128 (tot (a)));
    MC_CHECK (tot (b) == (i128) numeric_limits<time_t>::max()*G + G-1, "max is %s", s128 (tot (b)));
    mc_step();
}

//--- clocks -----------------------------------------------------------------
static struct { int64_t s; int ns; } clk[2]; static int asked[2];
extern "C" int __wrap_clock_gettime (clockid_t id, struct timespec* t) { int k = id == CLOCK_MONOTONIC; if (!k && id != CLOCK_REALTIME) mc_fail ("clock %d is read", int(id)); ++asked[k]; t->tv_sec = clk[k].s; t->tv_nsec = clk[k].ns; return 0; }
extern "C" time_t __wrap_time (time_t* t) { ++asked[0]; if (t) *t = clk[0].s; return clk[0].s; }
MC_SCENARIO (clocks, 9)
{
    static const int64_t cs[] = { 0, 1, 2, 59, 1600000000, 2147483647, 2147483648, 4294967296, 9223372035 };
    for (int j = 0; j < NHN; ++j) for (int k = 0; k < 2; ++k) {
	clk[0].s = clk[1].s = cs[shard]; clk[0].ns = clk[1].ns = HN[j]; clk[1-k].s = 7; clk[1-k].ns = 77;
	i128 r = (i128) clk[0].s*G + clk[0].ns, m = (i128) clk[1].s*G + clk[1].ns;
	mc_at ("real %s monotonic %s", s128(r), s128(m));
	MC_CHECK (system_clock::now().time_since_epoch().count() == clk[0].s && system_clock::to_time_t (system_clock::now()) == clk[0].s, "system_clock::now");
	MC_CHECK (system_clock::from_time_t (cs[shard]).time_since_epoch().count() == cs[shard], "from_time_t");
	hcheck (high_resolution_clock::now().time_since_epoch().count(), r, "high_resolution_clock::now");
	MC_CHECK ((i128) steady_clock::now().time_since_epoch().count() == m, "steady_clock::now is %s instead of %s", s128 (steady_clock::now().time_since_epoch().count()), s128(m));
	MC_CHECK ((i128) system_clock_ns::now().time_since_epoch().count() == r && (i128) system_clock_us::now().time_since_epoch().count() == r/1000 && (i128) system_clock_ms::now().time_since_epoch().count() == r/1000000, "system_clock_ns, us or ms");
	// elapsed times across a carry
	auto s0 = steady_clock::now(); auto h0 = high_resolution_clock::now();
	for (int d = 0; d < 6; ++d) {
	    static const int64_t ds[] = { 0, 1, 499999999, 500000000, 999999999, 1000000001 };
	    for (int q = 0; q < 2; ++q) { int64_t n = clk[q].ns + ds[d]; clk[q].s += n/G; clk[q].ns = n%G; }
	    MC_CHECK ((steady_clock::now() - s0).count() == ds[d], "elapsed %lld ns", (long long)(steady_clock::now() - s0).count());
	    hcheck ((high_resolution_clock::now() - h0).count(), ds[d], "elapsed");
	    MC_CHECK (!(high_resolution_clock::now() < h0) && (high_resolution_clock::now() == h0) == !ds[d], "order of times");
	    for (int q = 0; q < 2; ++q) { i128 n = (i128) clk[q].s*G + clk[q].ns - ds[d]; clk[q].s = n/G; clk[q].ns = n%G; }
	    mc_step();
	}
	MC_CHECK (asked[0] > 0 && asked[1] > 0, "clocks are not read"); asked[0] = asked[1] = 0;
    }
    MC_CHECK (steady_clock::is_steady && !system_clock::is_steady && !high_resolution_clock::is_steady, "is_steady");
    mc_state (shard);
}

