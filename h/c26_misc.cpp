// C26: scalar, angle, statistics, time, byte-order and other small utilities.
#include "reg.hpp"
#include <climits>
#include <complex>
#include <sys/stat.h>
using namespace vk;
typedef long double ld_t;
typedef __int128 i128;
static const ld_t PI2 = 2 * (ld_t)M_PI; // the library's period: the double 2*M_PI

static double dval(Rng &r) {
    switch (r.range(0, 7)) {
    case 0: return 0;
    case 1: return r.sgn() * r.logu(-300, 300);
    case 2: return r.sgn() * r.logu(-20, -1);
    case 3: return (double)r.range(-8, 8);
    case 4: return r.sgn() * M_PI * (double)r.range(0, 20) / 4;
    case 5: return std::nextafter(r.sgn() * M_PI * (double)r.range(0, 8) / 4, r.sgn() * 100);
    default: return r.uni(-20, 20);
    }
}
static double angle(Rng &r) {
    switch (r.range(0, 6)) {
    case 0: return 0;
    case 1: return r.sgn() * r.logu(-20, -1);
    case 2: return r.sgn() * M_PI * (double)r.range(0, 40) / 4;
    case 3: return std::nextafter(r.sgn() * M_PI * (double)r.range(0, 8) / 4, r.sgn() * 100);
    case 4: return r.sgn() * r.logu(0, 6);
    default: return r.uni(-20, 20);
    }
}
// distance of two reals on a circle of the given period
static double cdist(ld_t a, ld_t b, ld_t per) { return (double)fabsl(remainderl(remainderl(a, per) - remainderl(b, per), per)); }

template<class I> static I ival(Rng &r, bool nz) {
    const I lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
    for (;;) {
        I v;
        switch (r.range(0, 6)) {
        case 0: v = lo; break;
        case 1: v = hi; break;
        case 2: v = (I)(lo + (I)r.range(0, 3)); break;
        case 3: v = (I)(hi - (I)r.range(0, 3)); break;
        case 4: v = (I)r.range(-12, 12); break;
        case 5: v = (I)((I)r.u64() >> (int)r.range(0, (long)sizeof(I) * 8 - 2)); break;
        default: v = (I)r.u64();
        }
        if (!nz || v) return v;
    }
}
template<class I, class F> static void modcheck(Rng &r, F f, const char *nm) {
    I a = ival<I>(r, false), b = ival<I>(r, true);
    if (b == (I)-1 && a == std::numeric_limits<I>::min()) return; // a % b itself is not defined
    note("%s(%lld, %lld)", nm, (long long)a, (long long)b);
    i128 m = (i128)a % b; if (m != 0 && ((m < 0) != (b < 0))) m += b;
    I g = f(a, b);
    CHECK("imodulo", (i128)g == m, "%s(%lld,%lld) = %lld, expected %lld", nm, (long long)a, (long long)b, (long long)g, (long long)m);
    distinct(fnv(&a, sizeof a, fnv(&b, sizeof b)));
}

SECTION(scalars, 20000, 400000) {
    int k = (int)rng.range(0, 9);
    double a = dval(rng), b = rng.coin(.2) ? a : dval(rng), c = dval(rng);
    note("scalars %d: %.17g %.17g %.17g", k, a, b, c);
    distinct(fnv(&a, 8, fnv(&b, 8, (uint64_t)k)));
    switch (k) {
    case 0: {
        int ca = 0; auto once = [&](double v) { ca++; return v; };
        double mx = AA_MAX(once(a), b), mn = AA_MIN(once(a), b);
        CHECK("minmax", ca == 2 && mx == std::max(a, b) && mn == std::min(a, b), "AA_MAX/AA_MIN gave %g %g (%d evaluations)", mx, mn, ca);
        double s = aa_sign(a); CHECK("sign", s == (a > 0) - (a < 0), "sign %g", s);
        CHECK("sq", aa_fsq(a) == a * a, "fsq");
        break; }
    case 1: {
        double lo = std::min(b, c), hi = std::max(b, c), w = a < lo ? lo : a > hi ? hi : a;
        CHECK("clamp", aa_fclamp(a, lo, hi) == w, "fclamp(%g,%g,%g)=%g", a, lo, hi, aa_fclamp(a, lo, hi));
        double d = aa_fdeadzone(a, lo, hi, 77); CHECK("deadzone", d == ((lo < a && a < hi) ? 77 : a), "fdeadzone %g", d);
        double mag = fabs(b);
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
        double e = aa_clamp(a, mag);
#pragma GCC diagnostic pop
        CHECK("clamp", e == std::max(-mag, std::min(mag, a)), "clamp %g", e);
        size_t n = (size_t)rng.range(0, 9); Buf v(n); std::vector<double> o(n); for (size_t i = 0; i < n; i++) o[i] = v[i] = dval(rng);
        aa_vclamp(n, v, lo, hi);
        for (size_t i = 0; i < n; i++) CHECK("vclamp", v[i] == std::max(lo, std::min(hi, o[i])), "vclamp[%zu] of %zu: %g -> %g in [%g,%g]", i, n, o[i], v[i], lo, hi);
        break; }
    case 2: {
        static const std::vector<double> S = {NAN, INFINITY, -INFINITY, 0.0, -0.0, DBL_MIN, DBL_MAX, 4.9e-324, 1.0, -1e300};
        double v = rng.coin() ? rng.pick(S) : a;
        CHECK("isfok", !!aa_isfok(v) == (bool)std::isfinite(v), "isfok(%g)=%d", v, aa_isfok(v));
        double tol = rng.coin(.3) ? 0 : rng.logu(-12, 2);
        CHECK("feq", !!aa_feq(a, b, tol) == (fabs(a - b) <= tol), "feq");
        size_t n = (size_t)rng.range(0, 7); Buf x(n), y(n); bool eq = true; for (size_t i = 0; i < n; i++) { x[i] = dval(rng); y[i] = rng.coin(.8) ? x[i] : x[i] + tol * rng.uni(-3, 3); if (rng.coin(.03)) y[i] = NAN; eq = eq && fabs(x[i] - y[i]) <= tol; }
        CHECK("veq", !!aa_veq(n, x, y, tol) == eq, "veq of %zu elements gave %d", n, aa_veq(n, x, y, tol));
        break; }
    case 3: modcheck<int>(rng, [](int p, int q) { return aa_imodulo(p, q); }, "imodulo"); break;
    case 4: if (rng.coin()) modcheck<long>(rng, [](long p, long q) { return aa_lmodulo(p, q); }, "lmodulo"); else modcheck<int64_t>(rng, [](int64_t p, int64_t q) { return aa_imodulo64(p, q); }, "imodulo64");
        { int p = ival<int>(rng, false), q = ival<int>(rng, true); if (q != -1) CHECK("iremainder", aa_iremainder(p, q) == p % q, "iremainder"); }
        break;
    case 5: {
        double p = angle(rng), q = rng.coin() ? angle(rng) : (double)rng.range(-9, 9); if (q == 0) q = 1.5;
        if (fabs(p / q) > 1e12 || fabs(q) < 1e-12) break;
        note("fmodulo(%.17g, %.17g)", p, q);
        double m = aa_fmodulo(p, q);
        CHECK("fmodulo", (q > 0 ? m >= 0 && m < q : m <= 0 && m > q) , "fmodulo(%.17g,%.17g) = %.17g outside its interval", p, q, m);
        CHECK("fmodulo", cdist(m, p, q) <= 1e-15 * (fabs(q) + fabs(m)), "fmodulo(%.17g,%.17g) = %.17g not congruent", p, q, m);
        CHECK("fremainder", aa_fremainder(p, q) == fmod(p, q), "fremainder");
        break; }
    case 6: {
        double x = rng.uni(-10, 10), a0 = rng.uni(-10, 10), a1 = rng.uni(-10, 10), a2 = rng.uni(-10, 10);
        CLOSE("horner", aa_horner3(x, a0, a1, a2), (double)((ld_t)a0 + (ld_t)a1 * x + (ld_t)a2 * x * x), 1e-12 * (10 + fabs(x) * (10 + 10 * fabs(x))));
        double th = angle(rng), s, co; aa_sincos(th, &s, &co); CLOSE("sincos", s, (double)sinl((ld_t)th), 3e-16); CLOSE("sincos", co, (double)cosl((ld_t)th), 3e-16);
        CLOSE("deg", aa_ang_rad2deg(th), (double)((ld_t)th * 180 / M_PIl), 1e-15 * fabs(th) * 60); CLOSE("deg", aa_ang_deg2rad(th), (double)((ld_t)th * M_PIl / 180), 1e-15 * fabs(th));
        break; }
    case 7: {
        double th = angle(rng), ph = angle(rng); note("angles %.17g %.17g", th, ph);
        double p = aa_ang_norm_2pi(th), q = aa_ang_norm_pi(th), d = aa_ang_delta(th, ph);
        CHECK("norm2pi", p >= 0 && p < 2 * M_PI && cdist(p, th, PI2) <= 2e-15, "norm_2pi(%.17g) = %.17g", th, p);
        CHECK("normpi", fabs(q) <= M_PI && cdist(q, th, PI2) <= 1e-18, "norm_pi(%.17g) = %.17g", th, q);
        CHECK("delta", fabs(d) <= M_PI && cdist(d, remainderl(th, PI2) - remainderl(ph, PI2), PI2) <= 2e-15, "ang_delta(%.17g,%.17g) = %.17g", th, ph, d);
        break; }
    case 8: {
        size_t n = (size_t)rng.range(1, 12); Buf v(n); for (size_t i = 0; i < n; i++) v[i] = rng.coin(.3) && i ? v[rng.range(0, (long)i - 1)] : rng.coin(.2) ? (double)rng.range(-3, 3) : dval(rng);
        size_t lo = aa_fminloc(n, v), hi = aa_fmaxloc(n, v);
        bool ok = lo < n && hi < n; for (size_t i = 0; ok && i < n; i++) ok = v[lo] <= v[i] && v[hi] >= v[i];
        CHECK("loc", ok, "fminloc %zu fmaxloc %zu of %s", lo, hi, vstr(v, n).c_str());
        break; }
    case 9: {
        size_t n = (size_t)rng.range(0, 40); Buf v(n); aa_vrand(n, v);
        double lo = std::min(b, c), hi = std::max(b, c); if (hi - lo > 1e30) break;
        for (size_t i = 0; i < n; i++) CHECK("vrand", v[i] >= 0 && v[i] <= 1, "vrand %g", v[i]);
        double f = aa_frand(), g = aa_frand_minmax(lo, hi);
        CHECK("frand", f >= 0 && f <= 1 && g >= lo - 1e-15 * fabs(lo) && g <= hi + 1e-15 * (fabs(hi) + fabs(lo)), "frand %g, minmax(%g,%g) %g", f, lo, hi, g);
        if (n >= 4) { bool all = true; for (size_t i = 1; i < n; i++) all = all && v[i] == v[0]; CHECK("vrand", !all, "vrand gave %zu equal numbers", n); }
        break; }
    }
}

static struct timespec rts(Rng &r) {
    static const std::vector<long> ns = {0, 1, 999999999, 500000000, 999999, 1000000, 999, 1000};
    struct timespec t; t.tv_sec = r.coin(.3) ? r.range(-3, 3) : r.coin() ? r.range(-1000000, 1000000) : r.range(-4000000000L, 4000000000L);
    t.tv_nsec = r.coin() ? r.pick(ns) : r.range(0, 999999999); return t;
}
static i128 ns(struct timespec t) { return (i128)t.tv_sec * 1000000000 + t.tv_nsec; }
#define NORMAL(t) ((t).tv_nsec >= 0 && (t).tv_nsec < 1000000000)
SECTION(times, 20000, 400000) {
    struct timespec a = rts(rng), b = rng.coin(.2) ? a : rts(rng), c = rts(rng); if (rng.coin(.2)) b.tv_sec = a.tv_sec;
    note("times %ld.%09ld %ld.%09ld", (long)a.tv_sec, a.tv_nsec, (long)b.tv_sec, b.tv_nsec);
    distinct(fnv(&a, sizeof a, fnv(&b, sizeof b)));
    struct timespec m = aa_tm_make(a.tv_sec, b.tv_nsec); CHECK("make", m.tv_sec == a.tv_sec && m.tv_nsec == b.tv_nsec, "make");
    long raw = rng.coin(.3) ? rng.range(-3, 3) * 1000000000L + rng.range(-2, 2) : rng.coin(.1) ? (rng.coin() ? LONG_MIN + 5 : LONG_MAX - 5) : rng.range(-20000000000L, 20000000000L);
    struct timespec q = aa_tm_make_norm(a.tv_sec, raw); CHECK("norm", NORMAL(q) && ns(q) == (i128)a.tv_sec * 1000000000 + raw, "make_norm(%ld,%ld) = %ld,%ld", (long)a.tv_sec, raw, (long)q.tv_sec, q.tv_nsec);
    struct timespec s = aa_tm_add(a, b), d = aa_tm_sub(a, b);
    CHECK("add", NORMAL(s) && ns(s) == ns(a) + ns(b), "add gave %ld.%09ld", (long)s.tv_sec, s.tv_nsec);
    CHECK("sub", NORMAL(d) && ns(d) == ns(a) - ns(b), "sub gave %ld.%09ld", (long)d.tv_sec, d.tv_nsec);
    long e = aa_tm_cmp(a, b); int w = (ns(a) > ns(b)) - (ns(a) < ns(b)); CHECK("cmp", ((e > 0) - (e < 0)) == w, "cmp %ld", e);
    CHECK("minmax", ns(aa_tm_min(a, b)) == std::min(ns(a), ns(b)) && ns(aa_tm_max(a, b)) == std::max(ns(a), ns(b)), "tm_min/max");
    auto fl = [](i128 x, i128 y) { i128 z = x / y; if (x % y < 0) z--; return z; };
    CHECK("usec", aa_tm_timespec2usec(a) == (int64_t)fl(ns(a), 1000) && aa_tm_timespec2msec(a) == (int64_t)fl(ns(a), 1000000), "usec %lld msec %lld", (long long)aa_tm_timespec2usec(a), (long long)aa_tm_timespec2msec(a));
    double sec = aa_tm_timespec2sec(a); CHECK("sec", fabsl((ld_t)sec - (ld_t)ns(a) / 1e9L) <= 4e-16L * (1 + fabsl((ld_t)ns(a) / 1e9L)), "timespec2sec %.17g", sec);
    double x = rng.coin() ? rng.uni(-1e6, 1e6) : rng.sgn() * rng.logu(-10, 8); if (rng.coin(.2)) x = (double)rng.range(-1000, 1000) / 8;
    struct timespec y = aa_tm_sec2timespec(x); CHECK("sec2ts", NORMAL(y) && fabsl((ld_t)ns(y) - (ld_t)x * 1e9L) <= 1.0001L, "sec2timespec(%.17g) = %ld.%09ld", x, (long)y.tv_sec, y.tv_nsec);
    int bad = aa_valid_timespec(c, a, b); CHECK("valid_ts", (bad == 0) == (ns(c) >= ns(a) && ns(c) <= ns(b)), "valid_timespec %d", bad);
    if (rng.coin(.05)) {
        struct timespec n0 = aa_tm_now(), n1 = aa_tm_now(), r0 = {rng.range(0, 5), rng.range(0, 999999999)}; struct timespec f = aa_tm_future(r0); struct timespec n2 = aa_tm_now();
        CHECK("now", NORMAL(n0) && ns(n1) >= ns(n0) && ns(n2) >= ns(n1), "clock went back"); CHECK("future", NORMAL(f) && ns(f) >= ns(n1) + ns(r0) && ns(f) <= ns(n2) + ns(r0), "future");
        { FILE *old_err = stderr; char *txt = nullptr; size_t tn = 0; FILE *m = open_memstream(&txt, &tn); int v = (int)rng.range(-99, 99); struct timespec k0 = aa_tm_now(), el; stderr = m; aa_tick("v=%d %s", v, "z"); struct timespec k1 = aa_tm_now(); volatile double sink = 0; for (int k = 0; k < (int)rng.range(0, 3000); k++) sink = sink + k; struct timespec k2 = aa_tm_now(); el = aa_tock(); struct timespec k3 = aa_tm_now(); stderr = old_err; fclose(m);
          CHECK("tock", ns(el) >= ns(k2) - ns(k1) && ns(el) <= ns(k3) - ns(k0), "elapsed time %lld ns outside [%lld,%lld]", (long long)ns(el), (long long)(ns(k2) - ns(k1)), (long long)(ns(k3) - ns(k0)));
          char want[64]; snprintf(want, sizeof want, "v=%d z%.6f ms\n", v, (double)ns(el) / 1e6); CHECK("tock-text", !strcmp(txt, want), "printed '%s', expected '%s'", txt, want); free(txt); }
        struct timespec big = aa_tm_make(n2.tv_sec + 100, 0), old = n0; CHECK("isafter", !aa_tm_isafter(big) && (ns(aa_tm_now()) == ns(old) || aa_tm_isafter(old)), "isafter");
    }
}
// sleeping while interval-timer signals interrupt it
static volatile sig_atomic_t ticks;
static void tick(int) { ticks = ticks + 1; }
SECTION(sleeping, 40, 300) {
    struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = tick; sigaction(SIGALRM, &sa, &old);
    long us = rng.range(200, 3000); struct itimerval it = {{0, us}, {0, us}}, z = {{0, 0}, {0, 0}};
    struct timespec rel = {0, rng.range(0, 12000000)}; ticks = 0; note("sleep %ld ns, signal every %ld us", rel.tv_nsec, us);
    struct timespec t0 = aa_tm_now(); setitimer(ITIMER_REAL, &it, nullptr); int r = aa_tm_relsleep(rel); setitimer(ITIMER_REAL, &z, nullptr); struct timespec t1 = aa_tm_now();
    sigaction(SIGALRM, &old, nullptr);
    CHECK("relsleep", r == 0 && ns(t1) - ns(t0) >= ns(rel), "slept %lld of %ld ns", (long long)(ns(t1) - ns(t0)), rel.tv_nsec);
    if (ticks) count("interrupted_sleeps"); distinct((uint64_t)rel.tv_nsec);
}

// byte order: independent shift-based model
template<class T> static void bytes_le(T v, uint8_t *o) { uint64_t u = 0; memcpy(&u, &v, sizeof v); for (size_t i = 0; i < sizeof(T); i++) o[i] = (uint8_t)(u >> (8 * i)); }
#define ENDIAN(T, S) do { \
    uint64_t raw = rng.u64(); if (rng.coin(.2)) raw = ~0ull >> rng.range(0, 63); if (rng.coin(.2)) raw = 1ull << rng.range(0, 63); T v; memcpy(&v, &raw, sizeof v); \
    uint8_t le[8], be[8]; bytes_le(v, le); for (size_t i = 0; i < sizeof(T); i++) be[i] = le[sizeof(T) - 1 - i]; \
    size_t off = (size_t)rng.range(0, 7); uint8_t *buf = (uint8_t *)malloc(off + sizeof(T)); memset(buf, 0x5a, off + sizeof(T)); uint8_t *p = buf + off; \
    note("endian " #S " %016llx at offset %zu", (unsigned long long)raw, off); distinct(raw ^ fnv(#S, sizeof #S)); \
    aa_endconv_st_le_##S(p, v); CHECK("st_le_" #S, !memcmp(p, le, sizeof(T)), "st_le_" #S); T r = aa_endconv_ld_le_##S(p); CHECK("ld_le_" #S, !memcmp(&r, &v, sizeof(T)) && !memcmp(p, le, sizeof(T)), "ld_le_" #S); \
    aa_endconv_st_be_##S(p, v); CHECK("st_be_" #S, !memcmp(p, be, sizeof(T)), "st_be_" #S); r = aa_endconv_ld_be_##S(p); CHECK("ld_be_" #S, !memcmp(&r, &v, sizeof(T)) && !memcmp(p, be, sizeof(T)), "ld_be_" #S); \
    for (size_t i = 0; i < off; i++) CHECK("st_pad", buf[i] == 0x5a, "store wrote before its destination"); \
    free(buf); } while (0)
#define HCONV(T, S) do { ENDIAN(T, S); T v = (T)rng.u64(); uint8_t le[8], be[8], o[8]; bytes_le(v, le); for (size_t i = 0; i < sizeof(T); i++) be[i] = le[sizeof(T) - 1 - i]; \
    T r = aa_endconv_h_to_le_##S(v); memcpy(o, &r, sizeof r); CHECK("h_to_le_" #S, !memcmp(o, le, sizeof r), "h_to_le"); CHECK("le_to_h_" #S, aa_endconv_le_to_h_##S(r) == v, "le_to_h"); \
    r = aa_endconv_h_to_be_##S(v); memcpy(o, &r, sizeof r); CHECK("h_to_be_" #S, !memcmp(o, be, sizeof r), "h_to_be"); CHECK("be_to_h_" #S, aa_endconv_be_to_h_##S(r) == v, "be_to_h"); } while (0)
SECTION(endian, 20000, 300000) {
    switch (rng.range(0, 7)) {
    case 0: HCONV(int16_t, i16); break; case 1: HCONV(uint16_t, u16); break; case 2: HCONV(int32_t, i32); break; case 3: HCONV(uint32_t, u32); break;
    case 4: HCONV(int64_t, i64); break; case 5: HCONV(uint64_t, u64); break; case 6: ENDIAN(double, d); break; case 7: ENDIAN(float, s); break;
    }
}

SECTION(stats, 15000, 300000) {
    fresh_region(rng);
    size_t n = (size_t)rng.range(2, 40); double mu0 = rng.coin() ? 0 : rng.uni(-100, 100), sg = rng.logu(-3, 1);
    Buf x(n); for (size_t i = 0; i < n; i++) { x[i] = mu0 + sg * rng.gauss(); if (rng.coin(.08)) x[i] += rng.sgn() * sg * rng.uni(3, 20); }
    int k = (int)rng.range(0, 6); note("stats %d n=%zu mu=%g sigma=%g", k, n, mu0, sg); distinct(fnv(x.p, 8 * n, (uint64_t)k));
    double sc = fabs(mu0) + 20 * sg;
    ld_t m = 0; for (size_t i = 0; i < n; i++) m += x[i]; m /= (ld_t)n;
    ld_t s2 = 0; for (size_t i = 0; i < n; i++) s2 += (x[i] - m) * (x[i] - m);
    std::vector<double> keep(x.p, x.p + n);
    switch (k) {
    case 0: {
        double u1 = rng.coin(.2) ? 1 : rng.coin(.2) ? rng.logu(-300, -1) : 1 - rng.u01(), u2 = rng.coin(.2) ? (double)rng.range(0, 8) / 8 : rng.u01(), z1 = NAN, z2 = NAN;
        aa_stat_box_muller(u1, u2, &z1, &z2); ld_t r = sqrtl(-2 * logl((ld_t)u1)), t = 2 * M_PIl * u2;
        CLOSE("box_muller", z1, (double)(r * cosl(t)), 1e-14 * (1 + (double)r)); CLOSE("box_muller", z2, (double)(r * sinl(t)), 1e-14 * (1 + (double)r));
        double z = rng.uni(-5, 5); double X = aa_stat_z2x(z, mu0, sg); CLOSE("z2x", X, z * sg + mu0, 1e-13 * (1 + sc)); CLOSE("x2z", aa_stat_x2z(X, mu0, sg), z, 1e-12 * (1 + fabs(mu0) / sg)); break; }
    case 1: CLOSE("mean", aa_stat_mean(n, x), (double)m, 1e-14 * sc); CLOSE("std", aa_stat_std(n, x), (double)sqrtl(s2 / (ld_t)(n - 1)), 1e-10 * sg + 1e-13 * sc); break;
    case 2: case 3: {
        for (size_t i = 0; i < n; i++) x[i] = keep[i] = rng.coin() ? mu0 + 0.3 * rng.gauss() : mu0 + sg * rng.gauss() + PI2 * (double)rng.range(-2, 2);
        if (k == 3) { double base = rng.sgn() * M_PI; for (size_t i = 0; i < n; i++) x[i] = keep[i] = base + 0.5 * rng.gauss(); }
        ld_t S = 0, C = 0; for (size_t i = 0; i < n; i++) { S += sinl((ld_t)x[i]); C += cosl((ld_t)x[i]); }
        S /= (ld_t)n; C /= (ld_t)n; ld_t R = hypotl(S, C); if (R < 0.05L) break; // direction ill-determined
        double gm = aa_stat_circ_mean(n, x), gs = aa_stat_circ_std(n, x);
        CHECK("circ_mean", fabs(gm) <= M_PI && cdist(gm, atan2l(S, C), 2 * M_PIl) <= 1e-12, "circ_mean %.17g, expected %.17g", gm, (double)atan2l(S, C));
        ld_t ws = R < 1 ? sqrtl(-2 * logl(R)) : 0; if (ws > 1e-3L) CLOSE("circ_std", gs, (double)ws, 1e-9);
        break; }
    case 4: case 5: {
        bool circ = k == 5; if (circ) { double base = rng.uni(-4, 4); for (size_t i = 0; i < n; i++) { x[i] = keep[i] = base + 0.2 * rng.gauss() + (rng.coin(.1) ? rng.uni(-1.2, 1.2) : 0); if (rng.coin(.3)) x[i] = keep[i] = x[i] + 2 * M_PI * (double)rng.range(-1, 1); } }
        double zlo = -rng.uni(1, 4), zhi = rng.uni(1, 4); size_t maxit = (size_t)rng.range(1, 8);
        // reference iteration; skipped when a sample is too close to a bound to call
        auto stats = [&](const std::vector<ld_t> &v, ld_t &mm, ld_t &ss, ld_t about, bool first) {
            if (circ) { ld_t S = 0, C = 0; for (auto t : v) { S += sinl(t); C += cosl(t); } S /= (ld_t)v.size(); C /= (ld_t)v.size(); mm = atan2l(S, C); ss = sqrtl(-2 * logl(std::min((ld_t)1, hypotl(S, C)))); }
            else { mm = 0; for (auto t : v) mm += t; mm /= (ld_t)v.size(); ld_t q = 0; ld_t ab = first ? mm : about; for (auto t : v) q += (t - ab) * (t - ab); ss = sqrtl(q / (ld_t)(v.size() - 1)); } };
        std::vector<ld_t> in(x.p, x.p + n); ld_t mm, ss; stats(in, mm, ss, 0, true); size_t last = 0; bool ok = true;
        for (size_t it = 0;;) {
            std::vector<ld_t> sel; for (size_t i = 0; i < n; i++) { ld_t dx = circ ? remainderl(x[i] - mm, 2 * M_PIl) : x[i] - mm; if (fabsl(dx - zlo * ss) < 1e-7L * (1 + sc) || fabsl(dx - zhi * ss) < 1e-7L * (1 + sc)) ok = false; if (circ && fabsl(dx) > 3.14L) ok = false; if (dx >= zlo * ss && dx <= zhi * ss) sel.push_back(x[i]); }
            if (sel.size() < 2) ok = false; if (!ok) break;
            stats(sel, mm, ss, mm, false);
            if (last == sel.size()) break; last = sel.size(); if (++it >= maxit) break;
        }
        if (!ok) { count("excluded_ties"); break; }
        double gm = NAN, gs = NAN; size_t it = circ ? aa_stat_excluded_circ_mean_std(n, x, &gm, &gs, zlo, zhi, maxit) : aa_stat_excluded_mean_std(n, x, &gm, &gs, zlo, zhi, maxit);
        CHECK("excluded_iter", it <= maxit, "%zu iterations of at most %zu", it, maxit);
        if (circ) CHECK("excluded_circ", cdist(gm, mm, 2 * M_PIl) <= 1e-10 && (ss < 1e-3L || fabsl(gs - ss) <= 1e-8L), "excluded circular mean %.12g std %.12g, expected %.12g %.12g", gm, gs, (double)mm, (double)ss);
        else CHECK("excluded", fabsl(gm - mm) <= 1e-11L * sc && fabsl(gs - ss) <= 1e-9L * sg + 1e-11L * sc, "excluded mean %.12g std %.12g, expected %.12g %.12g", gm, gs, (double)mm, (double)ss);
        break; }
    case 6: {
        size_t d = (size_t)rng.range(1, 5); Buf X(d * n), mu(d), E(d * d); for (size_t i = 0; i < d * n; i++) X[i] = rng.uni(-3, 3);
        if (rng.coin()) { LIB(aa_stat_vmean(d, n, X, mu)); for (size_t i = 0; i < d; i++) { ld_t a = 0; for (size_t j = 0; j < n; j++) a += X[j * d + i]; CLOSE("vmean", mu[i], (double)(a / (ld_t)n), 1e-13); } }
        else { LIB(aa_stat_vmean_cov(d, n, X, mu, E));
            std::vector<ld_t> M(d, 0); for (size_t i = 0; i < d; i++) { for (size_t j = 0; j < n; j++) M[i] += X[j * d + i]; M[i] /= (ld_t)n; CLOSE("vmean_cov", mu[i], (double)M[i], 1e-13); }
            for (size_t a = 0; a < d; a++) for (size_t b = 0; b < d; b++) { ld_t c = 0; for (size_t j = 0; j < n; j++) c += (X[j * d + a] - M[a]) * (X[j * d + b] - M[b]); CLOSE("vmean_cov", E[b * d + a], (double)(c / (ld_t)(n - 1)), 1e-12); } }
        // Mahalanobis distance with a random positive definite metric
        Buf L(d * d), Q(d * d), y(d), c(d); for (size_t i = 0; i < d * d; i++) L[i] = rng.uni(-1, 1); for (size_t i = 0; i < d; i++) { y[i] = rng.uni(-3, 3); c[i] = rng.uni(-3, 3); }
        for (size_t a = 0; a < d; a++) for (size_t b = 0; b < d; b++) { double s = a == b ? .5 : 0; for (size_t q = 0; q < d; q++) s += L[q * d + a] * L[q * d + b]; Q[b * d + a] = s; }
        ld_t s = 0; for (size_t a = 0; a < d; a++) for (size_t b = 0; b < d; b++) s += ((ld_t)y[a] - c[a]) * Q[b * d + a] * ((ld_t)y[b] - c[b]);
        double g; LIB(g = aa_stat_mahalanobis(d, y, c, Q)); CLOSE("mahalanobis", g, (double)sqrtl(s), 1e-12 * (1 + (double)sqrtl(s)));
        break; }
    }
    CHECK("samples", k == 0 || !memcmp(keep.data(), x.p, 8 * n), "the samples were modified");
}

SECTION(planar_ik, 15000, 300000) {
    Buf l(2), x(2), ta(2), tb(2); l[0] = rng.coin(.3) ? 1 : rng.uni(.2, 3); l[1] = rng.coin(.3) ? l[0] : rng.uni(.2, 3);
    ld_t r, phi = rng.coin(.4) ? M_PIl * (ld_t)rng.range(-4, 4) / 4 : (ld_t)rng.uni(-3.2, 3.2);
    double lo = fabs(l[0] - l[1]), hi = l[0] + l[1]; int reg = (int)rng.range(0, 3);
    if (reg == 0) r = hi + rng.logu(-2, 1); else if (reg == 1 && lo > .1) r = std::max(0.0, lo - rng.uni(.05, 1)); else { r = lo + (hi - lo) * rng.uni(.02, .98); reg = 2; }
    x[0] = (double)(r * cosl(phi)); x[1] = (double)(r * sinl(phi));
    if (rng.coin(.15)) { x[1] = 0; x[0] = rng.sgn() * (double)r; } else if (rng.coin(.1)) { x[0] = 0; x[1] = rng.sgn() * (double)r; }
    if (hypot(x[0], x[1]) < .05) return;
    note("planar l=(%.6g,%.6g) x=(%.17g,%.17g) regime %d", l[0], l[1], x[0], x[1], reg); distinct(fnv(x.p, 16, fnv(l.p, 16)));
    std::vector<double> kl(l.p, l.p + 2), kx(x.p, x.p + 2);
    int rc = aa_kin_planar2_ik_theta2(l, x, ta, tb);
    auto err = [&](double *t) { return (double)hypotl((ld_t)l[0] * cosl((ld_t)t[0]) + (ld_t)l[1] * cosl((ld_t)t[1]) - x[0], (ld_t)l[0] * sinl((ld_t)t[0]) + (ld_t)l[1] * sinl((ld_t)t[1]) - x[1]); };
    if (reg == 2) {
        CHECK("planar", rc == 0, "reachable target at distance %Lg of links (%g,%g) reported as unreachable", r, l[0], l[1]);
        if (rc == 0) { CHECK("planar", err(ta) <= 1e-6 && err(tb) <= 1e-6, "solutions miss the target by %g and %g", err(ta), err(tb));
            double da = cdist(ta[0], tb[0], PI2), db = cdist(ta[1], tb[1], PI2); CHECK("planar_two", da + db > 1e-3, "both solutions are the same"); }
    } else { CHECK("planar", rc != 0, "unreachable target at distance %Lg (reach %g..%g) reported as solved", r, lo, hi); count("planar_unreachable"); }
    CHECK("planar_in", !memcmp(kl.data(), l.p, 16) && !memcmp(kx.data(), x.p, 16), "inputs changed");
}

SECTION(validity, 8000, 100000) {
    auto val = [&]() { return rng.coin(.05) ? (double)NAN : rng.coin(.05) ? rng.sgn() * INFINITY : rng.coin() ? (double)rng.range(-2, 2) : rng.uni(-2, 2); };
    double v = val(), lo = (double)rng.range(-2, 1), hi = lo + (double)rng.range(0, 2);
    CHECK("valid_f", (aa_valid_f(v, lo, hi) == 0) == (v >= lo && v <= hi), "valid_f(%g,%g,%g)", v, lo, hi);
    size_t n = (size_t)rng.range(0, 8), want = rng.coin(.9) ? n : n + 1; Buf x(n), mn(n), mx(n); for (size_t i = 0; i < n; i++) { x[i] = rng.coin(.7) ? .5 : val(); mn[i] = (double)rng.range(-2, 0); mx[i] = mn[i] + (double)rng.range(0, 4); }
    double *pm = rng.coin(.8) ? mn.p : nullptr, *px = rng.coin(.8) ? mx.p : nullptr; note("valid_v n=%zu want=%zu %s", n, want, vstr(x, n).c_str()); distinct(fnv(x.p, 8 * n));
    int rc = aa_valid_v(x, n, pm, px, want), w = 0; if (n != want) w = -1; else for (size_t i = 0; i < n && !w; i++) if ((pm && !(x[i] >= pm[i])) || (px && !(x[i] <= px[i]))) w = (int)i + 1;
    CHECK("valid_v", (w < 0 && rc < 0) || (w >= 0 && rc == w), "valid_v gave %d, expected %d", rc, w);
    Buf u(n); double nn = 0; for (size_t i = 0; i < n; i++) { u[i] = rng.gauss(); nn += u[i] * u[i]; } nn = sqrt(nn);
    if (n) { double sc = rng.coin() ? 1 : 1 + rng.sgn() * rng.logu(-6, 0); for (size_t i = 0; i < n; i++) u[i] *= sc / nn; double tol = rng.logu(-8, -1); ld_t q = 0; for (size_t i = 0; i < n; i++) q += (ld_t)u[i] * u[i]; q = fabsl(sqrtl(q) - 1);
        if (fabsl(q - tol) > 1e-12L) CHECK("valid_vunit", (aa_valid_vunit(u, n, tol) == 0) == (q <= tol), "valid_vunit: norm off by %Lg, tolerance %g", q, tol); }
    // colours
    double rgb[3], hsv[3]; for (auto &c : rgb) c = rng.coin(.4) ? (double)rng.range(0, 4) / 4 : rng.u01(); if (rng.coin(.1)) rgb[0] = rgb[1] = rgb[2];
    aa_cv_rgb2hsv(rgb, hsv); ld_t al = (2 * (ld_t)rgb[0] - rgb[1] - rgb[2]) / 2, be = sqrtl(3) / 2 * ((ld_t)rgb[1] - rgb[2]), ch = hypotl(al, be), mxv = std::max({rgb[0], rgb[1], rgb[2]});
    CHECK("hsv_v", hsv[2] == (double)mxv, "value %g of (%g %g %g)", hsv[2], rgb[0], rgb[1], rgb[2]);
    CHECK("hsv_s", mxv > 0 ? fabsl(hsv[1] - ch / mxv) <= 1e-14L : hsv[1] == 0, "saturation %g, expected %Lg", hsv[1], mxv > 0 ? ch / mxv : 0);
    if (ch > 1e-9L) CHECK("hsv_h", cdist(hsv[0], atan2l(be, al), 2 * M_PIl) <= 1e-12 / (double)ch + 1e-14, "hue %.17g, expected %.17g", hsv[0], (double)atan2l(be, al));
}

// plane fit, least squares and SVD wrappers
SECTION(wrappers, 4000, 60000) {
    fresh_region(rng);
    int k = (int)rng.range(0, 2);
    if (k == 0) {
        size_t m = (size_t)rng.range(2, 5), n = m + (size_t)rng.range(0, 12); Buf P(m * n), pl(m + 1); std::vector<ld_t> nv(m); ld_t q = 0; for (auto &t : nv) { t = rng.gauss(); q += t * t; } q = sqrtl(q); if (q < .1L) return; for (auto &t : nv) t /= q;
        ld_t d = rng.uni(.3, 5); // plane n.x + d = 0
        for (size_t j = 0; j < n; j++) { std::vector<ld_t> y(m); ld_t s = d; for (size_t i = 0; i < m; i++) { y[i] = rng.uni(-3, 3); s += nv[i] * y[i]; } for (size_t i = 0; i < m; i++) P[j * m + i] = (double)(y[i] - s * nv[i]); }
        note("plane m=%zu n=%zu d=%Lg", m, n, d); distinct(fnv(P.p, 8 * m * n));
        // conditioning: the Gram matrix of the points must be well away from singular
        std::vector<ld_t> G(m * m, 0); for (size_t j = 0; j < n; j++) for (size_t a = 0; a < m; a++) for (size_t b = 0; b < m; b++) G[a * m + b] += (ld_t)P[j * m + a] * P[j * m + b];
        ld_t det = 1, tr = 0; for (size_t a = 0; a < m; a++) tr += G[a * m + a]; for (size_t a = 0; a < m; a++) { ld_t pv = G[a * m + a]; det *= pv / tr; if (pv < 1e-4L * tr) det = 0; if (det == 0) break; for (size_t b = a + 1; b < m; b++) { ld_t f = G[b * m + a] / pv; for (size_t c = a; c < m; c++) G[b * m + c] -= f * G[a * m + c]; } }
        if (det == 0) return;
        LIB(aa_la_plane_fit(m, n, P, pl));
        for (size_t i = 0; i < m; i++) CLOSE("plane_fit", pl[i], (double)nv[i], 1e-9); CLOSE("plane_fit", pl[m], (double)d, 1e-8);
        for (size_t j = 0; j < n; j++) CLOSE("plane_fit", aa_la_point_plane(m, P + j * m, pl), 0.0, 1e-8);
        double s = rng.logu(-2, 2); Buf h(m + 1); for (size_t i = 0; i <= m; i++) h[i] = pl[i] * s; LIB(aa_la_plane_hessian(m + 1, h)); for (size_t i = 0; i <= m; i++) CLOSE("plane_hessian", h[i], pl[i], 1e-12 * (1 + (double)d));
    } else if (k == 1) {
        size_t m = (size_t)rng.range(1, 6), n = (size_t)rng.range(1, 6), p = (size_t)rng.range(1, 3); Buf A(m * n), b(m * p), x(n * p); for (size_t i = 0; i < m * n; i++) A[i] = rng.uni(-2, 2); for (size_t i = 0; i < m * p; i++) b[i] = rng.uni(-2, 2);
        std::vector<double> kA(A.p, A.p + m * n), kb(b.p, b.p + m * p); note("lls %zux%zu p=%zu", m, n, p); distinct(fnv(A.p, 8 * m * n));
        LIB(aa_la_lls(m, n, p, A, b, x));
        CHECK("lls_in", !memcmp(kA.data(), A.p, 8 * m * n) && !memcmp(kb.data(), b.p, 8 * m * p), "lls changed its inputs");
        double xm = 0; for (size_t i = 0; i < n * p; i++) xm = std::max(xm, fabs(x[i])); if (xm > 1e3) return;
        for (size_t c = 0; c < p; c++) for (size_t j = 0; j < n; j++) { ld_t g = 0; for (size_t i = 0; i < m; i++) { ld_t r = -(ld_t)b[c * m + i]; for (size_t q = 0; q < n; q++) r += (ld_t)A[q * m + i] * x[c * n + q]; g += A[j * m + i] * r; } CLOSE("lls", (double)g, 0.0, 1e-10 * (1 + xm)); }
    } else {
        size_t m = (size_t)rng.range(1, 6), n = (size_t)rng.range(1, 6), q = std::min(m, n); Buf A(m * n), U(m * m), S(q), V(n * n); for (size_t i = 0; i < m * n; i++) A[i] = rng.uni(-2, 2); if (rng.coin(.2)) for (size_t i = 0; i < m; i++) A[i] = 0;
        std::vector<double> kA(A.p, A.p + m * n); note("svd %zux%zu", m, n); distinct(fnv(A.p, 8 * m * n)); int rc; LIB(rc = aa_la_svd(m, n, A, U, S, V)); CHECK("svd", rc == 0, "svd returned %d", rc);
        CHECK("svd_in", !memcmp(kA.data(), A.p, 8 * m * n), "svd changed A");
        for (size_t i = 0; i + 1 < q; i++) CHECK("svd", S[i] >= S[i + 1] && S[i + 1] >= 0, "singular values %s", vstr(S, q).c_str());
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { ld_t s = 0; for (size_t a = 0; a < q; a++) s += (ld_t)U[a * m + i] * S[a] * V[j * n + a]; CLOSE("svd", (double)s, A[j * m + i], 1e-13 * 40); }
        for (size_t a = 0; a < m; a++) for (size_t b = 0; b < m; b++) { ld_t s = 0; for (size_t i = 0; i < m; i++) s += (ld_t)U[a * m + i] * U[b * m + i]; CLOSE("svd_u", (double)s, a == b ? 1.0 : 0.0, 1e-13); }
        for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) { ld_t s = 0; for (size_t i = 0; i < n; i++) s += (ld_t)V[i * n + a] * V[i * n + b]; CLOSE("svd_v", (double)s, a == b ? 1.0 : 0.0, 1e-13); }
    }
}

// a plot script contains every sample of every series
SECTION(plot, 150, 1500) {
    size_t m = (size_t)rng.range(1, 4), n = (size_t)rng.range(1, 9), inc = (size_t)rng.range(1, 3), ld = m + (size_t)rng.range(0, 2);
    Buf t((n - 1) * inc + 1), Y((n - 1) * ld + m); for (size_t i = 0; i < n; i++) { t[i * inc] = (double)rng.range(-999, 999) / 16; for (size_t j = 0; j < m; j++) Y[i * ld + j] = (double)rng.range(-99999, 99999) / 64; }
    const char *lab[4] = {"a", "b c", "d", "e"}; char dir[] = "/tmp/vkplotXXXXXX"; if (!mkdtemp(dir)) return; std::string fn = std::string(dir) + "/s.gp";
    struct aa_plot_opts o; memset(&o, 0, sizeof o); bool T = rng.coin(), L = rng.coin(), X = rng.coin(), W = rng.coin(); if (T) o.title = "the title"; if (X) o.xlabel = "xx"; if (W) o.ylabel = "yy"; if (L) o.axis_label = lab; o.script_file = fn.c_str();
    note("plot %zux%zu inc %zu ld %zu", m, n, inc, ld); distinct(fnv(Y.p, 8)); 
    aa_plot_row_series(m, n, t, inc, Y, ld, &o);
    std::string s; FILE *f = fopen(fn.c_str(), "r"); CHECK("plot", f, "no script written"); if (f) { char b[4096]; size_t r; while ((r = fread(b, 1, sizeof b, f)) > 0) s.append(b, r); fclose(f); }
    unlink(fn.c_str()); rmdir(dir);
    CHECK("plot_opts", (s.find("set title 'the title'") != s.npos) == T && (s.find("set xlabel 'xx'") != s.npos) == X && (s.find("set ylabel 'yy'") != s.npos) == W && (s.find("title 'a'") != s.npos) == L, "options missing or invented in %s", s.c_str());
    size_t p = s.find("plot "); p = p == s.npos ? s.size() : s.find('\n', p); bool ok = true; const char *c = p < s.size() ? s.c_str() + p + 1 : "";
    for (size_t j = 0; j < m && ok; j++) { for (size_t i = 0; i < n && ok; i++) { char *e; double a = strtod(c, &e), b = strtod(e, &e); ok = fabs(a - t[i * inc]) < 1e-6 && fabs(b - Y[i * ld + j]) < 1e-6 && *e == '\n'; c = e + 1; } ok = ok && !strncmp(c, "e\n", 2); c += ok ? 2 : 0; }
    CHECK("plot_data", ok && !*c, "data of the script differ");
}
VK_MAIN
