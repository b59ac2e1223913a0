// C20: integrators, simulation steps and finite differences against independent long-double references; solver runs judged from their event log.
#include "vk.hpp"
#include "reg.hpp"
#include <amino.h>
#include <amino/diffeq.h>
using namespace vk;
typedef long double L;
namespace {
typedef std::vector<L> LV;
struct Sys { size_t n; int kind; double sc; std::vector<double> A, B, w, ph; mutable std::vector<std::pair<double, LV>> log; mutable bool keep = false; mutable size_t calls = 0; mutable double tmin = INFINITY, tmax = -INFINITY;
    Sys(Rng &r, size_t n_, int k) : n(n_), kind(k), A(n * n), B(n), w(n), ph(n) { sc = r.pick(std::vector<double>{0.1, 1, 2}); for (auto &v : A) v = r.uni(-1, 1); for (auto &v : B) v = r.coin(0.2) ? 0 : r.uni(-1, 1); for (auto &v : w) v = r.uni(-2, 2); for (auto &v : ph) v = r.uni(-3, 3); }
    template <class T> void f(T t, const T *x, T *y) const { using std::cos; using std::sin; for (size_t i = 0; i < n; i++) { T s = 0; for (size_t j = 0; j < n; j++) s += (T)A[i * n + j] * (kind == 0 ? x[j] : sin(x[j])); y[i] = (T)sc * s + (kind == 2 ? (T)0 : (T)B[i] * cos((T)w[i] * t + (T)ph[i])); } }
    static void call(const void *cx, double t, const double *x, double *y) { const Sys *s = (const Sys *)cx; s->calls++; s->tmin = std::min(s->tmin, t); s->tmax = std::max(s->tmax, t); s->f(t, x, y); } };
struct Tab { std::vector<L> c; std::vector<std::vector<L>> a; std::vector<L> b, b2; };
const Tab &tab(int k) { static std::vector<Tab> T = {
    {{0}, {{}}, {1}, {}},
    {{0, 1}, {{}, {1}}, {0.5L, 0.5L}, {}},
    {{0, 0.5L, 0.5L, 1}, {{}, {0.5L}, {0, 0.5L}, {0, 0, 1}}, {1.0L / 6, 1.0L / 3, 1.0L / 3, 1.0L / 6}, {}},
    {{0, 1.0L / 4, 3.0L / 8, 12.0L / 13, 1, 0.5L}, {{}, {1.0L / 4}, {3.0L / 32, 9.0L / 32}, {1932.0L / 2197, -7200.0L / 2197, 7296.0L / 2197}, {439.0L / 216, -8, 3680.0L / 513, -845.0L / 4104}, {-8.0L / 27, 2, -3544.0L / 2565, 1859.0L / 4104, -11.0L / 40}}, {25.0L / 216, 0, 1408.0L / 2565, 2197.0L / 4104, -1.0L / 5, 0}, {16.0L / 135, 0, 6656.0L / 12825, 28561.0L / 56430, -9.0L / 50, 2.0L / 55}},
    {{0, 1.0L / 5, 3.0L / 10, 3.0L / 5, 1, 7.0L / 8}, {{}, {1.0L / 5}, {3.0L / 40, 9.0L / 40}, {3.0L / 10, -9.0L / 10, 6.0L / 5}, {-11.0L / 54, 5.0L / 2, -70.0L / 27, 35.0L / 27}, {1631.0L / 55296, 175.0L / 512, 575.0L / 13824, 44275.0L / 110592, 253.0L / 4096}}, {2825.0L / 27648, 0, 18575.0L / 48384, 13525.0L / 55296, 277.0L / 14336, 1.0L / 4}, {37.0L / 378, 0, 250.0L / 621, 125.0L / 594, 0, 512.0L / 1771}},
    {{0, 1.0L / 5, 3.0L / 10, 4.0L / 5, 8.0L / 9, 1, 1}, {{}, {1.0L / 5}, {3.0L / 40, 9.0L / 40}, {44.0L / 45, -56.0L / 15, 32.0L / 9}, {19372.0L / 6561, -25360.0L / 2187, 64448.0L / 6561, -212.0L / 729}, {9017.0L / 3168, -355.0L / 33, 46732.0L / 5247, 49.0L / 176, -5103.0L / 18656}, {35.0L / 384, 0, 500.0L / 1113, 125.0L / 192, -2187.0L / 6784, 11.0L / 84}}, {35.0L / 384, 0, 500.0L / 1113, 125.0L / 192, -2187.0L / 6784, 11.0L / 84, 0}, {5179.0L / 57600, 0, 7571.0L / 16695, 393.0L / 640, -92097.0L / 339200, 187.0L / 2100, 1.0L / 40}},
    {{0, 0.5L, 0.75L, 1}, {{}, {0.5L}, {0, 0.75L}, {2.0L / 9, 1.0L / 3, 4.0L / 9}}, {2.0L / 9, 1.0L / 3, 4.0L / 9, 0}, {7.0L / 24, 1.0L / 4, 1.0L / 3, 1.0L / 8}} };
    return T[(size_t)k]; }
// one step of a tableau; returns the two results (second empty for fixed methods)
std::pair<LV, LV> step(const Sys &s, int k, L t, L h, const LV &x) { const Tab &T = tab(k); size_t n = s.n; std::vector<LV> K; for (size_t i = 0; i < T.c.size(); i++) { LV xi = x; for (size_t j = 0; j < T.a[i].size(); j++) for (size_t m = 0; m < n; m++) xi[m] += h * T.a[i][j] * K[j][m]; LV y(n); s.f<L>(t + h * T.c[i], xi.data(), y.data()); K.push_back(y); }
    LV p = x, q = x; for (size_t i = 0; i < T.b.size(); i++) for (size_t m = 0; m < n; m++) p[m] += h * T.b[i] * K[i][m]; if (T.b2.empty()) q.clear(); else for (size_t i = 0; i < T.b2.size(); i++) for (size_t m = 0; m < n; m++) q[m] += h * T.b2[i] * K[i][m]; return {p, q}; }
// accurate flow: Richardson-extrapolated RK4 in long double with many steps
LV flow(const Sys &s, L t, L h, LV x, int m = 64) { for (int i = 0; i < m; i++) x = step(s, 2, t + h * i / m, h / m, x).first; return x; }
LV lv(const double *p, size_t n) { return LV(p, p + n); }
void near_v(const char *key, const double *a, const LV &b, double tol, const char *what) { double m = 0; for (size_t i = 0; i < b.size(); i++) { double d = (double)fabsl(a[i] - b[i]); if (!(d <= m)) m = d; } event(); if (!(m <= tol)) fail(key, "%s: differs by %.6g (tol %.3g)", what, m, tol); }
double mag(const LV &x) { double m = 1; for (L v : x) m = std::max(m, (double)fabsl(v)); return m; }
struct Ad { const char *name; aa_odestep_adaptive *fn; int t; size_t nk; int lo, hi; aa_ode_integrator e; };
const std::vector<Ad> AD = {{"rkf45", aa_odestep_rkf45, 3, 5, 4, 5, AA_ODE_RK45_F}, {"rkck45", aa_odestep_rkck45, 4, 5, 4, 5, AA_ODE_RK45_CK}, {"dorpri45", aa_odestep_dorpri45, 5, 6, 4, 4, AA_ODE_RK45_DP}, {"rkbs23", aa_odestep_rkbs23, 6, 4, 2, 2, AA_ODE_RK23_BS}};
struct Fx { const char *name; aa_odestep_fixed *fn; int t; int ord; aa_ode_integrator e; };
const std::vector<Fx> FX = {{"rk1", aa_odestep_rk1, 0, 1, AA_ODE_RK1}, {"rk2", aa_odestep_rk2, 1, 2, AA_ODE_RK2}, {"rk4", aa_odestep_rk4, 2, 4, AA_ODE_RK4}};
double rstep(Rng &r) { switch (r.range(0, 4)) { case 0: return 0; case 1: return r.sgn() * r.logu(-8, -2); case 2: return r.uni(-1, 0); default: return r.uni(0, 1); } }
size_t rn(Rng &r) { return (size_t)(r.coin(0.3) ? r.range(1, 2) : r.coin(.005) ? r.range(9, 50) : r.range(1, 8)); }
}
SECTION(steps, 40000, 1000000) {
    fresh_region(rng); size_t n = rn(rng); Sys s(rng, n, (int)rng.range(0, 2)); Buf x0(n); for (size_t i = 0; i < n; i++) x0[i] = rng.coin(0.1) ? 0 : rng.uni(-2, 2); double t0 = rng.coin(0.2) ? 0 : rng.uni(-5, 5), h = rstep(rng);
    note("n=%zu t0=%g h=%g kind=%d", n, t0, h, s.kind); distinct(fnv(x0.p, n * 8, (uint64_t)(t0 * 1e6) ^ (uint64_t)(h * 1e9))); std::vector<double> keep(x0.p, x0.p + n); double tol = 4e-14 * (mag(lv(x0, n)) + 10 * (double)n * s.sc) * (1 + 10 * fabs(h) * fabs(h) * (double)(n * n));
    auto times = [&](const char *k) { double e = 1e-14 * (1 + fabs(t0)); CHECK(k, s.tmin >= std::min(t0, t0 + h) - e && s.tmax <= std::max(t0, t0 + h) + e, "system evaluated at times [%g,%g] outside the step", s.tmin, s.tmax); };
    for (auto &f : FX) { Buf x1(n); s.tmin = INFINITY; s.tmax = -INFINITY; LIB(f.fn(n, Sys::call, &s, t0, h, x0, x1)); near_v(f.name, x1, step(s, f.t, t0, h, lv(x0, n)).first, tol, f.name); times("times"); }
    for (auto &a : AD) { Buf k(n * a.nk), xa(n), xb(n), y(n); s.f<double>(t0, x0, k); std::vector<double> k0(k.p, k.p + n); s.tmin = INFINITY; s.tmax = -INFINITY; LIB(a.fn(n, Sys::call, &s, t0, h, x0, k, xa, xb)); auto R = step(s, a.t, t0, h, lv(x0, n));


        near_v(a.name, xa, R.first, tol, "lower result"); near_v(a.name, xb, R.second, tol, "higher result"); times("times"); CHECK("k0-kept", !memcmp(k0.data(), k.p, n * 8), "%s changed the first column", a.name);
        if (a.t >= 5) { s.f<double>(t0 + h, xa, y); CLOSEV("k-last", k + n * (a.nk - 1), y.p, n, tol); } }
    { Buf x1(n), dx(n); for (size_t i = 0; i < n; i++) dx[i] = rng.uni(-2, 2); LIB(aa_odestep_euler(n, h, dx, x0, x1)); LV e(n); for (size_t i = 0; i < n; i++) e[i] = (L)x0[i] + (L)h * dx[i]; near_v("euler", x1, e, 1e-15 * 8, "euler"); }
    CHECK("x0-kept", !memcmp(keep.data(), x0.p, n * 8), "initial state modified");
}
SECTION(order, 6000, 200000) {
    // halving the step divides the local error by 2^(p+1): compare with the true flow
    size_t n = rn(rng); Sys s(rng, n, (int)rng.range(0, 2)); s.sc = 0.5 / (double)n; Buf x0(n); for (size_t i = 0; i < n; i++) x0[i] = rng.uni(-1, 1); double t0 = rng.uni(-5, 5), h = rng.uni(0.02, 0.1) * rng.sgn();
    note("n=%zu t0=%g h=%g", n, t0, h); distinct(fnv(x0.p, n * 8)); auto err = [&](const double *x, double hh) { LV e = flow(s, t0, hh, lv(x0, n), 32); double m = 0; for (size_t i = 0; i < n; i++) m = std::max(m, (double)fabsl(x[i] - e[i])); return m; };
    // the right-hand sides have derivatives bounded by 10*2^k, so the local error is below 8(10h)^(p+1)
    auto bound = [&](int p) { return 8 * pow(5 * fabs(h), p + 1) + 1e-14; };
    for (auto &f : FX) { Buf x1(n); f.fn(n, Sys::call, &s, t0, h, x0, x1); double e = err(x1, h); CHECK("order-fixed", e <= bound(f.ord), "%s: local error %g for step %g", f.name, e, h); }
    for (auto &a : AD) { Buf k(n * a.nk), xa(n), xb(n); s.f<double>(t0, x0, k); a.fn(n, Sys::call, &s, t0, h, x0, k, xa, xb); CHECK("order-low", err(xa, h) <= bound(a.lo), "%s: local error %g for step %g", a.name, err(xa, h), h); CHECK("order-high", err(xb, h) <= bound(a.hi), "%s: local error %g for step %g", a.name, err(xb, h), h); }
}
namespace {
struct Run { Sys *s; size_t n; Rng *r; double tend; size_t maxsteps; int stopval; bool clamp; std::vector<double> t; std::vector<LV> x, xmod, y; double lim; size_t lastcalls = 0;
    static int chk(void *cx, double t, double *x, double *y) { Run *c = (Run *)cx; c->t.push_back(t); c->x.push_back(lv(x, c->n)); c->y.push_back(lv(y, c->n)); if (c->clamp) for (size_t i = 0; i < c->n; i++) x[i] = std::max(-c->lim, std::min(c->lim, x[i])); c->xmod.push_back(lv(x, c->n)); return t >= c->tend || c->t.size() >= c->maxsteps ? c->stopval : 0; } };
void judge(const Run &R, const double *x0, double t0, double dt0, bool adaptive, int method, const aa_ode_sol_opts &o, const char *nm) {
    const Sys &s = *R.s; size_t n = R.n; LV x = lv(x0, n); double t = t0, h = dt0; 
    for (size_t i = 0; i < R.t.size(); i++) { double hh = R.t[i] - t; double tol = 1e-12 * (mag(x) + 10 * (double)n) * (1 + fabs(hh) * (double)(n * n)); tol *= 1 + pow(fabs(hh) * s.sc * (double)n, 5);
        if (!adaptive) CHECK("step-size", fabs(hh - dt0) <= 1e-13 * (1 + fabs(t)), "%s: step %g instead of %g", nm, hh, dt0);
        else { // the step is the planned one, reduced a whole number of times
            double best = INFINITY, hb = h, c = h; for (int k = 0; k < 400 && fabs(c) > 1e-300; k++) { if (fabs(c - hh) < best) { best = fabs(c - hh); hb = c; } c *= o.adapt_factor_dec; } CHECK("step-adapt", best <= 1e-13 * (1 + fabs(t)) + 1e-12 * fabs(hh), "%s: step %zu of size %.17g cannot come from %.17g by decrease factors", nm, i, hh, h); hh = hb; }
        auto P = step(s, method, t, hh, x); LV e = P.second.empty() ? P.first : P.second;
        double m = 0; for (size_t j = 0; j < n; j++) { double d = (double)fabsl(R.x[i][j] - e[j]); if (!(d <= m)) m = d; } event(); if (!(m <= tol)) fail("trajectory", "%s: state after step %zu (t=%g) differs from the method by %g (tol %g)", nm, i, R.t[i], m, tol);
        LV y(n); s.f<L>((L)R.t[i], R.x[i].data(), y.data()); m = 0; for (size_t j = 0; j < n; j++) m = std::max(m, (double)fabsl(R.y[i][j] - y[j])); CHECK("derivative", m <= 1e-12 * (1 + 10 * (double)n), "%s: derivative given to the check at step %zu is off by %g", nm, i, m);
        if (adaptive) { double er = 0; for (size_t j = 0; j < n; j++) er += (double)((P.first[j] - P.second[j]) * (P.first[j] - P.second[j])); CHECK("error-bound", er <= o.adapt_tol_dec * (1 + 1e-6) + 1e-24, "%s: step %zu accepted with error %g above %g", nm, i, er, o.adapt_tol_dec);
            double sl = 1e-20 + 1e-6 * o.adapt_tol_inc; if (er < o.adapt_tol_inc - sl) h = hh * o.adapt_factor_inc; else if (er > o.adapt_tol_inc + sl) h = hh; else { // too close to call: take what the next step shows
                h = hh * o.adapt_factor_inc; if (i + 1 < R.t.size()) { double nh = R.t[i + 1] - R.t[i]; bool viaInc = false; double c = hh; for (int k = 0; k < 60; k++) { if (fabs(c - nh) <= 1e-9 * fabs(nh)) viaInc = true; c *= o.adapt_factor_dec; } if (viaInc) h = hh; } } }
        x = R.xmod[i]; t = R.t[i]; }
}
}
SECTION(sol, 16000, 400000) {
    fresh_region(rng); size_t n = rn(rng); Sys s(rng, n, (int)rng.range(0, 2)); s.sc = 0.5; Buf x0(n), x1(n); for (size_t i = 0; i < n; i++) x0[i] = rng.uni(-1, 1); double t0 = rng.coin(0.3) ? 0 : rng.uni(-3, 3), dt = rng.coin(0.8) ? rng.uni(0.005, 0.3) : rng.uni(0.3, 2);
    aa_ode_sol_opts o; o.adapt_tol_dec = rng.logu(-14, -4); o.adapt_tol_inc = o.adapt_tol_dec * rng.pick(std::vector<double>{0.5, 0.1, 0.01, 1e-4}); o.adapt_factor_dec = rng.pick(std::vector<double>{0.5, 0.1, 0.7}); o.adapt_factor_inc = rng.pick(std::vector<double>{1.5, 2, 1.1}); 
    Run R; R.s = &s; R.n = n; R.r = &rng; R.tend = t0 + rng.uni(0.1, 4); R.maxsteps = (size_t)rng.range(1, 60); R.stopval = (int)rng.pick(std::vector<double>{1, 7, -1, -5}); R.clamp = rng.coin(0.25); R.lim = rng.uni(0.3, 1.5); int m = (int)rng.range(0, 6); bool ad = m >= 3; const char *nm = ad ? AD[(size_t)m - 3].name : FX[(size_t)m].name; aa_ode_integrator e = ad ? AD[(size_t)m - 3].e : FX[(size_t)m].e;
    note("%s n=%zu t0=%g dt=%g tol %g/%g clamp %d", nm, n, t0, dt, o.adapt_tol_dec, o.adapt_tol_inc, R.clamp); bool path = !R.clamp && rng.coin(0.5);
    if (!path) { int r; LIB(r = aa_ode_sol(e, &o, n, Sys::call, &s, Run::chk, &R, t0, dt, x0, x1)); CHECK("status", r == (R.stopval > 0 ? 0 : R.stopval), "returned %d after check said %d", r, R.stopval); near_v("result", x1, R.xmod.back(), 0, "final state"); }
    else { aa_mem_region_t own; aa_mem_region_init(&own, rng.pick(std::vector<size_t>{16, 128, 4096})); bool local = rng.coin(); aa_mem_region_t *reg = local ? aa_mem_region_local_get() : &own; size_t np = 0; double *p = nullptr; void *top = aa_mem_region_ptr(reg); int r; if (local) { r = aa_ode_path(e, &o, n, Sys::call, &s, Run::chk, &R, t0, dt, x0, reg, &np, &p); } else { LIB(r = aa_ode_path(e, &o, n, Sys::call, &s, Run::chk, &R, t0, dt, x0, reg, &np, &p)); }
        CHECK("path-status", r == (R.stopval > 0 ? 0 : R.stopval), "returned %d", r); CHECK("path-count", np == R.t.size() + 1, "%zu points for %zu steps", np, R.t.size()); if (np == R.t.size() + 1) { near_v("path-start", p, lv(x0, n), 0, "first point"); for (size_t i = 0; i + 1 < np; i++) near_v("path-points", p + (i + 1) * n, R.x[i], 0, "path point"); } (void)top; if (local) aa_mem_region_pop(reg, p); aa_mem_region_destroy(&own); }
    distinct(fnv(R.t.data(), R.t.size() * 8, (uint64_t)m)); count("solver steps", R.t.size());
    int meth = ad ? AD[(size_t)m - 3].t : FX[(size_t)m].t; 

    judge(R, x0, t0, dt, ad, meth, o, nm);
}
SECTION(lsim, 20000, 500000) {
    size_t m = rn(rng), n = (size_t)rng.range(1, 6); Buf A(m * m), B(m * n), x0(m), u(n), D(m); for (size_t i = 0; i < m * m; i++) A[i] = rng.uni(-2, 2); for (size_t i = 0; i < m * n; i++) B[i] = rng.uni(-2, 2); for (size_t i = 0; i < m; i++) { x0[i] = rng.uni(-2, 2); D[i] = rng.uni(-1, 1); } for (size_t i = 0; i < n; i++) u[i] = rng.coin(0.2) ? 0 : rng.uni(-2, 2); double h = rstep(rng); note("m=%zu n=%zu h=%g", m, n, h); distinct(fnv(A.p, m * m * 8));
    auto f = [&](const LV &x) { LV y(m); for (size_t i = 0; i < m; i++) { for (size_t j = 0; j < m; j++) y[i] += (L)A[j * m + i] * x[j]; for (size_t j = 0; j < n; j++) y[i] += (L)B[j * m + i] * u[j]; } return y; }; auto ax = [&](const LV &x, L h, const LV &d) { LV y = x; for (size_t i = 0; i < m; i++) y[i] += h * d[i]; return y; };
    LV X = lv(x0, m), k1 = f(X); double tol = 1e-14 * (double)(m + n) * 8; Buf a(m), b(m), c(m), d(m); LIB(aa_lsim_dstep(m, n, A, B, x0, u, a)); near_v("dstep", a, k1, tol, "Ax+Bu"); LIB(aa_lsim_estep(m, n, h, A, B, x0, u, b)); near_v("estep", b, ax(X, h, k1), tol, "x+h(Ax+Bu)");
    LV k2 = f(ax(X, (L)h / 2, k1)), k3 = f(ax(X, (L)h / 2, k2)), k4 = f(ax(X, h, k3)), e = X; for (size_t i = 0; i < m; i++) e[i] += (L)h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]); LIB(aa_lsim_rk4step(m, n, h, A, B, x0, u, c)); near_v("rk4step", c, e, tol * (1 + pow(2 * (double)m * fabs(h), 4)), "rk4");
    aa_sys_affine_t s = {m, A, D}; LIB(aa_sys_affine(&s, rng.uni(-9, 9), x0, d)); LV z(m); for (size_t i = 0; i < m; i++) { z[i] = D[i]; for (size_t j = 0; j < m; j++) z[i] += (L)A[j * m + i] * x0[j]; } near_v("affine", d, z, tol, "Ax+D");
}
namespace {
struct Fun { size_t n, m; std::vector<double> A, c; const double *orig; static double sca(void *cx, const aa_dvec *x) { Fun *f = (Fun *)cx; double s = 0; for (size_t i = 0; i < f->n; i++) { double v = x->data[i * x->inc]; s += sin(f->A[i] * v + f->c[i]) * (1 + 0.1 * v); } 
        // evaluation functions use the region too
        void *p = aa_mem_region_local_alloc(40); memset(p, 0x5a, 40); aa_mem_region_local_pop(p); return s; }
    static void vec(void *cx, const aa_dvec *x, aa_dvec *y) { Fun *f = (Fun *)cx; for (size_t j = 0; j < f->m; j++) { double s = 0; for (size_t i = 0; i < f->n; i++) s += sin(f->A[j * f->n + i] * x->data[i * x->inc] + f->c[i]); y->data[j * y->inc] = s; } void *p = aa_mem_region_local_alloc(40); memset(p, 0x5a, 40); aa_mem_region_local_pop(p); } };
}
SECTION(fd, 20000, 500000) {
    fresh_region(rng); Fun f; f.n = rn(rng); f.m = (size_t)rng.range(1, 6); for (size_t i = 0; i < f.n * std::max<size_t>(f.m, 1); i++) f.A.push_back(rng.uni(-2, 2)); for (size_t i = 0; i < f.n; i++) f.c.push_back(rng.uni(-3, 3)); size_t ix = (size_t)rng.range(1, 3), iy = (size_t)rng.range(1, 3), ld = f.m + (size_t)rng.range(0, 3); double eps = rng.logu(-6, -3); note("n=%zu m=%zu eps=%g", f.n, f.m, eps); distinct(fnv(f.A.data(), f.A.size() * 8));
    Buf x((f.n - 1) * ix + 1), y((f.n - 1) * iy + 1), J(ld * (f.n - 1) + f.m); for (size_t i = 0; i < f.n; i++) x[i * ix] = rng.uni(-2, 2); std::vector<double> kx(x.p, x.p + (f.n - 1) * ix + 1); aa_dvec vx = AA_DVEC_INIT(f.n, x.p, ix), vy = AA_DVEC_INIT(f.n, y.p, iy); aa_dmat M = AA_DMAT_INIT(f.m, f.n, J.p, ld);
    LIB(aa_de_grad_fd(Fun::sca, &f, &vx, eps, &vy)); LIB(aa_de_jac_fd(Fun::vec, &f, &vx, eps, &M)); CHECK("x-kept", !memcmp(kx.data(), x.p, kx.size() * 8), "point modified"); double tol = 8 * eps * eps * 8 + 1e-14 * (double)(f.n + 4) / eps;
    for (size_t i = 0; i < f.n; i++) { L v = x[i * ix], a = (L)f.A[i] * v + f.c[i]; CLOSE("gradient", y[i * iy], (double)(f.A[i] * cosl(a) * (1 + 0.1L * v) + 0.1L * sinl(a)), tol); for (size_t j = 0; j < f.m; j++) { L b = (L)f.A[j * f.n + i] * v + f.c[i]; CLOSE("jacobian", J[i * ld + j], (double)(f.A[j * f.n + i] * cosl(b)), tol); } for (size_t j = f.m; j < ld && i + 1 < f.n; j++) CHECK("pad", std::isnan(J[i * ld + j]), "padding of J written"); for (size_t j = 1; j < iy && i + 1 < f.n; j++) CHECK("pad", std::isnan(y[i * iy + j]), "padding of y written"); }
}
VK_MAIN
