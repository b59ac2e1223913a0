// C18: workspace control: differential inverse kinematics, null-space projection, joint centring, pose error and LC3.
#include "arm.hpp"
#include "lpref.hpp"
#include <amino/rx/scene_wk.h>
using namespace vk;
namespace {
struct Dv { Buf b; aa_dvec v; size_t inc; Dv(const double *q, size_t n, size_t inc_) : b(n ? (n - 1) * inc_ + 1 : 0), inc(inc_) { for (size_t i = 0; i < n; i++) b[i * inc] = q ? q[i] : 1e17; v = AA_DVEC_INIT(n, b.p, inc); }
    double &operator[](size_t i) { return b[i * inc]; } bool pad() { for (size_t k = 0; k < b.n; k++) if (k % inc && !std::isnan(b[k])) return false; return true; } };
std::vector<L> toL(Dv &d, size_t n) { std::vector<L> v; for (size_t i = 0; i < n; i++) v.push_back(d[i]); return v; }
std::vector<double> toD(const std::vector<L> &v) { std::vector<double> d; for (L x : v) d.push_back((double)x); return d; }
double nrm(const std::vector<L> &v) { L s = 0; for (L x : v) s += x * x; return (double)sqrtl(s); }
double rval(Rng &r) { switch (r.range(0, 5)) { case 0: return 0; case 1: return r.sgn() * r.logu(-9, 3); default: return r.uni(-1, 1); } }
}
SECTION(dx2dq, 8000, 300000) {
    fresh_region(rng); Arm A(rng, (size_t)rng.range(1, rng.coin(.004) ? 40 : rng.coin(0.1) ? 14 : 8), rng.coin(0.3)); size_t n = A.nq; if (!n) return; A.start(rng); std::vector<double> q(n); for (size_t i = 0; i < n; i++) q[i] = rng.coin(0.2) ? 0 : A.frac(rng, i);
    // singular postures: joints of the same axis fold at zero
    Kin K(A, q.data()); Fk F(A, q.data()); note("chain of %zu joints, singular values %.3Lg to %.3Lg", n, K.smin, K.smax); distinct(fnv(q.data(), n * 8, A.na)); count(K.smin < sqrtl(1e-3L) ? "damped (near-singular) postures" : "well conditioned postures");
    double dx[6]; for (double &x : dx) x = rval(rng); if (rng.coin(0.3)) { std::vector<L> d(n); for (auto &x : d) x = rng.uni(-1, 1); auto x = K.fwd(d); for (int i = 0; i < 6; i++) dx[i] = (double)x[(size_t)i]; }
    Dv X(dx, 6, (size_t)rng.range(1, 3)), Q(nullptr, n, (size_t)rng.range(1, 3)); aa_rx_wk_opts *o = aa_rx_wk_opts_create(); int e; LIB(e = aa_rx_wk_dx2dq(A.ssg, o, F.f, &X.v, &Q.v));
    auto x = toL(X, 6); auto want = K.bwd(x); double nx = nrm(x), nw = nrm(want), tol = 1e-11 * A.scale() * (double)n * (nx * 1000 + nw) + 1e-300; CHECK("rc", e == 0, "returned %d", e); CHECK("pad", Q.pad() && X.pad(), "gap written");
    std::vector<double> got; for (size_t i = 0; i < n; i++) got.push_back(Q[i]); auto wd = toD(want); CLOSEV("dq", got.data(), wd.data(), n, tol);
    std::vector<L> g(got.begin(), got.end()); CHECK("bounded", nrm(g) <= nx / sqrt(1e-3) * (1 + 1e-9) + tol, "joint velocity %g for workspace velocity %g", nrm(g), nx);
    if (K.smin * K.smin > 2e-3L) { auto r = K.fwd(g); for (int i = 0; i < 6; i++) r[(size_t)i] -= x[(size_t)i]; for (size_t j = 0; j < n; j++) { L s = 0; for (size_t i = 0; i < 6; i++) s += K.J[6 * j + i] * r[i]; CHECK("least-squares", fabsl(s) <= tol * 10 * (1 + (double)K.smax), "normal equations off by %Lg", s); } if (n >= 6) CHECK("exact", nrm(r) <= tol * 10 * (1 + (double)K.smax), "achieved velocity off by %g", nrm(r)); }
    // null-space projection of a reference
    std::vector<double> dr(n); for (auto &v : dr) v = rval(rng); Dv R(dr.data(), n, (size_t)rng.range(1, 3)), P(nullptr, n, (size_t)rng.range(1, 3)); LIB(e = aa_rx_wk_dx2dq_np(A.ssg, o, F.f, &X.v, &R.v, &P.v)); auto rn = toL(R, n), N = K.null(rn); for (size_t i = 0; i < n; i++) N[i] += want[i]; std::vector<double> gp; for (size_t i = 0; i < n; i++) gp.push_back(P[i]); CHECK("rc", e == 0, "returned %d", e); CHECK("pad", P.pad() && R.pad(), "gap written"); double tn = tol + 1e-11 * A.scale() * A.scale() * (double)n * 1000 * nrm(rn); auto nd = toD(N); CLOSEV("np", gp.data(), nd.data(), n, tn);
    if (K.smin * K.smin > 2e-3L) { std::vector<L> d(n); for (size_t i = 0; i < n; i++) d[i] = (L)gp[i] - g[i]; CHECK("np-invisible", nrm(K.fwd(d)) <= tn * 10 * (1 + (double)K.smax), "the reference moves the end effector by %g", nrm(K.fwd(d))); L s = 0; for (size_t i = 0; i < n; i++) s += d[i] * rn[i]; CHECK("np-descent", s >= -tn * nrm(rn) * 10, "the projected reference opposes the reference"); }
    // joint centring
    { std::vector<double> qq(n); for (size_t i = 0; i < n; i++) qq[i] = rng.coin(0.7) ? q[i] : rng.uni(-10, 10); Dv C(qq.data(), n, (size_t)rng.range(1, 3)), D(nullptr, n, (size_t)rng.range(1, 3)); LIB(aa_rx_wk_dqcenter(A.ssg, o, &C.v, &D.v)); CHECK("pad", C.pad() && D.pad(), "gap written"); for (size_t i = 0; i < n; i++) { double w = A.lim[i] ? ((A.lo[i] + A.hi[i]) / 2 - qq[i]) / (A.hi[i] - A.lo[i]) : 0; CLOSE("center", D[i], w, 1e-13 * (1 + fabs(w))); } }
    aa_rx_wk_opts_destroy(o);
}
SECTION(poserr, 30000, 1000000) {
    fresh_region(rng); Pose P = rpose(rng), R = rng.coin(0.5) ? P : rpose(rng); double s = rng.coin(0.3) ? rng.logu(-12, 0) : rng.uni(0, 3); V3 ax = rdir(rng); double E[7], F[7]; memcpy(E, P.q, 32); memcpy(E + 4, P.p, 24); TF A{rot(q4(E)), v3(E + 4)}; 
    if (rng.coin(0.7)) { TF B = TF{rotexp((L)s * ax), {{rng.uni(-1, 1) * s, rng.uni(-1, 1) * s, rng.uni(-1, 1) * s}}} * A; pose7(B, F); } else { memcpy(F, R.q, 32); memcpy(F + 4, R.p, 24); } if (rng.coin()) for (int i = 0; i < 4; i++) F[i] = -F[i];
    TF B{rot(q4(F)), v3(F + 4)}; note("E_act=%s E_ref=%s", vstr(E, 7).c_str(), vstr(F, 7).c_str()); distinct(fnv(E, 56, fnv(F, 56)));
    double d0[6]; for (double &v : d0) v = rval(rng); Dv X(d0, 6, (size_t)rng.range(1, 3)); aa_rx_wk_opts *o = aa_rx_wk_opts_create(); LIB(aa_rx_wk_dx_pos(o, E, F, &X.v)); CHECK("pad", X.pad(), "gap written"); aa_rx_wk_opts_destroy(o);
    TF D = A * inv(B); Q4 dq = matq(D.R); L vw = sqrtl(dq[0] * dq[0] + dq[1] * dq[1] + dq[2] * dq[2]), th = 2 * atan2l(vw, fabsl(dq[3])); if (th > 3.1L) { count("pose errors too close to a half turn to judge"); return; }
    V3 w = 0.5L * selog_w(D), t = 0.5L * selog_v(D), v = t + cross(w, A.p); double sc = 1 + (double)norm(A.p) + (double)norm(B.p), tol = 2e-12 * sc / (double)(M_PI - th); double want[6]; for (int i = 0; i < 3; i++) { want[AA_TF_DX_V + i] = (double)(d0[AA_TF_DX_V + i] - v[i]); want[AA_TF_DX_W + i] = (double)(d0[AA_TF_DX_W + i] - w[i]); } double mx = 0; for (double x : d0) mx = std::max(mx, fabs(x)); double got[6]; for (size_t i = 0; i < 6; i++) got[i] = X[i]; CLOSEV("error", got, want, 6, tol * (1 + sc) + 1e-15 * mx);
}
SECTION(servo, 400, 10000) {
    // closed loop: the commanded velocity, integrated, brings the end effector to the reference along a screw
    fresh_region(rng); Pose P = rpose(rng), R = rpose(rng); double E[7], F[7]; memcpy(E, P.q, 32); memcpy(F, R.q, 32); for (int i = 0; i < 3; i++) { E[4 + i] = rng.uni(-2, 2); F[4 + i] = rng.uni(-2, 2); } aa_rx_wk_opts *o = aa_rx_wk_opts_create(); double dt = rng.uni(0.05, 0.3); TF A{rot(q4(E)), v3(E + 4)}, B{rot(q4(F)), v3(F + 4)}; double th, x, th0 = 9; { perr(A, B, &th, &x); } if (th > 1.55) { aa_rx_wk_opts_destroy(o); return; } note("from %s to %s step %g", vstr(E, 7).c_str(), vstr(F, 7).c_str(), dt); distinct(fnv(E, 56, fnv(F, 56)));
    for (int k = 0; k < 400; k++) { Dv X(nullptr, 6, 1); for (size_t i = 0; i < 6; i++) X[i] = 0; aa_rx_wk_dx_pos(o, E, F, &X.v); double E1[7]; L wv[3], tv[3]; for (size_t i = 0; i < 3; i++) { wv[i] = X[AA_TF_DX_W + i]; tv[i] = X[AA_TF_DX_V + i]; } V3 w{{wv[0], wv[1], wv[2]}}, v{{tv[0], tv[1], tv[2]}}; TF C{rot(q4(E)), v3(E + 4)}; V3 tw = v - cross(w, C.p); TF S = tfexp((L)dt * tw, (L)dt * w); C = S * C; pose7(C, E1); memcpy(E, E1, 56); perr(C, B, &th, &x); CHECK("monotone", th <= th0 + 1e-9, "rotation error grows from %g to %g", th0, th); th0 = th; }
    CHECK("converges", th < 2e-3 && x < 2e-2, "after 400 steps of %g the error is %g rad %g m", dt, th, x); aa_rx_wk_opts_destroy(o);
}
SECTION(lc3, 2500, 60000) {
    fresh_region(rng); Arm A(rng, (size_t)rng.range(1, rng.coin(.01) ? 16 : 8), rng.coin(0.2)); size_t n = A.nq; if (!n) return; std::vector<double> vl(n, -INFINITY), vh(n, INFINITY), al(n, -INFINITY), ah(n, INFINITY); bool sym = rng.coin();
    for (size_t i = 0; i < n; i++) { if (rng.coin(0.8)) { vh[i] = rng.uni(0.05, 3); vl[i] = sym ? -vh[i] : -rng.uni(0.05, 3); aa_rx_sg_set_limit_vel(A.sg, A.cfg[i].c_str(), vl[i], vh[i]); } if (rng.coin(0.7)) { ah[i] = rng.uni(0.1, 10); al[i] = sym ? -ah[i] : -rng.uni(0.1, 10); aa_rx_sg_set_limit_acc(A.sg, A.cfg[i].c_str(), al[i], ah[i]); } }
    aa_rx_wk_opts *o = aa_rx_wk_opts_create(); aa_rx_wk_lc3_cx *cx; no_heap_balance(); LIB(cx = aa_rx_wk_lc3_create(A.ssg, o)); aa_rx_wk_opts_destroy(o); CHECK("create", cx != nullptr, "no context"); if (!cx) return; int calls = (int)rng.range(1, 8);
    std::vector<double> q(n), dqa(n, 0); for (size_t i = 0; i < n; i++) q[i] = A.frac(rng, i); double dt = rng.coin() ? 0.01 : rng.logu(-3, 0);
    for (int c = 0; c < calls; c++) {
        A.start(rng); bool roll = c && rng.coin(0.5); if (!roll) { dt = rng.coin() ? 0.01 : rng.logu(-3, 0); for (size_t i = 0; i < n; i++) { q[i] = A.frac(rng, i); dqa[i] = rng.coin(0.3) ? 0 : rng.uni(std::isfinite(vl[i]) ? vl[i] : -1, std::isfinite(vh[i]) ? vh[i] : 1); if (rng.coin(0.05)) dqa[i] *= 3; } }
        Kin K(A, q.data()); Fk F(A, q.data()); double dx[6]; for (double &x : dx) x = rng.coin(0.2) ? 0 : rng.coin(0.1) ? rng.uni(-20, 20) : rng.uni(-0.5, 0.5); std::vector<double> dr(n); for (auto &v : dr) v = rng.coin(0.3) ? 0 : rng.uni(-1, 1);
        note("call %d of %zu joints, dt %g, singular values %.3Lg to %.3Lg, dx %s q %s dq_a %s dq_r %s", c, n, dt, K.smin, K.smax, vstr(dx, 6).c_str(), vstr(q.data(), n).c_str(), vstr(dqa.data(), n).c_str(), vstr(dr.data(), n).c_str()); distinct(fnv(q.data(), n * 8, fnv(dx, 48)));
        Dv X(dx, 6, (size_t)rng.range(1, 2)), Qa(q.data(), n, (size_t)rng.range(1, 2)), Da(dqa.data(), n, (size_t)rng.range(1, 2)), R(dr.data(), n, (size_t)rng.range(1, 2)), D(nullptr, n, (size_t)rng.range(1, 2)); int e; if (rng.coin(0.03)) { LIB(e = aa_rx_wk_dx2dq_lc3(cx, -dt, F.f, &X.v, &Qa.v, &Da.v, &R.v, &D.v)); CHECK("negative-dt", e != 0, "accepted a negative time step"); }
        LIB(e = aa_rx_wk_dx2dq_lc3(cx, dt, F.f, &X.v, &Qa.v, &Da.v, &R.v, &D.v)); CHECK("pad", X.pad() && Qa.pad() && Da.pad() && R.pad() && D.pad(), "gap written");
        // the linear program of the method, from the model
        std::vector<L> da(dqa.begin(), dqa.end()), df(n); for (size_t i = 0; i < n; i++) df[i] = (L)dr[i] - dqa[i]; auto N = K.null(df); auto xa = K.fwd(da); LpIn P; P.m = n; P.n = 7; P.max = true; P.type.assign(7, 0); P.A.resize(n * 7);
        for (size_t k = 0; k < 6; k++) { double ck = (double)((dx[k] - xa[k]) / (L)dt); P.c.push_back(ck); P.xl.push_back(std::min(0.0, ck)); P.xu.push_back(std::max(0.0, ck)); for (size_t j = 0; j < n; j++) P.A[k * n + j] = (double)(K.S[k * n + j] * dt); } P.c.push_back(1); P.xl.push_back(0); P.xu.push_back(1); for (size_t j = 0; j < n; j++) P.A[6 * n + j] = (double)N[j];
        for (size_t i = 0; i < n; i++) { double l = vl[i] - dqa[i], h = vh[i] - dqa[i], ql = A.lim[i] ? A.lo[i] : -INFINITY, qh = A.lim[i] ? A.hi[i] : INFINITY; if (std::isfinite(ah[i])) { l = std::max({l, al[i] * dt, (ql - q[i]) / dt - ah[i] * dt / 2 - dqa[i]}); h = std::min({h, ah[i] * dt, (qh - q[i]) / dt - al[i] * dt / 2 - dqa[i]}); } P.bl.push_back(l); P.bu.push_back(h); }
        double cs = 1; for (double v : P.c) cs = std::max(cs, fabs(v)); double fe = 1e-6 * (1 + cs * dt); // feasibility tolerance of the solver, joint velocity units
        auto shift = [&](double d) { LpIn W = P; for (size_t i = 0; i < n; i++) { W.bl[i] -= d; W.bu[i] += d; } return W; };
        try {
        if (e) { LpOut t = lpsolve_ref<LDbl>(shift(-fe)); CHECK("infeasible", t.st == 1, "failed with %d although the limits allow a velocity", e); count("infeasible requests"); roll = false; if (t.st == 1) for (size_t i = 0; i < n; i++) CHECK("fail-untouched", true, "%zu", i); for (size_t i = 0; i < n; i++) { q[i] = A.frac(rng, i); dqa[i] = 0; } continue; }
        count("solved requests"); for (size_t i = 0; i < n; i++) { double d = D[i] - dqa[i]; CHECK("limits", d >= P.bl[i] - fe && d <= P.bu[i] + fe, "joint %zu: change %.9g outside [%.9g,%.9g]", i, d, P.bl[i], P.bu[i]); if (std::isfinite(vh[i])) CHECK("velocity-limit", D[i] <= vh[i] + fe && D[i] >= vl[i] - fe, "joint %zu velocity %g outside [%g,%g]", i, D[i], vl[i], vh[i]); }
        LpOut best = lpsolve_ref<LDbl>(P); if (best.st) { LpOut t = lpsolve_ref<LDbl>(shift(fe)); CHECK("feasible", t.st == 0, "solved an infeasible request"); continue; }
        LpIn W = P; for (size_t i = 0; i < n; i++) { double d = D[i] - dqa[i]; W.bl[i] = d - fe; W.bu[i] = d + fe; } LpOut a = lpsolve_ref<LDbl>(W); CHECK("form", a.st == 0, "the velocity is not a scaled correction plus a scaled null-space term"); if (a.st == 0) CHECK("optimal", a.obj >= best.obj - 1e-5 * (1 + fabs(best.obj)), "objective %g, best %g", a.obj, best.obj);
        bool sat = best.st == 0 && best.obj > 0; for (size_t k = 0; k < 6; k++) sat &= fabs(best.x[k] - P.c[k]) < 1e-9 * cs; if (sat) count("requests met in full");
        } catch (Ratio::Over &) { count("linear programs the reference could not settle"); }
        if (!e) for (size_t i = 0; i < n; i++) { dqa[i] = D[i]; q[i] += dt * D[i]; }
    }
}
VK_MAIN
