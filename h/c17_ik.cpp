// C17: inverse kinematics: claimed solutions, checks, objectives and their gradients against the long-double model.
#include <memory>
#include "arm.hpp"
#include <amino/rx/scene_ik.h>
#include <amino/rx/rxerr.h>
using namespace vk;
namespace {
struct Mon { Arm *a; std::string frame; TF ref; aa_rx_ik_opt_fun *f; int kind; uint64_t evals = 0; double scale; bool judge_grad; Rng *r; };
Mon *MON;
// objective in long double. kind 0: pose (ln q, v), 1: dual quaternion log, 2: translation, 3: centre
L obj(const Mon &M, const L *q, size_t n, L *wq) {
    if (M.kind == 3) { L s = 0; for (size_t i = 0; i < n; i++) { L c = M.a->lim[i] ? ((L)M.a->lo[i] + M.a->hi[i]) / 2 : 0; s += (q[i] - c) * (q[i] - c); } *wq = 1; return s / 2; }
    // forward kinematics with long double joint values
    std::string f = M.frame; std::vector<const MFrame *> ch; while (!f.empty()) { const MFrame &x = M.a->m.f.at(f); ch.push_back(&x); f = x.parent; } TF T{eye3(), {{0, 0, 0}}}; for (size_t k = ch.size(); k-- > 0;) { const MFrame &x = *ch[k]; L v = 0; if (x.type != MFIX) { v = M.a->qs.at(x.cfg); for (size_t i = 0; i < n; i++) if (M.a->cfg[i] == x.cfg) v = q[i]; } TF R{rot(q4(x.E)), v3(x.E + 4)}; L y = v + (L)x.off; V3 ax = v3(x.axis); if (x.type == MREV) R = R * TF{rotexp(y * ax), {{0, 0, 0}}}; else if (x.type == MPRI) R = R * TF{eye3(), y * ax}; T = T * R; }
    V3 dv = T.p - M.ref.p; if (M.kind == 2) { *wq = 1; return norm(dv) * norm(dv); }
    TF D = inv(T) * M.ref; Q4 q4_ = matq(D.R); *wq = fabsl(q4_[3]); L v = sqrtl(q4_[0] * q4_[0] + q4_[1] * q4_[1] + q4_[2] * q4_[2]), th = atan2l(v, fabsl(q4_[3]));
    if (M.kind == 0) return th * th + norm(dv) * norm(dv);
    // twist of D: rotation part th*axis, translation part solves the exponential; half scale as in the dual quaternion logarithm
    V3 w = selog_w(D), t = selog_v(D); return (norm(w) * norm(w) + norm(t) * norm(t)) / 4; }
void judge(const Mon &M, void *cx, const double *q, double val, const double *dq) {
    size_t n = M.a->nq; std::vector<L> x(q, q + n); L wq; L v = obj(M, x.data(), n, &wq); double sc = M.scale; for (size_t i = 0; i < n; i++) sc += fabs(q[i]); if (wq < 1e-3L) { count("objective evaluations too close to a half turn to judge"); return; }
    double tv = 1e-12 * sc * sc * (1 + (double)fabsl(v)); bool fd = false; if (M.f == aa_rx_ik_opt_err_dqln_fd || M.f == aa_rx_ik_opt_err_qlnpv_fd || M.f == aa_rx_ik_opt_err_trans_fd) fd = true; if (M.kind == 1) tv /= (double)(wq * wq);
    CLOSE("objective", val, (double)v, tv); (void)cx;
    if (dq) { for (size_t i = 0; i < n; i++) { L h = 1e-4L, g = 0; static const L C[3] = {45, -9, 1}; L w1, ww = wq; for (int k = 1; k <= 3; k++) { auto y = x; y[i] += k * h; L a = obj(M, y.data(), n, &w1); ww = std::min(ww, w1); y = x; y[i] -= k * h; g += C[k - 1] * (a - obj(M, y.data(), n, &w1)); ww = std::min(ww, w1); } g /= 60 * h; if (ww < 0.02L) { count("gradients too close to a half turn to judge"); continue; } double tol = 1e-9 * sc * sc * (1 + (double)fabsl(g)) / (double)(ww * ww); if (fd) tol = 4e-8 * sc * sc * (1 + (double)fabsl(g)) / (double)(ww * ww * ww); CLOSE(fd ? "gradient-fd" : "gradient", dq[i], (double)g, tol); } } }
double mon(void *cx, const double *q, double *dq) { Mon &M = *MON; M.evals++; double v = ((double (*)(void *, const double *, double *))M.f)(cx, q, dq); if (M.evals <= 4 || M.r->coin(0.05)) { judge(M, cx, q, v, dq); if (M.r->coin(0.2)) { double v0; LIB(v0 = ((double (*)(void *, const double *, double *))M.f)(cx, q, nullptr)); CLOSE("objective-alone", v0, v, 1e-15 * (1 + fabs(v))); } } return v; }
struct Obj { aa_rx_ik_opt_fun *f; int kind; const char *name; };
const std::vector<Obj> OBJ = {{aa_rx_ik_opt_err_qlnpv, 0, "qlnpv"}, {(aa_rx_ik_opt_fun *)aa_rx_ik_opt_err_dqln, 1, "dqln"}, {aa_rx_ik_opt_err_qlnpv_fd, 0, "qlnpv_fd"}, {aa_rx_ik_opt_err_dqln_fd, 1, "dqln_fd"}, {aa_rx_ik_opt_err_trans, 2, "trans"}, {aa_rx_ik_opt_err_trans_fd, 2, "trans_fd"}, {aa_rx_ik_opt_err_jcenter, 3, "jcenter"}};
std::string rtip(Rng &r, Arm &a) { (void)r; return a.tip; }
}
SECTION(gradient, 3000, 60000) {
    fresh_region(rng); Arm a(rng, (size_t)rng.range(1, rng.coin(.01) ? 14 : 7), rng.coin(0.2)); if (a.nq == 0) return; if (rng.coin(0.7)) a.start(rng); const Obj &o = rng.pick(OBJ); Buf qt(a.nq), seed(a.nq), q(a.nq); for (size_t i = 0; i < a.nq; i++) { qt[i] = a.frac(rng, i); seed[i] = a.frac(rng, i); } TF T = a.fk(qt, a.tip); if (rng.coin(0.2)) { Pose P = rpose(rng); T = P.T(); T.p = (L)0.3 * ((1 / (1 + norm(T.p))) * T.p); } double E[7]; pose7(T, E); if (rng.coin()) for (int i = 0; i < 4; i++) E[i] = -E[i];
    note("%s joints %zu root '%s'", o.name, a.nq, a.root.c_str()); distinct(fnv(qt.p, a.nq * 8, (uint64_t)o.kind)); Mon M; M.a = &a; M.frame = a.tip; M.ref = TF{rot(q4(E)), v3(E + 4)}; M.f = o.f; M.kind = o.kind; M.scale = a.scale(); M.r = &rng; MON = &M;
    aa_rx_ik_parm *p = aa_rx_ik_parm_create(); aa_rx_ik_parm_set_obj(p, mon); aa_rx_ik_cx *cx = aa_rx_ik_cx_create(a.ssg, p); aa_dvec vs = AA_DVEC_INIT(a.na, a.qstart.data(), 1), vseed = AA_DVEC_INIT(a.nq, seed.p, 1), vq = AA_DVEC_INIT(a.nq, q.p, 1); aa_rx_ik_set_start(cx, &vs); aa_rx_ik_set_seed(cx, &vseed); aa_dmat mT = AA_DMAT_INIT(7, 1, E, 7); LIB(aa_rx_ik_solve(cx, &mT, &vq)); CHECK("evaluated", M.evals > 0, "objective never evaluated"); aa_rx_ik_cx_destroy(cx); aa_rx_ik_parm_destroy(p); MON = nullptr;
}
SECTION(solve, 2500, 50000) {
    fresh_region(rng);  Arm a(rng, (size_t)rng.range(1, rng.coin(.01) ? 14 : 7), rng.coin(0.2)); if (a.nq == 0) return; bool st = rng.coin(0.7); bool jp = rng.coin(0.25), centred = false; const Obj &o = OBJ[(size_t)rng.range(0, jp ? 0 : 6)];
    aa_rx_ik_parm *p = aa_rx_ik_parm_create(); double ta = rng.logu(-4, -1), tt = rng.logu(-5, -1); if (rng.coin(0.3)) { ta = .1 * M_PI / 180; tt = .1e-3; } else { aa_rx_ik_parm_set_tol_angle(p, ta); aa_rx_ik_parm_set_tol_trans(p, tt); }
    aa_rx_ik_parm_set_algo(p, jp ? AA_RX_IK_JPINV : AA_RX_IK_SQP); if (jp) { aa_rx_ik_parm_set_tol_dq(p, rng.logu(-5, -2)); aa_rx_ik_parm_set_max_iterations(p, (size_t)rng.range(1, 150)); aa_rx_ik_parm_set_dt(p, rng.logu(-2, 0)); if (rng.coin(0.4)) { centred = true; LIB(aa_rx_ik_parm_center_configs(p, a.ssg, rng.uni(0.01, 0.5))); } } else { if (o.kind == 3) { aa_rx_ik_parm_set_eqct(p, (aa_rx_ik_opt_fun *)(rng.coin() ? (void *)aa_rx_ik_opt_err_dqln : (void *)aa_rx_ik_opt_err_qlnpv), 1e-9); } aa_rx_ik_parm_set_obj(p, o.f); if (rng.coin(0.3)) { aa_rx_ik_parm_set_tol_obj_abs(p, 1e-15); aa_rx_ik_parm_set_tol_dq(p, 1e-12); } }
    std::vector<double> ps; bool pc = false; if (rng.coin(0.2)) { LIB(aa_rx_ik_parm_center_seed(p, a.ssg)); pc = true; } if (rng.coin(0.2)) { ps.resize(a.na); for (auto &x : ps) x = rng.uni(-2, 2); std::vector<double> s = ps; int op = (int)rng.range(0, 2); double *h = s.data(); if (op == 0) { h = AA_NEW_AR(double, a.na); memcpy(h, s.data(), 8 * a.na); } LIB(aa_rx_ik_parm_take_seed(p, a.na, op == 2 ? ps.data() : h, op == 0 ? AA_MEM_STEAL : op == 1 ? AA_MEM_COPY : AA_MEM_BORROW)); for (auto &x : s) x = NAN; }
    std::string frame = a.tip; int how = (int)rng.range(0, 4); if (how == 1) aa_rx_ik_parm_set_frame(p, aa_rx_sg_frame_id(a.sg, frame.c_str())); bool jac = rng.coin(.1); aa_rx_ik_cx *cx = jac ? (aa_rx_ik_cx *)aa_rx_ik_jac_cx_create(a.ssg, p) : aa_rx_ik_cx_create(a.ssg, p); { aa_dvec *gs = aa_rx_ik_get_seed(cx); CHECK("seed-count", gs->len == a.nq, "a seed of %zu joints", gs->len); if (gs->len == a.nq) for (size_t i = 0; i < a.nq; i++) { double v = gs->data[i * gs->inc]; if (!ps.empty()) CHECK("seed-parm", v == ps[(size_t)aa_rx_sg_sub_config(a.ssg, i)], "the seed of the parameters is not used: joint %zu starts at %g", i, v); else CLOSE(pc ? "seed-parm-centre" : "seed-default", v, a.lim[i] ? (a.lo[i] + a.hi[i]) / 2 : 0, 1e-14); } } if (how == 2) aa_rx_ik_set_frame_name(cx, frame.c_str()); if (how == 3) aa_rx_ik_set_frame_id(cx, aa_rx_sg_frame_id(a.sg, frame.c_str()));
    Buf qt(a.nq), seed(a.nq), q(a.nq * 3), q2(a.nq); if (st) { a.start(rng); aa_dvec vs = AA_DVEC_INIT(a.na, a.qstart.data(), 1); LIB(aa_rx_ik_set_start(cx, &vs)); }
    int reps = (int)rng.range(1, 3); for (int rep = 0; rep < reps; rep++) { for (size_t i = 0; i < a.nq; i++) qt[i] = a.frac(rng, i); bool reach = rng.coin(0.8); TF T = a.fk(qt, frame); if (!reach) T.p = T.p + V3{{rng.uni(-5, 5), rng.uni(-5, 5), rng.uni(-5, 5)}}; double E[7]; pose7(T, E); if (rng.coin()) for (int i = 0; i < 4; i++) E[i] = -E[i];
        int sk = (int)rng.range(0, 4); bool inlim = true, moved = false; if (sk == 0) { LIB(aa_rx_ik_set_seed_center(cx)); } else if (sk == 1) { LIB(aa_rx_ik_set_seed_rand(cx)); } else { for (size_t i = 0; i < a.nq; i++) { seed[i] = sk == 2 ? qt[i] : sk == 3 ? qt[i] + rng.uni(-0.05, 0.05) : a.frac(rng, i); if (sk == 3 && a.lim[i]) seed[i] = std::max(a.lo[i], std::min(a.hi[i], seed[i])); } if (rng.coin(0.1)) { size_t i = (size_t)rng.range(0, (long)a.nq - 1); seed[i] += rng.uni(-9, 9); moved = true; } for (size_t i = 0; i < a.nq; i++) if (a.lim[i] && (seed[i] < a.lo[i] || seed[i] > a.hi[i])) inlim = false; aa_dvec v = AA_DVEC_INIT(a.nq, seed.p, 1); LIB(aa_rx_ik_set_seed(cx, &v)); }
        aa_dvec *cs = aa_rx_ik_get_seed(cx); std::vector<double> s0(cs->data, cs->data + a.nq); if (sk <= 1) for (size_t i = 0; i < a.nq; i++) { if (a.lim[i]) CHECK("seed-limits", s0[i] >= a.lo[i] && s0[i] <= a.hi[i], "seed %g outside [%g,%g]", s0[i], a.lo[i], a.hi[i]); if (sk == 0) CLOSE("seed-centre", s0[i], a.lim[i] ? (a.lo[i] + a.hi[i]) / 2 : 0, 1e-15 * 8); }
        double rt = rng.coin(0.1) ? 0.004 : 0; aa_rx_ik_set_restart_time(cx, rt); CHECK("restart-time", aa_rx_ik_get_restart_time(cx) == rt, "restart time not kept"); size_t inc = jp ? 1 : (size_t)rng.range(1, 3); aa_dvec vq = AA_DVEC_INIT(a.nq, q.p, inc); for (size_t i = 0; i < a.nq * 3; i++) q[i] = NAN; size_t ld = (size_t)rng.range(7, 9); aa_dmat mT = AA_DMAT_INIT(7, 1, E, ld); note("%s %s joints %zu root '%s' seed kind %d tol %g %g rep %d", jp ? "jpinv" : "sqp", o.name, a.nq, a.root.c_str(), sk, ta, tt, rep);
        int r; LIB(r = aa_rx_ik_solve(cx, &mT, &vq)); distinct(fnv(q.p, a.nq * 8)); std::vector<double> qv(a.nq); for (size_t i = 0; i < a.nq; i++) qv[i] = q[i * inc]; for (size_t i = 0; i < (a.nq - 1) * inc + 1; i++) if (i % inc) CHECK("pad", std::isnan(q[i]), "entries between elements of q written"); CHECK("seed-kept", !memcmp(s0.data(), cs->data, a.nq * 8), "solving changed the seed"); if (st) CHECK("start-kept", !memcmp(a.qstart.data(), aa_rx_ik_get_start(cx)->data, a.na * 8), "solving changed the start");
        double th, x; perr(a.fk(qv.data(), frame), TF{rot(q4(E)), v3(E + 4)}, &th, &x); double sl = 1e-12 * a.scale() + 1e-9 * (ta + tt);
        if (r == 0) { count("solved"); CHECK("claimed-angle", th <= ta + sl, "claimed a solution with angle error %g above %g", th, ta); CHECK("claimed-trans", x <= tt + sl, "claimed a solution with position error %g above %g", x, tt); for (size_t i = 0; i < a.nq; i++) if (a.lim[i]) CHECK("claimed-limits", qv[i] >= a.lo[i] - 1e-9 && qv[i] <= a.hi[i] + 1e-9, "solution %.17g of joint %zu outside its limits [%.17g,%.17g]%s", qv[i], i, a.lo[i], a.hi[i], inlim ? "" : " (seed was outside)"); }
        else { count("unsolved"); CHECK("status", (r & AA_RX_NO_IK), "failure reported as %d", r); if (!jp) CHECK("false-failure", !(th < ta - sl && x < tt - sl) , "returned %d for a configuration within tolerance", r); if (sk == 2 && inlim && o.kind <= 1 && reach && !centred && !moved) fail("seed-solution", "started at a solution and returned %d (err %g %g)", r, th, x); event(); if (sk == 3 && inlim && o.kind <= 1 && reach) count("unsolved from nearby"); } if (sk == 3 && inlim && o.kind <= 1 && reach) count("nearby");
        // the check function agrees with the model, on this and on arbitrary configurations
        for (int k = 0; k < 3; k++) { for (size_t i = 0; i < a.nq; i++) q2[i] = k == 0 ? qv[i] : k == 1 ? qt[i] + (rng.coin() ? 0 : rng.sgn() * rng.logu(-6, -1)) : a.frac(rng, i); aa_dvec v = AA_DVEC_INIT(a.nq, q2.p, 1); int c; LIB(c = aa_rx_ik_check(cx, &mT, &v)); perr(a.fk(q2, frame), TF{rot(q4(E)), v3(E + 4)}, &th, &x); if (fabs(th - ta) < sl || fabs(x - tt) < sl || std::isnan(th) || std::isnan(x)) continue; bool ok = th < ta && x < tt; CHECK("check", (c == 0) == ok, "check returned %d for errors %g %g (tolerances %g %g)", c, th, x, ta, tt); if (c) CHECK("check-code", c & AA_RX_NO_IK, "check failed with %d", c); }
        if (rt == 0 && rng.coin(0.3)) { Buf q3(a.nq); int r3; if (rng.coin()) { aa_dvec v3_ = AA_DVEC_INIT(a.nq, q3.p, 1); LIB(r3 = aa_rx_ik_solve(cx, &mT, &v3_)); } else { if (rng.coin()) { LIB(r3 = aa_rx_ik_jac_solve((aa_rx_ik_jac_cx *)cx, 1, E, 7, a.nq, q3)); } else { LIB(r3 = aa_rx_ik_jac_fun(cx, 1, E, 7, a.nq, q3)); } } CHECK("repeat", r3 == r && !memcmp(q3.p, qv.data(), a.nq * 8), "solving again from the same seed gave a different result"); }
        // invalid parameters
        if (rng.coin(0.3)) { Buf big(a.nq + 1), E2(14); memcpy(E2.p, E, 56); memcpy(E2.p + 7, E, 56); aa_dvec vb = AA_DVEC_INIT(a.nq + 1, big.p, 1); int e; LIB(e = aa_rx_ik_solve(cx, &mT, &vb)); CHECK("bad-q", e & AA_RX_INVALID_PARAMETER, "returned %d for a wrong number of joints", e); aa_dmat m2 = AA_DMAT_INIT(7, 2, E2.p, 7), m6 = AA_DMAT_INIT(6, 1, E, 7); aa_dvec vg = AA_DVEC_INIT(a.nq, big.p, 1); LIB(e = aa_rx_ik_solve(cx, &m2, &vg)); CHECK("bad-cols", e & AA_RX_INVALID_PARAMETER, "returned %d for two targets", e); LIB(e = aa_rx_ik_solve(cx, &m6, &vg)); CHECK("bad-rows", e & AA_RX_INVALID_PARAMETER, "returned %d for a target of 6 rows", e); } }
    if (jac) aa_rx_ik_jac_cx_destroy((aa_rx_ik_jac_cx *)cx); else aa_rx_ik_cx_destroy(cx);
    aa_rx_ik_parm_destroy(p);
}
SECTION(restart, 300, 5000) {
    // restarting from random seeds finds what other seeds find, and ends when its time is up
    fresh_region(rng); Arm a(rng, (size_t)rng.range(1, rng.coin(.01) ? 14 : 7), false); if (a.nq == 0) return; bool jp = rng.coin(.3); aa_rx_ik_parm *p = aa_rx_ik_parm_create(); if (jp) { aa_rx_ik_parm_set_algo(p, AA_RX_IK_JPINV); aa_rx_ik_parm_set_tol_dq(p, 1e-4); aa_rx_ik_parm_set_dt(p, .3); } aa_rx_ik_parm_set_max_iterations(p, (size_t)rng.range(20, 120)); aa_rx_ik_cx *cx = aa_rx_ik_cx_create(a.ssg, p); if (rng.coin()) { a.start(rng); aa_dvec vs = AA_DVEC_INIT(a.na, a.qstart.data(), 1); aa_rx_ik_set_start(cx, &vs); }
    Buf qt(a.nq), q(a.nq), seed(a.nq), bad(a.nq); for (size_t i = 0; i < a.nq; i++) qt[i] = a.frac(rng, i); bool far = rng.coin(.25); for (size_t i = 0; i < a.nq; i++) far = far && a.lim[i]; TF T = a.fk(qt, a.tip); if (far) T.p[0] += 40; double E[7]; pose7(T, E); aa_dmat mT = AA_DMAT_INIT(7, 1, E, 7); aa_dvec vq = AA_DVEC_INIT(a.nq, q.p, 1), vseed = AA_DVEC_INIT(a.nq, seed.p, 1), vbad = AA_DVEC_INIT(a.nq, bad.p, 1); note("%s, %zu joints%s", jp ? "jpinv" : "sqp", a.nq, far ? ", out of reach" : ""); distinct(fnv(qt.p, 8 * a.nq));
    auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; };
    if (far) { double t = rng.logu(-4, -1.5); aa_rx_ik_set_restart_time(cx, t); double t0 = now(); int r; LIB(r = aa_rx_ik_solve(cx, &mT, &vq)); double e = now() - t0; CHECK("restart-far", r & AA_RX_NO_IK, "solved a pose out of reach (%d)", r); CHECK("restart-short", e >= t * .99, "gave up after %g s of %g s", e, t); CHECK("restart-long", e < t + 20, "tried %g s instead of %g s", e, t); count("restarts_out_of_reach"); }
    else { int good = 0; bool have = false; for (int k = 0; k < 24; k++) { for (size_t i = 0; i < a.nq; i++) seed[i] = rng.uni(a.lo[i], a.hi[i]); aa_rx_ik_set_seed(cx, &vseed); int r; LIB(r = aa_rx_ik_solve(cx, &mT, &vq)); if (r == 0) good++; else { have = true; memcpy(bad.p, seed.p, 8 * a.nq); } }
        if (have && good >= 4) { aa_rx_ik_set_seed(cx, &vbad); aa_rx_ik_set_restart_time(cx, 12); int r; LIB(r = aa_rx_ik_solve(cx, &mT, &vq)); CHECK("restart", r == 0, "%d of 24 seeds lead to a solution, but restarting for 12 s does not (%d)", good, r); if (r == 0) { double th, x; perr(a.fk(q, a.tip), T, &th, &x); CHECK("restart-solution", th < .11 * M_PI / 180 && x < .11e-3, "solution off by %g and %g", th, x); } CHECK("restart-seed", !memcmp(aa_rx_ik_get_seed(cx)->data, bad.p, 8 * a.nq), "restarting changed the seed"); count("restarts_solved"); } }
    aa_rx_ik_cx_destroy(cx); aa_rx_ik_parm_destroy(p);
}
SECTION(leak, 600, 12000) {
    Arm a(rng, (size_t)rng.range(1, 6), false); if (a.nq == 0) return; aa_mem_region_local_init(65536); Buf q(a.nq); std::vector<double> tmp(a.na, 0.1); auto once = [&]() { aa_rx_ik_parm *p = aa_rx_ik_parm_create(); aa_rx_ik_parm_center_configs(p, a.ssg, 0.1); aa_rx_ik_parm_center_seed(p, a.ssg); if (rng.coin()) aa_rx_ik_parm_take_seed(p, a.na, tmp.data(), AA_MEM_COPY); if (rng.coin()) { double *h = AA_NEW_AR(double, a.nq); memset(h, 0, a.nq * 8); aa_rx_ik_parm_take_config(p, a.nq, h, AA_MEM_STEAL); } if (rng.coin()) aa_rx_ik_parm_take_gain_config(p, a.nq, tmp.data(), AA_MEM_BORROW); if (rng.coin()) aa_rx_ik_parm_set_frame(p, aa_rx_sg_frame_id(a.sg, a.tip.c_str())); aa_rx_ik_cx *cx = aa_rx_ik_cx_create(a.ssg, p); if (rng.coin()) aa_rx_ik_set_frame_name(cx, a.tip.c_str()); double E[7]; for (size_t i = 0; i < a.nq; i++) q[i] = a.frac(rng, i); pose7(a.fk(q, a.tip), E); aa_dmat m = AA_DMAT_INIT(7, 1, E, 7); aa_dvec v = AA_DVEC_INIT(a.nq, q.p, 1); aa_rx_ik_solve(cx, &m, &v); aa_rx_ik_check(cx, &m, &v); aa_rx_ik_cx_destroy(cx); aa_rx_ik_parm_destroy(p); };
    once(); aa_mem_region_local_init(65536); size_t b = __sanitizer_get_current_allocated_bytes(); once(); size_t e = __sanitizer_get_current_allocated_bytes(); note("joints %zu", a.nq); distinct(fnv(q.p, a.nq * 8)); CHECK("leak", e == b, "%ld bytes still allocated after destroying an IK context and its parameters", (long)(e - b));
}
SECTION(x2dq, 20000, 300000) {
    // the local step achieves the commanded workspace velocity whenever the Jacobian is well conditioned
    fresh_region(rng); size_t n = (size_t)rng.range(6, 9); std::unique_ptr<Arm> arm; if (rng.coin(0.25)) { arm.reset(new Arm(rng, (size_t)rng.range(6, 10), false)); if (arm->nq < 6) return; n = arm->nq; } Buf J(6 * n), q(n), dq(n), ref(n), gain(n), dx(6); for (size_t i = 0; i < 6 * n; i++) J[i] = rng.uni(-1, 1) + (i % 6 == i / 6 ? 3 : 0); for (size_t i = 0; i < n; i++) { q[i] = rng.uni(-3, 3); ref[i] = rng.uni(-3, 3); gain[i] = rng.uni(0, 1); } bool np = rng.coin(), useref = rng.coin(); aa_rx_ik_parm *p = aa_rx_ik_parm_create(); double ka = rng.uni(0.1, 3), kt = rng.uni(0.1, 3); aa_rx_ik_parm_set_gain_angle(p, ka); aa_rx_ik_parm_set_gain_trans(p, kt); aa_rx_ik_parm_set_s2min(p, 1e-6); if (arm) { double g = rng.uni(0.01, 2); LIB(aa_rx_ik_parm_center_configs(p, arm->ssg, g)); np = true; for (size_t i = 0; i < n; i++) { ref[i] = arm->lim[i] ? (arm->lo[i] + arm->hi[i]) / 2 : 0; gain[i] = arm->lim[i] ? g * 2 * M_PI / (arm->hi[i] - arm->lo[i]) : 0; } if (rng.coin(0.2)) arm.reset(); } else if (np) { aa_rx_ik_parm_take_config(p, n, ref, AA_MEM_COPY); aa_rx_ik_parm_take_gain_config(p, n, gain, AA_MEM_COPY); }
    Pose A = rpose(rng, 2), B = rng.coin(0.1) ? A : rpose(rng, 2); double Ea[7], Eb[7]; memcpy(Ea, A.q, 32); memcpy(Ea + 4, A.p, 24); memcpy(Eb, B.q, 32); memcpy(Eb + 4, B.p, 24); for (int i = 0; i < 6; i++) dx[(size_t)i] = rng.uni(-1, 1); note("n=%zu nullspace %d", n, np); distinct(fnv(J.p, 48 * n));
    int r; LIB(r = aa_rx_ik_jac_x2dq(p, n, q, Ea, Eb, useref ? dx.p : nullptr, J, dq)); CHECK("x2dq-status", r == 0, "returned %d", r); double w[6]; for (int i = 0; i < 6; i++) w[i] = useref ? dx[(size_t)i] : 0; 
    // expected workspace velocity: the logarithm (half the twist) of the motion from the reference to the actual pose
    TF D = A.T() * inv(B.T()); Q4 qd = matq(D.R); if (fabsl(qd[3]) < 1e-3L) { aa_rx_ik_parm_destroy(p); return; } V3 om = selog_w(D), vv = selog_v(D); V3 pa = A.T().p; V3 lin = vv + cross(om, pa); double ex[6]; for (int i = 0; i < 3; i++) { ex[i] = w[i] - kt * (double)lin[i] / 2; ex[3 + i] = w[3 + i] - ka * (double)om[i] / 2; }
    double sc = 1 + A.ps() + B.ps();
    for (int i = 0; i < 6; i++) { L s = 0; for (size_t j = 0; j < n; j++) s += (L)J[j * 6 + (size_t)i] * dq[j]; CLOSE("x2dq", (double)s, ex[i], 1e-10 * sc * sc * 30); }
    { // the component in the null space of J is the projected centring motion
        // verified by projecting: v = dq - dqnull must be orthogonal to the null space, i.e. J^T y = dq - dqnull for some y
        std::vector<double> v(n); for (size_t i = 0; i < n; i++) v[i] = dq[i] + (np ? gain[i] * (q[i] - ref[i]) : 0); Buf Jc(6 * n), Js(6 * n); (void)Jc; std::vector<L> G(36), y(6), b(6); for (int i = 0; i < 6; i++) { for (int k = 0; k < 6; k++) for (size_t j = 0; j < n; j++) G[(size_t)(i * 6 + k)] += (L)J[j * 6 + (size_t)i] * J[j * 6 + (size_t)k]; for (size_t j = 0; j < n; j++) b[(size_t)i] += (L)J[j * 6 + (size_t)i] * v[j]; } for (int i = 0; i < 6; i++) { int pv = i; for (int k = i + 1; k < 6; k++) if (fabsl(G[(size_t)(k * 6 + i)]) > fabsl(G[(size_t)(pv * 6 + i)])) pv = k; for (int k = 0; k < 6; k++) std::swap(G[(size_t)(i * 6 + k)], G[(size_t)(pv * 6 + k)]); std::swap(b[(size_t)i], b[(size_t)pv]); for (int k = i + 1; k < 6; k++) { L f = G[(size_t)(k * 6 + i)] / G[(size_t)(i * 6 + i)]; for (int c = i; c < 6; c++) G[(size_t)(k * 6 + c)] -= f * G[(size_t)(i * 6 + c)]; b[(size_t)k] -= f * b[(size_t)i]; } } for (int i = 5; i >= 0; i--) { L s = b[(size_t)i]; for (int k = i + 1; k < 6; k++) s -= G[(size_t)(i * 6 + k)] * y[(size_t)k]; y[(size_t)i] = s / G[(size_t)(i * 6 + i)]; } for (size_t j = 0; j < n; j++) { L s = 0; for (int i = 0; i < 6; i++) s += (L)J[j * 6 + (size_t)i] * y[(size_t)i]; CLOSE("x2dq-nullspace", v[j], (double)s, 1e-9 * sc * sc * 30); } }
    aa_rx_ik_parm_destroy(p);
}
VK_MAIN
