// C10: velocities, derivatives, twists and integration describe the same motion in every representation.
#include "reg.hpp"
#include "tfref.hpp"
using namespace vk;
namespace {
template<class F> auto ddir(F f, L h) {
    auto a = f(h), b = f(-h), c = f(2 * h), d = f(-2 * h), e = f(3 * h), g = f(-3 * h);
    return (1 / (60 * h)) * (45.0L * (a - b) - 9.0L * (c - d) + (e - g));
}
double amax(const double *v, int n) { double m = 0; for (int i = 0; i < n; i++) m = std::max(m, std::fabs(v[i])); return m; }
void rvel(Rng &r, double *w, int n) { double s = r.coin(0.15) ? 0 : r.coin(0.4) ? r.logu(-12, 1) : r.uni(0, 3); for (int i = 0; i < n; i++) w[i] = s * r.uni(-1, 1); }
TF qtf(const double *q, const double *v) { return {rot(q4(q)), v3(v)}; }
TF dtf(const double *s) { Q4 r = q4(s), d = q4(s + 4); return {rot(r), (2 / dot(r, r)) * qvec(qm(d, qc(r)))}; }
}
SECTION(velocity, 60000, 1500000) {
    Pose P = rpose(rng); Buf dx(6), dt_(1); rvel(rng, dx, 3); rvel(rng, dx + 3, 3); double dt = rng.coin(0.1) ? 0 : rng.coin(0.3) ? rng.logu(-9, 0) : rng.uni(-1, 2);
    V3 V = v3(dx + AA_TF_DX_V), W = v3(dx + AA_TF_DX_W); Q4 Q = q4(P.q); V3 X = v3(P.p); M3 R = rot(Q);
    note("q=%s p=%s dx=%s dt=%g", vstr(P.q, 4).c_str(), vstr(P.p, 3).c_str(), vstr(dx, 6).c_str(), dt);
    distinct((uint64_t)P.kind * 4096 + (uint64_t)(P.angle * 50) * 65536 + (uint64_t)(amax(dx, 6) > 0 ? 20 + log10(amax(dx, 6)) : 0) * 64 + (uint64_t)(dt == 0 ? 0 : 20 + log10(fabs(dt))));
    double ws = 1 + amax(dx + 3, 3), vs = 1 + amax(dx, 3), t = 1e-13 * P.ps() * (ws + vs);
    double e7[7], s8[8]; memcpy(e7, P.q, 32); memcpy(e7 + 4, P.p, 24); memcpy(s8, P.q, 32); Q4 D = 0.5L * qm(qv(X), Q); for (int i = 0; i < 4; i++) s8[4 + i] = (double)D[i];
    Buf E(e7, 7), S(s8, 8), T(12); tofm(TF{R, X}, T);
    // quaternion
    Q4 dQ = 0.5L * qm(qv(W), Q); Buf dq(4), w(3);
    aa_tf_qvel2diff(P.q, dx + AA_TF_DX_W, dq); NEARM("qvel2diff", q4(dq), dQ, 1e-14 * ws); aa_tf_qdiff2vel(P.q, dq, w); NEARM("qdiff2vel", v3(w), W, 4e-14 * ws);
    // rotation and transformation matrices
    { Buf dR(9), dT(12), o(6); aa_tf_rotmat_vel2diff(T, dx + AA_TF_DX_W, dR); NEARM("rotmat_vel2diff", m3(dR), skew(W) * R, 1e-14 * ws); aa_tf_rotmat_diff2vel(T, dR, w); NEARM("rotmat_diff2vel", v3(w), W, 4e-14 * ws);
      (void)dT; (void)o; }
    // quaternion-translation
    { Buf dE(7), o(6), tw(3), tv(3), a(3), b(3); aa_tf_qutr_vel2diff(E, dx, dE); NEARM("qutr_vel2diff-q", q4(dE), dQ, 1e-14 * ws); NEARM("qutr_vel2diff-v", v3(dE + 4), V, 0); aa_tf_qutr_diff2vel(E, dE, o); CLOSEV("qutr_diff2vel", o, dx, 6, 4e-14 * (ws + vs));
      aa_tf_qv_vel2twist(P.q, P.p, dx + AA_TF_DX_W, dx + AA_TF_DX_V, tw, tv); NEARM("qv_vel2twist-w", v3(tw), W, 0); NEARM("qv_vel2twist-v", v3(tv), V + cross(X, W), t);
      aa_tf_qv_twist2vel(P.q, P.p, tw, tv, a, b); NEARM("qv_twist2vel-w", v3(a), W, 0); NEARM("qv_twist2vel-v", v3(b), V, t);
      Buf x6(6); for (int i = 0; i < 3; i++) { x6[AA_TF_DX_W + i] = tw[i]; x6[AA_TF_DX_V + i] = tv[i]; } o.wipe(); aa_tf_qutr_twist2vel(E, x6, o); CLOSEV("qutr_twist2vel", o, dx, 6, t); }
    // dual quaternion
    Q4 dD = 0.5L * (qm(qv(V), Q) + qm(qv(X), dQ));
    { Buf tw(8), dS(8), o(6), t2(8); aa_tf_duqu_vel2twist(S, dx, tw); NEARM("duqu_vel2twist", v3(tw + 4), V + cross(X, W), t); NEARM("duqu_vel2twist-w", v3(tw), W, 0); CHECK("duqu_vel2twist-scalar", tw[3] == 0 && tw[7] == 0, "scalar parts %g %g", tw[3], tw[7]);
      aa_tf_duqu_twist2vel(S, tw, o); CLOSEV("duqu_twist2vel", o, dx, 6, t);
      aa_tf_duqu_twist2diff(S, tw, dS); NEARM("duqu_twist2diff-real", q4(dS), dQ, t); NEARM("duqu_twist2diff-dual", q4(dS + 4), dD, t);
      dS.wipe(); aa_tf_duqu_vel2diff(S, dx, dS); NEARM("duqu_vel2diff-real", q4(dS), dQ, t); NEARM("duqu_vel2diff-dual", q4(dS + 4), dD, t);
      o.wipe(); aa_tf_duqu_diff2vel(S, dS, o); CLOSEV("duqu_diff2vel", o, dx, 6, 4 * t); aa_tf_duqu_diff2twist(S, dS, t2); CLOSEV("duqu_diff2twist", t2, tw, 8, 4 * t * P.ps());
      // integration: the pose moves with constant twist
      V3 TV = V + cross(X, W); TF M = tfexp((L)dt * TV, (L)dt * W) * TF{R, X}; double ti = 1e-12 * P.ps() * P.ps() * (ws + vs) * (1 + fabs(dt)) * (1 + fabs(dt)) * ws;
      Buf q1(4), e1(7), s1(8), R1(9), T1(12);
      M3 MR = rotexp((L)dt * W) * R;
      aa_tf_qsvel(P.q, dx + AA_TF_DX_W, dt, q1); NEARM("qsvel", q4(q1), qm(qexpv((0.5L * dt) * W), Q), 1e-13 * ws * (1 + fabs(dt))); q1.wipe(); aa_tf_qsdiff(P.q, dq, dt, q1); NEARM("qsdiff", rot(q4(q1)), MR, 1e-13 * ws * (1 + fabs(dt)));
      aa_tf_rotmat_svel(T, dx + AA_TF_DX_W, dt, R1); NEARM("rotmat_svel", m3(R1), MR, 1e-13 * ws * (1 + fabs(dt)));
      aa_tf_qutr_svel(E, dx, dt, e1); NEARM("qutr_svel", qtf(e1, e1 + 4), M, ti); Buf dE(7); aa_tf_qutr_vel2diff(E, dx, dE); e1.wipe(); aa_tf_qutr_sdiff(E, dE, dt, e1); NEARM("qutr_sdiff", qtf(e1, e1 + 4), M, ti);
      aa_tf_duqu_svel(S, dx, dt, s1); NEARM("duqu_svel", dtf(s1), M, ti); s1.wipe(); aa_tf_duqu_stwist(S, tw, dt, s1); NEARM("duqu_stwist", dtf(s1), M, ti); s1.wipe(); aa_tf_duqu_sdiff(S, dS, dt, s1); NEARM("duqu_sdiff", dtf(s1), M, ti);
      aa_tf_tfmat_svel(T, dx, dt, T1); NEARM("tfmat_svel", tf12(T1), M, 10 * ti); }
    // Jacobian map vel -> diff, arbitrary number of columns
    { fresh_region(rng); size_t n = (size_t)rng.range(1, 7), ldv = 6 + (size_t)rng.range(0, 2), lds = 8 + (size_t)rng.range(0, 2); Buf Jv(ldv * n), Js(lds * n); for (size_t i = 0; i < ldv * n; i++) Jv[i] = rng.uni(-1, 1); for (size_t i = 0; i < lds * n; i++) Js[i] = 777;
      struct aa_dmat A, B; aa_dmat_view(&A, 6, n, Jv, ldv); aa_dmat_view(&B, 8, n, Js, lds); LIB(aa_tf_duqu_jac_vel2diff(S, &A, &B));
      for (size_t c = 0; c < n; c++) { V3 v = v3(Jv + ldv * c + AA_TF_DX_V), o = v3(Jv + ldv * c + AA_TF_DX_W); Q4 r = 0.5L * qm(qv(o), Q), d = 0.5L * (qm(qv(v), Q) + qm(qv(X), r)); NEARM("jac_vel2diff-real", q4(Js + lds * c), r, 1e-13 * P.ps()); NEARM("jac_vel2diff-dual", q4(Js + lds * c + 4), d, 1e-13 * P.ps()); for (size_t i = 8; i < lds; i++) CHECK("jac_vel2diff-pad", Js[lds * c + i] == 777, "padding overwritten"); } }
}
// approximate integrators stay within their order
SECTION(integrate, 6000, 120000) {
    Pose P = rpose(rng); Buf w(3), a(3), q1(4); rvel(rng, w, 3); rvel(rng, a, 3); double dt = rng.uni(0, 0.2); if (rng.coin(0.1)) dt = 0; V3 W = v3(w); L n = norm(W) * dt; Q4 Q = q4(P.q), X = qm(qexpv((0.5L * dt) * W), Q);
    note("q=%s w=%s a=%s dt=%g", vstr(P.q, 4).c_str(), vstr(w, 3).c_str(), vstr(a, 3).c_str(), dt); distinct(fnv(w.p, 24));
    Buf dq(4); for (int i = 0; i < 4; i++) dq[i] = rng.uni(-1, 1); aa_tf_qrk1(P.q, dq, dt, q1); { Q4 z = Q + (L)dt * q4(dq); double m = std::min(md(q4(q1), z), md(q4(q1), qunit(z))); CHECK("qrk1", m <= 1e-14, "off by %g", m); }
    aa_tf_qvelrk1(P.q, w, dt, q1); NEARM("qvelrk1", q4(q1), X, (double)(n * n) + 1e-14); q1.wipe(); aa_tf_qvelrk4(P.q, w, dt, q1); NEARM("qvelrk4", q4(q1), X, (double)(n * n * n * n * n) / 32 / 60 + 1e-14);
    // acceleration parallel to velocity: exact
    { double k = rng.uni(-2, 2); Buf ap(3); for (int i = 0; i < 3; i++) ap[i] = k * w[i]; L th = dt + 0.5L * k * dt * dt; aa_tf_qsacc(P.q, w, ap, dt, q1); NEARM("qsacc", q4(q1), qm(qexpv((0.5L * th) * W), Q), 1e-13); }
    // general: third order in dt
    { V3 A = v3(a); L c = norm(cross(W, A)); L err = c * dt * dt * dt; // reference by fine midpoint steps
      Q4 Z = Q; const int N = 200; for (int i = 0; i < N; i++) { L tm = dt * (i + 0.5L) / N; Z = qm(qexpv((0.5L * dt / N) * (W + tm * A)), Z); }
      aa_tf_qsacc(P.q, w, a, dt, q1); NEARM("qsacc-general", q4(q1), Z, (double)(0.2L * err) + 1e-6 * (double)(err) + 1e-12);
      if (st().caseno % 16 == 0) { q1.wipe(); aa_tf_qsacc_rk(P.q, w, a, dt, q1); NEARM("qsacc_rk", q4(q1), Z, 1e-4 * (1 + (double)norm(A)) * dt * dt + 1e-11); } }
}
SECTION(slerp, 30000, 800000) {
    Pose P = rpose(rng), R = rpose(rng); Q4 A = P.Q(), B = R.Q(); double tau = rng.coin(0.3) ? (double)rng.range(0, 1) : rng.uni(0, 1);
    if (rng.coin(0.2)) { B = qm(qexpv((L)rng.logu(-9, -1) * rdir(rng)), A); if (rng.coin()) B = -1.0L * B; }
    double qa[4], qb[4]; for (int i = 0; i < 4; i++) { qa[i] = (double)A[i]; qb[i] = (double)B[i]; } A = q4(qa); B = q4(qb); A = qunit(A); B = qunit(B);
    L h = dot(A, B); if (fabsl(h) < 1e-3L) return; L th = acosl(std::min(1.0L, fabsl(h)));
    note("a=%s b=%s tau=%g", vstr(qa, 4).c_str(), vstr(qb, 4).c_str(), tau); distinct((uint64_t)((double)th * 1000) * 64 + (h < 0) + 2 * (uint64_t)(tau * 10));
    Q4 want = ddir([&](L s) { return slerp((L)tau + s, A, B); }, 1e-2L); Buf x(4);
    aa_tf_qslerpdiff(tau, qa, qb, x); NEARM("qslerpdiff", q4(x), want, 1e-11); x.wipe(); aa_tf_qslerpdiffalg(tau, qa, qb, x); NEARM("qslerpdiffalg", q4(x), want, 1e-11);
    // chained: both end points move
    V3 wa{{(L)rng.uni(-1, 1), (L)rng.uni(-1, 1), (L)rng.uni(-1, 1)}}, wb{{(L)rng.uni(-1, 1), (L)rng.uni(-1, 1), (L)rng.uni(-1, 1)}}; double du = rng.uni(-2, 2); Buf da(4), db(4), q(4), dq(4); Q4 dA = 0.5L * qm(qv(wa), A), dB = 0.5L * qm(qv(wb), B); for (int i = 0; i < 4; i++) { da[i] = (double)dA[i]; db[i] = (double)dB[i]; }
    if (th > 0.02L && fabsl(h) > 0.05L) {
        aa_tf_qslerpchaindiff(tau, du, qa, da, qb, db, q, dq);
        NEARM("qslerpchaindiff-q", q4(q), slerp(tau, A, B), 1e-12);
        want = ddir([&](L s) { return slerp((L)tau + s * du, qm(qexpv((0.5L * s) * wa), A), qm(qexpv((0.5L * s) * wb), B)); }, 1e-3L);
        NEARM("qslerpchaindiff", q4(dq), want, 1e-9); }
    if (rng.coin(0.1)) { double sg = rng.sgn(); Buf b(4); for (int i = 0; i < 4; i++) b[i] = sg * qa[i]; aa_tf_qslerpchaindiff(tau, du, qa, da, b, da, q, dq); NEARM("qslerpchaindiff-same", q4(q), A, 1e-12); if (sg > 0) NEARM("qslerpchaindiff-same-d", q4(dq), dA, 1e-9); }
    // triad of interpolations
    { Pose C = rpose(rng), D = rpose(rng); Q4 Cq = C.Q(), Dq = D.Q(); double u1 = rng.uni(0, 1), u3 = rng.uni(0, 1), d1 = rng.uni(-1, 1), d3 = rng.uni(-1, 1); L hc = fabsl(dot(Cq, Dq));
      Q4 m1 = slerp(u1, A, B), m3_ = slerp(u3, Cq, Dq); L hm = fabsl(dot(m1, m3_));
      if (hc > 0.01L && hm > 0.05L && hm < 0.9998L) { aa_tf_qslerp3diff(u1, d1, qa, qb, u3, d3, C.q, D.q, tau, du, q, dq); NEARM("qslerp3diff-q", q4(q), slerp(tau, m1, slerp(u3, q4(C.q), q4(D.q))), 1e-11);
        want = ddir([&](L s) { return slerp((L)tau + s * du, slerp((L)u1 + s * d1, A, B), slerp((L)u3 + s * d3, Cq, Dq)); }, 1e-3L); NEARM("qslerp3diff", q4(dq), want, 1e-8); } }
}
SECTION(rotvec, 30000, 600000) {
    int kind; L n = rangle(rng, kind); if (rng.coin(0.2)) n = (L)rng.uni(0, 6); V3 a = rdir(rng); Buf v(3), dv(3), w(3); for (int i = 0; i < 3; i++) { v[i] = (double)(n * a[i]); dv[i] = rng.uni(-2, 2); }
    note("v=%s dv=%s", vstr(v, 3).c_str(), vstr(dv, 3).c_str()); distinct((uint64_t)kind * 100000 + (uint64_t)((double)n * 2000));
    Q4 q = qexpv(0.5L * v3(v)); Q4 dq = ddir([&](L t) { return qexpv(0.5L * (v3(v) + t * v3(dv))); }, 1e-3L); V3 want = 2.0L * qvec(qm(dq, qc(q)));
    aa_tf_rotvec_diff2vel(v, dv, w); NEARM("rotvec_diff2vel", v3(w), want, 1e-9);
}
VK_MAIN
