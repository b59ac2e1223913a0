// C09: exponentials, logarithms, angles and their derivatives, at every angle.
#include "tfref.hpp"
using namespace vk;
namespace {
struct DQ { Q4 r, d; };
// general quaternion exponential / logarithm in long double, analytic near zero
L sincl(L t) { if (fabsl(t) < 1e-2L) { L a = t * t; return 1 - a / 6 * (1 - a / 20 * (1 - a / 42 * (1 - a / 72))); } return sinl(t) / t; }
Q4 qexp(Q4 q) { L t = norm(qvec(q)), e = expl(q[3]); V3 v = (e * sincl(t)) * qvec(q); return {{v[0], v[1], v[2], e * cosl(t)}}; }
L asinc(L s, L c) { // atan2(s,c)/s for s>=0, s^2+c^2=n^2 (phi/s)
    L p = atan2l(s, c), n = sqrtl(s * s + c * c);
    if (p < 1e-2L) { L a = p * p; return (1 + a / 6 + 7 * a * a / 360 + 31 * a * a * a / 15120 + 127 * a * a * a * a / 604800) / n; }
    return p / s;
}
Q4 qln(Q4 q) { V3 v = qvec(q); L s = norm(v); V3 r = asinc(s, q[3]) * v; return {{r[0], r[1], r[2], logl(norm(q))}}; }
template<class F> auto ddir(F f, L h) { // 6th order central difference of f at 0
    auto a = f(h), b = f(-h), c = f(2 * h), d = f(-2 * h), e = f(3 * h), g = f(-3 * h);
    return (1 / (60 * h)) * (45.0L * (a - b) - 9.0L * (c - d) + (e - g));
}
DQ dq(const double *s) { return {q4(s), q4(s + 4)}; }
// dual functions by differentiation along the dual part
Q4 along(Q4 (*f)(Q4), Q4 r, Q4 d) { L n = norm(d); if (n == 0) return {{0, 0, 0, 0}}; Q4 u = (1 / n) * d; return n * ddir([&](L t) { return f(r + t * u); }, 1e-3L); }
double amax(const double *v, int n) { double m = 0; for (int i = 0; i < n; i++) m = std::max(m, std::fabs(v[i])); return m; }
void halfvec(Rng &r, double *w, L &n, int &k) { n = rangle(r, k); if (r.coin(0.15)) n = (L)r.uni(0, 12); V3 d = rdir(r); for (int i = 0; i < 3; i++) w[i] = (double)(n * d[i]); }
}
SECTION(quat, 60000, 1500000) {
    L n; int kind; Buf w(3); halfvec(rng, w, n, kind);
    note("w=%s (%.17Lg)", vstr(w, 3).c_str(), n); distinct((uint64_t)kind * 100000 + (uint64_t)((double)n * 2000));
    Q4 E = qexpv(v3(w)); const double t = 1e-14;
    { Buf e(4), z(4); for (int i = 0; i < 3; i++) z[i] = w[i]; double s = rng.coin() ? 0 : rng.uni(-2, 2); z[3] = s; aa_tf_qexp(z, e); NEARM("qexp", q4(e), (L)expl(s) * E, t * exp(s) * (1 + (double)n)); }
    // logarithm of a quaternion of any magnitude and either sign
    { double k = rng.coin(0.5) ? 1 : rng.logu(-3, 3); Buf q(4), l(4); Pose P = rpose(rng); for (int i = 0; i < 4; i++) q[i] = k * P.q[i];
      Q4 Q = q4(q); L s = norm(qvec(Q));
      if (!(s == 0 && q[3] < 0)) {
          aa_tf_qln(q, l); NEARM("qln", q4(l), qln(Q), 4e-14 * (1 + std::fabs(log(k))));
          Buf b(4); aa_tf_qexp(l, b); NEARM("qexp-qln", q4(b), Q, 1e-13 * k * (1 + std::fabs(log(k)))); }
      CLOSE("qangle", aa_tf_qangle(P.q), (double)atan2l(norm(qvec(q4(P.q))), P.q[3]), 1e-14);
    }
    { Pose P = rpose(rng), R = rpose(rng); if (rng.coin(0.3)) { L m; int kk; Buf x(3); halfvec(rng, x, m, kk); if (rng.coin()) m *= 1e-9L; Q4 z = qm(qexpv(v3(x)), P.Q()); for (int i = 0; i < 4; i++) R.q[i] = (double)z[i]; }
      Q4 A = q4(P.q), B = q4(R.q); Q4 d = qm(qc(A), B); L sv = norm(qvec(d));
      CLOSE("qangle_rel", aa_tf_qangle_rel(P.q, R.q), (double)atan2l(sv, fabsl(d[3])), 1e-14);
      CLOSE("quhypangle2", aa_tf_quhypangle2(P.q, R.q), (double)(2 * atan2l(norm(A - B), norm(A + B))), 1e-14);
      // spherical interpolation: the constant-speed short arc
      L h = fabsl(dot(A, B));
      if (h > 1e-4L) { double tau = rng.coin(0.3) ? (double)rng.range(0, 1) : rng.uni(0, 1); Q4 W = slerp(tau, qunit(A), qunit(B)); Buf x(4);
        aa_tf_qslerp(tau, P.q, R.q, x); NEARPM("qslerp", q4(x), W, 1e-12); CLOSE("qslerp-unit", (double)norm(q4(x)), 1, 1e-12);
        aa_tf_qslerpalg(tau, P.q, R.q, x); NEARPM("qslerpalg", q4(x), W, 1e-12); CLOSE("qslerpalg-unit", (double)norm(q4(x)), 1, 1e-13); }
    }
    { double th = (double)n * rng.sgn(), sc, c; aa_tf_sinccos(th, &sc, &c); CLOSE("sinccos-s", sc, (double)sincl(th), 1e-15); CLOSE("sinccos-c", c, (double)cosl(th), 1e-15);
      aa_tf_sinccos2(th * th, &sc, &c); CLOSE("sinccos2-s", sc, (double)sincl(th), 1e-14); CLOSE("sinccos2-c", c, (double)cosl(th), 1e-14 * (1 + (double)n)); CLOSE("sinc", aa_tf_sinc(th), (double)sincl(th), 1e-15); }
}
SECTION(pose, 50000, 1200000) {
    L n; int kind; Buf w(3), dv(3); halfvec(rng, w, n, kind); rpos(rng, dv); double ps = 1 + amax(dv, 3) ;
    note("w=%s dv=%s", vstr(w, 3).c_str(), vstr(dv, 3).c_str()); distinct((uint64_t)kind * 100000 + (uint64_t)((double)n * 2000));
    const double t = 1e-13 * ps * (1 + (double)n);
    auto dtf = [](const double *s) { DQ d = dq(s); L n2 = dot(d.r, d.r); return TF{rot(d.r), (2 / n2) * qvec(qm(d.d, qc(d.r)))}; };
    // half-angle exponentials (quaternion-translation and dual quaternion)
    TF H = tfexp(2.0L * v3(dv), 2.0L * v3(w)); Q4 E = qexpv(v3(w));
    { Buf q(4), v(3); aa_tf_qv_expv(w, dv, q, v); NEARM("qv_expv-q", q4(q), E, 1e-14 * (1 + (double)n)); NEARM("qv_expv-v", v3(v), H.p, t); 
      Buf x(6), e(7); for (int i = 0; i < 3; i++) { x[AA_TF_DX_W + i] = w[i]; x[AA_TF_DX_V + i] = dv[i]; } aa_tf_qutr_expv(x, e); NEARM("qutr_expv-q", q4(e), E, 1e-14 * (1 + (double)n)); NEARM("qutr_expv-v", v3(e + 4), H.p, t); }
    { Buf z(8), e(8); for (int i = 0; i < 3; i++) { z[i] = w[i]; z[4 + i] = dv[i]; } z[3] = z[7] = 0; aa_tf_duqu_exp(z, e); NEARM("duqu_exp", dtf(e), H, t); NEARM("duqu_exp-q", q4(e), E, 1e-14 * (1 + (double)n));
      if (rng.coin(0.3)) { z[3] = rng.uni(-1, 1); z[7] = rng.uni(-1, 1); if (rng.coin(0.2)) z[3] = 0; else if (rng.coin(0.2)) z[7] = 0; Buf g(8); aa_tf_duqu_exp(z, g); L er = expl(z[3]); Q4 R = er * q4(e), D = er * q4(e + 4) + (er * z[7]) * q4(e); NEARM("duqu_exp-scalar-real", q4(g), R, 1e-13); NEARM("duqu_exp-scalar-dual", q4(g + 4), D, 1e-13 * ps); } }
    // full-angle exponentials of matrices: twist order (v, w)
    { Buf R(9), T(12), x(6); aa_tf_rotmat_expv(w, R); NEARM("rotmat_expv", m3(R), rotexp(v3(w)), 2e-14 * (1 + (double)n)); for (int i = 0; i < 3; i++) { x[i] = dv[i]; x[3 + i] = w[i]; } aa_tf_tfmat_expv(x, T); NEARM("tfmat_expv", tf12(T), tfexp(v3(dv), v3(w)), t + 1e-11 * ps);
      if (n > 0) { Buf a(4); for (int i = 0; i < 3; i++) a[i] = (double)(w[i] / norm(v3(w))); a[3] = (double)norm(v3(w)); aa_tf_rotmat_exp_aa(a, R); NEARM("rotmat_exp_aa", m3(R), rotaa(v3(a), a[3]), 2e-14 * (1 + (double)n)); } }
    // logarithms invert the exponentials
    { Pose P = rpose(rng); TF A = P.T(); L s = norm(qvec(q4(P.q))), phi = atan2l(s, P.q[3]);
      if (!(s < 1e-6L && P.q[3] < 0)) {
          double amp = s < 1e-9L ? 1 : (double)(phi / s); double tl = 2e-13 * P.ps() * (1 + amp);
          Buf lw(3), lv(3); aa_tf_qv_lnv(P.q, P.p, lw, lv); NEARM("qv_lnv-w", v3(lw), qvec(qln(q4(P.q))), 1e-13);
          NEARM("qv_lnv", tfexp(2.0L * v3(lv), 2.0L * v3(lw)), A, tl);
          Buf e(7), x(6); memcpy(e.p, P.q, 32); memcpy(e + 4, P.p, 24); aa_tf_qutr_lnv(e, x); NEARM("qutr_lnv", tfexp(2.0L * v3(x + AA_TF_DX_V), 2.0L * v3(x + AA_TF_DX_W)), A, tl);
          Q4 D = 0.5L * qm(qv(A.p), q4(P.q)); Buf S(8), l(8); memcpy(S.p, P.q, 32); for (int i = 0; i < 4; i++) S[4 + i] = (double)D[i];
          aa_tf_duqu_ln(S, l); NEARM("duqu_ln", tfexp(2.0L * v3(l + 4), 2.0L * v3(l)), A, tl); CLOSE("duqu_ln-scalar", l[3], 0, 1e-14); CLOSE("duqu_ln-dualscalar", l[7], 0, 1e-14 * P.ps());
          aa_tf_duqu_lnv(S, x); NEARM("duqu_lnv", tfexp(2.0L * v3(x + AA_TF_DX_V), 2.0L * v3(x + AA_TF_DX_W)), A, tl);
          Buf b(8); aa_tf_duqu_exp(l, b); NEARM("duqu_exp-ln", dtf(b), A, tl); }
      Buf T(12), x(6), r(3), R(9); tofm(A, T); memcpy(R.p, T.p, 72); aa_tf_rotmat_lnv(R, r); 
      double tm = P.angle < 3 ? 2e-12 : 2e-11; NEARM("rotmat_lnv", rotexp(v3(r)), A.R, tm);
      aa_tf_tfmat_lnv(T, x); NEARM("tfmat_lnv", tfexp(v3(x), v3(x + 3)), A, tm * P.ps() * 50); }
}
// derivatives
SECTION(jac, 20000, 400000) {
    int kind; L ang = rangle(rng, kind); if (ang > 2.7L) ang = 2.7L * (L)rng.u01(); V3 ax = rdir(rng); double k = rng.coin() ? 1 : rng.uni(0.5, 2);
    Q4 Q0 = (L)k * qexpv(ang * ax); Buf S(8); for (int i = 0; i < 4; i++) { S[i] = (double)Q0[i]; S[4 + i] = rng.uni(-1, 1) * (rng.coin(0.2) ? 10 : 1); } Q4 Q = q4(S), D = q4(S + 4);
    note("S=%s angle=%.17Lg", vstr(S, 8).c_str(), ang); distinct((uint64_t)kind * 100000 + (uint64_t)((double)ang * 2000));
    double ds = 1 + amax(S + 4, 4);
    { size_t ld = 4 + (size_t)rng.range(0, 2); Buf M(ld * 4); for (size_t i = 0; i < ld * 4; i++) M[i] = 777; struct aa_dmat J; aa_dmat_view(&J, 4, 4, M, ld); aa_tf_qln_jac(S, &J);
      for (int c = 0; c < 4; c++) { Q4 e{{0, 0, 0, 0}}; e[c] = 1; Q4 w = ddir([&](L t) { return qln(Q + t * e); }, 2e-3L); NEARM("qln_jac", q4(M + ld * c), w, 1e-9); for (size_t i = 4; i < ld; i++) CHECK("qln_jac-pad", M[ld * c + i] == 777, "padding overwritten"); } }
    { size_t ld = 8 + (size_t)rng.range(0, 2); Buf M(ld * 8); for (size_t i = 0; i < ld * 8; i++) M[i] = 777; struct aa_dmat J; aa_dmat_view(&J, 8, 8, M, ld); aa_tf_duqu_ln_jac(S, &J);
      for (int c = 0; c < 8; c++) { Q4 e{{0, 0, 0, 0}}; e[c % 4] = 1; Q4 wr, wd;
        if (c < 4) { wr = ddir([&](L t) { return qln(Q + t * e); }, 2e-3L);
            // derivative of the dual part Dln(Q)[D] with respect to Q along e
            wd = ddir([&](L t) { Q4 B = Q + t * e; return ddir([&](L u) { return qln(B + u * D); }, 2e-3L / (L)ds); }, 2e-3L); }
        else { wr = Q4{{0, 0, 0, 0}}; wd = ddir([&](L t) { return qln(Q + t * e); }, 2e-3L); }
        NEARM("duqu_ln_jac-real", q4(M + ld * c), wr, 1e-9); NEARM("duqu_ln_jac-dual", q4(M + ld * c + 4), wd, 1e-8 * ds); for (size_t i = 8; i < ld; i++) CHECK("duqu_ln_jac-pad", M[ld * c + i] == 777, "padding overwritten"); } }
    // unit logarithm along the sphere
    { Q4 U = qexpv(ang * ax); V3 w{{(L)rng.uni(-2, 2), (L)rng.uni(-2, 2), (L)rng.uni(-2, 2)}}; Q4 dU = 0.5L * qm(qv(w), U); Buf q(4), d(4), o(3); for (int i = 0; i < 4; i++) { q[i] = (double)U[i]; d[i] = (double)dU[i]; }
      V3 want = ddir([&](L t) { return qvec(qln(qm(qexpv((0.5L * t) * w), q4(q)))); }, 2e-3L);
      aa_tf_qduln(q, d, o); NEARM("qduln", v3(o), want, 1e-9); if (ang > 1e-4L) { o.wipe(); aa_tf_qdulnj(q, d, o); NEARM("qdulnj", v3(o), want, 1e-9); } }
    { Buf e(3), de(3), o(4); L m = rng.coin(0.8) ? ang : (L)rng.uni(0, 8); for (int i = 0; i < 3; i++) { e[i] = (double)(m * ax[i]); de[i] = rng.uni(-2, 2); }
      Q4 want = ddir([&](L t) { V3 z = v3(e) + t * v3(de); return qexp(qv(z)); }, 1e-3L);
      aa_tf_qdpexp(e, de, o); NEARM("qdpexp", q4(o), want, 1e-9); o.wipe(); aa_tf_qdpexpj(e, de, o); NEARM("qdpexpj", q4(o), want, 1e-9); }
}
VK_MAIN
