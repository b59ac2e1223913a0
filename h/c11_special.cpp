// C11: Euler angles, Denavit-Hartenberg, planar transforms, look-at, averages and constructions from vectors.
#include "reg.hpp"
#include "tfref.hpp"
using namespace vk;
namespace {
double amax(const double *v, int n) { double m = 0; for (int i = 0; i < n; i++) m = std::max(m, std::fabs(v[i])); return m; }
M3 axr(int a, L t) { V3 v{{0, 0, 0}}; v[a] = 1; L s = sinl(t), c = cosl(t); M3 K = skew(v); return eye3() + s * K + (1 - c) * (K * K); }
double rang(Rng &r) { switch (r.range(0, 4)) { case 0: return M_PI / 2 * (double)r.range(-4, 4); case 1: return r.sgn() * r.logu(-12, -2); case 2: return r.uni(-12, 12); default: return r.uni(-M_PI, M_PI); } }
TF qtf(const double *q, const double *v) { return {rot(q4(q)), v3(v)}; }
TF dtf(const double *s) { Q4 r = q4(s), d = q4(s + 4); return {rot(r), (2 / dot(r, r)) * qvec(qm(d, qc(r)))}; }
typedef void (*eulm)(double, double, double, double *); 
struct Eul { const char *n; eulm m, q; };
#define EU(x) { #x, aa_tf_euler##x##2rotmat, aa_tf_euler##x##2quat }
const Eul eul[] = { EU(xyz), EU(xzy), EU(yxz), EU(yzx), EU(zyx), EU(zxy), EU(xyx), EU(xzx), EU(yxy), EU(yzy), EU(zxz), EU(zyz) };
aa_tf_cmplx cx(double a, double b) { aa_tf_cmplx c; __real__ c = a; __imag__ c = b; return c; }
typedef std::array<L, 2> C2;
C2 cm(C2 a, C2 b) { return {a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]}; }
C2 c2(aa_tf_cmplx c) { return {(L)__real__ c, (L)__imag__ c}; }
double cd(C2 a, C2 b) { double x = (double)fabsl(a[0] - b[0]), y = (double)fabsl(a[1] - b[1]); return x != x || y != y ? NAN : std::max(x, y); }
#define NEARC(key, a, b, tol) do { double _d = cd(a, b); CHECK(key, _d <= (tol), "%s is off by %.3g", #a, _d); } while (0)
double wrap(L d) { d = fmodl(d, 2 * M_PIl); if (d > M_PIl) d -= 2 * M_PIl; if (d < -M_PIl) d += 2 * M_PIl; return (double)fabsl(d); }
// largest eigenvalue of a symmetric 4x4 by Jacobi
L maxeig(L A[4][4]) { for (int s = 0; s < 60; s++) for (int p = 0; p < 4; p++) for (int q = p + 1; q < 4; q++) { if (fabsl(A[p][q]) < 1e-30L) continue; L th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), sn = t * c;
    for (int k = 0; k < 4; k++) { L x = A[k][p], y = A[k][q]; A[k][p] = c * x - sn * y; A[k][q] = sn * x + c * y; } for (int k = 0; k < 4; k++) { L x = A[p][k], y = A[q][k]; A[p][k] = c * x - sn * y; A[q][k] = sn * x + c * y; } }
    L m = A[0][0]; for (int i = 1; i < 4; i++) m = std::max(m, A[i][i]); return m; }
}
SECTION(euler, 40000, 1000000) {
    double a = rang(rng), b = rang(rng), c = rang(rng); note("angles %.17g %.17g %.17g", a, b, c); distinct((uint64_t)((a + 13) * 8) * 90000 + (uint64_t)((b + 13) * 8) * 300 + (uint64_t)((c + 13) * 8));
    for (auto &e : eul) { M3 W = axr(e.n[0] - 'x', a) * axr(e.n[1] - 'x', b) * axr(e.n[2] - 'x', c); Buf R(9), q(4); e.m(a, b, c, R); std::string k = std::string("euler") + e.n; double t = 4e-15 * (1 + fabs(a) + fabs(b) + fabs(c)); NEARM((k + "2rotmat").c_str(), m3(R), W, t);
        e.q(a, b, c, q); NEARM((k + "2quat").c_str(), rot(q4(q)), W, 4 * t); CLOSE((k + "2quat-unit").c_str(), (double)norm(q4(q)), 1, 1e-14); }
    // and back, away from gimbal lock; always finite
    Pose P = rpose(rng); if (rng.coin(0.3)) { M3 G = axr(2, a) * axr(1, rng.sgn() * M_PIl / 2) * axr(0, c); Buf g(9); tomat(G, g); aa_tf_rotmat2quat(g, P.q); }
    Buf R(9), e(3), f(3); M3 RR = rot(q4(P.q)); tomat(RR, R); aa_tf_rotmat2eulerzyx(R, e); aa_tf_quat2eulerzyx(P.q, f);
    note("q=%s", vstr(P.q, 4).c_str());
    for (int i = 0; i < 3; i++) { CHECK("rotmat2eulerzyx-finite", std::isfinite(e[i]), "e[%d]=%g", i, e[i]); CHECK("quat2eulerzyx-finite", std::isfinite(f[i]), "e[%d]=%g", i, f[i]); }
    if (fabsl(RR(2, 0)) < 1 - 1e-8L) { double amp = (double)(1 / sqrtl(1 - RR(2, 0) * RR(2, 0))); NEARM("rotmat2eulerzyx", axr(2, e[0]) * axr(1, e[1]) * axr(0, e[2]), RR, 1e-14 * (1 + amp)); NEARM("quat2eulerzyx", axr(2, f[0]) * axr(1, f[1]) * axr(0, f[2]), RR, 1e-14 * (1 + amp)); CHECK("eulerzyx-range", fabs(e[1]) <= M_PI / 2 + 1e-15 && fabs(f[1]) <= M_PI / 2 + 1e-15, "pitch %g %g", e[1], f[1]); }
}
SECTION(dh, 30000, 800000) {
    double al = rang(rng), phi = rang(rng), a = rng.coin(0.2) ? 0 : rng.uni(-3, 3), d = rng.coin(0.2) ? 0 : rng.uni(-3, 3);
    note("alpha=%.17g a=%g d=%g phi=%.17g", al, a, d, phi); distinct((uint64_t)((al + 13) * 20) * 1000 + (uint64_t)((phi + 13) * 20));
    TF RX{axr(0, al), {{0, 0, 0}}}, TX{eye3(), {{(L)a, 0, 0}}}, RZ{axr(2, phi), {{0, 0, 0}}}, TZ{eye3(), {{0, 0, (L)d}}}; TF prox = RX * TX * RZ * TZ, dist = RZ * TZ * RX * TX;
    const double t = 1e-13; Buf T(12), S(8), E(7), q(4), v(3);
    aa_tf_dhprox2tfmat(al, a, d, phi, T); NEARM("dhprox2tfmat", tf12(T), prox, t); aa_tf_dhprox2duqu(al, a, d, phi, S); NEARM("dhprox2duqu", dtf(S), prox, t); CLOSE("dhprox2duqu-unit", (double)norm(q4(S)), 1, 1e-14); aa_tf_dhprox2qutr(al, a, d, phi, E); NEARM("dhprox2qutr", qtf(E, E + 4), prox, t); aa_tf_dhprox2qv(al, a, d, phi, q, v); NEARM("dhprox2qv", qtf(q, v), prox, t);
    aa_tf_dhdist2tfmat(al, a, d, phi, T); NEARM("dhdist2tfmat", tf12(T), dist, t); aa_tf_dhdist2duqu(al, a, d, phi, S); NEARM("dhdist2duqu", dtf(S), dist, t); CLOSE("dhdist2duqu-unit", (double)norm(q4(S)), 1, 1e-14); aa_tf_dhdist2qutr(al, a, d, phi, E); NEARM("dhdist2qutr", qtf(E, E + 4), dist, t); aa_tf_dhdist2qv(al, a, d, phi, q, v); NEARM("dhdist2qv", qtf(q, v), dist, t);
}
SECTION(planar, 30000, 800000) {
    double a = rang(rng), b = rang(rng); Buf va(2), vb(2), p(2); for (int i = 0; i < 2; i++) { va[i] = rng.uni(-2, 2); vb[i] = rng.uni(-2, 2); p[i] = rng.uni(-2, 2); }
    note("a=%.17g b=%.17g", a, b); distinct((uint64_t)((a + 13) * 100) * 3000 + (uint64_t)((b + 13) * 100));
    C2 A{cosl(a), sinl(a)}, B{cosl(b), sinl(b)}, P{p[0], p[1]}, VA{va[0], va[1]}, VB{vb[0], vb[1]}; const double t = 2e-14; auto add = [](C2 x, C2 y) { return C2{x[0] + y[0], x[1] + y[1]}; };
    aa_tf_cmplx ca = aa_tf_angle2cmplx(a), cb = aa_tf_angle2cmplx(b); NEARC("angle2cmplx", c2(ca), A, t); NEARC("cpexp", c2(aa_tf_cpexp(a)), A, t);
    Buf Ra(4), Rb(4), R(4); auto col = [](const double *m) { return C2{m[0], m[1]}; }; auto okm = [&](const double *m, C2 w) { return std::max(std::max(fabs(m[0] - (double)w[0]), fabs(m[1] - (double)w[1])), std::max(fabs(m[2] + (double)w[1]), fabs(m[3] - (double)w[0]))); }; (void)col;
    aa_tf_angle2rotmatp(a, Ra); CHECK("angle2rotmatp", okm(Ra, A) <= t, "off by %g", okm(Ra, A)); aa_tf_rotmatp_pexp(b, Rb); CHECK("rotmatp_pexp", okm(Rb, B) <= t, "off by %g", okm(Rb, B));
    aa_tf_cmplx2rotmatp(ca, R); CHECK("cmplx2rotmatp", okm(R, A) <= t, "wrong"); NEARC("rotmatp2cmplx", c2(aa_tf_rotmatp2cmplx(Ra)), A, t);
    double w = wrap((L)aa_tf_cmplx2angle(ca) - a); CHECK("cmplx2angle", w <= 1e-14 * (1 + fabs(a)), "off %g", w); w = wrap((L)aa_tf_rotmatp2angle(Ra) - a); CHECK("rotmatp2angle", w <= 1e-14 * (1 + fabs(a)), "off %g", w);
    w = wrap((L)aa_tf_culn(ca) - a); CHECK("culn", w <= 1e-14 * (1 + fabs(a)), "off %g", w); w = wrap((L)aa_tf_rotmatp_uln(Ra) - a); CHECK("rotmatp_uln", w <= 1e-14 * (1 + fabs(a)), "off %g", w);
    NEARC("cmul", c2(aa_tf_cmul(ca, cb)), cm(A, B), t); aa_tf_rotmatp_mul(Ra, Rb, R); CHECK("rotmatp_mul", okm(R, cm(A, B)) <= t, "wrong"); NEARC("cconj", c2(aa_tf_cconj(ca)), (C2{A[0], -A[1]}), t); aa_tf_rotmatp_inv2(Ra, R); CHECK("rotmatp_inv2", okm(R, C2{A[0], -A[1]}) <= t, "wrong");
    NEARC("crot", c2(aa_tf_crot(ca, cx(p[0], p[1]))), cm(A, P), t); NEARC("rotmatp_rot", c2(aa_tf_rotmatp_rot(Ra, cx(p[0], p[1]))), cm(A, P), t);
    C2 AP = add(cm(A, P), VA); NEARC("cv_tf", c2(aa_tf_cv_tf(ca, cx(va[0], va[1]), cx(p[0], p[1]))), AP, t);
    Buf Ta(6), Tb(6), T(6); aa_tf_cv2tfmatp(ca, cx(va[0], va[1]), Ta); aa_tf_cv2tfmatp(cb, cx(vb[0], vb[1]), Tb); CHECK("cv2tfmatp", okm(Ta, A) <= t && Ta[4] == va[0] && Ta[5] == va[1], "wrong"); NEARC("tfmatp_tf", c2(aa_tf_tfmatp_tf(Ta, cx(p[0], p[1]))), AP, t);
    aa_tf_cmplx rc; aa_tf_vec2 rv; aa_tf_tfmatp2cv(Ta, &rc, &rv); NEARC("tfmatp2cv-c", c2(rc), A, t); NEARC("tfmatp2cv-v", c2(rv), VA, 0);
    C2 AB = cm(A, B), VAB = add(cm(A, VB), VA); aa_tf_cv_mul(ca, cx(va[0], va[1]), cb, cx(vb[0], vb[1]), &rc, &rv); NEARC("cv_mul-c", c2(rc), AB, t); NEARC("cv_mul-v", c2(rv), VAB, t); aa_tf_tfmatp_mul(Ta, Tb, T); CHECK("tfmatp_mul", okm(T, AB) <= t, "wrong"); NEARC("tfmatp_mul-v", (C2{T[4], T[5]}), VAB, t);
    C2 Ai{A[0], -A[1]}, Vi = cm(Ai, C2{-VA[0], -VA[1]}); aa_tf_cv_inv(ca, cx(va[0], va[1]), &rc, &rv); NEARC("cv_inv-c", c2(rc), Ai, t); NEARC("cv_inv-v", c2(rv), Vi, t); aa_tf_tfmatp_inv2(Ta, T); CHECK("tfmatp_inv2", okm(T, Ai) <= t, "wrong"); NEARC("tfmatp_inv2-v", (C2{T[4], T[5]}), Vi, t);
    // two-link inverse kinematics
    { double l[2] = {rng.uni(0.3, 2), rng.uni(0.3, 2)}, t1 = rng.uni(-M_PI, M_PI), t2 = rng.uni(-M_PI, M_PI), x[2] = {l[0] * cos(t1) + l[1] * cos(t2), l[0] * sin(t1) + l[1] * sin(t2)}, ta[2], tb[2]; int r = aa_kin_planar2_ik_theta2(l, x, ta, tb);
      bool ok = fabs(l[0] * cos(ta[0]) + l[1] * cos(ta[1]) - x[0]) < 2e-3 && fabs(l[0] * sin(ta[0]) + l[1] * sin(ta[1]) - x[1]) < 2e-3 && fabs(l[0] * cos(tb[0]) + l[1] * cos(tb[1]) - x[0]) < 2e-3 && fabs(l[0] * sin(tb[0]) + l[1] * sin(tb[1]) - x[1]) < 2e-3;
      if (0 == r) CHECK("planar_ik-lies", ok, "reported success but missed: l=%g,%g x=%g,%g", l[0], l[1], x[0], x[1]);
      double el = sin(t1 - t2), rr = hypot(x[0], x[1]); if (fabs(el) > 0.05 && fabs(x[1]) > 0.05 && rr > 0.1) CHECK("planar_ik", r == 0, "no solution for a reachable target l=%g,%g x=%g,%g", l[0], l[1], x[0], x[1]);
      double far[2] = {3 * (l[0] + l[1]), 1}; CHECK("planar_ik-unreachable", aa_kin_planar2_ik_theta2(l, far, ta, tb) != 0, "reported success for an unreachable target"); }
}
SECTION(vectors, 40000, 1000000) {
    // rotation taking one direction to another
    V3 a = rdir(rng), b; switch (rng.range(0, 4)) { case 0: b = a; break; case 1: b = -1.0L * a; break; case 2: b = rotexp((L)rng.logu(-16, -1) * rdir(rng)) * a; break; case 3: b = -1.0L * (rotexp((L)rng.logu(-16, -1) * rdir(rng)) * a); break; default: b = rdir(rng); }
    double su = rng.coin(0.5) ? 1 : rng.logu(-6, 6), sv = rng.coin(0.5) ? 1 : rng.logu(-6, 6); Buf u(3), v(3), q(4); for (int i = 0; i < 3; i++) { u[i] = su * (double)a[i]; v[i] = sv * (double)b[i]; }
    V3 A = (1 / norm(v3(u))) * v3(u), B = (1 / norm(v3(v))) * v3(v); L s = norm(cross(A, B)), c = dot(A, B), ang = atan2l(s, c);
    note("u=%s v=%s angle %.17Lg", vstr(u, 3).c_str(), vstr(v, 3).c_str(), ang); distinct((uint64_t)((double)ang * 3000) * 100 + (uint64_t)(log10(su) + 7) * 10 + (s == 0) + 2 * (c < 0) + 4 * (uint64_t)(s > 0 ? -log10l(s) : 20) * 1000000);
    aa_tf_vecs2quat(u, v, q); double tol = c < 0 ? 1e-6 : 4e-14; if (c < 0 && s > 1e-6L) tol = 1e-13 * (1 + (double)(1 / s));
    NEARM("vecs2quat", rot(q4(q)) * A, B, tol); CLOSE("vecs2quat-unit", (double)norm(q4(q)), 1, 1e-14); CLOSE("vecs2quat-min", (double)(2 * atan2l(norm(qvec(q4(q))), fabs(q[3]))), (double)ang, 2 * tol + 1e-14);
    // frames from two axes
    { V3 d1 = rdir(rng), e = rdir(rng); V3 d2 = e - dot(e, d1) * d1; L n = norm(d2); if (n > 0.05L) { d2 = (1 / n) * d2; V3 d3 = cross(d1, d2); double k1 = rng.uni(0.1, 5), k2 = rng.uni(0.1, 5); Buf x(3), y(3), R(9); for (int i = 0; i < 3; i++) { x[i] = k1 * (double)d1[i]; y[i] = k2 * (double)d2[i]; }
        auto want = [&](int i) { M3 m; V3 cc[3] = {d1, d2, d3}; for (int k = 0; k < 3; k++) for (int r = 0; r < 3; r++) m(r, (i + k) % 3) = cc[k][r]; return m; };
        aa_tf_rotmat_xy(x, y, R); NEARM("rotmat_xy", m3(R), want(0), 1e-14); aa_tf_rotmat_yz(x, y, R); NEARM("rotmat_yz", m3(R), want(1), 1e-14); aa_tf_rotmat_zx(x, y, R); NEARM("rotmat_zx", m3(R), want(2), 1e-14); } }
    // look-at
    { Buf eye(3), tgt(3), up(3); rpos(rng, eye); double ds = rng.logu(-2, 2); V3 dir = rdir(rng), upd = rdir(rng); for (int i = 0; i < 3; i++) { tgt[i] = eye[i] + ds * (double)dir[i]; up[i] = (double)upd[i] * 2; } V3 D = v3(tgt) - v3(eye); L dn = norm(D); D = (1 / dn) * D; L sx = norm(cross(D, upd)); double es = (1 + amax(eye, 3)) / (double)dn;
      if (sx > 0.05L) { V3 Z = -1.0L * D, X = cross(upd, Z); X = (1 / norm(X)) * X; V3 Y = cross(Z, X); M3 W; for (int r = 0; r < 3; r++) { W(r, 0) = X[r]; W(r, 1) = Y[r]; W(r, 2) = Z[r]; } double t = 1e-13 * (1 + es) * 20;
        Buf R(9), T(12), qq(4), vv(3), E(7); aa_tf_rotmat_mzlook(eye, tgt, up, R); NEARM("rotmat_mzlook", m3(R), W, t); aa_tf_tfmat_mzlook(eye, tgt, up, T); NEARM("tfmat_mzlook", tf12(T), (TF{W, v3(eye)}), t); aa_tf_qmzlook(eye, tgt, up, qq); NEARM("qmzlook", rot(q4(qq)), W, t); aa_tf_qv_mzlook(eye, tgt, up, qq, vv); NEARM("qv_mzlook", qtf(qq, vv), (TF{W, v3(eye)}), t); aa_tf_qutr_mzlook(eye, tgt, up, E); NEARM("qutr_mzlook", qtf(E, E + 4), (TF{W, v3(eye)}), t); } }
    { Buf r(3), nr(3), o(3); int kk; L ang2 = rangle(rng, kk); V3 d = rdir(rng); for (int i = 0; i < 3; i++) { r[i] = (double)(ang2 * d[i]); nr[i] = r[i] * (1 + rng.range(-3, 3) * 2 * M_PI / std::max(1e-9, (double)ang2)) + rng.uni(-.2, .2); }
      if (ang2 > 1e-3L) { aa_tf_rotvec_near(r, nr, o); NEARM("rotvec_near", rotexp(v3(o)), rotexp(v3(r)), 1e-12); L best = 1e30L; for (int k = -12; k <= 12; k++) { V3 c3 = (1 + k * 2 * M_PIl / ang2) * v3(r); L e = norm(c3 - v3(nr)); best = std::min(best, e); } CHECK("rotvec_near-closest", norm(v3(o) - v3(nr)) <= best + 1e-9L, "not the nearest equivalent: %Lg vs %Lg", norm(v3(o) - v3(nr)), best); } }
}
SECTION(average, 6000, 150000) {
    fresh_region(rng); size_t n = (size_t)rng.range(1, rng.coin(.01) ? 200 : 12), ld = 7 + (size_t)rng.range(0, 3); Buf EE((n - 1) * ld + 7), w(n), p(4), a(7), M(16); double sw = 0; Pose C = rpose(rng); bool tight = rng.coin();
    for (size_t j = 0; j < n; j++) { Pose P = rpose(rng); Q4 q = tight ? qm(qexpv((L)rng.uni(0, 0.4) * rdir(rng)), C.Q()) : P.Q(); if (rng.coin(0.3)) q = -1.0L * q; for (int i = 0; i < 4; i++) EE[j * ld + i] = (double)q[i]; for (int i = 0; i < 3; i++) EE[j * ld + 4 + i] = rng.uni(-2, 2); w[j] = rng.uni(0.05, 1); sw += w[j]; } for (size_t j = 0; j < n; j++) w[j] /= sw;
    note("n=%zu ld=%zu tight=%d", n, ld, tight); distinct(n * 100 + ld * 2 + tight + st().caseno * 1000);
    bool even = rng.coin(0.4); L A[4][4] = {}, K[4][4]; for (size_t j = 0; j < n; j++) for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) A[x][y] += (even ? 1.0L / n : (L)w[j]) * EE[j * ld + x] * EE[j * ld + y]; memcpy(K, A, sizeof K); L lm = maxeig(K);
    aa_tf_quat_davenport_matrix(n, w, EE, ld, M); if (!even) for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) CLOSE("davenport_matrix", M[y * 4 + x], (double)A[x][y], 1e-13);
    LIB(aa_tf_quat_davenport(n, even ? NULL : w.p, EE, ld, p)); L v = 0; for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) v += A[x][y] * p[x] * p[y]; CLOSE("davenport-unit", (double)norm(q4(p)), 1, 1e-12); CHECK("davenport", v >= lm - 1e-11L, "average scores %Lg, the best quaternion scores %Lg", v, lm);
    if (!even) { LIB(aa_tf_qutr_wavg(n, w, EE, ld, a)); for (int i = 0; i < 3; i++) { L s = 0; for (size_t j = 0; j < n; j++) s += (L)w[j] * EE[j * ld + 4 + i]; CLOSE("qutr_wavg-v", a[4 + i], (double)s, 1e-12); } v = 0; for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) v += A[x][y] * a[x] * a[y]; CHECK("qutr_wavg-q", v >= lm - 1e-11L, "average scores %Lg, best %Lg", v, lm); }
    Buf r(7); aa_tf_qurand(p); CLOSE("qurand-unit", (double)norm(q4(p)), 1, 1e-13); aa_tf_qutr_rand(r); CLOSE("qutr_rand-unit", (double)norm(q4(r)), 1, 1e-13);
}
VK_MAIN
