// C07: conversions between rotation / transform representations denote the same motion.
#include "tfref.hpp"
using namespace vk;
extern "C" { void aa_tf_tfmat2qv(const double *, double *, double *); void aa_tf_axang_permute2(const double *, double *, double *); }
namespace {
const double T0 = 4e-14;
double wrapdiff(L a, L b) { L d = fmodl(a - b, 2 * M_PIl); if (d > M_PIl) d -= 2 * M_PIl; if (d < -M_PIl) d += 2 * M_PIl; return (double)fabsl(d); }
}
SECTION(rotation, 120000, 3000000) {
    Pose P = rpose(rng); M3 R = rot(q4(P.q));
    note("q=%s angle=%.17Lg", vstr(P.q, 4).c_str(), P.angle);
    distinct((uint64_t)P.kind * 1000003 + (uint64_t)(P.q[3] < 0) * 7 + (uint64_t)(P.q[0] == 0) + 2 * (P.q[1] == 0) + 4 * (P.q[2] == 0) + (uint64_t)((double)P.angle * 300) * 64);
    Buf q(P.q, 4);
    { Buf m(9); aa_tf_quat2rotmat(q, m); NEARM("quat2rotmat", m3(m), R, T0); CHECK("isrotmat", aa_tf_isrotmat(m), "a rotation matrix was rejected"); }
    Buf Rm(9); tomat(R, Rm);
    // rotmat -> quat: same rotation, unit, minimal
    { Buf x(4); aa_tf_rotmat2quat(Rm, x); NEARPM("rotmat2quat", q4(x), P.Q(), 1e-13); CLOSE("rotmat2quat-unit", (double)norm(q4(x)), 1, T0); CHECK("rotmat2quat-min", x[3] >= 0, "w=%g", x[3]); }
    // axis-angle
    { Buf a(4); aa_tf_quat2axang(q, a); V3 ax = v3(a);
      L n = norm(ax);
      if (n > 0) { CLOSE("quat2axang-axis", (double)n, 1, T0); NEARM("quat2axang", rotaa(ax, a[3]), R, 1e-13); }
      else CHECK("quat2axang-zero", md(R, eye3()) < 1e-15, "zero axis for a rotation by %Lg", P.angle);
      CHECK("quat2axang-range", a[3] >= 0 && a[3] <= 2 * M_PI + 1e-12, "angle %g", a[3]); }
    { Buf a(4); aa_tf_rotmat2axang(Rm, a); V3 ax = v3(a); L n = norm(ax);
      if (n > 0) { CLOSE("rotmat2axang-axis", (double)n, 1, T0); NEARM("rotmat2axang", rotaa(ax, a[3]), R, 2e-11); }
      else CHECK("rotmat2axang-zero", md(R, eye3()) < 1e-11, "zero axis for a rotation by %Lg", P.angle); }
    { double s, c; aa_tf_rotmat_sincos(Rm, &s, &c); L h = atan2l(norm(qvec(q4(P.q))), fabsl((L)P.q[3])); CLOSE("rotmat_sincos-s", s, (double)sinl(2 * h), 1e-15 + 4e-14); CLOSE("rotmat_sincos-c", c, (double)cosl(2 * h), 4e-14); CHECK("rotmat_sincos-sign", s >= 0, "sine %g of the angle between 0 and pi", s); }
    // rotation vector
    { Buf v(3); aa_tf_quat2rotvec(q, v); NEARM("quat2rotvec", rotexp(v3(v)), R, 1e-13); 
      L want = 2 * atan2l(norm(qvec(q4(P.q))), P.q[3]); if (norm(qvec(q4(P.q))) > 0) CLOSE("quat2rotvec-mag", (double)norm(v3(v)), (double)want, 1e-13);
      Buf w(3); aa_tf_rotmat2rotvec(Rm, w); NEARM("rotmat2rotvec", rotexp(v3(w)), R, 2e-11); CHECK("rotmat2rotvec-range", norm(v3(w)) <= M_PIl + 0.02L, "norm %Lg", norm(v3(w))); }
    { V3 d = rdir(rng); L k = P.angle; Buf v(3); for (int i = 0; i < 3; i++) v[i] = (double)(k * d[i]);
      M3 E = rotexp(v3(v));
      Buf x(4); aa_tf_rotvec2quat(v, x); NEARM("rotvec2quat", q4(x), qexpv(0.5L * v3(v)), T0);
      Buf m(9); aa_tf_rotvec2rotmat(v, m); NEARM("rotvec2rotmat", m3(m), E, T0);
      Buf a(4); aa_tf_rotvec2axang(v, a); if (norm(v3(a)) > 0) { NEARM("rotvec2axang", rotaa(v3(a), a[3]), E, T0); CLOSE("rotvec2axang-unit", (double)norm(v3(a)), 1, T0); CHECK("rotvec2axang-sign", a[3] >= 0, "angle %g", a[3]); } else CHECK("rotvec2axang-zero", norm(v3(v)) < 1e-15L, "zero axis"); }
    // axis angle with any angle
    { V3 d = rdir(rng); double ang = rng.coin(0.3) ? rng.uni(-20, 20) : (double)(rng.sgn() * P.angle);
      Buf a(4); for (int i = 0; i < 3; i++) a[i] = (double)d[i]; a[3] = ang; Buf ax(a.p, 3);
      M3 E = rotaa(v3(ax), ang); double tl = 1e-13;
      Buf x(4); aa_tf_axang2quat(a, x); NEARM("axang2quat", rot(q4(x)), E, tl); CLOSE("axang2quat-unit", (double)norm(q4(x)), 1, T0);
      Buf x2(4); aa_tf_axang2quat2(ax, ang, x2); NEARM("axang2quat2", q4(x2), q4(x), T0);
      Buf m(9); aa_tf_axang2rotmat(a, m); NEARM("axang2rotmat", m3(m), E, tl);
      Buf m2(9); aa_tf_axang2rotmat2(ax, ang, m2); NEARM("axang2rotmat2", m3(m2), E, tl);
      Buf rv(3); aa_tf_axang2rotvec(a, rv); NEARM("axang2rotvec", rotexp(v3(rv)), E, tl);
      Buf p(3), o(3); for (int i = 0; i < 3; i++) p[i] = P.p[i];
      aa_tf_axang_rot(a, p, o); NEARM("axang_rot", v3(o), E * v3(p), tl * P.ps());
      double s = rng.logu(-2, 2); Buf mk(4); aa_tf_axang_make(s * ax[0], s * ax[1], s * ax[2], ang, mk);
      CLOSE("axang_make-unit", (double)norm(v3(mk)), 1, T0); CHECK("axang_make-range", mk[3] >= 0 && mk[3] <= M_PI + 1e-12, "angle %g", mk[3]); NEARM("axang_make", rotaa(v3(mk), mk[3]), E, 1e-13);
      int k = (int)rng.range(-3, 3); Buf pm(4); aa_tf_axang_permute(a, k, pm); NEARM("axang_permute", rotaa(v3(pm), pm[3]), E, 1e-13); CLOSE("axang_permute-angle", pm[3], ang + 2 * M_PI * k, 1e-13 * (1 + std::fabs(pm[3])));
      Buf pp(4), pn(4); aa_tf_axang_permute2(a, pp, pn); CLOSE("axang_permute2", pp[3] - ang, 2 * M_PI, 1e-13); CLOSE("axang_permute2", ang - pn[3], 2 * M_PI, 1e-13);
      if (std::fabs(ang) > 1e-3) {
        Buf rp(3); aa_tf_rotvec_permute(rv, k, rp); NEARM("rotvec_permute", rotexp(v3(rp)), E, 1e-12);
        Buf near(3), nr(3); for (int i = 0; i < 3; i++) near[i] = rng.uni(-6, 6);
        Buf rvs(3); aa_tf_rotmat2rotvec(Rm, rvs); 
        aa_tf_rotvec_near(rv, near, nr); NEARM("rotvec_near", rotexp(v3(nr)), E, 1e-12);
        // no equivalent (within three turns) is closer
        L best = norm(v3(nr) - v3(near)); V3 u = (1 / norm(v3(rv))) * v3(rv);
        for (int j = -3; j <= 3; j++) { V3 c = v3(rv) + (2 * M_PIl * j) * u; CHECK("rotvec_near-min", best <= norm(c - v3(near)) + 1e-9L, "an equivalent vector is closer (%Lg < %Lg)", norm(c - v3(near)), best); }
        Buf nq(3); if (P.angle > 1e-3L) { aa_tf_quat2rotvec_near(q, near, nq); NEARM("quat2rotvec_near", rotexp(v3(nq)), R, 1e-11);
            V3 b0 = 2.0L * qlogv(q4(P.q)); L n0 = norm(b0); if (n0 > 1e-3L) { V3 u0 = (1 / n0) * b0; L bd = norm(v3(nq) - v3(near)); for (int j = -2; j <= 2; j++) CHECK("quat2rotvec_near-min", bd <= norm(b0 + (2 * M_PIl * j) * u0 - v3(near)) + 1e-9L, "an equivalent vector is closer"); } } } }
    // single axes
    { double t = rng.coin(0.3) ? rng.uni(-20, 20) : (double)(rng.sgn() * P.angle); static void (*const fq[3])(double, double *) = {aa_tf_xangle2quat, aa_tf_yangle2quat, aa_tf_zangle2quat};
      static void (*const fm[3])(double, double *) = {aa_tf_xangle2rotmat, aa_tf_yangle2rotmat, aa_tf_zangle2rotmat}; static void (*const fa[3])(double, double *) = {aa_tf_xangle2axang, aa_tf_yangle2axang, aa_tf_zangle2axang};
      static void (*const fd[3])(double, double, double, double, double *) = {aa_tf_xxyz2duqu, aa_tf_yxyz2duqu, aa_tf_zxyz2duqu};
      for (int i = 0; i < 3; i++) { V3 d{{0, 0, 0}}; d[i] = 1; M3 E = rotaa(d, t); Buf x(4), m(9), a(4), S(8);
        fq[i](t, x); NEARM("axisangle2quat", q4(x), qexpv((t / 2.0L) * d), T0); fm[i](t, m); NEARM("axisangle2rotmat", m3(m), E, T0); fa[i](t, a); NEARM("axisangle2axang", rotaa(v3(a), a[3]), E, T0); CLOSE("axisangle2axang-angle", a[3], t, 0);
        fd[i](t, P.p[0], P.p[1], P.p[2], S); Q4 r = q4(S), dd = q4(S.p + 4); NEARM("axisxyz2duqu-rot", rot(r), E, T0); NEARM("axisxyz2duqu-trans", qvec(2.0L * qm(dd, qc(r))), v3(P.p), T0 * P.ps()); CLOSE("axisxyz2duqu-dual", (double)dot(r, dd), 0, T0 * P.ps()); } }
}
SECTION(transform, 60000, 1500000) {
    Pose P = rpose(rng); TF T = P.T(); double tl = T0 * P.ps();
    note("q=%s p=%s", vstr(P.q, 4).c_str(), vstr(P.p, 3).c_str());
    distinct((uint64_t)P.kind * 77 + (uint64_t)(P.ps() * 16) * 1009 + (P.q[3] < 0));
    Buf q(P.q, 4), p(P.p, 3), E(7), Tm(12), S(8); memcpy(E, P.q, 32); memcpy(E + 4, P.p, 24); tofm(T, Tm);
    Q4 sr = q4(P.q), sd = 0.5L * qm(qv(v3(P.p)), q4(P.q)); for (int i = 0; i < 4; i++) { S[i] = (double)sr[i]; S[4 + i] = (double)sd[i]; }
    auto chkS = [&](const char *k, double *s, double t) { Q4 r = q4(s), d = q4(s + 4); NEARM((std::string(k) + "-rot").c_str(), rot(r), T.R, t); NEARM((std::string(k) + "-trans").c_str(), qvec(2.0L * qm(d, qc(r))), v3(P.p), t * P.ps()); CLOSE((std::string(k) + "-unit").c_str(), (double)norm(r), 1, t); CLOSE((std::string(k) + "-dual").c_str(), (double)dot(r, d), 0, t * P.ps()); };
    { Buf o(12); aa_tf_qv2tfmat(q, p, o); NEARM("qv2tfmat", tf12(o), T, tl); }
    { Buf o(12); aa_tf_qutr2tfmat(E, o); NEARM("qutr2tfmat", tf12(o), T, tl); }
    { Buf o(12); aa_tf_duqu2tfmat(S, o); NEARM("duqu2tfmat", tf12(o), T, tl); }
    { Buf o(7); aa_tf_tfmat2qutr(Tm, o); NEARPM("tfmat2qutr-rot", q4(o), P.Q(), 1e-13); NEARM("tfmat2qutr-trans", v3(o + 4), v3(P.p), 0); }
    { Buf a(4), b(3); aa_tf_tfmat2qv(Tm, a, b); NEARPM("tfmat2qv-rot", q4(a), P.Q(), 1e-13); NEARM("tfmat2qv-trans", v3(b), v3(P.p), 0); }
    { Buf o(8); aa_tf_tfmat2duqu(Tm, o); chkS("tfmat2duqu", o, 1e-13); }
    { Buf o(8); aa_tf_qv2duqu(q, p, o); chkS("qv2duqu", o, T0); NEARM("qv2duqu-real", q4(o), q4(P.q), 0); }
    { Buf o(8); aa_tf_qutr2duqu(E, o); chkS("qutr2duqu", o, T0); NEARM("qutr2duqu-real", q4(o), q4(P.q), 0); }
    { Buf a(4), b(3); aa_tf_duqu2qv(S, a, b); NEARM("duqu2qv-rot", q4(a), q4(P.q), 0); NEARM("duqu2qv-trans", v3(b), v3(P.p), tl); }
    { Buf o(7); aa_tf_duqu2qutr(S, o); NEARM("duqu2qutr-rot", q4(o), q4(P.q), 0); NEARM("duqu2qutr-trans", v3(o + 4), v3(P.p), tl); }
    { Buf b(3); aa_tf_duqu_trans(S, b); NEARM("duqu_trans", v3(b), v3(P.p), tl); }
    { Buf o(8); aa_tf_xyz2duqu(P.p[0], P.p[1], P.p[2], o); NEARM("xyz2duqu-real", q4(o), (Q4{{0, 0, 0, 1}}), 0); NEARM("xyz2duqu-dual", q4(o + 4), 0.5L * qv(v3(P.p)), tl); }
    { Buf v(6), s(8); for (int i = 0; i < 6; i++) v[i] = rng.uni(-2, 2); aa_tf_pure2duqu(v, s); Buf w(6); aa_tf_duqu2pure(s, w); CLOSEV("pure-roundtrip", w, v, 6, 0); CHECK("pure2duqu-scalar", s[3] == 0 && s[7] == 0, "scalar parts %g %g", s[3], s[7]);
      CHECK("pure2duqu-order", s[0] == v[3] && s[4] == v[0], "rotational part is not v[3:6]"); }
    // normalisation and sign
    { double k = rng.logu(-3, 3) * rng.sgn(); Buf a(4), b(4), c(4), d(4); for (int i = 0; i < 4; i++) a[i] = c[i] = k * P.q[i];
      Q4 u = qunit(q4(a)); aa_tf_qnormalize2(a, b); NEARM("qnormalize2", q4(b), u, T0); aa_tf_qnormalize(c); NEARM("qnormalize", q4(c), u, T0);
      aa_tf_qminimize2(a, d); CHECK("qminimize2", d[3] >= 0 && (md(q4(d), q4(a)) == 0 || md(q4(d), -1.0L * q4(a)) == 0), "not the minimal representative"); Buf e(a.p, 4); aa_tf_qminimize(e); NEARM("qminimize", q4(e), q4(d), 0);
      Buf s(8); for (int i = 0; i < 8; i++) s[i] = k * S[i]; Buf nr(1), nd(1); aa_tf_duqu_norm(s, nr, nd); CLOSE("duqu_norm", nr[0], (double)norm(q4(s)), T0 * nr[0]); CLOSE("duqu_norm-dual", nd[0], (double)(dot(q4(s), q4(s + 4)) / norm(q4(s))), T0 * P.ps() * nr[0]);
      Buf sm(s.p, 8); aa_tf_duqu_minimize(sm); CHECK("duqu_minimize", sm[3] >= 0, "w = %g", sm[3]); double sg = s[3] < 0 ? -1 : 1; for (int i = 0; i < 8; i++) CLOSE("duqu_minimize-val", sm[i], sg * s[i], 0);
      aa_tf_duqu_normalize(s); for (int i = 0; i < 8; i++) CLOSE("duqu_normalize", s[i], S[i] * (k < 0 ? -1 : 1), 2 * tl); }
    { double eps = rng.logu(-9, -2); Buf m(12); for (int i = 0; i < 12; i++) m[i] = Tm[i] + (i < 9 ? eps * rng.uni(-1, 1) : 0); aa_tf_tfmat_normalize(m); TF N = tf12(m); NEARM("tfmat_normalize-orth", N.R * tr(N.R), eye3(), 1e-13); NEARM("tfmat_normalize-near", N, T, 8 * eps + 1e-12); NEARM("tfmat_normalize-trans", N.p, v3(P.p), 0);
      Buf g(9); for (int i = 0; i < 9; i++) g[i] = Tm[i]; aa_tf_rotmat_normalize(g); NEARM("rotmat_normalize", m3(g), T.R, 1e-13); }
    { Buf m(9); for (int i = 0; i < 9; i++) m[i] = Tm[i] + 0.0; int k = (int)rng.range(0, 2);
      if (rng.coin()) { for (int i = 0; i < 3; i++) m[3 * k + i] *= -1; CHECK("isrotmat-reflection", !aa_tf_isrotmat(m), "a reflection was accepted"); }
      else { double s = 1 + rng.sgn() * rng.uni(0.01, 0.3); for (int i = 0; i < 9; i++) m[i] *= s; CHECK("isrotmat-scaled", !aa_tf_isrotmat(m), "a scaled rotation was accepted"); } }
}
VK_MAIN
