// C08: composition, inversion and action obey the group laws and agree across representations.
#include "reg.hpp"
#include "tfref.hpp"
using namespace vk;
namespace {
struct DQ { Q4 r, d; };
DQ dq(const double *s) { return {q4(s), q4(s + 4)}; }
DQ operator*(const DQ &a, const DQ &b) { return {qm(a.r, b.r), qm(a.r, b.d) + qm(a.d, b.r)}; }
DQ conj(const DQ &a) { return {qc(a.r), qc(a.d)}; }
DQ dqof(Q4 q, V3 v) { return {q, 0.5L * qm(qv(v), q)}; }
double md(const DQ &a, const DQ &b) { return std::max(vk::md(a.r, b.r), vk::md(a.d, b.d)); }
double scale(const DQ &a) { double s = 1; for (int i = 0; i < 4; i++) s += std::fabs((double)a.r[i]) + std::fabs((double)a.d[i]); return s; }
#define NEARDQ(key, a, b, tol) do { double _d = md(a, b); CHECK(key, _d <= (tol), "%s is off by %.3g (tol %.3g)", #a, _d, (double)(tol)); } while (0)
void rvec(Rng &r, double *v, int n) { double s = r.coin(0.3) ? r.logu(-6, 4) : 1; for (int i = 0; i < n; i++) v[i] = s * r.uni(-1, 1); if (r.coin(0.1)) v[r.range(0, n - 1)] = 0; }
double amax(const double *v, int n) { double m = 0; for (int i = 0; i < n; i++) m = std::max(m, std::fabs(v[i])); return m; }
const double E0 = 1e-14;
}
// arbitrary (not only unit) quaternions
SECTION(quat, 60000, 1500000) {
    Buf a(4), b(4), v(3), w(3); rvec(rng, a, 4); rvec(rng, b, 4); rvec(rng, v, 3); rvec(rng, w, 3);
    if (amax(a, 4) == 0) a[3] = 1; if (amax(b, 4) == 0) b[3] = 1;
    note("a=%s b=%s v=%s", vstr(a, 4).c_str(), vstr(b, 4).c_str(), vstr(v, 3).c_str());
    Q4 A = q4(a), B = q4(b); V3 V = v3(v), W = v3(w); double sa = amax(a, 4), sb = amax(b, 4), sv = amax(v, 3), sw = amax(w, 3);
    distinct(fnv(a.p, 32)); 
    Buf c(4);
    aa_tf_qmul(a, b, c); NEARM("qmul", q4(c), qm(A, B), E0 * sa * sb);
    aa_tf_qcmul(a, b, c); NEARM("qcmul", q4(c), qm(qc(A), B), E0 * sa * sb);
    aa_tf_qmulc(a, b, c); NEARM("qmulc", q4(c), qm(A, qc(B)), E0 * sa * sb);
    c.wipe(); aa_tf_qmul_qv(a, v, c); NEARM("qmul_qv", q4(c), qm(A, qv(V)), E0 * sa * sv);
    aa_tf_qmul_vq(v, a, c); NEARM("qmul_vq", q4(c), qm(qv(V), A), E0 * sa * sv);
    { Buf M(4 * 5), x(4); for (int i = 0; i < 20; i++) M[i] = 777; aa_tf_qmatrix_l(a, M, 5);
      for (int i = 0; i < 4; i++) { L s = 0; for (int j = 0; j < 4; j++) s += (L)M[j * 5 + i] * b[j]; x[i] = (double)s; } NEARM("qmatrix_l", q4(x), qm(A, B), E0 * sa * sb);
      for (int j = 0; j < 4; j++) CHECK("qmatrix_l-pad", M[j * 5 + 4] == 777, "padding overwritten");
      aa_tf_qmatrix_r(a, M, 5);
      for (int i = 0; i < 4; i++) { L s = 0; for (int j = 0; j < 4; j++) s += (L)M[j * 5 + i] * b[j]; x[i] = (double)s; } NEARM("qmatrix_r", q4(x), qm(B, A), E0 * sa * sb);
      for (int j = 0; j < 4; j++) CHECK("qmatrix_r-pad", M[j * 5 + 4] == 777, "padding overwritten");
      struct aa_dmat D; aa_dmat_view(&D, 4, 4, M, 5);
      aa_tf_qmat_l(a, &D); for (int i = 0; i < 4; i++) { L s = 0; for (int j = 0; j < 4; j++) s += (L)M[j * 5 + i] * b[j]; x[i] = (double)s; } NEARM("qmat_l", q4(x), qm(A, B), E0 * sa * sb);
      aa_tf_qmat_r(a, &D); for (int i = 0; i < 4; i++) { L s = 0; for (int j = 0; j < 4; j++) s += (L)M[j * 5 + i] * b[j]; x[i] = (double)s; } NEARM("qmat_r", q4(x), qm(B, A), E0 * sa * sb); }
    CLOSE("qdot", aa_tf_qdot(a, b), (double)dot(A, B), E0 * sa * sb);
    // the distance, not its square: the Python tests rely on it
    CLOSE("qssd", aa_tf_qssd(a, b), (double)norm(A - B), 2e-14 * (sa + sb));
    CLOSE("qnorm", aa_tf_qnorm(a), (double)norm(A), E0 * sa);
    if (sa > 1e-5) {
        aa_tf_qinv(a, c); NEARM("qinv", qm(A, q4(c)), (Q4{{0, 0, 0, 1}}), 1e-13);
        Buf q(a.p, 4); aa_tf_qnormalize(q); NEARM("qnormalize", q4(q), qunit(A), E0);
        aa_tf_qnormalize2(a, c); NEARM("qnormalize2", q4(c), qunit(A), E0);
        aa_tf_qrel(b, a, c); NEARM("qrel", qm(q4(c), A), B, 1e-13 * (sb + 1e-300));
        if (sb > 1e-5) { aa_tf_qmulnorm(a, b, c); NEARM("qmulnorm", q4(c), qunit(qm(A, B)), 4e-14); }
    }
    aa_tf_qconj(a, c); NEARM("qconj", q4(c), qc(A), 0);
    { Buf q(a.p, 4); aa_tf_qconj1(q); NEARM("qconj1", q4(q), qc(A), 0); }
    { Buf q(a.p, 4); aa_tf_qminimize(q); NEARM("qminimize", q4(q), a[3] < 0 ? -1.0L * A : A, 0); aa_tf_qminimize2(a, c); NEARM("qminimize2", q4(c), a[3] < 0 ? -1.0L * A : A, 0); }
    { Buf q(a.p, 4); double k = rng.uni(-3, 3); aa_tf_qscal(q, k); NEARM("qscal", q4(q), (L)k * A, E0 * sa); }
    aa_tf_qadd(a, b, c); NEARM("qadd", q4(c), A + B, E0 * (sa + sb)); aa_tf_qsub(a, b, c); NEARM("qsub", q4(c), A - B, E0 * (sa + sb));
    { Buf q(a.p, 4); aa_tf_qiadd(q, b); NEARM("qiadd", q4(q), A + B, E0 * (sa + sb)); }
    { Buf q(a.p, 4); aa_tf_qisub(q, b); NEARM("qisub", q4(q), A - B, E0 * (sa + sb)); }
    // vectors
    Buf p(3);
    aa_tf_cross(v, w, p); NEARM("cross", v3(p), cross(V, W), E0 * sv * sw);
    { Buf s(3); rvec(rng, s, 3); V3 S = v3(s); double ss = amax(s, 3); aa_tf_cross_a(v, w, s); NEARM("cross_a", v3(s), S + cross(V, W), E0 * (sv * sw + ss)); }
    CLOSE("vdot", aa_tf_vdot(v, w), (double)dot(V, W), E0 * sv * sw);
    CLOSE("vssd", aa_tf_vssd(v, w), (double)norm(V - W), 2e-14 * (sv + sw));
    CLOSE("vnorm", aa_tf_vnorm(v), (double)norm(V), E0 * sv);
    if (sv > 1e-6) { Buf x(v.p, 3); aa_tf_vnormalize(x); NEARM("vnormalize", v3(x), (1 / norm(V)) * V, E0); }
    { float f[3] = {(float)v[0], (float)v[1], (float)v[2]}, g[3] = {(float)w[0], (float)w[1], (float)w[2]}, h[3];
      CLOSE("vdotf", aa_tf_vdotf(f, g), (double)dot(V, W), 2e-6 * sv * sw); aa_tf_crossf(f, g, h);
      V3 H{{h[0], h[1], h[2]}}; NEARM("crossf", H, cross(V, W), 2e-6 * sv * sw);
      if (sv > 1e-6) { aa_tf_vnormalizef(f); V3 F{{f[0], f[1], f[2]}}; NEARM("vnormalizef", F, (1 / norm(V)) * V, 2e-6); } }
    { Buf M(3 * 4); struct aa_dmat D; aa_dmat_view(&D, 3, 3, M, 4); for (int i = 0; i < 12; i++) M[i] = 777;
      auto mv = [&](V3 x) { V3 r; for (int i = 0; i < 3; i++) { r[i] = 0; for (int j = 0; j < 3; j++) r[i] += (L)M[j * 4 + i] * x[j]; } return r; };
      aa_tf_cross_mat_l(v, &D); NEARM("cross_mat_l", mv(W), cross(V, W), E0 * sv * sw);
      aa_tf_cross_mat_r(v, &D); NEARM("cross_mat_r", mv(W), cross(W, V), E0 * sv * sw); 
      for (int j = 0; j < 3; j++) CHECK("cross_mat-pad", M[j * 4 + 3] == 777, "padding overwritten"); }
    { double x = rng.uni(-2, 2), y = rng.uni(-2, 2); Buf m(9); aa_tf_skewsym_scal2(x, y, v, m); M3 K = skew(V); NEARM("skewsym_scal2", m3(m), eye3() + (L)x * K + (L)y * (K * K), 1e-13 * (1 + sv + sv * sv)); }
    if (sw > 1e-5) { L k = dot(V, W) / dot(W, W); aa_tf_proj(v, w, p); NEARM("proj", v3(p), k * W, 1e-13 * sv); aa_tf_proj_orth(v, w, p); NEARM("proj_orth", v3(p), V - k * W, 1e-13 * sv); }
}
// unit rotations and rigid transforms
SECTION(poses, 50000, 1200000) {
    Pose P = rpose(rng), Q = rpose(rng); TF A = P.T(), B = Q.T(); double sp = P.ps() + Q.ps();
    Buf x(3); rpos(rng, x); V3 X = v3(x); double sx = 1 + amax(x, 3);
    note("P.q=%s P.p=%s Q.q=%s Q.p=%s", vstr(P.q, 4).c_str(), vstr(P.p, 3).c_str(), vstr(Q.q, 4).c_str(), vstr(Q.p, 3).c_str());
    distinct((uint64_t)P.kind * 64 + (uint64_t)Q.kind * 8 + (uint64_t)((double)P.angle * 100) * 4096 + (uint64_t)((double)Q.angle * 20) * 10000000);
    Buf qa(P.q, 4), qb(Q.q, 4), va(P.p, 3), vb(Q.p, 3), Ta(12), Tb(12); tofm(A, Ta); tofm(B, Tb); Buf Ra(Ta.p, 9), Rb(Tb.p, 9);
    double ta[7], tb[7]; memcpy(ta, P.q, 32); memcpy(ta + 4, P.p, 24); memcpy(tb, Q.q, 32); memcpy(tb + 4, Q.p, 24); Buf Ea(ta, 7), Eb(tb, 7);
    DQ Da = dqof(q4(P.q), v3(P.p)), Db = dqof(q4(Q.q), v3(Q.p)); Buf sa(8), sb(8);
    for (int i = 0; i < 4; i++) { sa[i] = (double)Da.r[i]; sa[4 + i] = (double)Da.d[i]; sb[i] = (double)Db.r[i]; sb[4 + i] = (double)Db.d[i]; }
    const double tol = 2e-14 * sp, tolx = 2e-14 * (sp + sx);
    auto qtf = [](const double *q, const double *v) { return TF{rot(q4(q)), v3(v)}; };
    auto dtf = [](const double *s) { DQ d = dq(s); L n2 = dot(d.r, d.r); return TF{rot(d.r), (2 / n2) * qvec(qm(d.d, qc(d.r)))}; };
    // rotations acting on points
    Buf y(3);
    aa_tf_qrot(qa, x, y); NEARM("qrot", v3(y), A.R * X, 1e-14 * sx * 4);
    { Buf z(x.p, 3); aa_tf_qrot1(qa, z); NEARM("qrot1", v3(z), A.R * X, 1e-14 * sx * 4); }
    aa_tf_rotmat_rot(Ra, x, y); NEARM("rotmat_rot", v3(y), A.R * X, 1e-14 * sx);
    y.wipe(); aa_tf_9(Ra, x, y); NEARM("9", v3(y), A.R * X, 1e-14 * sx); y.wipe(); aa_tf_9rot(Ra, x, y); NEARM("9rot", v3(y), A.R * X, 1e-14 * sx);
    // transforms acting on points
    V3 AX = A * X;
    aa_tf_tfmat_tf(Ta, x, y); NEARM("tfmat_tf", v3(y), AX, tolx); y.wipe(); aa_tf_12(Ta, x, y); NEARM("12", v3(y), AX, tolx);
    y.wipe(); aa_tf_93(Ra, va, x, y); NEARM("93", v3(y), AX, tolx); y.wipe(); aa_tf_tfmat2_tf(Ra, va, x, y); NEARM("tfmat2_tf", v3(y), AX, tolx);
    y.wipe(); aa_tf_tf_qv(qa, va, x, y); NEARM("tf_qv", v3(y), AX, 4 * tolx); y.wipe(); aa_tf_qutr_tf(Ea, x, y); NEARM("qutr_tf", v3(y), AX, 4 * tolx);
    y.wipe(); aa_tf_duqu_tf(sa, x, y); NEARM("duqu_tf", v3(y), AX, 4 * tolx); y.wipe(); aa_tf_tf_duqu(sa, x, y); NEARM("tf_duqu", v3(y), AX, 4 * tolx);
    // composition
    TF AB = A * B, Ai = inv(A), AiB = Ai * B, ABi = A * inv(B); Buf T(12), R(9), v(3), q(4), E(7), s(8);
    aa_tf_rotmat_mul(Ra, Rb, R); NEARM("rotmat_mul", m3(R), AB.R, E0); R.wipe(); aa_tf_9mul(Ra, Rb, R); NEARM("9mul", m3(R), AB.R, E0);
    aa_tf_9rel(Ra, Rb, R); NEARM("9rel", m3(R), ABi.R, E0);
    aa_tf_tfmat_mul(Ta, Tb, T); NEARM("tfmat_mul", tf12(T), AB, tol); T.wipe(); aa_tf_12chain(Ta, Tb, T); NEARM("12chain", tf12(T), AB, tol);
    aa_tf_tfmat2_mul(Ra, va, Rb, vb, R, v); NEARM("tfmat2_mul", (TF{m3(R), v3(v)}), AB, tol);
    aa_tf_93chain(Ra, va, Rb, vb, R, v); NEARM("93chain", (TF{m3(R), v3(v)}), AB, tol);
    aa_tf_qv_chain(qa, va, qb, vb, q, v); NEARM("qv_chain", qtf(q, v), AB, 4 * tol);
    aa_tf_qutr_mul(Ea, Eb, E); NEARM("qutr_mul", qtf(E, E + 4), AB, 4 * tol); E.wipe(); aa_tf_qutr_mulnorm(Ea, Eb, E); NEARM("qutr_mulnorm", qtf(E, E + 4), AB, 4 * tol); CLOSE("qutr_mulnorm-unit", (double)norm(q4(E)), 1, E0);
    aa_tf_qutr_cmul(Ea, Eb, E); NEARM("qutr_cmul", qtf(E, E + 4), AiB, 8 * tol); aa_tf_qutr_mulc(Ea, Eb, E); NEARM("qutr_mulc", qtf(E, E + 4), ABi, 8 * tol);
    aa_tf_duqu_mul(sa, sb, s); NEARM("duqu_mul", dtf(s), AB, 8 * tol); aa_tf_duqu_cmul(sa, sb, s); NEARM("duqu_cmul", dtf(s), AiB, 8 * tol); aa_tf_duqu_mulc(sa, sb, s); NEARM("duqu_mulc", dtf(s), ABi, 8 * tol);
    aa_tf_12rel(Ta, Tb, T); NEARM("12rel", tf12(T), AiB, 2 * tol); aa_tf_93rel(Ra, va, Rb, vb, R, v); NEARM("93rel", (TF{m3(R), v3(v)}), AiB, 2 * tol);
    // inversion
    aa_tf_rotmat_inv2(Ra, R); NEARM("rotmat_inv2", m3(R), Ai.R, E0); { Buf z(Ra.p, 9); aa_tf_rotmat_inv1(z); NEARM("rotmat_inv1", m3(z), Ai.R, E0); }
    aa_tf_tfmat_inv2(Ta, T); NEARM("tfmat_inv2", tf12(T), Ai, tol); { Buf z(Ta.p, 12); aa_tf_tfmat_inv1(z); NEARM("tfmat_inv1", tf12(z), Ai, tol); }
    aa_tf_12inv(Ta, T); NEARM("12inv", tf12(T), Ai, tol); aa_tf_93inv(Ra, va, R, v); NEARM("93inv", (TF{m3(R), v3(v)}), Ai, tol);
    aa_tf_qv_conj(qa, va, q, v); NEARM("qv_conj", qtf(q, v), Ai, 4 * tol); aa_tf_qutr_conj(Ea, E); NEARM("qutr_conj", qtf(E, E + 4), Ai, 4 * tol);
    aa_tf_duqu_conj(sa, s); NEARM("duqu_conj", dtf(s), Ai, 8 * tol); { Buf z(sa.p, 8); aa_tf_duqu_conj1(z); NEARM("duqu_conj1", dtf(z), Ai, 8 * tol); }
    // chains of several factors
    { Pose C = rpose(rng); TF CT = C.T(); Buf Tc(12); tofm(CT, Tc); TF ABC = AB * CT; double t3 = 4e-14 * (sp + C.ps());
      aa_tf_v12chain(T, Ta, Tb, Tc.p, (double *)NULL); NEARM("v12chain", tf12(T), ABC, t3);
      aa_tf_v9mul(R, Ra, Rb, Tc.p, (double *)NULL); NEARM("v9mul", m3(R), ABC.R, E0 * 2); }
    // renormalisation of a perturbed element: nearby valid element
    { double e = rng.logu(-16, -4); Buf z(Ra.p, 9); for (int i = 0; i < 9; i++) z[i] += e * rng.uni(-1, 1); M3 Z = m3(z); aa_tf_rotmat_normalize(z); NEARM("rotmat_normalize", m3(z), Z, 20 * e + 1e-14); NEARM("rotmat_normalize-orth", m3(z) * tr(m3(z)), eye3(), 1e-14);
      Buf zt(Ta.p, 12); for (int i = 0; i < 9; i++) zt[i] += e * rng.uni(-1, 1); aa_tf_tfmat_normalize(zt); NEARM("tfmat_normalize", tf12(zt), A, 20 * e + 1e-14); NEARM("tfmat_normalize-orth", m3(zt) * tr(m3(zt)), eye3(), 1e-14);
      Buf zs(sa.p, 8); double k = rng.uni(0.3, 3); for (int i = 0; i < 8; i++) zs[i] *= k; aa_tf_duqu_normalize(zs); NEARM("duqu_normalize", dtf(zs), A, 1e-12 * sp); CLOSE("duqu_normalize-unit", (double)norm(q4(zs)), 1, E0); }
    { Buf z(sa.p, 8); aa_tf_duqu_minimize(z); NEARM("duqu_minimize", dtf(z), A, 8 * tol); CHECK("duqu_minimize-w", z[3] >= 0, "w=%g", z[3]); double n, d; aa_tf_duqu_norm(sa, &n, &d); CLOSE("duqu_norm-real", n, 1, E0); CLOSE("duqu_norm-dual", d, 0, tol);
      aa_tf_duqu_trans(sa, v); NEARM("duqu_trans", v3(v), A.p, 4 * tol); }
}
// arbitrary dual quaternions: algebra
SECTION(dual, 30000, 800000) {
    Buf a(8), b(8), c(8); rvec(rng, a, 8); rvec(rng, b, 8); DQ A = dq(a), B = dq(b); double t = 1e-15 * 10 * scale(A) * scale(B);
    note("a=%s b=%s", vstr(a, 8).c_str(), vstr(b, 8).c_str()); distinct(fnv(a.p, 64));
    aa_tf_duqu_mul(a, b, c); NEARDQ("duqu_mul", dq(c), A * B, t); aa_tf_duqu_cmul(a, b, c); NEARDQ("duqu_cmul", dq(c), conj(A) * B, t); aa_tf_duqu_mulc(a, b, c); NEARDQ("duqu_mulc", dq(c), A * conj(B), t);
    aa_tf_duqu_add(a, b, c); NEARDQ("duqu_add", dq(c), (DQ{A.r + B.r, A.d + B.d}), t); aa_tf_duqu_sub(a, b, c); NEARDQ("duqu_sub", dq(c), (DQ{A.r - B.r, A.d - B.d}), t);
    double k = rng.uni(-3, 3); aa_tf_duqu_smul(k, a, c); NEARDQ("duqu_smul", dq(c), (DQ{(L)k * A.r, (L)k * A.d}), t);
    aa_tf_duqu_conj(a, c); NEARDQ("duqu_conj", dq(c), conj(A), 0);
    Buf M(8 * 9); struct aa_dmat D; aa_dmat_view(&D, 8, 8, M, 9);
    auto mv = [&]() { DQ r; for (int i = 0; i < 8; i++) { L s = 0; for (int j = 0; j < 8; j++) s += (L)M[j * 9 + i] * b[j]; (i < 4 ? r.r[i] : r.d[i - 4]) = s; } return r; };
    for (int i = 0; i < 72; i++) M[i] = 777;
    aa_tf_duqu_matrix_l(a, M, 9); NEARDQ("duqu_matrix_l", mv(), A * B, t); aa_tf_duqu_matrix_r(a, M, 9); NEARDQ("duqu_matrix_r", mv(), B * A, t);
    for (int j = 0; j < 8; j++) CHECK("duqu_matrix-pad", M[j * 9 + 8] == 777, "padding overwritten");
    aa_tf_duqu_mat_l(a, &D); NEARDQ("duqu_mat_l", mv(), A * B, t); aa_tf_duqu_mat_r(a, &D); NEARDQ("duqu_mat_r", mv(), B * A, t);
    aa_tf_duqu_conj_jac(&D); NEARDQ("duqu_conj_jac", mv(), conj(B), t);
    double n, d; aa_tf_duqu_norm(a, &n, &d); L nr = norm(A.r); if (nr > 1e-5L) { CLOSE("duqu_norm", n, (double)nr, 1e-14 * scale(A)); CLOSE("duqu_norm-dual", d, (double)(dot(A.r, A.d) / nr), 1e-13 * scale(A)); }
    { Buf p(6), s(8); aa_tf_duqu2pure(a, p); bool ok = true; for (int i = 0; i < 3; i++) ok &= p[3 + i] == a[i] && p[i] == a[4 + i]; CHECK("duqu2pure", ok, "pure part wrong"); aa_tf_pure2duqu(p, s); CHECK("pure2duqu", s[3] == 0 && s[7] == 0 && s[0] == p[3] && s[1] == p[4] && s[2] == p[5] && s[4] == p[0] && s[5] == p[1] && s[6] == p[2], "pure2duqu wrong"); }
}
// relative displacement of point sets
SECTION(relx, 3000, 60000) {
    fresh_region(rng);
    size_t n = (size_t)rng.range(1, 17), ldx = 3 + (size_t)rng.range(0, 2), ldy = 3 + (size_t)rng.range(0, 2);
    Pose P = rpose(rng); Buf R(9); tomat(rot(q4(P.q)), R); Buf X(ldx * (n - 1) + 3), Y(ldy * (n - 1) + 3); M3 RR = m3(R);
    std::vector<std::array<L, 3>> D; distinct(n * 100 + ldx * 10 + ldy); note("n=%zu ldx=%zu ldy=%zu", n, ldx, ldy);
    for (size_t j = 0; j < n; j++) { for (int i = 0; i < 3; i++) { X[j * ldx + i] = rng.uni(-2, 2); Y[j * ldy + i] = rng.uni(-2, 2); } V3 d = v3(Y + j * ldy) - RR * v3(X + j * ldx); D.push_back({d[0], d[1], d[2]}); }
    Buf r(3); LIB(aa_tf_relx_mean(n, R, X, ldx, Y, ldy, r));
    V3 m{{0, 0, 0}}; for (auto &d : D) m = m + V3{{d[0] / n, d[1] / n, d[2] / n}}; NEARM("relx_mean", v3(r), m, 1e-13);
    LIB(r.wipe(); aa_tf_relx_median(n, R, X, ldx, Y, ldy, r));
    for (int i = 0; i < 3; i++) { std::vector<L> c; for (auto &d : D) c.push_back(d[i]); std::sort(c.begin(), c.end()); m[i] = n % 2 ? c[n / 2] : (c[n / 2] + c[n / 2 - 1]) / 2; }
    NEARM("relx_median", v3(r), m, 1e-13);
}
VK_MAIN
