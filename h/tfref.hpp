// Long-double reference model of rotations and rigid transforms, and hostile generators.
#pragma once
#include "vk.hpp"
#include <array>
#include <amino.h>
namespace vk {
typedef long double L;
struct V3 { L v[3]; L &operator[](int i) { return v[i]; } L operator[](int i) const { return v[i]; } };
struct Q4 { L v[4]; L &operator[](int i) { return v[i]; } L operator[](int i) const { return v[i]; } };
struct M3 { L m[9]; L &operator()(int i, int j) { return m[j * 3 + i]; } L operator()(int i, int j) const { return m[j * 3 + i]; } };
struct TF { M3 R; V3 p; };
inline V3 v3(const double *p) { return {{p[0], p[1], p[2]}}; }
inline Q4 q4(const double *p) { return {{p[0], p[1], p[2], p[3]}}; }
inline M3 m3(const double *p) { M3 r; for (int i = 0; i < 9; i++) r.m[i] = p[i]; return r; }
inline TF tf12(const double *p) { return {m3(p), v3(p + 9)}; }
inline V3 operator+(V3 a, V3 b) { return {{a[0] + b[0], a[1] + b[1], a[2] + b[2]}}; }
inline V3 operator-(V3 a, V3 b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
inline V3 operator*(L s, V3 a) { return {{s * a[0], s * a[1], s * a[2]}}; }
inline L dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(V3 a, V3 b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
inline L norm(V3 a) { return sqrtl(dot(a, a)); }
inline Q4 operator+(Q4 a, Q4 b) { Q4 r; for (int i = 0; i < 4; i++) r[i] = a[i] + b[i]; return r; }
inline Q4 operator-(Q4 a, Q4 b) { Q4 r; for (int i = 0; i < 4; i++) r[i] = a[i] - b[i]; return r; }
inline Q4 operator*(L s, Q4 a) { return {{s * a[0], s * a[1], s * a[2], s * a[3]}}; }
inline L dot(Q4 a, Q4 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]; }
inline L norm(Q4 a) { return sqrtl(dot(a, a)); }
// Hamilton product, xyzw
inline Q4 qm(Q4 a, Q4 b) {
    V3 av{{a[0], a[1], a[2]}}, bv{{b[0], b[1], b[2]}}; V3 c = cross(av, bv) + a[3] * bv + b[3] * av;
    return {{c[0], c[1], c[2], a[3] * b[3] - dot(av, bv)}};
}
inline Q4 qc(Q4 a) { return {{-a[0], -a[1], -a[2], a[3]}}; }
inline Q4 qv(V3 a) { return {{a[0], a[1], a[2], 0}}; }
inline V3 qvec(Q4 a) { return {{a[0], a[1], a[2]}}; }
inline Q4 qunit(Q4 a) { return (1 / norm(a)) * a; }
inline M3 operator*(const M3 &a, const M3 &b) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { L s = 0; for (int k = 0; k < 3; k++) s += a(i, k) * b(k, j); r(i, j) = s; } return r; }
inline M3 operator+(M3 a, const M3 &b) { for (int i = 0; i < 9; i++) a.m[i] += b.m[i]; return a; }
inline M3 operator-(M3 a, const M3 &b) { for (int i = 0; i < 9; i++) a.m[i] -= b.m[i]; return a; }
inline M3 operator*(L s, M3 a) { for (int i = 0; i < 9; i++) a.m[i] *= s; return a; }
inline V3 operator*(const M3 &a, V3 b) { V3 r; for (int i = 0; i < 3; i++) r[i] = a(i, 0) * b[0] + a(i, 1) * b[1] + a(i, 2) * b[2]; return r; }
inline M3 tr(const M3 &a) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r(i, j) = a(j, i); return r; }
inline M3 eye3() { return {{1, 0, 0, 0, 1, 0, 0, 0, 1}}; }
inline M3 skew(V3 w) { return {{0, w[2], -w[1], -w[2], 0, w[0], w[1], -w[0], 0}}; }
// rotation matrix of a unit quaternion
inline M3 rot(Q4 q) {
    q = qunit(q); L x = q[0], y = q[1], z = q[2], w = q[3]; M3 r;
    r(0, 0) = 1 - 2 * (y * y + z * z); r(0, 1) = 2 * (x * y - w * z); r(0, 2) = 2 * (x * z + w * y);
    r(1, 0) = 2 * (x * y + w * z); r(1, 1) = 1 - 2 * (x * x + z * z); r(1, 2) = 2 * (y * z - w * x);
    r(2, 0) = 2 * (x * z - w * y); r(2, 1) = 2 * (y * z + w * x); r(2, 2) = 1 - 2 * (x * x + y * y);
    return r;
}
// quaternion exponential of a pure vector
inline Q4 qexpv(V3 a) { L t = norm(a); L s = t < 1e-5L ? 1 - t * t / 6 + t * t * t * t / 120 : sinl(t) / t; V3 r = s * a; return {{r[0], r[1], r[2], cosl(t)}}; }
inline M3 rotexp(V3 w) { return rot(qexpv(0.5L * w)); }
inline M3 rotaa(V3 axis, L ang) { return rotexp((ang / norm(axis)) * axis); }
// exponential of the twist (v, w): translation part by the left Jacobian
inline TF tfexp(V3 v, V3 w) {
    L t = norm(w), b, c;
    if (t < 1e-3L) { L t2 = t * t; b = 0.5L - t2 / 24 + t2 * t2 / 720; c = 1.0L / 6 - t2 / 120 + t2 * t2 / 5040; }
    else { L h = sinl(t / 2); b = 2 * h * h / (t * t); c = (1 - sinl(t) / t) / (t * t); }
    V3 wv = cross(w, v);
    return {rotexp(w), v + b * wv + c * cross(w, wv)};
}
inline TF operator*(const TF &a, const TF &b) { return {a.R * b.R, a.p + a.R * b.p}; }
inline V3 operator*(const TF &a, V3 b) { return a.p + a.R * b; }
inline TF inv(const TF &a) { M3 t = tr(a.R); return {t, -1.0L * (t * a.p)}; }
// principal log of a unit quaternion's rotation as (rotation vector)/2, short way
inline V3 qlogv(Q4 q) { q = qunit(q); V3 v = qvec(q); L s = norm(v), t = atan2l(s, q[3]); L k = s < 1e-9L ? (q[3] > 0 ? 1 : 0) : t / s; return k * v; }
inline Q4 slerp(L t, Q4 a, Q4 b) { Q4 d = qm(qc(a), b); if (d[3] < 0) d = -1.0L * d; return qm(a, qexpv(t * qlogv(d))); }
inline double md(const M3 &a, const M3 &b) { double m = 0; for (int i = 0; i < 9; i++) { double d = (double)fabsl(a.m[i] - b.m[i]); if (!(d <= m)) m = d; if (d != d) return NAN; } return m; }
inline double md(V3 a, V3 b) { double m = 0; for (int i = 0; i < 3; i++) { double d = (double)fabsl(a[i] - b[i]); if (!(d <= m)) m = d; if (d != d) return NAN; } return m; }
inline double md(Q4 a, Q4 b) { double m = 0; for (int i = 0; i < 4; i++) { double d = (double)fabsl(a[i] - b[i]); if (!(d <= m)) m = d; if (d != d) return NAN; } return m; }
inline double md(const TF &a, const TF &b) { double x = md(a.R, b.R), y = md(a.p, b.p); if (x != x || y != y) return NAN; return std::max(x, y); }
inline double mdpm(Q4 a, Q4 b) { double x = md(a, b), y = md(a, -1.0L * b); if (x != x) return NAN; return std::min(x, y); }

#define NEARM(key, a, b, tol) do { double _d = vk::md(a, b); CHECK(key, _d <= (tol), "%s is off by %.3g (tol %.3g)", #a, _d, (double)(tol)); } while (0)
#define NEARPM(key, a, b, tol) do { double _d = vk::mdpm(a, b); CHECK(key, _d <= (tol), "%s is off by %.3g up to sign (tol %.3g)", #a, _d, (double)(tol)); } while (0)

// ---- generators
inline V3 rdir(Rng &r) {
    if (r.coin(0.25)) { V3 a{{0, 0, 0}}; a[(int)r.range(0, 2)] = r.sgn(); return a; }
    for (;;) { V3 a{{(L)r.gauss(), (L)r.gauss(), (L)r.gauss()}}; if (r.coin(0.1)) a[(int)r.range(0, 2)] = 0; if (r.coin(0.1)) a[(int)r.range(0, 2)] *= 1e-6L; L n = norm(a); if (n > 1e-3L) return (1 / n) * a; }
}
// hostile rotation angle in [0, pi]; kind says which regime
inline L rangle(Rng &r, int &kind) {
    kind = (int)r.range(0, 7);
    switch (kind) {
    case 0: return 0;
    case 1: return (L)r.logu(-17, -6);
    case 2: return (L)r.logu(-6, -1);
    case 3: return M_PIl - (L)r.logu(-17, -6);
    case 4: return M_PIl - (L)r.logu(-6, -1);
    case 5: return M_PIl * r.range(0, 6) / 6;
    default: return (L)r.uni(0, M_PI);
    }
}
struct Pose { double q[4], p[3]; L angle; int kind; Q4 Q() const { return qunit(q4(q)); } TF T() const { return {rot(q4(q)), v3(p)}; } double ps() const { return 1 + std::fabs(p[0]) + std::fabs(p[1]) + std::fabs(p[2]); } };
inline void rpos(Rng &r, double *p) { double s = r.coin(0.15) ? 0 : r.coin(0.3) ? r.logu(-9, 3) : r.uni(0, 2); for (int i = 0; i < 3; i++) p[i] = s * r.uni(-1, 1); if (r.coin(0.1)) p[r.range(0, 2)] = 0; }
inline void runitq(Rng &r, double *q, L &ang, int &kind, bool allow_neg = true) {
    ang = rangle(r, kind); V3 a = rdir(r); Q4 Q = qexpv((ang / 2) * a); if (allow_neg && r.coin(0.3)) Q = -1.0L * Q;
    for (int i = 0; i < 4; i++) q[i] = (double)Q[i];
}
inline Pose rpose(Rng &r, bool neg = true) { Pose P; runitq(r, P.q, P.angle, P.kind, neg); rpos(r, P.p); return P; }
inline void tomat(const M3 &R, double *o) { for (int i = 0; i < 9; i++) o[i] = (double)R.m[i]; }
inline void tofm(const TF &T, double *o) { tomat(T.R, o); for (int i = 0; i < 3; i++) o[9 + i] = (double)T.p[i]; }
// matrix to quaternion (Shepperd), w >= 0; logarithm of a pose as the exponent of tfexp
inline Q4 matq(const M3 &R) { L t = R(0, 0) + R(1, 1) + R(2, 2); Q4 q; int i = 0; L m = t; for (int k = 0; k < 3; k++) if (R(k, k) > m) { m = R(k, k); i = k + 1; } if (i == 0) { L s = sqrtl(1 + t) * 2; q = {{(R(2, 1) - R(1, 2)) / s, (R(0, 2) - R(2, 0)) / s, (R(1, 0) - R(0, 1)) / s, s / 4}}; } else { int a = i - 1, b = (a + 1) % 3, c = (a + 2) % 3; L s = sqrtl(1 + R(a, a) - R(b, b) - R(c, c)) * 2; q[a] = s / 4; q[b] = (R(a, b) + R(b, a)) / s; q[c] = (R(a, c) + R(c, a)) / s; q[3] = (R(c, b) - R(b, c)) / s; } if (q[3] < 0) q = -1.0L * q; return qunit(q); }
inline V3 selog_w(const TF &T) { return 2.0L * qlogv(matq(T.R)); }
inline V3 selog_v(const TF &T) { V3 w = selog_w(T); L t = norm(w); L k = t < 1e-4L ? 1.0L / 12 + t * t / 720 : 1 / (t * t) - (1 + cosl(t)) / (2 * t * sinl(t)); if (fabsl(t - acosl(-1.0L)) < 1e-9L) k = 1 / (t * t); V3 c = cross(w, T.p); return T.p - 0.5L * c + k * cross(w, c); }
}
