// Reference linear-program solver: exact rational (or long double) two-phase simplex with Bland's rule.
#pragma once
#include "vk.hpp"
namespace vk {
struct Ratio { __int128 n, d; struct Over {}; Ratio(long v = 0) : n(v), d(1) {} static __int128 g(__int128 a, __int128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { __int128 t = a % b; a = b; b = t; } return a ? a : 1; }
    static Ratio mk(__int128 n, __int128 d) { if (d < 0) { n = -n; d = -d; } __int128 k = g(n, d); Ratio r; r.n = n / k; r.d = d / k; return r; }
    static __int128 mul(__int128 a, __int128 b) { __int128 r; if (__builtin_mul_overflow(a, b, &r)) throw Over(); return r; } static __int128 add(__int128 a, __int128 b) { __int128 r; if (__builtin_add_overflow(a, b, &r)) throw Over(); return r; }
    static Ratio from(double v) { double s = v * 4; if (s != std::floor(s)) throw Over(); return mk((__int128)(long)s, 4); } double val() const { return (double)((long double)n / (long double)d); } };
inline Ratio operator+(Ratio a, Ratio b) { return Ratio::mk(Ratio::add(Ratio::mul(a.n, b.d), Ratio::mul(b.n, a.d)), Ratio::mul(a.d, b.d)); }
inline Ratio operator-(Ratio a) { a.n = -a.n; return a; }
inline Ratio operator-(Ratio a, Ratio b) { return a + (-b); }
inline Ratio operator*(Ratio a, Ratio b) { __int128 g1 = Ratio::g(a.n, b.d), g2 = Ratio::g(b.n, a.d); return Ratio::mk(Ratio::mul(a.n / g1, b.n / g2), Ratio::mul(a.d / g2, b.d / g1)); }
inline Ratio operator/(Ratio a, Ratio b) { if (b.n < 0) { b.n = -b.n; a.n = -a.n; } Ratio i; i.n = b.d; i.d = b.n; return a * i; }
inline int sgn(Ratio a) { return a.n > 0 ? 1 : a.n < 0 ? -1 : 0; }
inline Ratio lpconv(double v, Ratio *) { return Ratio::from(v); }
inline double lpval(Ratio a) { return a.val(); }
struct LDbl { long double v; LDbl(long double x = 0) : v(x) {} };
inline LDbl operator+(LDbl a, LDbl b) { return a.v + b.v; } inline LDbl operator-(LDbl a, LDbl b) { return a.v - b.v; } inline LDbl operator-(LDbl a) { return -a.v; } inline LDbl operator*(LDbl a, LDbl b) { return a.v * b.v; } inline LDbl operator/(LDbl a, LDbl b) { return a.v / b.v; }
inline int sgn(LDbl a) { return a.v > 1e-13L ? 1 : a.v < -1e-13L ? -1 : 0; }
inline LDbl lpconv(double v, LDbl *) { return LDbl(v); } inline double lpval(LDbl a) { return (double)a.v; }
struct LpIn { size_t m = 0, n = 0; std::vector<double> A, bl, bu, c, xl, xu; bool max = true; std::vector<int> type; double a(size_t i, size_t j) const { return A[j * m + i]; } };
struct LpOut { int st = 0; double obj = 0; std::vector<double> x; };   // st 0 optimal, 1 infeasible, 2 unbounded
template <class T> LpOut lpsolve_ref(const LpIn &P) {
    auto cv = [](double v) { return lpconv(v, (T *)nullptr); }; LpOut o; o.x.assign(P.n, 0); for (size_t j = 0; j < P.n; j++) if (P.xl[j] > P.xu[j]) { o.st = 1; return o; } for (size_t i = 0; i < P.m; i++) if (P.bl[i] > P.bu[i]) { o.st = 1; return o; }
    // columns: for each variable sign and offset
    struct Col { size_t j; int s; }; std::vector<Col> cols; std::vector<T> off(P.n); struct Row { std::vector<T> a; T b; }; std::vector<Row> rows; std::vector<std::pair<size_t, T>> ub;
    for (size_t j = 0; j < P.n; j++) { bool l = std::isfinite(P.xl[j]), u = std::isfinite(P.xu[j]); if (l) { off[j] = cv(P.xl[j]); cols.push_back({j, 1}); if (u) ub.push_back({cols.size() - 1, cv(P.xu[j]) - cv(P.xl[j])}); } else if (u) { off[j] = cv(P.xu[j]); cols.push_back({j, -1}); } else { off[j] = T(0); cols.push_back({j, 1}); cols.push_back({j, -1}); } }
    size_t nc = cols.size(); auto addrow = [&](int s, size_t i, double b) { Row r; r.a.resize(nc); T rb = cv(b); for (size_t j = 0; j < P.n; j++) rb = rb - cv(P.a(i, j)) * off[j]; for (size_t k = 0; k < nc; k++) { T v = cv(P.a(i, cols[k].j)); if (cols[k].s * s < 0) v = -v; r.a[k] = v; } r.b = s < 0 ? -rb : rb; rows.push_back(r); };
    for (size_t i = 0; i < P.m; i++) { if (std::isfinite(P.bu[i])) addrow(1, i, P.bu[i]); if (std::isfinite(P.bl[i])) addrow(-1, i, P.bl[i]); } for (auto &u : ub) { Row r; r.a.resize(nc); r.a[u.first] = T(1); r.b = u.second; rows.push_back(r); }
    // rows a y <= b, y >= 0; slack for each, artificial for negative b
    size_t R = rows.size(), N = nc + R; std::vector<std::vector<T>> t(R); std::vector<size_t> bas(R); size_t na = 0; for (auto &r : rows) if (sgn(r.b) < 0) na++; size_t W = N + na; size_t ai = N; for (size_t i = 0; i < R; i++) { t[i].assign(W + 1, T(0)); bool neg = sgn(rows[i].b) < 0; for (size_t k = 0; k < nc; k++) t[i][k] = neg ? -rows[i].a[k] : rows[i].a[k]; t[i][nc + i] = neg ? T(-1) : T(1); t[i][W] = neg ? -rows[i].b : rows[i].b; if (neg) { t[i][ai] = T(1); bas[i] = ai++; } else bas[i] = nc + i; }
    auto run = [&](std::vector<T> z, size_t lim) -> int { // maximise z over columns < lim
        for (int it = 0;; it++) { if (it > 3000) throw Ratio::Over(); size_t e = lim; for (size_t k = 0; k < lim; k++) { T rc = z[k]; for (size_t i = 0; i < R; i++) if (sgn(z[bas[i]])) rc = rc - z[bas[i]] * t[i][k]; bool basic = false; for (size_t i = 0; i < R; i++) basic |= bas[i] == k; if (!basic && sgn(rc) > 0) { e = k; break; } } if (e == lim) return 0;
            size_t l = R; T best; for (size_t i = 0; i < R; i++) if (sgn(t[i][e]) > 0) { T q = t[i][W] / t[i][e]; if (l == R || sgn(q - best) < 0 || (sgn(q - best) == 0 && bas[i] < bas[l])) { l = i; best = q; } } if (l == R) return 2;
            T p = t[l][e]; for (auto &v : t[l]) v = v / p; for (size_t i = 0; i < R; i++) if (i != l && sgn(t[i][e])) { T f = t[i][e]; for (size_t k = 0; k <= W; k++) t[i][k] = t[i][k] - f * t[l][k]; } bas[l] = e; } };
    if (na) { std::vector<T> z(W, T(0)); for (size_t k = N; k < W; k++) z[k] = T(-1); run(z, W); T s(0); for (size_t i = 0; i < R; i++) if (bas[i] >= N) s = s + t[i][W]; if (sgn(s) > 0) { o.st = 1; return o; }
        for (size_t i = 0; i < R; i++) if (bas[i] >= N) for (size_t k = 0; k < N; k++) if (sgn(t[i][k])) { T p = t[i][k]; for (auto &v : t[i]) v = v / p; for (size_t r = 0; r < R; r++) if (r != i && sgn(t[r][k])) { T f = t[r][k]; for (size_t q = 0; q <= W; q++) t[r][q] = t[r][q] - f * t[i][q]; } bas[i] = k; break; } }
    std::vector<T> z(W, T(0)); for (size_t k = 0; k < nc; k++) { T v = cv(P.c[cols[k].j]); if (!P.max) v = -v; z[k] = cols[k].s < 0 ? -v : v; } if (run(z, N) == 2) { o.st = 2; return o; }
    std::vector<T> y(W, T(0)); for (size_t i = 0; i < R; i++) y[bas[i]] = t[i][W]; std::vector<T> x = off; for (size_t k = 0; k < nc; k++) x[cols[k].j] = cols[k].s > 0 ? x[cols[k].j] + y[k] : x[cols[k].j] - y[k]; T v(0); for (size_t j = 0; j < P.n; j++) { v = v + cv(P.c[j]) * x[j]; o.x[j] = lpval(x[j]); } o.obj = lpval(v); return o; }
// integer variables by enumeration of their (finite) ranges
template <class T> LpOut mip_ref(LpIn P) { size_t k = P.n; for (size_t j = 0; j < P.n; j++) if (j < P.type.size() && P.type[j]) { k = j; break; } if (k == P.n) return lpsolve_ref<T>(P); LpOut b; b.st = 1; int t = P.type[k]; P.type[k] = 0; if (t == 1) { P.xl[k] = std::max(P.xl[k], 0.0); P.xu[k] = std::min(P.xu[k], 1.0); } double lo = std::ceil(P.xl[k]), hi = std::floor(P.xu[k]); for (double v = lo; v <= hi; v++) { P.xl[k] = P.xu[k] = v; LpOut o = mip_ref<T>(P); if (o.st == 2) return o; if (o.st == 0 && (b.st || (P.max ? o.obj > b.obj : o.obj < b.obj))) b = o; } return b; }
}
