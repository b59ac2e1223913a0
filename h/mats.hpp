// Guarded, strided matrices/vectors and naive reference arithmetic.
#pragma once
#include "vk.hpp"
#include <amino.h>
namespace vk {
typedef long double ld_t;
// Column-major matrix in an exact-size heap block with canaries in the ld padding.
struct GM {
    size_t m, n, ld; Buf b; struct aa_dmat d; std::vector<double> snap;
    static double canary(size_t i) { return 1e17 + (double)i * 1024.0; }
    GM(size_t m_, size_t n_, size_t ld_) : m(m_), n(n_), ld(ld_), b(n_ ? ld_ * (n_ - 1) + m_ : 0) {
        for (size_t i = 0; i < b.n; i++) b.p[i] = canary(i);
        d = AA_DMAT_INIT(m, n, b.p, ld);
    }
    GM(Rng &r, size_t m_, size_t n_) : GM(m_, n_, r.coin(0.5) ? m_ : m_ + (size_t)r.range(1, 5)) { fill(r); }
    double &operator()(size_t i, size_t j) { return b.p[j * ld + i]; }
    void fill(Rng &r, double s = 1) { for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) (*this)(i, j) = s * r.uni(-2, 2); }
    void nanfill() { for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) (*this)(i, j) = NAN; }
    operator struct aa_dmat *() { return &d; }
    // padding untouched?
    bool pad_ok() { for (size_t k = 0; k < b.n; k++) if (k % ld >= m && b.p[k] != canary(k)) return false;
        return d.rows == m && d.cols == n && d.ld == ld && d.data == b.p; }
    std::vector<double> dense() { std::vector<double> v; for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) v.push_back((*this)(i, j)); return v; }
    void save() { snap.assign(b.p, b.p + b.n); }
    bool same() { return b.n == 0 || memcmp(snap.data(), b.p, b.n * sizeof(double)) == 0; }
};
struct GV {
    size_t n, inc; Buf b; struct aa_dvec d; std::vector<double> snap;
    GV(size_t n_, size_t inc_) : n(n_), inc(inc_), b(n_ ? inc_ * (n_ - 1) + 1 : 0) {
        for (size_t i = 0; i < b.n; i++) b.p[i] = GM::canary(i);
        d = AA_DVEC_INIT(n, b.p, inc);
    }
    GV(Rng &r, size_t n_) : GV(n_, r.coin(0.5) ? 1 : (size_t)r.range(1, 4)) { fill(r); }
    double &operator[](size_t i) { return b.p[i * inc]; }
    void fill(Rng &r) { for (size_t i = 0; i < n; i++) (*this)[i] = r.uni(-2, 2); }
    operator struct aa_dvec *() { return &d; }
    bool pad_ok() { for (size_t k = 0; k < b.n; k++) if (k % inc && b.p[k] != GM::canary(k)) return false;
        return d.len == n && d.inc == inc && d.data == b.p; }
    std::vector<double> dense() { std::vector<double> v; for (size_t i = 0; i < n; i++) v.push_back((*this)[i]); return v; }
    void save() { snap.assign(b.p, b.p + b.n); }
    bool same() { return b.n == 0 || memcmp(snap.data(), b.p, b.n * sizeof(double)) == 0; }
};
// naive long-double dense column-major matrix
struct RM {
    size_t m, n; std::vector<ld_t> v;
    RM(size_t m_, size_t n_) : m(m_), n(n_), v(m_ * n_, 0) {}
    RM(GM &g) : RM(g.m, g.n) { for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) (*this)(i, j) = g(i, j); }
    RM(const double *p, size_t m_, size_t n_, size_t ld) : RM(m_, n_) { for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) (*this)(i, j) = p[j * ld + i]; }
    ld_t &operator()(size_t i, size_t j) { return v[j * m + i]; }
    ld_t operator()(size_t i, size_t j) const { return v[j * m + i]; }
    RM t() const { RM r(n, m); for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) r(j, i) = (*this)(i, j); return r; }
    RM operator*(const RM &o) const { RM r(m, o.n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < o.n; j++) { ld_t s = 0; for (size_t k = 0; k < n; k++) s += (*this)(i, k) * o(k, j); r(i, j) = s; } return r; }
    RM operator-(const RM &o) const { RM r(*this); for (size_t i = 0; i < v.size(); i++) r.v[i] -= o.v[i]; return r; }
    RM operator+(const RM &o) const { RM r(*this); for (size_t i = 0; i < v.size(); i++) r.v[i] += o.v[i]; return r; }
    RM operator*(ld_t a) const { RM r(*this); for (auto &x : r.v) x *= a; return r; }
    static RM eye(size_t n) { RM r(n, n); for (size_t i = 0; i < n; i++) r(i, i) = 1; return r; }
    double maxabs() const { double s = 0; for (auto x : v) { double a = (double)fabsl(x); if (a != a) return NAN; s = std::max(s, a); } return s; }
    double fro() const { ld_t s = 0; for (auto x : v) s += x * x; return (double)sqrtl(s); }
};
inline void close_mat(const char *key, GM &g, const RM &r, double tol) {
    double m = (RM(g) - r).maxabs();
    CHECK(key, m <= tol, "%zux%zu result (ld %zu) differs from reference by %.3g (tol %.3g)", g.m, g.n, g.ld, m, tol);
    CHECK((std::string(key) + "-pad").c_str(), g.pad_ok(), "memory outside the %zux%zu view (ld %zu) was modified", g.m, g.n, g.ld);
}
// Solve/inverse by Gauss-Jordan with full pivoting in long double; false if singular
inline bool ginv(const RM &A, RM &X) {
    size_t n = A.m; RM W(A); X = RM::eye(n);
    for (size_t c = 0; c < n; c++) {
        size_t p = c; for (size_t i = c; i < n; i++) if (fabsl(W(i, c)) > fabsl(W(p, c))) p = i;
        if (fabsl(W(p, c)) < 1e-14L) return false;
        for (size_t j = 0; j < n; j++) { std::swap(W(p, j), W(c, j)); std::swap(X(p, j), X(c, j)); }
        ld_t d = W(c, c); for (size_t j = 0; j < n; j++) { W(c, j) /= d; X(c, j) /= d; }
        for (size_t i = 0; i < n; i++) if (i != c) { ld_t f = W(i, c); if (f != 0) for (size_t j = 0; j < n; j++) { W(i, j) -= f * W(c, j); X(i, j) -= f * X(c, j); } }
    }
    return true;
}
// Singular values of A by one-sided Jacobi (long double), descending; optionally V
inline std::vector<double> svals(const RM &A) {
    RM W = A.m >= A.n ? A : A.t(); size_t n = W.n, m = W.m;
    for (int sweep = 0; sweep < 60; sweep++) {
        ld_t off = 0;
        for (size_t p = 0; p < n; p++) for (size_t q = p + 1; q < n; q++) {
            ld_t a = 0, b = 0, c = 0;
            for (size_t i = 0; i < m; i++) { a += W(i, p) * W(i, p); b += W(i, q) * W(i, q); c += W(i, p) * W(i, q); }
            if (c == 0 || fabsl(c) < 1e-18L * sqrtl(a * b)) continue;
            off = std::max(off, fabsl(c) / sqrtl(a * b + 1e-300L));
            ld_t z = (b - a) / (2 * c), t = (z >= 0 ? 1 : -1) / (fabsl(z) + sqrtl(1 + z * z)), cs = 1 / sqrtl(1 + t * t), sn = cs * t;
            for (size_t i = 0; i < m; i++) { ld_t x = W(i, p), y = W(i, q); W(i, p) = cs * x - sn * y; W(i, q) = sn * x + cs * y; }
        }
        if (off < 1e-17L) break;
    }
    std::vector<double> s; for (size_t j = 0; j < n; j++) { ld_t a = 0; for (size_t i = 0; i < m; i++) a += W(i, j) * W(i, j); s.push_back((double)sqrtl(a)); }
    std::sort(s.rbegin(), s.rend());
    return s;
}
}
