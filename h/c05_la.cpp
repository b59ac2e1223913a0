// C05: linear algebra, statistics, interpolation and assignment, double and single precision.
#include "mats.hpp"
#include "reg.hpp"
using namespace vk;
// these lack C linkage in the installed headers
#define CSYM(x) __asm__(#x)
double c_d_mad(size_t, const double, const double *, size_t) CSYM(aa_la_d_mad);
float c_s_mad(size_t, const float, const float *, size_t) CSYM(aa_la_s_mad);
double c_d_mad2(size_t, size_t, const double *, const double *, size_t) CSYM(aa_la_d_mad2);
float c_s_mad2(size_t, size_t, const float *, const float *, size_t) CSYM(aa_la_s_mad2);
double c_det3x3(const double *) CSYM(aa_la_det3x3);
namespace {
// typed guarded matrix
template<class T> struct TM {
    size_t m, n, ld, sz; T *p; std::vector<T> snap;
    static T can(size_t i) { return (T)(1e15 + 1e9 * (double)i); }
    TM(size_t m_, size_t n_, size_t ld_) : m(m_), n(n_), ld(ld_), sz(n_ ? ld_ * (n_ - 1) + m_ : 0), p((T *)malloc(sizeof(T) * (sz ? sz : 1))) { for (size_t i = 0; i < sz; i++) p[i] = i % ld < m ? (T)NAN : can(i); }
    TM(Rng &r, size_t m_, size_t n_) : TM(m_, n_, r.coin(0.5) ? m_ : m_ + (size_t)r.range(1, 4)) {}
    TM(const TM &) = delete;
    ~TM() { free(p); }
    T &operator()(size_t i, size_t j) { return p[j * ld + i]; }
    void fill(Rng &r, double s = 1) { for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) (*this)(i, j) = (T)(s * r.uni(-2, 2)); }
    void set(const RM &R) { for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) (*this)(i, j) = (T)R(i, j); }
    RM ref() { RM R(m, n); for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) R(i, j) = (*this)(i, j); return R; }
    bool pad() { for (size_t k = 0; k < sz; k++) if (k % ld >= m && p[k] != can(k)) return false; return true; }
    void save() { snap.assign(p, p + sz); }
    bool same() { return sz == 0 || !memcmp(snap.data(), p, sz * sizeof(T)); }
};
// strided typed vector == 1-row matrix with ld = inc
template<class T> struct TV { TM<T> M; size_t n, inc; TV(Rng &r, size_t n_) : M(1, n_, r.coin(0.5) ? 1 : (size_t)r.range(1, 4)), n(n_), inc(M.ld) { M.fill(r); } T &operator[](size_t i) { return M(0, i); } T *p() { return M.p; } };
template<class T> struct API;
#define API_DEF(T, X) template<> struct API<T> { \
    static constexpr double eps = sizeof(T) == 8 ? 1e-11 : 2e-4; \
    static constexpr const char *nm = #X; \
    static void transpose(size_t m, size_t n, const T *A, size_t a, T *B, size_t b) { LIB(aa_la_##X##_transpose(m, n, A, a, B, b)); } \
    static int lls(size_t m, size_t n, size_t p, const T *A, size_t a, const T *b, size_t lb, T *x, size_t lx) { int r; LIB(r = aa_la_##X##_lls(m, n, p, A, a, b, lb, x, lx)); return r; } \
    static int qr(size_t m, size_t n, const T *A, size_t a, T *Q, size_t q, T *R, size_t r) { int i; LIB(i = aa_la_##X##_qr(m, n, A, a, Q, q, R, r)); return i; } \
    static int svd(size_t m, size_t n, const T *A, size_t a, T *U, size_t u, T *S, T *V, size_t v) { int i; LIB(i = aa_la_##X##_svd(m, n, A, a, U, u, S, V, v)); return i; } \
    static int eev(size_t n, const T *A, size_t a, T *wr, T *wi, T *Vl, size_t l, T *Vr, size_t r) { int i; LIB(i = aa_la_##X##_eev(n, A, a, wr, wi, Vl, l, Vr, r)); return i; } \
    static int sysv(const char *u, size_t n, size_t k, T *A, size_t a, int *ip, T *B, size_t b) { int i; LIB(i = aa_la_##X##_sysv(u, n, k, A, a, ip, B, b)); return i; } \
    static T median(size_t n, const T *x, size_t i) { T r; LIB(r = aa_la_##X##_median(n, x, i)); return r; } \
    static T nmedian(size_t n, T *x) { T r; LIB(r = aa_la_##X##_nmedian(n, x)); return r; } \
    static T mad(size_t n, T u, const T *x, size_t i) { T r; LIB(r = c_##X##_mad(n, u, x, i)); return r; } \
    static T mad2(size_t m, size_t n, const T *u, const T *A, size_t a) { T r; LIB(r = c_##X##_mad2(m, n, u, A, a)); return r; } \
    static T ssd(size_t n, const T *x, size_t ix, const T *y, size_t iy) { T r; LIB(r = aa_la_##X##_ssd(n, x, ix, y, iy)); return r; } \
    static T angle(size_t n, const T *x, size_t ix, const T *y, size_t iy) { T r; LIB(r = aa_la_##X##_angle(n, x, ix, y, iy)); return r; } \
    static T vecstd(size_t n, const T *x, size_t ix, T mu) { T r; LIB(r = aa_la_##X##_vecstd(n, x, ix, mu)); return r; } \
    static void colmean(size_t m, size_t n, const T *A, size_t a, T *x) { LIB(aa_la_##X##_colmean(m, n, A, a, x)); } \
    static void rowmean(size_t m, size_t n, const T *A, size_t a, T *x) { LIB(aa_la_##X##_rowmean(m, n, A, a, x)); } \
    static void colcov(size_t m, size_t n, const T *A, size_t a, const T *x, T *E, size_t e) { LIB(aa_la_##X##_colcov(m, n, A, a, x, E, e)); } \
    static void colfit(size_t m, size_t n, const T *A, size_t a, T *x) { LIB(aa_la_##X##_colfit(m, n, A, a, x)); } \
    static void lerp(size_t n, T u, const T *a, size_t ia, const T *b, size_t ib, T *c, size_t ic) { LIB(aa_la_##X##_lerp(n, u, a, ia, b, ib, c, ic)); } \
    static void hung(size_t m, size_t n, const T *A, size_t a, ssize_t *r, ssize_t *c) { LIB(aa_la_##X##_assign_hungarian(m, n, A, a, r, c)); } \
    static void max2min(size_t m, size_t n, T *A, size_t a) { LIB(aa_la_##X##_assign_hungarian_max2min(m, n, A, a)); } \
    static void s3p(size_t n, T tf, TV<T> &x1, TV<T> &d1, TV<T> &x2, TV<T> &d2, T *a2, T *a3) { LIB(aa_la_##X##_3spline_param(n, tf, x1.p(), x1.inc, d1.p(), d1.inc, x2.p(), x2.inc, d2.p(), d2.inc, a2, a3)); } \
    static void s3(size_t n, T t, TV<T> &x1, TV<T> &d1, T *a2, T *a3, TV<T> &x, TV<T> &d, TV<T> &dd) { LIB(aa_la_##X##_3spline(n, t, x1.p(), x1.inc, d1.p(), d1.inc, a2, a3, x.p(), x.inc, d.p(), d.inc, dd.p(), dd.inc)); } \
    static void s5p(size_t n, T tf, TV<T> &x1, TV<T> &d1, TV<T> &e1, TV<T> &x2, TV<T> &d2, TV<T> &e2, T *a3, T *a4, T *a5) { LIB(aa_la_##X##_5spline_param(n, tf, x1.p(), x1.inc, d1.p(), d1.inc, e1.p(), e1.inc, x2.p(), x2.inc, d2.p(), d2.inc, e2.p(), e2.inc, a3, a4, a5)); } \
    static void s5(size_t n, T t, TV<T> &x1, TV<T> &d1, TV<T> &e1, T *a3, T *a4, T *a5, TV<T> &x, TV<T> &d, TV<T> &dd) { LIB(aa_la_##X##_5spline(n, t, x1.p(), x1.inc, d1.p(), d1.inc, e1.p(), e1.inc, a3, a4, a5, x.p(), x.inc, d.p(), d.inc, dd.p(), dd.inc)); } \
    static size_t minloc(size_t n, T *x, size_t i) { return aa_la_##X##_minloc(n, x, i); } \
    static size_t maxloc(size_t n, T *x, size_t i) { return aa_la_##X##_maxloc(n, x, i); } \
    static T matmax(size_t m, size_t n, T *A, size_t a, size_t *i, size_t *j) { return aa_la_##X##_mat_max(m, n, A, a, i, j); } \
};
API_DEF(double, d)
API_DEF(float, s)
double refmedian(std::vector<double> v) { if (v.empty()) return 0; std::sort(v.begin(), v.end()); size_t n = v.size(); return n % 2 ? v[n / 2] : (v[n / 2] + v[n / 2 - 1]) / 2; }
size_t dim(Rng &r) { return (size_t)(r.coin(0.15) ? 1 : r.coin(0.004) ? r.range(9, 40) : r.range(1, 8)); }
RM upper(const RM &A) { RM R(A.m, A.n); for (size_t i = 0; i < A.m; i++) for (size_t j = i; j < A.n; j++) R(i, j) = A(i, j); return R; }

template<class T> void decomp(Rng &rng) {
    typedef API<T> L; const double e = L::eps; const char *nm = L::nm;
    fresh_region(rng);
    int op = (int)rng.range(0, 6); size_t m = dim(rng), n = dim(rng); if (op == 4 || op == 5) n = m;
    TM<T> A(rng, m, n); A.fill(rng); bool rd = rng.coin(0.2) && n > 1 && (op == 1 || op == 2);
    if (rd) for (size_t i = 0; i < m; i++) A(i, n - 1) = A(i, 0);
    A.save(); RM R = A.ref();
    note("%s decomp op %d %zux%zu ld=%zu rankdef=%d", nm, op, m, n, A.ld, rd); distinct((uint64_t)op * 100000 + m * 1000 + n * 10 + (A.ld != m) + 2 * (uint64_t)rd + 4 * sizeof(T));
    switch (op) {
    case 0: { TM<T> B(rng, n, m); L::transpose(m, n, A.p, A.ld, B.p, B.ld); CHECK("transpose", (B.ref() - R.t()).maxabs() == 0, "%s transpose wrong", nm); CHECK("pad", B.pad(), "transpose wrote outside its result"); break; }
    case 1: { // QR: A = Q R, Q orthogonal m x m, R upper m x n
        TM<T> Q(rng, m, m), U(rng, m, n); int want = (int)rng.range(0, 3); // both, both, Q only, R only
        int i = L::qr(m, n, A.p, A.ld, want == 3 ? nullptr : Q.p, Q.ld, want == 2 ? nullptr : U.p, U.ld); CHECK("qr-info", i == 0, "qr returned %d", i);
        if (want != 3) { RM q = Q.ref(); CHECK("qr-orth", (q.t() * q - RM::eye(m)).maxabs() <= e, "%s Q is not orthogonal", nm); RM z = q.t() * R; CHECK("qr-q", (z - upper(z)).maxabs() <= e * 10, "%s Q' A is not upper triangular", nm); }
        if (want != 2) { RM u = U.ref(); CHECK("qr-upper", (u - upper(u)).maxabs() == 0, "%s R is not upper triangular", nm); CHECK("qr-gram", (u.t() * u - R.t() * R).maxabs() <= e * 100, "%s R'R differs from A'A", nm); }
        if (want < 2) CHECK("qr", (Q.ref() * U.ref() - R).maxabs() <= e * 10, "%s Q R differs from A", nm);
        CHECK("pad", Q.pad() && U.pad(), "qr wrote outside its results"); break; }
    case 2: { // SVD
        size_t k = std::min(m, n); TM<T> U(rng, m, m), V(rng, n, n), S(k, 1, k); int want = (int)rng.range(0, 4); // >=2: both; 0: U only; 1: Vt only
        int i = L::svd(m, n, A.p, A.ld, want == 1 ? nullptr : U.p, want == 1 ? 0 : U.ld, S.p, want == 0 ? nullptr : V.p, want == 0 ? 0 : V.ld); CHECK("svd-info", i == 0, "svd returned %d", i);
        auto s = svals(R); for (size_t q = 0; q < k; q++) CLOSE("svd-values", (double)S(q, 0), s[q], e * 10);
        RM Sg(m, n); for (size_t q = 0; q < k; q++) Sg(q, q) = S(q, 0);
        if (want != 1) { RM u = U.ref(); CHECK("svd-u", (u.t() * u - RM::eye(m)).maxabs() <= e, "%s U is not orthogonal", nm); RM g = u.t() * R * R.t() * u; CHECK("svd-u", (g - Sg * Sg.t()).maxabs() <= e * 100, "%s U does not diagonalise A A'", nm); }
        if (want != 0) { RM v = V.ref(); CHECK("svd-v", (v * v.t() - RM::eye(n)).maxabs() <= e, "%s Vt is not orthogonal", nm); RM g = v * R.t() * R * v.t(); CHECK("svd-v", (g - Sg.t() * Sg).maxabs() <= e * 100, "%s V does not diagonalise A'A", nm); }
        if (want >= 2) CHECK("svd", (U.ref() * Sg * V.ref() - R).maxabs() <= e * 10, "%s U S Vt differs from A", nm);
        CHECK("pad", U.pad() && V.pad(), "svd wrote outside its results"); break; }
    case 3: { // least squares, minimum norm
        auto s = svals(R); size_t k = s.size(); double smin = s[k - 1]; if (rd) { if (m < n) return; if (k < 2) return; smin = s[k - 2]; } if (smin < 0.05) return; if (rd && sizeof(T) == 4) return;
        size_t p = dim(rng); TM<T> B(rng, m, p), X(rng, n, p); B.fill(rng); B.save();
        int i = L::lls(m, n, p, A.p, A.ld, B.p, B.ld, X.p, X.ld); CHECK("lls-info", i == 0, "lls returned %d", i);
        RM x = X.ref(), res = R.t() * (R * x - B.ref()); double t = e * 1000 / (smin * smin); CHECK("lls", res.maxabs() <= t, "%s least-squares residual not orthogonal to the columns of A: %g", nm, res.maxabs());
        // minimum norm: x in the row space of A
        if (m < n) { RM G = R * R.t(), Gi(m, m); if (ginv(G, Gi)) { RM pr = R.t() * (Gi * (R * x)); CHECK("lls-minnorm", (pr - x).maxabs() <= t, "%s solution is not of minimum norm", nm); } }
        if (rd) for (size_t c = 0; c < p; c++) CLOSE("lls-minnorm", (double)x(0, c), (double)x(n - 1, c), t);
        CHECK("pad", X.pad(), "lls wrote outside its result"); CHECK("input-const", B.same(), "lls modified b"); break; }
    case 4: { // eigen
        TM<T> wr(n, 1, n), wi(n, 1, n), Vl(rng, n, n), Vr(rng, n, n); int want = (int)rng.range(0, 3); if (want == 3) { for (size_t a = 0; a < n; a++) for (size_t b = 0; b < a; b++) A(a, b) = A(b, a); A.save(); R = A.ref(); }
        int i = L::eev(n, A.p, A.ld, wr.p, wi.p, want == 0 ? nullptr : Vl.p, want == 0 ? 0 : Vl.ld, want == 1 ? nullptr : Vr.p, want == 1 ? 0 : Vr.ld); CHECK("eev-info", i == 0, "eev returned %d", i);
        double tr = 0, sum = 0; for (size_t q = 0; q < n; q++) { tr += (double)R(q, q); sum += wr(q, 0); } CLOSE("eev-trace", sum, tr, e * 100); { double si = 0; for (size_t q = 0; q < n; q++) si += wi(q, 0); CLOSE("eev-conj", si, 0.0, e * 10); }
        // sum of squares of eigenvalues = trace(A^2)
        { double s2 = 0, t2 = 0; RM R2 = R * R; for (size_t q = 0; q < n; q++) { s2 += (double)wr(q, 0) * wr(q, 0) - (double)wi(q, 0) * wi(q, 0); t2 += (double)R2(q, q); } CLOSE("eev-trace2", s2, t2, e * 1000); }
        auto chk = [&](RM V, const RM &M, const char *key) { for (size_t q = 0; q < n; q++) { double a = wr(q, 0), b = wi(q, 0); if (b == 0) { ld_t mx = 0, nr = 0; for (size_t r = 0; r < n; r++) { ld_t s = 0; for (size_t c = 0; c < n; c++) s += M(r, c) * V(c, q); mx = std::max(mx, fabsl(s - a * V(r, q))); nr += V(r, q) * V(r, q); } CHECK(key, (double)mx <= e * 100 && std::fabs((double)nr - 1) < e * 100, "%s eigenpair %zu: residual %g norm %g", nm, q, (double)mx, (double)nr); }
            else if (b > 0 && q + 1 < n) { ld_t mx = 0; for (size_t r = 0; r < n; r++) { ld_t s = 0, u = 0; for (size_t c = 0; c < n; c++) { s += M(r, c) * V(c, q); u += M(r, c) * V(c, q + 1); } mx = std::max(mx, std::max(fabsl(s - (a * V(r, q) - b * V(r, q + 1))), fabsl(u - (a * V(r, q + 1) + b * V(r, q))))); } CHECK(key, (double)mx <= e * 100, "%s complex eigenpair %zu: residual %g", nm, q, (double)mx); } } };
        if (want != 1) chk(Vr.ref(), R, "eev-right");
        if (want != 0) { // u^H A = lambda u^H  <=>  A' u = conj(lambda) u
            RM V = Vl.ref(); for (size_t q = 0; q + 1 < n; q++) if (wi(q, 0) > 0) for (size_t r = 0; r < n; r++) V(r, q + 1) = -V(r, q + 1); chk(V, R.t(), "eev-left"); }
        CHECK("pad", Vl.pad() && Vr.pad(), "eev wrote outside its results"); break; }
    case 5: { // symmetric solve
        for (size_t a = 0; a < n; a++) for (size_t b = 0; b < a; b++) A(a, b) = A(b, a); R = A.ref(); auto s = svals(R); if (s.back() < 0.05) return;
        const char *u = rng.coin() ? "U" : "L"; size_t k = dim(rng); TM<T> B(rng, n, k); B.fill(rng); RM b = B.ref(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (*u == 'U' ? i > j : i < j) A(i, j) = (T)NAN;
        std::unique_ptr<int[]> ip(new int[n]); int i = L::sysv(u, n, k, A.p, A.ld, ip.get(), B.p, B.ld); CHECK("sysv-info", i == 0, "sysv returned %d", i);
        CHECK("sysv", (R * B.ref() - b).maxabs() <= e * 100 / s.back(), "%s symmetric solve residual", nm); CHECK("pad", B.pad() && A.pad(), "sysv wrote outside its operands"); return; }
    case 6: { // locate extremes
        size_t i, j; T v = L::matmax(m, n, A.p, A.ld, &i, &j); double mx = -1e9; for (auto x : R.v) mx = std::max(mx, (double)x); CHECK("matmax", (double)v == mx && i < m && j < n && (double)A(i, j) == mx, "mat_max"); 
        size_t c = (size_t)rng.range(0, (long)n - 1), lo = L::minloc(m, &A(0, c), 1), hi = L::maxloc(m, &A(0, c), 1); bool ok = lo < m && hi < m; for (size_t q = 0; ok && q < m; q++) ok = A(q, c) >= A(lo, c) && A(q, c) <= A(hi, c); CHECK("minloc", ok, "column minloc/maxloc");
        size_t r = (size_t)rng.range(0, (long)m - 1); lo = L::minloc(n, &A(r, 0), A.ld), hi = L::maxloc(n, &A(r, 0), A.ld); ok = lo < n && hi < n; for (size_t q = 0; ok && q < n; q++) ok = A(r, q) >= A(r, lo) && A(r, q) <= A(r, hi); CHECK("minloc", ok, "row minloc/maxloc"); break; }
    }
    CHECK("input-const", A.same(), "op %d modified its input", op); CHECK("pad", A.pad(), "op %d wrote into padding of its input", op);
}
template<class T> void stats(Rng &rng) {
    typedef API<T> L; const double e = sizeof(T) == 8 ? 1e-12 : 1e-5; const char *nm = L::nm; fresh_region(rng);
    int op = (int)rng.range(0, 8); size_t m = dim(rng), n = (size_t)rng.range(1, rng.coin(.01) ? 300 : 20); if (op == 5 || op == 6 || op == 4) n = std::max(n, (size_t)2);
    TM<T> A(rng, m, n); A.fill(rng); if (rng.coin(0.3)) for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) A(i, j) = (T)std::floor(A(i, j)); // ties
    A.save(); RM R = A.ref(); TV<T> x(rng, n), y(rng, n); if (rng.coin(0.3)) for (size_t i = 0; i < n; i++) x[i] = (T)std::floor(x[i]); x.M.save(); y.M.save();
    note("%s stats op %d %zux%zu ld=%zu inc=%zu", nm, op, m, n, A.ld, x.inc); distinct((uint64_t)op * 100000 + m * 1000 + n * 10 + (A.ld != m) + 2 * (x.inc > 1) + 4 * sizeof(T));
    std::vector<double> X; for (size_t i = 0; i < n; i++) X.push_back(x[i]);
    switch (op) {
    case 0: { CLOSE("median", (double)L::median(n, x.p(), x.inc), refmedian(X), e); TM<T> w(n, 1, n); for (size_t i = 0; i < n; i++) w(i, 0) = x[i]; CLOSE("nmedian", (double)L::nmedian(n, w.p), refmedian(X), e); break; }
    case 1: { double u = rng.uni(-1, 1); u = (double)(T)u; std::vector<double> d; for (auto v : X) d.push_back(std::fabs(v - u)); CLOSE("mad", (double)L::mad(n, (T)u, x.p(), x.inc), refmedian(d), e); break; }
    case 2: { TM<T> u(m, 1, m); u.fill(rng); std::vector<double> d; for (size_t j = 0; j < n; j++) { ld_t s = 0; for (size_t i = 0; i < m; i++) s += (R(i, j) - u(i, 0)) * (R(i, j) - u(i, 0)); d.push_back((double)sqrtl(s)); } CLOSE("mad2", (double)L::mad2(m, n, u.p, A.p, A.ld), refmedian(d), e * 10); break; }
    case 3: { ld_t s = 0, nx = 0, ny = 0, c = 0; for (size_t i = 0; i < n; i++) { s += ((ld_t)x[i] - y[i]) * ((ld_t)x[i] - y[i]); nx += (ld_t)x[i] * x[i]; ny += (ld_t)y[i] * y[i]; c += (ld_t)x[i] * y[i]; }
        CLOSE("ssd", (double)L::ssd(n, x.p(), x.inc, y.p(), y.inc), (double)s, e * 100);
        if (nx > 0.01 && ny > 0.01) { // angle via the same robust formula in long double
            ld_t a = 0, b = 0; nx = sqrtl(nx); ny = sqrtl(ny); for (size_t i = 0; i < n; i++) { ld_t p = x[i] / nx, q = y[i] / ny; a += (p - q) * (p - q); b += (p + q) * (p + q); } CLOSE("angle", (double)L::angle(n, x.p(), x.inc, y.p(), y.inc), (double)(2 * atan2l(sqrtl(a), sqrtl(b))), sizeof(T) == 8 ? 1e-7 : 2e-3);
            for (size_t i = 0; i < n; i++) y[i] = (T)(rng.coin() ? 2.0 : 2.0) * x[i]; CLOSE("angle-parallel", (double)L::angle(n, x.p(), x.inc, y.p(), y.inc), 0.0, sizeof(T) == 8 ? 1e-7 : 2e-3); for (size_t i = 0; i < n; i++) y[i] = -x[i]; CLOSE("angle-opposite", (double)L::angle(n, x.p(), x.inc, y.p(), y.inc), M_PI, sizeof(T) == 8 ? 1e-7 : 2e-3); y.M.save(); }
        break; }
    case 4: { T mu = (T)rng.uni(-1, 1); ld_t s = 0; for (auto v : X) s += (v - (double)mu) * (v - (double)mu); CLOSE("vecstd", (double)L::vecstd(n, x.p(), x.inc, mu), (double)sqrtl(s / (ld_t)(n - 1)), e * 10); break; }
    case 5: { TM<T> c(m, 1, m), r(n, 1, n); L::colmean(m, n, A.p, A.ld, c.p); L::rowmean(m, n, A.p, A.ld, r.p); for (size_t i = 0; i < m; i++) { ld_t s = 0; for (size_t j = 0; j < n; j++) s += R(i, j); CLOSE("colmean", (double)c(i, 0), (double)(s / (ld_t)n), e); } for (size_t j = 0; j < n; j++) { ld_t s = 0; for (size_t i = 0; i < m; i++) s += R(i, j); CLOSE("rowmean", (double)r(j, 0), (double)(s / (ld_t)m), e); } break; }
    case 6: { TM<T> mu(m, 1, m), E(rng, m, m); mu.fill(rng); L::colcov(m, n, A.p, A.ld, mu.p, E.p, E.ld); RM W(m, m); for (size_t j = 0; j < n; j++) for (size_t a = 0; a < m; a++) for (size_t b = 0; b < m; b++) W(a, b) += (R(a, j) - mu(a, 0)) * (R(b, j) - mu(b, 0)) / (ld_t)(n - 1); double d = (E.ref() - W).maxabs(); CHECK("colcov", d <= e * 100, "%s covariance off by %g", nm, d); CHECK("pad", E.pad(), "colcov wrote outside E"); break; }
    case 7: { double u = rng.coin(0.3) ? (double)rng.range(0, 1) : rng.uni(-1, 2); TV<T> z(rng, n); L::lerp(n, (T)u, x.p(), x.inc, y.p(), y.inc, z.p(), z.inc); for (size_t i = 0; i < n; i++) CLOSE("lerp", (double)z[i], (double)x[i] + (double)(T)u * ((double)y[i] - (double)x[i]), e * 2); CHECK("pad", z.M.pad(), "lerp wrote between elements"); break; }
    case 8: { // hyperplane through noise-free points: n.p + d = 0
        m = (size_t)rng.range(2, 4); n = m + (size_t)rng.range(0, 6); std::vector<double> nv(m); double s = 0; for (auto &v : nv) { v = rng.uni(-1, 1); s += v * v; } s = std::sqrt(s); if (s < 0.3) return; for (auto &v : nv) v /= s; double d = rng.sgn() * rng.uni(0.5, 2); TM<T> P(rng, m, n); P.fill(rng);
        RM M(m, n); for (size_t j = 0; j < n; j++) { double q = d; for (size_t i = 0; i < m; i++) q += nv[i] * P(i, j); for (size_t i = 0; i < m; i++) { P(i, j) = (T)(P(i, j) - q * nv[i]); M(i, j) = P(i, j); } } if (svals(M).back() < 0.2) return;
        P.save(); TM<T> pl(m + 1, 1, m + 1); L::colfit(m, n, P.p, P.ld, pl.p); double sg = pl(m, 0) * d > 0 ? 1 : -1, t = sizeof(T) == 8 ? 1e-9 : 2e-3; for (size_t i = 0; i < m; i++) CLOSE("colfit", sg * pl(i, 0), nv[i], t); CLOSE("colfit", sg * pl(m, 0), d, t * 4); CHECK("input-const", P.same() && P.pad(), "colfit modified its points"); return; }
    }
    CHECK("input-const", A.same() && x.M.same() && y.M.same(), "op %d modified its input", op);
}
template<class T> void assign(Rng &rng) {
    typedef API<T> L; fresh_region(rng);
    size_t m = (size_t)rng.range(1, 7), n = (size_t)rng.range(1, 7); TM<T> A(rng, m, n); int kind = (int)rng.range(0, 5); double s = kind == 4 ? 1000 : 10;
    for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) A(i, j) = (T)(kind == 0 ? rng.range(0, 3) : kind == 1 ? rng.range(-5, 0) : kind == 2 ? rng.range(-20, 20) : kind == 3 ? rng.uni(0, s) : kind == 4 ? rng.uni(-s, s) : -1.0 * (double)rng.range(1, 4));
    bool mx = rng.coin(0.3); A.save(); RM R0 = A.ref(); note("%s assign %zux%zu kind=%d max=%d", L::nm, m, n, kind, mx); distinct(m * 1000 + n * 100 + (uint64_t)kind * 10 + mx + 100000 * sizeof(T));
    if (mx) { L::max2min(m, n, A.p, A.ld); A.save(); }
    RM R = A.ref(); std::vector<ssize_t> rowv(m, -99), colv(n, -99); std::unique_ptr<ssize_t[]> row(new ssize_t[m]), col(new ssize_t[n]); for (size_t i = 0; i < m; i++) row[i] = -77; for (size_t j = 0; j < n; j++) col[j] = -77;
    L::hung(m, n, A.p, A.ld, row.get(), col.get());
    // optimum by dynamic programming over subsets of the larger side
    bool tr = m > n; RM C = tr ? R.t() : R; RM C0 = tr ? R0.t() : R0; size_t k = C.m, l = C.n; auto solve = [&](const RM &Q, double sg) { std::vector<double> best(1u << l, 1e300); best[0] = 0; for (unsigned q = 0; q < (1u << l); q++) { size_t c = (size_t)__builtin_popcount(q); if (c >= k || best[q] > 1e299) continue; for (size_t j = 0; j < l; j++) if (!(q >> j & 1)) best[q | 1u << j] = std::min(best[q | 1u << j], best[q] + sg * (double)Q(c, j)); } double r = 1e300; for (unsigned q = 0; q < (1u << l); q++) if ((size_t)__builtin_popcount(q) == k) r = std::min(r, best[q]); return sg * r; };
    size_t matched = 0; double cost = 0, cost0 = 0; bool ok = true;
    for (size_t i = 0; i < m; i++) { if (row[i] == -1) continue; if (row[i] < 0 || row[i] >= (ssize_t)n || col[(size_t)row[i]] != (ssize_t)i) { ok = false; break; } matched++; cost += (double)R(i, (size_t)row[i]); cost0 += (double)R0(i, (size_t)row[i]); }
    for (size_t j = 0; ok && j < n; j++) { if (col[j] == -1) continue; if (col[j] < 0 || col[j] >= (ssize_t)m || row[(size_t)col[j]] != (ssize_t)j) ok = false; }
    CHECK("matching", ok && matched == k, "not a full matching: %zu of %zu pairs, consistent=%d", matched, k, ok);
    if (ok && matched == k) { double t = sizeof(T) == 8 ? 1e-9 : 1e-2; CLOSE("optimal", cost, solve(C, 1), t); if (mx) CLOSE("optimal-max", cost0, solve(C0, -1), t); }
    CHECK("input-const", A.same(), "assignment modified the cost matrix");
}
template<class T> void spline(Rng &rng) {
    typedef API<T> L; fresh_region(rng); size_t n = dim(rng); double e = sizeof(T) == 8 ? 1e-10 : 2e-3; T tf = (T)(rng.coin(0.5) ? rng.uni(0.5, 3) : rng.uni(1, 2)); bool five = rng.coin();
    TV<T> x1(rng, n), d1(rng, n), e1(rng, n), x2(rng, n), d2(rng, n), e2(rng, n), x(rng, n), d(rng, n), dd(rng, n); TM<T> a2(n, 1, n), a3(n, 1, n), a4(n, 1, n), a5(n, 1, n);
    note("%s %s n=%zu tf=%g", L::nm, five ? "quintic" : "cubic", n, (double)tf); distinct(n * 100 + five + 2 * sizeof(T) + x1.inc * 1000 + x.inc * 10000);
    if (five) L::s5p(n, tf, x1, d1, e1, x2, d2, e2, a3.p, a4.p, a5.p); else L::s3p(n, tf, x1, d1, x2, d2, a2.p, a3.p);
    for (int k = 0; k < 3; k++) { T t = (T)(k == 0 ? 0 : k == 1 ? (double)tf : rng.uni(0, (double)tf)); if (five) L::s5(n, t, x1, d1, e1, a3.p, a4.p, a5.p, x, d, dd); else L::s3(n, t, x1, d1, a2.p, a3.p, x, d, dd);
        for (size_t i = 0; i < n; i++) {
            if (k == 0) { CLOSE("start", (double)x[i], (double)x1[i], e); CLOSE("start-vel", (double)d[i], (double)d1[i], e); if (five) CLOSE("start-acc", (double)dd[i], (double)e1[i], e); }
            if (k == 1) { CLOSE("end", (double)x[i], (double)x2[i], e * 10); CLOSE("end-vel", (double)d[i], (double)d2[i], e * 20); if (five) CLOSE("end-acc", (double)dd[i], (double)e2[i], e * 100); }
            if (k == 2) { ld_t c[6] = {x1[i], d1[i], five ? (ld_t)e1[i] / 2 : (ld_t)a2(i, 0), a3(i, 0), five ? (ld_t)a4(i, 0) : 0, five ? (ld_t)a5(i, 0) : 0}, p = 0, v = 0, a = 0; for (int q = 5; q >= 0; q--) { p = p * t + c[q]; if (q > 0) v = v * t + q * c[q]; if (q > 1) a = a * t + q * (q - 1) * c[q]; }
                CLOSE("poly", (double)x[i], (double)p, e * 10); CLOSE("poly-vel", (double)d[i], (double)v, e * 20); CLOSE("poly-acc", (double)dd[i], (double)a, e * 50); } } }
    CHECK("pad", x.M.pad() && d.M.pad() && dd.M.pad(), "spline wrote between elements");
}
}
SECTION(decomp_d, 14000, 140000) { decomp<double>(rng); }
SECTION(decomp_s, 6000, 60000) { decomp<float>(rng); }
SECTION(stats_d, 10000, 100000) { stats<double>(rng); }
SECTION(stats_s, 5000, 50000) { stats<float>(rng); }
SECTION(assign_d, 6000, 80000) { assign<double>(rng); }
SECTION(assign_s, 3000, 40000) { assign<float>(rng); }
SECTION(spline_d, 2000, 20000) { spline<double>(rng); }
SECTION(spline_s, 1000, 10000) { spline<float>(rng); }
// packed (unit-stride) double routines
SECTION(packed, 12000, 120000) {
    fresh_region(rng); size_t n = dim(rng); int op = (int)rng.range(0, 26); Buf x(n), y(n), z(n); for (size_t i = 0; i < n; i++) { x[i] = rng.uni(-2, 2); y[i] = rng.sgn() * rng.uni(0.1, 2); z[i] = NAN; } double a = rng.uni(-2, 2);
    std::vector<double> X(x.p, x.p + n), Y(y.p, y.p + n), E(n); note("packed op %d n=%zu", op, n); distinct((uint64_t)op * 100 + n); ld_t s = 0;
#define EW(call, expr) { LIB(call); for (size_t i = 0; i < n; i++) E[i] = (expr); CLOSEV(#call, z.p, E.data(), n, 1e-12); break; }
    switch (op) {
    case 0: { double lo = X[0], hi = X[0]; for (auto v : X) lo = std::min(lo, v), hi = std::max(hi, v); CHECK("min", aa_la_min(n, x) == lo, "min"); CHECK("max", aa_la_max(n, x) == hi, "max"); break; }
    case 1: for (size_t i = 0; i < n; i++) s += (ld_t)X[i] * Y[i]; CLOSE("dot", aa_la_dot(n, x, y), (double)s, 1e-12); break;
    case 2: for (size_t i = 0; i < n; i++) s += (ld_t)X[i] * X[i]; CLOSE("norm", aa_la_norm(n, x), (double)sqrtl(s), 1e-12); break;
    case 3: for (size_t i = 0; i < n; i++) s += ((ld_t)X[i] - Y[i]) * ((ld_t)X[i] - Y[i]); CLOSE("ssd", aa_la_ssd(n, x, y), (double)s, 1e-12); CLOSE("dist", aa_la_dist(n, x, y), (double)sqrtl(s), 1e-12); break;
    case 4: memcpy(z.p, x.p, n * 8); EW(aa_la_sinc(n, a, z), X[i] + a)
    case 5: memcpy(z.p, y.p, n * 8); EW(aa_la_vinc(n, x, z), X[i] + Y[i])
    case 6: memcpy(z.p, y.p, n * 8); EW(aa_la_axpy(n, a, x, z), a * X[i] + Y[i])
    case 7: EW(aa_la_axpy3(n, a, x, y, z), a * X[i] + Y[i])
    case 8: memcpy(z.p, x.p, n * 8); EW(aa_la_scal(n, a, z), X[i] * a)
    case 9: EW(aa_la_sadd(n, a, x, z), X[i] + a)
    case 10: EW(aa_la_smul(n, a, x, z), X[i] * a)
    case 11: EW(aa_la_ssub(n, a, x, z), a - X[i])
    case 12: EW(aa_la_sdiv(n, a, y, z), a / Y[i])
    case 13: EW(aa_la_vadd(n, x, y, z), X[i] + Y[i])
    case 14: EW(aa_la_vsub(n, x, y, z), X[i] - Y[i])
    case 15: EW(aa_la_vmul(n, x, y, z), X[i] * Y[i])
    case 16: EW(aa_la_vdiv(n, x, y, z), X[i] / Y[i])
    case 17: { for (auto v : X) s += (ld_t)v * v; if (s < 1e-3) break; memcpy(z.p, x.p, n * 8); LIB(aa_la_normalize(n, z)); for (size_t i = 0; i < n; i++) E[i] = (double)(X[i] / sqrtl(s)); CLOSEV("normalize", z.p, E.data(), n, 1e-12); break; }
    case 18: { Buf u(3), v(3), w(3); for (int i = 0; i < 3; i++) { u[i] = rng.uni(-2, 2); v[i] = rng.uni(-2, 2); } aa_la_cross(u, v, w); double c[3] = {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]}; CLOSEV("cross", w.p, c, 3, 1e-13); break; }
    case 19: { GM A(n, n, n); A.fill(rng); RM R(A); LIB(aa_la_transpose(n, A.b)); close_mat("transpose", A, R.t(), 0); size_t m = dim(rng); GM B(n, m, n), C(m, n, m); B.fill(rng); LIB(aa_la_transpose2(n, m, B.b, C.b)); close_mat("transpose2", C, RM(B).t(), 0); break; }
    case 20: { GM A(n, n, n); A.fill(rng); RM R(A); double t; LIB(t = aa_la_trace(n, A.b)); for (size_t i = 0; i < n; i++) s += R(i, i); CLOSE("trace", t, (double)s, 1e-12); LIB(t = aa_la_wdot(n, x, A.b, y)); s = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) s += (ld_t)X[i] * R(i, j) * Y[j]; CLOSE("wdot", t, (double)s, 1e-11); break; }
    case 21: { size_t m = dim(rng); GM A(m, n, m); A.fill(rng); RM R(A); Buf b(m); LIB(aa_la_mvmul(m, n, A.b, x, b)); for (size_t i = 0; i < m; i++) { s = 0; for (size_t j = 0; j < n; j++) s += R(i, j) * X[j]; CLOSE("mvmul", b[i], (double)s, 1e-11); } GM I(n, n, n); aa_la_ident(n, I.b); close_mat("ident", I, RM::eye(n), 0); aa_la_diag(n, I.b, a); close_mat("diag", I, RM::eye(n) * a, 0); break; }
    case 22: { GM A(3, 3, 3); A.fill(rng); RM R(A), X3(3, 3); ld_t det = R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) + R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0)); CLOSE("det3x3", c_det3x3(A.b), (double)det, 1e-12); break; }
    case 23: { GM A(n, n, n); A.fill(rng); RM R(A); auto sv = svals(R); if (sv.back() < 0.02) break; RM I(n, n); ginv(R, I); int r; LIB(r = aa_la_inv(n, A.b)); CHECK("inv-info", r == 0, "inv returned %d", r); close_mat("inv", A, I, 1e-11 * sv[0] / (sv.back() * sv.back())); break; }
    case 24: { Buf pl(n + 1); for (size_t i = 0; i <= n; i++) pl[i] = rng.uni(-2, 2); ld_t q = pl[n]; for (size_t i = 0; i < n; i++) { s += (ld_t)pl[i] * pl[i]; q += (ld_t)pl[i] * X[i]; } if (s < 0.01) break; s = sqrtl(s); CLOSE("point-plane", aa_la_point_plane(n, x, pl), (double)(q / s), 1e-11); std::vector<double> P(pl.p, pl.p + n + 1); LIB(aa_la_plane_hessian(n + 1, pl)); for (auto &v : P) v = (double)(v / s); CLOSEV("plane-hessian", pl.p, P.data(), n + 1, 1e-11); break; }
    case 25: { double t0 = rng.uni(-2, 2), t1 = t0 + rng.sgn() * rng.uni(0.2, 2), t = rng.uni(-3, 3); LIB(aa_la_linterp(n, t0, x, t1, y, t, z)); for (size_t i = 0; i < n; i++) E[i] = X[i] + (t - t0) / (t1 - t0) * (Y[i] - X[i]); CLOSEV("linterp", z.p, E.data(), n, 1e-10); break; }
    case 26: { double t0 = rng.uni(-2, 2), t1 = t0 + rng.uni(0.3, 1), t2 = t1 + rng.uni(0.3, 1), t = rng.uni(-3, 3); Buf x0(n), xa(n), xb(n); std::vector<double> D(n); for (size_t i = 0; i < n; i++) { double b = rng.uni(-1, 1), c = rng.uni(-1, 1); auto f = [&](double q) { return X[i] + b * q + c * q * q; }; x0[i] = f(t0); xa[i] = f(t1); xb[i] = f(t2); E[i] = f(t); D[i] = b + 2 * c * t; } LIB(aa_la_quadterp(n, t0, x0, t1, xa, t2, xb, t, z)); CLOSEV("quadterp", z.p, E.data(), n, 1e-9); LIB(aa_la_quadterp_dx(n, t0, x0, t1, xa, t2, xb, t, z)); CLOSEV("quadterp-dx", z.p, D.data(), n, 1e-9); break; }
    }
    if (op > 3) CHECK("input-const", !memcmp(x.p, X.data(), n * 8) && !memcmp(y.p, Y.data(), n * 8), "packed op %d modified its inputs", op);
}
// damped / null-space least squares and the Riccati equation
SECTION(dls, 4000, 40000) {
    fresh_region(rng); size_t m = dim(rng), n = dim(rng); GM A(m, n, m); A.fill(rng); A.save(); RM R(A); double k = rng.logu(-3, 0); int op = (int)rng.range(0, 4); auto sv = svals(R); note("dls op %d %zux%zu k=%g", op, m, n, k); distinct((uint64_t)op * 100 + m * 10 + n);
    RM G = R * R.t() + RM::eye(m) * k, Gi(m, m); ginv(G, Gi); RM P = R.t() * Gi; Buf b(m), xp(n), x(n); RM B(m, 1), XP(n, 1); for (size_t i = 0; i < m; i++) B(i, 0) = b[i] = rng.uni(-2, 2); for (size_t i = 0; i < n; i++) XP(i, 0) = xp[i] = rng.uni(-2, 2);
    double t = 1e-11 / k * 10; GM S(n, m, n); RM N = RM::eye(n) - P * R;
    auto cmp = [&](const char *key, const RM &W) { double d = 0; for (size_t i = 0; i < n; i++) { double q = std::fabs(x[i] - (double)W(i, 0)); if (!(q <= d)) d = q; } CHECK(key, d <= t * 10, "%s off by %g", key, d); };
    switch (op) {
    case 0: LIB(aa_la_dpinv(m, n, k, A.b, S.b)); close_mat("dpinv", S, P, t); break;
    case 1: { double s2 = rng.coin() ? rng.uni(0.01, 4) : 1e-6; LIB(aa_la_dzdpinv(m, n, s2, A.b, S.b)); std::vector<double> want; for (auto v : sv) want.push_back(v / std::max(v * v, s2)); std::sort(want.rbegin(), want.rend()); RM X(S); auto got = svals(X); for (size_t i = 0; i < got.size(); i++) CLOSE("dzdpinv", got[i], want[i], 1e-9 * (1 + want[0] * want[0])); RM XA = X * R, AX = R * X; double tt = 1e-9 * (1 + want[0]) * (1 + want[0]); CHECK("dzdpinv-sym", (XA - XA.t()).maxabs() <= tt && (AX - AX.t()).maxabs() <= tt, "dzdpinv does not share singular vectors"); break; }
    case 2: LIB(aa_la_dls(m, n, k, A.b, b, x)); cmp("dls", P * B); break;
    case 3: LIB(aa_la_dlsnp(m, n, k, A.b, b, xp, x)); cmp("dlsnp", P * B + N * XP); break;
    case 4: { GM Q(n, m, n); Q.fill(rng); RM q(Q); GM Np(n, n, n); LIB(aa_la_np(m, n, A.b, Q.b, Np.b)); close_mat("np", Np, q * R - RM::eye(n), 1e-11); LIB(aa_la_xlsnp(m, n, A.b, Q.b, b, xp, x)); cmp("xlsnp", q * B - (q * R - RM::eye(n)) * XP); break; }
    }
    CHECK("input-const", A.same(), "dls op %d modified A", op);
}
SECTION(care, 600, 6000) {
    fresh_region(rng); size_t m = (size_t)rng.range(1, 5), n = (size_t)rng.range(1, 5), p = (size_t)rng.range(1, 5); GM A(m, m, m); A.fill(rng); RM RA(A);
    GM B(m, n, m), C(p, m, p); B.fill(rng); C.fill(rng); RM rb(B), rc(C), S = rb * rb.t(), Q = rc.t() * rc;
    // n == m / p == m: the argument is the (symmetric) product itself
    if (n == m) { S = S + RM::eye(m) * (ld_t)0.1; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) B(i, j) = (double)S(i, j); S = RM(B); }
    if (p == m) { Q = Q + RM::eye(m) * (ld_t)0.1; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) C(i, j) = (double)Q(i, j); Q = RM(C); }
    note("care m=%zu n=%zu p=%zu", m, n, p); GM X(m, m, m); X.nanfill(); A.save(); B.save(); C.save(); int r; LIB(r = aa_la_care_laub(m, n, p, A.b, B.b, C.b, X.b));
    RM x(X); double big = x.maxabs(); if (!(big < 50) || n < m / 2) { count("care-illconditioned"); return; } distinct(m * 100 + n * 10 + p);
    RM res = RA.t() * x + x * RA - x * S * x + Q; CHECK("care", r == 0 && res.maxabs() <= 1e-7 * (1 + big) * (1 + big), "Riccati residual %g (|X| %g)", res.maxabs(), big); CHECK("care-symmetric", (x - x.t()).maxabs() <= 1e-7 * (1 + big), "Riccati solution not symmetric"); CHECK("input-const", A.same() && B.same() && C.same(), "care modified its inputs");
}
VK_MAIN
