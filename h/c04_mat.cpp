// C04: matrix/vector descriptor operations against naive references, on strided views.
#include "mats.hpp"
#include "reg.hpp"
#include <csetjmp>
using namespace vk;
namespace {
const double EPS = 1e-12;
jmp_buf jb; bool armed = false; int errs = 0;
void on_err(const char *) { errs++; if (armed) longjmp(jb, 1); }
size_t dim(Rng &r) { return (size_t)(r.coin(0.15) ? 1 : r.coin(0.004) ? r.range(20, 140) : r.range(1, 9)); }
AA_CBLAS_TRANSPOSE tr(bool t) { return t ? CblasTrans : CblasNoTrans; }
double alpha(Rng &r) { static const std::vector<double> v = {0, 1, -1, 0.5, 2}; return r.coin(0.5) ? r.pick(v) : r.uni(-3, 3); }
}
SECTION(vec, 12000, 120000) {
    fresh_region(rng);
    size_t n = rng.coin(0.05) ? 0 : dim(rng);
    GV x(rng, n), y(rng, n); double a = alpha(rng);
    auto X = x.dense(), Y = y.dense(), E = Y;
    int op = (int)rng.range(0, 10); x.save();
    note("vec op %d n=%zu incx=%zu incy=%zu alpha=%g", op, n, x.inc, y.inc, a);
    distinct((uint64_t)op * 100000 + n * 1000 + x.inc * 100 + y.inc * 10 + (a == 0));
    auto res = [&](const char *k, GV &g, const std::vector<double> &e) { std::vector<double> got = g.dense(); CLOSEV(k, got.data(), e.data(), n, EPS); CHECK("pad", g.pad_ok(), "op %d wrote between vector elements", op); };
    switch (op) {
    case 0: LIB(aa_dvec_swap(x, y)); res("swap", x, Y); res("swap", y, X); return;
    case 1: LIB(aa_dvec_scal(a, y)); for (auto &e : E) e *= a; res("scal", y, E); break;
    case 2: LIB(aa_dvec_inc(a, y)); for (auto &e : E) e += a; res("inc", y, E); break;
    case 3: LIB(aa_dvec_copy(x, y)); res("copy", y, X); break;
    case 4: LIB(aa_dvec_axpy(a, x, y)); for (size_t i = 0; i < n; i++) E[i] += a * X[i]; res("axpy", y, E); break;
    case 5: { double d; LIB(d = aa_dvec_dot(x, y)); ld_t r = 0; for (size_t i = 0; i < n; i++) r += (ld_t)X[i] * Y[i]; CLOSE("dot", d, (double)r, EPS); res("dot", y, Y); break; }
    case 6: { double d; LIB(d = aa_dvec_nrm2(x)); ld_t r = 0; for (auto v : X) r += (ld_t)v * v; CLOSE("nrm2", d, (double)sqrtl(r), EPS); break; }
    case 7: { double d; LIB(d = aa_dvec_ssd(x, y)); ld_t r = 0; for (size_t i = 0; i < n; i++) r += ((ld_t)X[i] - Y[i]) * ((ld_t)X[i] - Y[i]); CLOSE("ssd", d, (double)r, EPS); res("ssd", y, Y); break; }
    case 8: if (rng.coin()) { LIB(aa_dvec_set(y, a)); for (auto &e : E) e = a; } else { LIB(aa_dvec_zero(y)); for (auto &e : E) e = 0; } res("set", y, E); break;
    case 9: { // slices
        size_t st_ = (size_t)rng.range(0, (long)n), sp = (size_t)rng.range((long)st_, (long)n), step = (size_t)rng.range(1, 4);
        struct aa_dvec s; LIB(aa_dvec_slice(x, st_, sp, step, &s));
        std::vector<double *> want; for (size_t i = st_; i < sp; i += step) want.push_back(&x[i]);
        bool ok = s.len == want.size(); for (size_t i = 0; ok && i < s.len; i++) ok = s.data + i * s.inc == want[i];
        CHECK("slice", ok, "slice %zu:%zu:%zu of %zu (inc %zu) has %zu elements, expected %zu", st_, sp, step, n, x.inc, (size_t)s.len, want.size());
        break; }
    case 10: { // dup / alloc
        struct aa_dvec *d = aa_dvec_mdup(x);
        CHECK("dup", d->len == n && d->inc == 1 && d->data != x.b.p, "duplicate descriptor"); CLOSEV("dup", d->data, X.data(), n, 0); free(d);
        aa_mem_region_t *r = aa_mem_region_create((size_t)rng.range(0, 64)); d = aa_dvec_dup(r, x);
        struct aa_dvec *d2 = aa_dvec_alloc(r, n); for (size_t i = 0; i < n; i++) d2->data[i] = 1;
        CHECK("dup", d->len == n && d->inc == 1, "region duplicate descriptor"); CLOSEV("dup", d->data, X.data(), n, 0);
        CHECK("align", (uintptr_t)d->data % 8 == 0 && (uintptr_t)d2->data % 8 == 0, "vector data misaligned");
        aa_mem_region_destroy(r); break; }
    }
    CHECK("input-const", x.same(), "op %d modified its input vector", op);
}
SECTION(mat, 16000, 160000) {
    fresh_region(rng);
    size_t m = dim(rng), n = dim(rng); GM A(rng, m, n); double a = alpha(rng), b = alpha(rng);
    int op = (int)rng.range(0, 12); RM R(A); A.save();
    note("mat op %d %zux%zu ld=%zu", op, m, n, A.ld); distinct((uint64_t)op * 100000 + m * 1000 + n * 10 + (A.ld != m));
    switch (op) {
    case 0: { LIB(aa_dmat_set(A, a, b)); RM E(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) E(i, j) = i == j ? b : a; close_mat("set", A, E, 0); return; }
    case 1: LIB(aa_dmat_zero(A)); close_mat("zero", A, RM(m, n), 0); return;
    case 2: LIB(aa_dmat_scal(A, a)); close_mat("scal", A, R * a, EPS); return;
    case 3: { LIB(aa_dmat_inc(A, a)); RM E(R); for (auto &v : E.v) v += a; close_mat("inc", A, E, EPS); return; }
    case 4: { GM B(rng, m, n); RM S(B); LIB(aa_dmat_axpy(a, A, B)); close_mat("axpy", B, S + R * a, EPS); break; }
    case 5: { GM B(rng, m, n); RM S(B); double d; B.save(); LIB(d = aa_dmat_ssd(A, B)); double f = (R - S).fro(); CLOSE("ssd", d, f * f, 1e-11); CHECK("input-const", B.same(), "ssd modified its operand"); break; }
    case 6: { double d; LIB(d = aa_dmat_nrm2(A)); CLOSE("nrm2", d, R.fro(), EPS); break; }
    case 7: { GM B(rng, n, m); LIB(aa_dmat_trans(A, B)); close_mat("trans", B, R.t(), 0); break; }
    case 8: { GM B(rng, m, n); RM S(B); if (rng.coin()) { LIB(aa_dmat_copy(A, B)); close_mat("copy", B, R, 0); }
        else { const char *u = rng.coin() ? "U" : "L"; LIB(aa_dmat_lacpy(u, A, B)); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) if (*u == 'U' ? i <= j : i >= j) S(i, j) = R(i, j); close_mat("lacpy", B, S, 0); } break; }
    case 9: { // views
        size_t r0 = (size_t)rng.range(0, (long)m - 1), r1 = (size_t)rng.range((long)r0 + 1, (long)m), c0 = (size_t)rng.range(0, (long)n - 1), c1 = (size_t)rng.range((long)c0 + 1, (long)n);
        struct aa_dmat v; if (rng.coin()) aa_dmat_block(A, r0, c0, r1, c1, &v); else aa_dmat_view_block(&v, A, r0, c0, r1 - r0, c1 - c0);
        CHECK("block", v.rows == r1 - r0 && v.cols == c1 - c0 && v.ld == A.ld && v.data == &A(r0, c0), "block view wrong");
        struct aa_dvec w; aa_dmat_row_vec(A, r0, &w); CHECK("row", w.len == n && w.data == &A(r0, 0) && (n < 2 || w.inc == A.ld), "row view wrong");
        aa_dmat_col_vec(A, c0, &w); CHECK("col", w.len == m && w.data == &A(0, c0) && w.inc == 1, "column view wrong");
        aa_dmat_diag_vec(A, &w); CHECK("diag", w.len == std::min(m, n) && w.data == &A(0, 0) && w.inc == A.ld + 1, "diagonal view wrong");
        // writing through a block touches the block only
        aa_dmat_inc(&v, 1.0); RM E(R); for (size_t i = r0; i < r1; i++) for (size_t j = c0; j < c1; j++) E(i, j) += 1; close_mat("block-inc", A, E, EPS);
        aa_dmat_scal(&v, 2.0); for (size_t i = r0; i < r1; i++) for (size_t j = c0; j < c1; j++) E(i, j) *= 2; close_mat("block-scal", A, E, EPS);
        aa_dmat_set(&v, 3, 4); for (size_t i = r0; i < r1; i++) for (size_t j = c0; j < c1; j++) E(i, j) = (i - r0 == j - c0) ? 4 : 3; close_mat("block-set", A, E, 0);
        return; }
    case 10: { // dup
        struct aa_dmat *d = aa_dmat_mdup(A); CHECK("dup", d->rows == m && d->cols == n && d->ld == m && d->data != A.b.p, "duplicate descriptor"); CHECK("dup", (RM(d->data, m, n, m) - R).maxabs() == 0, "duplicate content"); free(d);
        aa_mem_region_t *r = aa_mem_region_create((size_t)rng.range(0, 64)); d = aa_dmat_dup(r, A); CHECK("dup", d->rows == m && d->cols == n && d->ld == m && (RM(d->data, m, n, m) - R).maxabs() == 0, "region duplicate");
        struct aa_dmat *d2 = aa_dmat_alloc(r, m, n); aa_dmat_zero(d2); CHECK("dup", (RM(d->data, m, n, m) - R).maxabs() == 0, "allocations overlap"); aa_mem_region_destroy(r); break; }
    case 11: { // gemv
        bool t = rng.coin(); GV x(rng, t ? m : n), y(rng, t ? n : m); RM X(x.n, 1), Y(y.n, 1); for (size_t i = 0; i < x.n; i++) X(i, 0) = x[i]; for (size_t i = 0; i < y.n; i++) Y(i, 0) = y[i];
        x.save(); LIB(aa_dmat_gemv(tr(t), a, A, x, b, y)); RM E = (t ? R.t() : R) * X * a + Y * b; bool ok = true; double mx = 0; for (size_t i = 0; i < y.n; i++) mx = std::max(mx, std::fabs(y[i] - (double)E(i, 0))), ok = ok && y[i] == y[i];
        CHECK("gemv", ok && mx <= EPS * 10, "gemv(trans=%d) off by %g", t, mx); CHECK("pad", y.pad_ok(), "gemv wrote between elements"); CHECK("input-const", x.same(), "gemv modified x"); break; }
    case 12: { // gemm: A is m x n; op(A) = M x K
        bool ta = rng.coin(), tb = rng.coin(); size_t M = ta ? n : m, K = ta ? m : n, N = dim(rng);
        GM B(rng, tb ? N : K, tb ? K : N), C(rng, M, N); RM S(B), C0(C); B.save();
        LIB(aa_dmat_gemm(tr(ta), tr(tb), a, A, B, b, C)); close_mat("gemm", C, (ta ? R.t() : R) * (tb ? S.t() : S) * a + C0 * b, EPS * 10); CHECK("input-const", B.same(), "gemm modified B"); distinct(m * 7919 + n * 131 + N * 17 + ta * 3 + tb); break; }
    }
    CHECK("input-const", A.same(), "op %d modified its input matrix", op);
}
// size mismatches are reported through the error handler before anything is written
SECTION(mismatch, 6000, 60000) {
    fresh_region(rng); aa_la_set_err(on_err);
    size_t m = dim(rng), n = dim(rng); auto off = [&](size_t k) { return (rng.coin(0.5) || k < 2) ? k + (size_t)rng.range(1, 3) : k - 1; };
    GM A(rng, m, n); int op = (int)rng.range(0, 12); errs = 0; bool returned = false;
    size_t k = off(m), l = off(n); GM B(rng, k, n), C(rng, m, l), D(rng, k, l); GV x(rng, m), y(rng, k);
    GV xn(rng, n), xo(rng, l); bool which = rng.coin(); GM E(rng, which ? n : l, which ? k : m);
    B.save(); C.save(); y.save(); A.save(); D.save(); E.save(); x.save();
    note("mismatch op %d %zux%zu vs %zu,%zu", op, m, n, k, l); distinct((uint64_t)op * 10000 + m * 1000 + n * 100 + k * 10 + l);
    struct aa_dmat v; struct aa_dvec w; armed = true;
    if (!setjmp(jb)) {
        switch (op) {
        case 0: aa_dvec_copy(x, y); break; case 1: aa_dvec_axpy(1, x, y); break; case 2: aa_dvec_dot(x, y); break; case 3: aa_dvec_swap(x, y); break;
        case 4: aa_dvec_ssd(x, y); break; case 5: aa_dmat_copy(A, which ? &B.d : &C.d); break; case 6: aa_dmat_axpy(1, A, which ? &B.d : &C.d); break;
        case 7: aa_dmat_ssd(A, which ? &B.d : &C.d); break; case 8: aa_dmat_block(A, 0, 0, which ? m + 1 : m, which ? n : n + 1, &v); break;
        case 9: if (which) aa_dmat_row_vec(A, m, &w); else aa_dmat_col_vec(A, n, &w); break;
        case 10: aa_dvec_slice(x, 0, m + 1, 1, &w); break;
        case 11: aa_dmat_trans(A, E); break;
        case 12: aa_dmat_gemv(CblasNoTrans, 1, A, which ? &xn.d : &xo.d, 0, which ? &y.d : &x.d); break;
        }
        returned = true;
    }
    armed = false; aa_la_set_err(on_err);
    (void)returned;
    CHECK("reported", errs > 0, "mismatched operands of op %d were accepted silently", op);
    CHECK("untouched", B.same() && C.same() && y.same() && A.same() && E.same() && x.same(), "op %d wrote to its operands despite the mismatch", op);
}
// inverses
SECTION(inverse, 8000, 80000) {
    fresh_region(rng);
    int op = (int)rng.range(0, 3);
    size_t m = dim(rng), n = op == 0 ? m : dim(rng); GM A(rng, m, n); A.save();
    int rankdef = op >= 1 && std::min(m, n) > 1 && rng.coin(0.3);
    if (rankdef) { for (size_t i = 0; i < m; i++) A(i, n - 1) = n > 1 ? 2 * A(i, 0) : 0; if (n == 1) rankdef = 0; A.save(); }
    RM R(A); auto s = svals(R); double smax = s[0], smin = s.back(); size_t rk = rankdef ? 0 : std::min(m, n);
    note("inverse op %d %zux%zu ld=%zu smin=%g rankdef=%d", op, m, n, A.ld, smin, rankdef); distinct((uint64_t)op * 100000 + m * 1000 + n * 10 + (A.ld != m) + 5 * (uint64_t)rankdef);
    if (op == 0) {
        if (smin < 1e-3 * smax) return;
        int r; LIB(r = aa_dmat_inv(A)); RM X(n, n); ginv(R, X); CHECK("inv-info", r == 0, "inverse returned %d", r); close_mat("inv", A, X, 1e-11 * smax / (smin * smin) + 1e-11); return;
    }
    GM P(rng, n, m);
    if (op == 1) {
        // Moore-Penrose conditions
        if (!rankdef && smin < 1e-3 * smax) return;
        if (rankdef) { if (s.size() < 2 || s[s.size() - 2] < 1e-3 * smax) return; }
        P.nanfill(); int r; LIB(r = aa_dmat_pinv(A, rng.coin() ? -1 : 1e-8, P)); CHECK("pinv-info", r == 0, "pinv returned %d", r);
        RM X(P); double c = 1e-10 * (1 + smax) * (1 + X.maxabs()) * (1 + X.maxabs());
        CHECK("pinv", (R * X * R - R).maxabs() <= c && (X * R * X - X).maxabs() <= c && (R * X - (R * X).t()).maxabs() <= c && (X * R - (X * R).t()).maxabs() <= c, "pinv of %zux%zu violates the Moore-Penrose conditions", m, n);
        CHECK("pinv-pad", P.pad_ok(), "pinv wrote outside its result");
    } else if (op == 2) {
        // damped: A' (A A' + k I)^-1
        double k = rng.logu(-4, 0); int r; LIB(r = aa_dmat_dpinv(A, k, P)); CHECK("dpinv-info", r == 0, "dpinv returned %d", r);
        RM G = R * R.t() + RM::eye(m) * k, Gi(m, m); if (!ginv(G, Gi)) return; close_mat("dpinv", P, R.t() * Gi, 1e-11 * (1 + smax * smax / k) * (1 + smax) / 1.0);
    } else {
        // singular values below s_min damped to s/s_min^2
        double s_min = rng.coin() ? rng.uni(0.05, 3) : 1e-3; for (auto v : s) if (std::fabs(v - s_min) < 1e-6) return;
        int r; LIB(r = aa_dmat_dzdpinv(A, s_min, P)); CHECK("dz-info", r == 0, "dzdpinv returned %d", r);
        CHECK("dz-pad", P.pad_ok(), "dzdpinv wrote outside its result");
        // check via the SVD-independent identity: singular values of P are f(s), and P A is symmetric
        std::vector<double> want; for (auto v : s) want.push_back(v >= s_min ? 1 / v : v / (s_min * s_min)); std::sort(want.rbegin(), want.rend());
        RM X(P); auto got = svals(X); double tol = 1e-9 * (1 + want[0]) * (1 + smax) * (1 + smax / std::max(s_min * 0.01, 1e-6) * 1e-3);
        for (size_t i = 0; i < got.size(); i++) CLOSE("dz-singular-values", got[i], want[i], tol);
        RM XA = X * R, AX = R * X; CHECK("dz-symmetric", (XA - XA.t()).maxabs() <= tol * (1 + smax) && (AX - AX.t()).maxabs() <= tol * (1 + smax), "dzdpinv does not share singular vectors with A");
        if (s.back() >= s_min && !rankdef) { RM Rr = R * X * R - R; CHECK("dz-undamped", Rr.maxabs() <= 1e-8 * (1 + smax) * (1 + want[0]), "dzdpinv differs from pinv without damping"); }
    }
    (void)rk; CHECK("input-const", A.same(), "inverse op %d modified A", op);
}
VK_MAIN
