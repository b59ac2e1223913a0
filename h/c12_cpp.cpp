// C12: the C++ classes, expression templates and region containers compute what they denote.
#include "reg.hpp"
#include "mats.hpp"
#include "tfref.hpp"
#include <amino.hpp>
#include <amino/mat.hpp>
#include <Eigen/Geometry>
#include <amino/eigen_compat.hpp>
#include <numeric>
using namespace vk;
using amino::DVec; using amino::DMat; using amino::RegionScope;
namespace {
RM rv(GV &g) { RM r(g.n, 1); for (size_t i = 0; i < g.n; i++) r(i, 0) = g[i]; return r; }
double mag(const RM &r) { return 1 + r.maxabs(); }
void judge_v(const char *key, GV &t, const RM &want, double tol) {
    event(); if (want.m != t.n) { fail(key, "reference has %zu entries", want.m); return; }
    for (size_t i = 0; i < t.n; i++) if (!(fabsl((L)t[i] - want(i, 0)) <= (L)tol)) { fail(key, "entry %zu is %.17g, expected %.17g (tol %g)", i, t[i], (double)want(i, 0), tol); break; }
    if (!t.pad_ok()) fail((std::string(key) + "-pad").c_str(), "wrote outside the vector view");
}
void judge_m(const char *key, GM &t, const RM &want, double tol) {
    event(); if (want.m != t.m || want.n != t.n) { fail(key, "reference is %zux%zu", want.m, want.n); return; }
    for (size_t j = 0; j < t.n; j++) for (size_t i = 0; i < t.m; i++) if (!(fabsl((L)t(i, j) - want(i, j)) <= (L)tol)) { fail(key, "entry (%zu,%zu) is %.17g, expected %.17g (tol %g)", i, j, t(i, j), (double)want(i, j), tol); j = t.n - 1; break; }
    if (!t.pad_ok()) fail((std::string(key) + "-pad").c_str(), "wrote outside the matrix view");
}
double rs(Rng &r) { switch (r.range(0, 5)) { case 0: return 1; case 1: return -1; case 2: return 0; case 3: return r.sgn() * r.logu(-3, 3); default: return r.uni(-3, 3); } }
}
#define EV(key, expr, ref) do { t.fill(rng); DVec T(t.d); T = expr; RM w_ = ref; judge_v(key, t, w_, tol); count("vector_expressions"); } while (0)
SECTION(vector, 8000, 200000) {
    using namespace amino;
    fresh_region(rng); size_t n = (size_t)rng.range(1, rng.coin(0.1) ? 60 : 9), m = (size_t)rng.range(1, rng.coin(0.1) ? 40 : 8);
    GV gx(rng, n), gy(rng, n), gz(rng, n), gu(rng, m), t(rng, n); GM ga(rng, n, m), gb(rng, m, n); double a = rs(rng), b = rs(rng), c = rs(rng);
    note("n=%zu m=%zu inc=%zu/%zu/%zu/%zu->%zu ld=%zu,%zu a=%g b=%g c=%g", n, m, gx.inc, gy.inc, gz.inc, gu.inc, t.inc, ga.ld, gb.ld, a, b, c); distinct(n * 977 + m * 31 + gx.inc * 7 + t.inc + gy.inc * 5);
    const DVec x(gx.d), y(gy.d), z(gz.d), u(gu.d); const DMat A(ga.d), B(gb.d);
    RM X = rv(gx), Y = rv(gy), Z = rv(gz), U = rv(gu), MA(ga), MB(gb), AU = MA * U, BU = MB.t() * U;
    for (GV *g : {&gx, &gy, &gz, &gu}) g->save();
    ga.save(); gb.save();
    double k = (1 + fabs(a)) * (1 + fabs(b)) * (1 + fabs(c)), tol = 1e-14 * k * k * (1 + (double)m) * 10;
    const aa_dvec &xv = gx.d, &yv = gy.d;
    LIB(
    EV("v=x", x, X); EV("v=plain", xv, X); EV("v=scalar", a, ([&] { RM r(n, 1); for (auto &q : r.v) q = a; return r; })());
    EV("a*x", a * x, X * a); EV("x*a", x * a, X * a); EV("a*(b*x)", a * (b * x), X * ((L)a * b)); EV("(x*a)*b", (x * a) * b, X * ((L)a * b)); EV("a*(x*b)*c", a * (x * b) * c, X * ((L)a * b * c));
    EV("x+y", x + y, X + Y); EV("plain+plain", xv + yv, X + Y); EV("a*(x+y)", a * (x + y), (X + Y) * a); EV("(x+y)*a", (x + y) * a, (X + Y) * a);
    EV("(x+y)+z", (x + y) + z, X + Y + Z); EV("x+(y+z)", x + (y + z), X + Y + Z); EV("a*x+y", a * x + y, X * a + Y); EV("x+a*y", x + a * y, X + Y * a);
    EV("a*x+b*y", a * x + b * y, X * a + Y * b); EV("a*x+(y+z)", a * x + (y + z), X * a + Y + Z); EV("(y+z)+a*x", (y + z) + a * x, X * a + Y + Z); EV("x+a*y+z", x + a * y + z, X + Y * a + Z); EV("a*x+b*y+c*z", a * x + b * y + c * z, X * a + Y * b + Z * c);
    EV("a*(b*x+c*y)+z", a * (b * x + c * y) + z, X * ((L)a * b) + Y * ((L)a * c) + Z);
    EV("A*u", A * u, AU); EV("(a*A)*u", (a * A) * u, AU * a); EV("A*(a*u)", A * (a * u), AU * a); EV("(a*A)*(b*u)", (a * A) * (b * u), AU * ((L)a * b)); EV("(a*A*b)*u", (a * A * b) * u, AU * ((L)a * b));
    EV("a*(A*u)", a * (A * u), AU * a); EV("(A*u)*a", (A * u) * a, AU * a); EV("B.t*u", B.t() * u, BU); EV("a*(B.t*u)", a * (B.t() * u), BU * a); EV("B.t*(u*a)", B.transpose() * (u * a), BU * a);
    EV("A*u+x", A * u + x, AU + X); EV("x+A*u", x + A * u, AU + X); EV("A*u+b*x", A * u + b * x, AU + X * b); EV("b*x+A*u", b * x + A * u, AU + X * b); EV("a*A*u+b*x", a * A * u + b * x, AU * a + X * b);
    EV("c*(a*A*u+b*x)", c * (a * A * u + b * x), (AU * a + X * b) * c); EV("(a*A*u+b*x)*c", (a * A * u + b * x) * c, (AU * a + X * b) * c); EV("A*u+(x+y)", A * u + (x + y), AU + X + Y); EV("(x+y)+B.t*u", (x + y) + B.t() * u, BU + X + Y);
    EV("A*u+(a*x+b*y)", A * u + (a * x + b * y), AU + X * a + Y * b); EV("a*B.t*u+y", a * (B.t() * u) + y, BU * a + Y);
    );
    // compound assignment
    { t.fill(rng); RM T0 = rv(t); DVec T(t.d); T *= a; judge_v("*=", t, T0 * a, tol); }
    { t.fill(rng); RM T0 = rv(t); DVec T(t.d); if (a != 0) { T /= a; judge_v("/=", t, T0 * (1 / (L)a), 1e-14 * (1 + 1 / fabs(a)) * 4); } }
    { t.fill(rng); RM T0 = rv(t); DVec T(t.d); T += x; judge_v("+=", t, T0 + X, tol); } { t.fill(rng); RM T0 = rv(t); DVec T(t.d); T -= x; judge_v("-=", t, T0 - X, tol); }
    { t.fill(rng); RM T0 = rv(t); DVec T(t.d); T += a * x; judge_v("+=a*x", t, T0 + X * a, tol); } { t.fill(rng); RM T0 = rv(t); DVec T(t.d); T -= x * a; judge_v("-=a*x", t, T0 - X * a, tol); }
    { L s = 0; for (size_t i = 0; i < n; i++) s += ((L)gx[i] - gy[i]) * ((L)gx[i] - gy[i]); CLOSE("vec-ssd", DVec::ssd(x, y), (double)s, 1e-13 * (1 + (double)s)); }
    for (GV *g : {&gx, &gy, &gz, &gu}) CHECK("vector-operand-const", g->same(), "an operand changed");
    CHECK("matrix-operand-const", ga.same() && gb.same(), "a matrix operand changed");
    (void)mag(X);
}
SECTION(vecclass, 20000, 500000) {
    fresh_region(rng); size_t n = (size_t)rng.range(1, 30); GV g(rng, n); DVec v(g.d); const DVec &cv = v; g.save();
    size_t st0 = (size_t)rng.range(0, (long)n), en = (size_t)rng.range((long)st0, (long)n), step = (size_t)rng.range(1, 5); note("n=%zu inc=%zu slice=%zu:%zu:%zu", n, g.inc, st0, en, step); distinct(n * 1024 + g.inc * 128 + step * 16 + st0);
    CHECK("size", v.size() == n, "size %zu of %zu", (size_t)v.size(), n);
    for (size_t i = 0; i < n; i++) CHECK("[]", v[i] == g[i] && &v[i] == &g[i] && &cv[i] == &g[i], "element %zu", i);
    { size_t cnt = 0; for (size_t i = st0; i < en; i += step) cnt++;
      DVec s = v.slice(st0, en, step); const DVec cs = cv.slice(st0, en, step); CHECK("slice-size", s.size() == cnt && cs.size() == cnt, "slice %zu:%zu:%zu has %zu elements, expected %zu", st0, en, step, (size_t)s.size(), cnt);
      for (size_t i = 0; i < std::min(cnt, (size_t)s.size()); i++) CHECK("slice-element", &s[i] == &g[st0 + i * step] && &cs[i] == &g[st0 + i * step], "slice %zu:%zu:%zu element %zu is not element %zu", st0, en, step, i, st0 + i * step);
      DVec d = v.slice(st0, en); CHECK("slice-default", d.size() == en - st0 && (d.size() == 0 || &d[0] == &g[st0]), "slice %zu:%zu has %zu elements", st0, en, (size_t)d.size()); }
    // iterators
    { size_t i = 0; for (auto &e : v) { CHECK("iterate", i < n && &e == &g[i], "iterator element %zu", i); i++; } CHECK("iterate-count", i == n, "visited %zu of %zu", i, n);
      i = 0; for (auto &e : cv) { CHECK("iterate-const", i < n && &e == &g[i], "iterator element %zu", i); i++; } CHECK("iterate-const-count", i == n, "visited %zu of %zu", i, n);
      auto it = v.begin(); auto e = v.end(); size_t k = (size_t)rng.range(0, (long)n - 1); it += k; CHECK("iterator+=", &*it == &g[k], "+= %zu", k); auto o = it++; CHECK("iterator-post++", &*o == &g[k] && o != it && o < it && it > o && o <= it && it >= o, "post increment"); auto p = it--; CHECK("iterator-post--", it == o && p > it, "post decrement"); ++it; --it; CHECK("iterator-pre", &*it == &g[k] && it < e, "pre increment and decrement");
      size_t l = (n - k - 1) / step + 1; DVec s = o.slice(l, step); CHECK("iterator-slice", s.size() == l && &s[l - 1] == &g[k + (l - 1) * step], "iterator slice of %zu by %zu", l, step);
      double sum = 0; L want = 0; sum = std::accumulate(cv.begin(), cv.end(), 0.0); for (size_t q = 0; q < n; q++) want += g[q]; CLOSE("accumulate", sum, (double)want, 1e-12); }
    // views
    { const double *cd = g.b.p; const DVec a = DVec::view(n, cd, g.inc); DVec b = DVec::view(n, g.b.p, g.inc); DVec c = DVec::view(&g.d); const aa_dvec *cp = &g.d; const DVec d = DVec::view(cp); for (size_t i = 0; i < n; i++) CHECK("view", &a[i] == &g[i] && &b[i] == &g[i] && &c[i] == &g[i] && &d[i] == &g[i], "element %zu of a view (const view with stride %zu)", i, g.inc); }
    CHECK("vecclass-const", g.same() && g.pad_ok(), "reading changed the vector");
    // allocation and initialisation in a region
    { RegionScope sc; std::vector<double> src(n); for (auto &q : src) q = rng.uni(-5, 5); struct aa_mem_region *reg = sc;
      DVec *p0 = DVec::alloc(reg, n), *p1 = DVec::alloc_local(n), *p2 = DVec::init(reg, src); DVec p3 = DVec::init(reg, src.begin(), src.end()); DVec *p4 = DVec::init(reg, {src[0], 2.0, src[n - 1]}); DVec p5(reg, n), p6(reg, {1.5, src[0]});
      for (DVec *p : {p0, p1, &p5}) { CHECK("alloc-size", p->size() == n && p->inc == 1, "allocated %zu, step %zu", (size_t)p->size(), (size_t)p->inc); CHECK("alloc-align", ((uintptr_t)p->data & 15) == 0, "data at %p", (void *)p->data); for (size_t i = 0; i < n; i++) (*p)[i] = (double)(i + 1); }
      for (DVec *p : {p2, &p3}) { CHECK("init-size", p->size() == n, "size %zu", (size_t)p->size()); for (size_t i = 0; i < n; i++) CHECK("init", (*p)[i] == src[i], "element %zu is %g, expected %g", i, (*p)[i], src[i]); }
      CHECK("init-list", p4->size() == 3 && (*p4)[0] == src[0] && (*p4)[1] == 2 && (*p4)[2] == src[n - 1] && p6.size() == 2 && p6[0] == 1.5 && p6[1] == src[0], "initialiser list");
      for (DVec *p : {p0, p1, &p5}) for (size_t i = 0; i < n; i++) CHECK("alloc-intact", (*p)[i] == (double)(i + 1), "element %zu of an allocated vector changed", i);
      GV q(rng, n); q.fill(rng); DVec::assign(&q.d, src); for (size_t i = 0; i < n; i++) CHECK("assign", q[i] == src[i], "element %zu", i); CHECK("assign-pad", q.pad_ok(), "padding"); }
}
#define EM(key, expr, ref) do { t.fill(rng); DMat T(t.d); T = expr; RM w_ = ref; judge_m(key, t, w_, tol); count("matrix_expressions"); } while (0)
SECTION(matrix, 6000, 150000) {
    using namespace amino;
    fresh_region(rng); size_t m = (size_t)rng.range(1, rng.coin(0.1) ? 30 : 6), n = (size_t)rng.range(1, rng.coin(0.1) ? 30 : 6), k = (size_t)rng.range(1, 6);
    GM ga(rng, m, k), gb(rng, k, n), gat(rng, k, m), gbt(rng, n, k), gc(rng, m, n), gct(rng, n, m), t(rng, m, n); double a = rs(rng), b = rs(rng), c = rs(rng);
    note("%zux%zux%zu ld=%zu,%zu,%zu->%zu a=%g b=%g c=%g", m, k, n, ga.ld, gb.ld, gc.ld, t.ld, a, b, c); distinct(m * 4096 + n * 256 + k * 16 + (ga.ld > m) * 4 + (gb.ld > k) * 2 + (t.ld > m));
    const DMat A(ga.d), B(gb.d), At(gat.d), Bt(gbt.d), C(gc.d), Ct(gct.d); RM MA(ga), MB(gb), MAt(gat), MBt(gbt), MC(gc), MCt(gct); for (GM *g : {&ga, &gb, &gat, &gbt, &gc, &gct}) g->save();
    double q = (1 + fabs(a)) * (1 + fabs(b)) * (1 + fabs(c)), tol = 1e-14 * q * q * (1 + (double)k) * 10; RM P = MA * MB, P1 = MAt.t() * MB, P2 = MA * MBt.t(), P3 = MAt.t() * MBt.t(); const aa_dmat &cv = gc.d;
    LIB(
    EM("M=plain", cv, MC); EM("a*C", a * C, MC * a); EM("C*a", C * a, MC * a); EM("a*(C*b)", a * (C * b), MC * ((L)a * b)); EM("(a*C)*b", (a * C) * b, MC * ((L)a * b)); EM("C.t", Ct.t(), MCt.t()); EM("a*C.t", a * Ct.t(), MCt.t() * a); EM("C.t*a", Ct.transpose() * a, MCt.t() * a);
    EM("A*B", A * B, P); EM("A.t*B", At.t() * B, P1); EM("A*B.t", A * Bt.t(), P2); EM("A.t*B.t", At.t() * Bt.t(), P3); EM("a*(A*B)", a * (A * B), P * a); EM("(A.t*B)*a", (At.t() * B) * a, P1 * a);
    EM("(a*A)*B", (a * A) * B, P * a); EM("A*(a*B)", A * (a * B), P * a); EM("(a*A)*(b*B)", (a * A) * (b * B), P * ((L)a * b)); EM("(a*A)*B.t", (a * A) * Bt.t(), P2 * a); EM("A.t*(a*B)", At.t() * (a * B), P1 * a); EM("(a*A.t)*B", (a * At.t()) * B, P1 * a); EM("A*(a*B.t)", A * (a * Bt.t()), P2 * a); EM("(a*A.t)*(b*B.t)", (a * At.t()) * (b * Bt.t()), P3 * ((L)a * b));
    EM("A*B+C", A * B + C, P + MC); EM("C+A*B", C + A * B, P + MC); EM("A*B+b*C", A * B + b * C, P + MC * b); EM("b*C+A*B.t", b * C + A * Bt.t(), P2 + MC * b); EM("a*A*B+b*C", a * A * B + b * C, P * a + MC * b); EM("c*(a*A*B+b*C)", c * (a * A * B + b * C), (P * a + MC * b) * c); EM("(A.t*B+C)*c", (At.t() * B + C) * c, (P1 + MC) * c);
    EM("A*B+C.t", A * B + Ct.t(), P + MCt.t()); EM("C.t+A.t*B.t", Ct.t() + At.t() * Bt.t(), P3 + MCt.t());
    );
    { t.fill(rng); RM T0(t); DMat T(t.d); T *= a; judge_m("M*=", t, T0 * a, tol); }
    { L s = 0; GM g2(rng, m, n); g2.fill(rng); const DMat D(g2.d); for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) { L d = (L)gc(i, j) - g2(i, j); s += d * d; } CLOSE("mat-ssd", DMat::ssd(C, D), (double)s, 1e-13 * (1 + (double)s)); }
    for (GM *g : {&ga, &gb, &gat, &gbt, &gc, &gct}) CHECK("matrix-const", g->same(), "an operand changed");
    // inverse
    { size_t s = (size_t)rng.range(1, 6); GM gi(rng, s, s), o(rng, s, s); for (size_t i = 0; i < s; i++) gi(i, i) += (gi(i, i) < 0 ? -1 : 1) * 2.5 * (double)s; RM MI(gi); gi.save(); DMat I(gi.d), O(o.d); LIB(O = I.inverse()); RM E = MI * RM(o) - RM::eye(s); CHECK("inverse", E.maxabs() < 1e-12 && o.pad_ok() && gi.same(), "A*inverse(A) off identity by %g", E.maxabs()); LIB(I.invert()); E = MI * RM(gi) - RM::eye(s); CHECK("invert", E.maxabs() < 1e-12 && gi.pad_ok(), "A*inverse(A) off identity by %g", E.maxabs()); }
}
SECTION(matclass, 10000, 200000) {
    fresh_region(rng); size_t m = (size_t)rng.range(1, 7), n = (size_t)rng.range(1, 7); GM g(rng, m, n); DMat M(g.d); const DMat &cM = M; note("%zux%zu ld=%zu", m, n, g.ld); distinct(m * 64 + n * 8 + (g.ld - m)); g.save();
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) CHECK("()", &M(i, j) == &g(i, j) && &cM(i, j) == &g(i, j), "element (%zu,%zu)", i, j);
    size_t i = 0; for (auto &r : M.row_container()) { CHECK("rows", i < m && r.size() == n, "row %zu has %zu entries", i, (size_t)r.size()); for (size_t j = 0; j < n; j++) CHECK("row-element", &r[j] == &g(i, j), "row %zu element %zu", i, j); i++; } CHECK("row-count", i == m, "%zu rows of %zu", i, m);
    i = 0; for (auto &r : cM.row_container()) { for (size_t j = 0; j < n; j++) CHECK("const-row-element", &r[j] == &g(i, j), "row %zu element %zu", i, j); i++; } CHECK("const-row-count", i == m, "%zu rows of %zu", i, m);
    i = 0; for (auto &c : M.col_container()) { CHECK("cols", i < n && c.size() == m, "column %zu has %zu entries", i, (size_t)c.size()); for (size_t j = 0; j < m; j++) CHECK("col-element", &c[j] == &g(j, i), "column %zu element %zu", i, j); i++; } CHECK("col-count", i == n, "%zu columns of %zu", i, n);
    i = 0; for (auto &c : cM.col_container()) { for (size_t j = 0; j < m; j++) CHECK("const-col-element", &c[j] == &g(j, i), "column %zu element %zu", i, j); i++; } CHECK("const-col-count", i == n, "%zu columns of %zu", i, n);
    size_t r0 = (size_t)rng.range(0, (long)m - 1), r1 = (size_t)rng.range((long)r0 + 1, (long)m), c0 = (size_t)rng.range(0, (long)n - 1), c1 = (size_t)rng.range((long)c0 + 1, (long)n);
    { DMat b = M.block(r0, c0, r1, c1); CHECK("block-size", b.rows == r1 - r0 && b.cols == c1 - c0, "block %zux%zu", (size_t)b.rows, (size_t)b.cols); for (size_t p = 0; p < b.rows; p++) for (size_t q = 0; q < b.cols; q++) CHECK("block", &b(p, q) == &g(r0 + p, c0 + q), "block element (%zu,%zu)", p, q);
      DVec rr = M.row_vec(r0), cc = M.col_vec(c0); CHECK("row_vec", rr.size() == n && &rr[n - 1] == &g(r0, n - 1) && &rr[0] == &g(r0, 0), "row %zu", r0); CHECK("col_vec", cc.size() == m && &cc[m - 1] == &g(m - 1, c0) && &cc[0] == &g(0, c0), "column %zu", c0); DMat vv = DMat::view(&g.d); CHECK("mat-view", &vv(m - 1, n - 1) == &g(m - 1, n - 1), "view"); }
    CHECK("matclass-const", g.same() && g.pad_ok(), "reading changed the matrix");
    { RegionScope sc; struct aa_mem_region *reg = sc; double v[6]; for (double &q : v) q = rng.uni(-9, 9);
      DMat *c = DMat::col_mat(reg, {{v[0], v[1], v[2]}, {v[3], v[4], v[5]}}), *r = DMat::row_mat(reg, {{v[0], v[1], v[2]}, {v[3], v[4], v[5]}}), *d = DMat::alloc(reg, m, n), *e = DMat::alloc_local(m, n); DMat f(reg, m, n);
      for (DMat *x : {d, e, &f}) { CHECK("mat-alloc", x->rows == m && x->cols == n && x->ld >= m, "allocated %zux%zu", (size_t)x->rows, (size_t)x->cols); for (size_t p = 0; p < m; p++) for (size_t q = 0; q < n; q++) (*x)(p, q) = (double)(p * n + q); }
      CHECK("col_mat-size", c->rows == 3 && c->cols == 2 && r->rows == 2 && r->cols == 3, "%zux%zu and %zux%zu", (size_t)c->rows, (size_t)c->cols, (size_t)r->rows, (size_t)r->cols); for (size_t p = 0; p < 2; p++) for (size_t q = 0; q < 3; q++) CHECK("col_mat", (*c)(q, p) == v[p * 3 + q] && (*r)(p, q) == v[p * 3 + q], "element %zu,%zu", p, q);
      for (DMat *x : {d, e, &f}) for (size_t p = 0; p < m; p++) for (size_t q = 0; q < n; q++) CHECK("mat-alloc-intact", (*x)(p, q) == (double)(p * n + q), "allocated matrices overlap"); }
}
SECTION(spatial, 40000, 1000000) {
    using namespace amino;
    Pose P = rpose(rng), Q = rpose(rng); TF TP = P.T(), TQ = Q.T(); V3 ax = rdir(rng); int kd; double th = (double)rangle(rng, kd) * rng.sgn(); Buf pt(3); rpos(rng, pt); V3 PT = v3(pt);
    note("q=%s p=%s q2=%s p2=%s axis=(%Lg %Lg %Lg) angle=%.17g", vstr(P.q, 4).c_str(), vstr(P.p, 3).c_str(), vstr(Q.q, 4).c_str(), vstr(Q.p, 3).c_str(), ax[0], ax[1], ax[2], th); distinct((uint64_t)P.kind * 64 + Q.kind * 8 + kd + 512 * (uint64_t)(P.angle * 100));
    double t1 = 4e-15, tp = 1e-14 * P.ps(), tpq = 4e-14 * (P.ps() + Q.ps()), tpt = tp + 1e-14 * (fabs(pt[0]) + fabs(pt[1]) + fabs(pt[2])) * 4;
    auto Dt = [](const aa_tf_duqu &s) { Q4 r = q4(s.data), d = q4(s.data + 4); return TF{rot(r), 2.0L * qvec(qm(d, qc(r)))}; }; auto Et = [](const aa_tf_qv &e) { return TF{rot(q4(e.r.data)), v3(e.v.data)}; };
    // every constructor of a rotation, by value and by pointer
    Quat q(Quat::from_quat(P.q)), q2(Quat::from_quat(Q.q)); RotMat R(q), Rp(&q); AxisAngle aa(q), aap(&q), aaR(R), aaRp(&R); Vec3 p(P.p), p2(Q.p[0], Q.p[1], Q.p[2]), x(pt.p);
    NEARM("RotMat(Quat)", m3(R.data), TP.R, t1); NEARM("RotMat(Quat*)", m3(Rp.data), TP.R, t1); NEARPM("Quat(RotMat)", q4(Quat(R).data), P.Q(), 1e-14); NEARPM("Quat(RotMat*)", q4(Quat(&R).data), P.Q(), 1e-14); NEARM("Quat(Quat*)", q4(Quat((aa_tf_quat *)&q).data), q4(P.q), 0);
    for (auto *A : {&aa, &aap, &aaR, &aaRp}) { if (norm(v3(A->axis.data)) == 0) { NEARM("AxisAngle-identity", eye3(), TP.R, 1e-7); } else { NEARM("AxisAngle", rotaa(v3(A->axis.data), A->angle), TP.R, 1e-13); CLOSE("AxisAngle-unit", (double)norm(v3(A->axis.data)), 1, 1e-13); } NEARM("RotMat(AxisAngle)", m3(RotMat(*A).data), TP.R, 1e-13); NEARM("RotMat(AxisAngle*)", m3(RotMat((aa_tf_axang *)A).data), TP.R, 1e-13); NEARM("Quat(AxisAngle)", rot(q4(Quat(*A).data)), TP.R, 1e-13); NEARM("Quat(AxisAngle*)", rot(q4(Quat((aa_tf_axang *)A).data)), TP.R, 1e-13); CHECK("AxisAngle-copy", !memcmp(AxisAngle(*A).data, A->data, 32) && !memcmp(AxisAngle((aa_tf_axang *)A).data, A->data, 32), "copy"); }
    { double axd[3] = {(double)ax[0], (double)ax[1], (double)ax[2]}, sc = rng.logu(-3, 3); AxisAngle b(axd, th), c(sc * axd[0], sc * axd[1], sc * axd[2], th); M3 W = rotaa(ax, th); NEARM("AxisAngle(axis,angle)", rotaa(v3(b.axis.data), b.angle), W, 1e-14); CLOSE("AxisAngle-normalised", (double)norm(v3(c.axis.data)), 1, 1e-14); NEARM("AxisAngle(x,y,z,angle)", rotaa(v3(c.axis.data), c.angle), W, 1e-14); NEARM("Quat(axis,angle)", rot(q4(Quat::from_axang(axd, th).data)), W, 1e-14);
      double rvd[3] = {axd[0] * th, axd[1] * th, axd[2] * th}; M3 V = rotexp(v3(rvd)); NEARM("Quat::from_rotvec", rot(q4(Quat::from_rotvec(rvd).data)), V, 1e-14); NEARM("RotMat::from_rotvec", m3(RotMat::from_rotvec(rvd).data), V, 1e-14); auto av = AxisAngle::from_rotvec(rvd); if (th != 0) NEARM("AxisAngle::from_rotvec", rotaa(v3(av.axis.data), av.angle), V, 1e-14); }
    { V3 e[3] = {{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}; XAngle X(th); YAngle Y(th); ZAngle Z(th); NEARM("Quat(XAngle)", rot(q4(Quat(X).data)), rotaa(e[0], th), t1); NEARM("Quat(YAngle)", rot(q4(Quat(Y).data)), rotaa(e[1], th), t1); NEARM("Quat(ZAngle)", rot(q4(Quat(Z).data)), rotaa(e[2], th), t1); NEARM("RotMat(XAngle)", m3(RotMat(X).data), rotaa(e[0], th), t1); NEARM("RotMat(YAngle)", m3(RotMat(Y).data), rotaa(e[1], th), t1); NEARM("RotMat(ZAngle)", m3(RotMat(Z).data), rotaa(e[2], th), t1);
      NEARM("DualQuat(XAngle,v)", Dt(DualQuat(X, p)), (TF{rotaa(e[0], th), TP.p}), tp); NEARM("DualQuat(YAngle,v)", Dt(DualQuat(Y, p)), (TF{rotaa(e[1], th), TP.p}), tp); NEARM("DualQuat(ZAngle,v)", Dt(DualQuat(Z, p)), (TF{rotaa(e[2], th), TP.p}), tp); NEARM("QuatTran(XAngle,v)", Et(QuatTran(X, p)), (TF{rotaa(e[0], th), TP.p}), tp); NEARM("QuatTran(YAngle,v)", Et(QuatTran(Y, p)), (TF{rotaa(e[1], th), TP.p}), tp); NEARM("QuatTran(ZAngle,v)", Et(QuatTran(Z, p)), (TF{rotaa(e[2], th), TP.p}), tp);
      double axd[3] = {(double)ax[0], (double)ax[1], (double)ax[2]}; AxisAngle b(axd, th); NEARM("DualQuat(AxisAngle,v)", Dt(DualQuat(b, p)), (TF{rotaa(ax, th), TP.p}), tp); }
    { M3 I = eye3(); NEARM("Quat()", q4(Quat().data), (Q4{{0, 0, 0, 1}}), 0); NEARM("RotMat()", m3(RotMat().data), I, 0); TF T0{I, {{0, 0, 0}}}; NEARM("DualQuat()", Dt(DualQuat()), T0, 0); NEARM("QuatTran()", Et(QuatTran()), T0, 0); NEARM("TfMat()", tf12(TfMat().data), T0, 0); CHECK("AxisAngle()", AxisAngle().angle == 0 && norm(v3(AxisAngle().axis.data)) == 1, "not the identity"); RotMat el(1, 2, 3, 4, 5, 6, 7, 8, 9); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK("RotMat(elements)", el.data[j * 3 + i] == 3 * i + j + 1, "element %d %d", i, j); }
    // poses
    DualQuat S(q, p), Sp(&q, &p); QuatTran E(q, p), Ep(&q, &p); TfMat T(q, p), Tp(&q, &p);
    NEARM("DualQuat(q,v)", Dt(S), TP, tp); NEARM("DualQuat(q*,v*)", Dt(Sp), TP, tp); NEARM("QuatTran(q,v)", Et(E), TP, t1); NEARM("QuatTran(q*,v*)", Et(Ep), TP, t1); NEARM("TfMat(q,v)", tf12(T.data), TP, t1); NEARM("TfMat(q*,v*)", tf12(Tp.data), TP, t1);
    NEARM("DualQuat(QuatTran)", Dt(DualQuat(E)), TP, tp); NEARM("DualQuat(QuatTran*)", Dt(DualQuat((aa_tf_qv *)&E)), TP, tp); NEARM("DualQuat(TfMat)", Dt(DualQuat(T)), TP, tp); NEARM("DualQuat(TfMat*)", Dt(DualQuat((aa_tf_tfmat *)&T)), TP, tp); NEARM("DualQuat(double*)", Dt(DualQuat((const double *)S.data)), TP, tp); NEARM("DualQuat(DualQuat*)", Dt(DualQuat((aa_tf_duqu *)&S)), TP, tp);
    NEARM("QuatTran(DualQuat)", Et(QuatTran(S)), TP, tp); NEARM("QuatTran(DualQuat*)", Et(QuatTran((aa_tf_duqu *)&S)), TP, tp); NEARM("QuatTran(QuatTran*)", Et(QuatTran((aa_tf_qv *)&E)), TP, t1); NEARM("QuatTran::from_qv", Et(QuatTran::from_qv(E.data)), TP, t1);
    { std::unique_ptr<QuatTran> e(new QuatTran(T)), f(new QuatTran((aa_tf_tfmat *)&T)); NEARM("QuatTran(TfMat)", Et(*e), TP, tp); NEARM("QuatTran(TfMat*)", Et(*f), TP, tp); }
    NEARM("TfMat(DualQuat)", tf12(TfMat(S).data), TP, tp); NEARM("TfMat(DualQuat*)", tf12(TfMat((aa_tf_duqu *)&S).data), TP, tp); NEARM("TfMat(QuatTran)", tf12(TfMat(E).data), TP, t1); NEARM("TfMat(QuatTran*)", tf12(TfMat((aa_tf_qv *)&E).data), TP, t1); NEARM("TfMat(TfMat*)", tf12(TfMat((aa_tf_tfmat *)&T).data), TP, t1);
    NEARM("Vec3(DualQuat)", v3(Vec3(S).data), TP.p, tp); NEARM("Vec3(DualQuat*)", v3(Vec3(&S).data), TP.p, tp); NEARM("Vec3(TfMat)", v3(Vec3(T).data), TP.p, 0); NEARM("Vec3(TfMat*)", v3(Vec3(&T).data), TP.p, 0); NEARM("translation", v3(S.translation().data), TP.p, tp); NEARM("DualQuat(v)", Dt(DualQuat(p)), (TF{eye3(), TP.p}), tp);
    NEARM("DualQuat::conj", Dt(S.conj()), inv(TP), tp); NEARM("QuatTran::conj", Et(E.conj()), inv(TP), tp);
    // operators
    DualQuat S2(q2, p2); QuatTran E2(q2, p2); TfMat T2(q2, p2); RotMat R2(q2);
    NEARM("DualQuat*DualQuat", Dt(S * S2), TP * TQ, tpq); NEARM("QuatTran*QuatTran", Et(E * E2), TP * TQ, tpq); NEARM("TfMat*TfMat", tf12((T * T2).data), TP * TQ, tpq); NEARM("RotMat*RotMat", m3((R * R2).data), TP.R * TQ.R, 1e-14); NEARM("Quat*Quat", q4((q * q2).data), qm(q4(P.q), q4(Q.q)), 1e-14); NEARM("RotMat*Vec3", v3((R * x).data), TP.R * PT, tpt); NEARM("Quat::rotate", v3(q.rotate(x).data), TP.R * PT, tpt);
    NEARM("QuatTran::transform", v3(E.transform(x).data), TP * PT, tpt); NEARM("TfMat::transform", v3(T.transform(x).data), TP * PT, tpt); { Buf o(3); E.transform(pt.p, o.p); NEARM("QuatTran::transform-array", v3(o), TP * PT, tpt); o.wipe(); T.transform(pt.p, o.p); NEARM("TfMat::transform-array", v3(o), TP * PT, tpt); }
    { double d = rng.sgn() * rng.logu(-3, 3); auto sm = p + x; auto dv = p / d; for (int i = 0; i < 3; i++) { CHECK("Vec3+Vec3", sm.data[i] == P.p[i] + pt[i], "component %d", i); CLOSE("Vec3/s", dv.data[i], P.p[i] / d, 1e-15 * fabs(P.p[i] / d) * 2); } }
    // Eigen
    { Eigen::Quaterniond eq; conv((aa_tf_quat *)&q, &eq); Eigen::Matrix3d em; conv((aa_tf_rotmat *)&R, &em); Eigen::Vector3d ev; conv((aa_tf_vec3 *)&p, &ev); Eigen::Translation<double, 3> et; conv((aa_tf_vec3 *)&p, &et); Eigen::Isometry3d i1, i2; Eigen::Affine3d f1, f2; i1.setIdentity(); i2.setIdentity(); f1.setIdentity(); f2.setIdentity(); conv((aa_tf_tfmat *)&T, &i1); conv((aa_tf_qv *)&E, &i2); conv((aa_tf_tfmat *)&T, &f1); conv((aa_tf_qv *)&E, &f2);
      Eigen::Vector3d ex(pt[0], pt[1], pt[2]); auto V = [](const Eigen::Vector3d &v) { return V3{{v.x(), v.y(), v.z()}}; }; NEARM("eigen-quat", V(eq.toRotationMatrix() * ex), TP.R * PT, tpt); NEARM("eigen-rotmat", V(em * ex), TP.R * PT, tpt); NEARM("eigen-vec", V(ev), TP.p, 0); NEARM("eigen-translation", V(et * ex), TP.p + PT, tpt); NEARM("eigen-isometry", V(i1 * ex), TP * PT, tpt); NEARM("eigen-isometry-qv", V(i2 * ex), TP * PT, tpt); NEARM("eigen-affine", V(f1 * ex), TP * PT, tpt); NEARM("eigen-affine-qv", V(f2 * ex), TP * PT, tpt); }
    // velocity to dual quaternion derivative
    { double dx[6]; for (double &w : dx) w = rng.uni(-2, 2); V3 V = v3(dx + AA_TF_DX_V), W = v3(dx + AA_TF_DX_W); auto d = DualQuat::from_dx(S.data, dx); Q4 dq = 0.5L * qm(qv(W), q4(P.q)), dd = 0.5L * (qm(qv(V), q4(P.q)) + qm(qv(TP.p), dq)); NEARM("from_dx", q4(d.data), dq, 1e-14); NEARM("from_dx-dual", q4(d.data + 4), dd, tp * 4); }
}
namespace {
struct P2 { L c, s, x, y; }; // planar pose
P2 mul(P2 a, P2 b) { return {a.c * b.c - a.s * b.s, a.s * b.c + a.c * b.s, a.x + a.c * b.x - a.s * b.y, a.y + a.s * b.x + a.c * b.y}; }
double df(P2 a, P2 b) { return (double)std::max(std::max(fabsl(a.c - b.c), fabsl(a.s - b.s)), std::max(fabsl(a.x - b.x), fabsl(a.y - b.y))); }
P2 of(const aa_tf_cv &e) { return {e.data[0], e.data[1], e.data[2], e.data[3]}; }
P2 of(const aa_tf_tfmatp &T) { return {T.data[0], T.data[1], T.data[4], T.data[5]}; }
bool rotp(const double *R) { return R[0] == R[3] && R[1] == -R[2]; }
}
#define NP(key, got, want, tol) do { double d_ = df(got, want); CHECK(key, d_ <= (tol), "off by %g (tol %g)", d_, (double)(tol)); } while (0)
SECTION(planar, 40000, 1000000) {
    using namespace amino;
    auto ra = [&]() -> double { switch (rng.range(0, 5)) { case 0: return 0; case 1: return rng.sgn() * rng.logu(-16, -3); case 2: return rng.sgn() * (M_PI - rng.logu(-16, -3)); case 3: return (double)rng.range(-8, 8) * M_PI / 4; default: return rng.uni(-4, 4); } };
    double th = ra(), t2 = ra(), xy[4]; for (double &v : xy) v = rng.coin(0.1) ? 0 : rng.sgn() * rng.logu(-4, 3); double px = rng.uni(-3, 3), py = rng.uni(-3, 3); note("angle %.17g %.17g v=%s point (%g %g)", th, t2, vstr(xy, 4).c_str(), px, py); distinct(fnv(&th, 8) ^ fnv(xy, 32));
    L c = cosl(th), s = sinl(th), wrapped = atan2l(s, c), ps = 1 + fabs(xy[0]) + fabs(xy[1]) + fabs(xy[2]) + fabs(xy[3]); P2 W{c, s, xy[0], xy[1]}, W2{cosl(t2), sinl(t2), xy[2], xy[3]}; double t1 = 3e-16, tp = 1e-15 * (double)ps * 4;
    auto angd = [&](double a) { L d = fabsl((L)a - wrapped); return (double)std::min(d, fabsl(d - 2 * M_PIl)); };
    { alignas(AngleP) unsigned char mem[sizeof(AngleP)]; memset(mem, 0x41, sizeof mem); AngleP *z = new (mem) AngleP(); CHECK("AngleP()", z->angle() == 0, "the zero rotation has angle %g", z->angle()); Cmplx zc; RotMatP zr; TfMatP zt; CmplxTran ze; NP("RotMatP()", (P2{zr.data[0], zr.data[1], 0, 0}), (P2{1, 0, 0, 0}), 0); NP("TfMatP()", of(zt), (P2{1, 0, 0, 0}), 0); NP("CmplxTran()", of(ze), (P2{1, 0, 0, 0}), 0); (void)zc; }
    AngleP a(th); CHECK("AngleP", a.angle() == th, "%g", a.angle()); Cmplx C(a), Cp(&a), Cf = Cmplx::from_angle(th); for (auto *z : {&C, &Cp, &Cf}) { CLOSE("Cmplx-re", z->real(), (double)c, t1); CLOSE("Cmplx-im", z->imag(), (double)s, t1); CHECK("Cmplx-angle", angd(z->angle()) < 1e-15, "angle %g of %g", z->angle(), th); CHECK("Cmplx-uln", angd(z->uln()) < 1e-15, "log %g of %g", z->uln(), th); CLOSE("Cmplx-conj", z->conj().imag(), -(double)s, t1); CLOSE("Cmplx-conj-re", z->conj().real(), (double)c, t1); CHECK("AngleP(Cmplx)", angd(AngleP((BaseCmplx::type)*z).angle()) < 1e-15 && angd(AngleP(z->c_cmplx()).angle()) < 1e-15, "angle of complex"); }
    RotMatP R0(th), R1(a), R2(&a), R3((Cmplx::type)C), R4(C.c_cmplx()), R5((double)c, -(double)s, (double)s, (double)c), R6((aa_tf_rotmatp *)&R0); for (auto *R : {&R0, &R1, &R2, &R3, &R4, &R5, &R6}) { NP("RotMatP", (P2{R->data[0], R->data[1], 0, 0}), (P2{c, s, 0, 0}), t1); CHECK("RotMatP-form", rotp(R->data), "not a rotation matrix: %s", vstr(R->data, 4).c_str()); CHECK("RotMatP-angle", angd(R->angle()) < 1e-15, "angle %g of %g", R->angle(), th); CHECK("RotMatP-uln", angd(R->uln()) < 1e-15, "log %g of %g", R->uln(), th); CHECK("AngleP(RotMatP)", angd(AngleP(*R).angle()) < 1e-15 && angd(AngleP((aa_tf_rotmatp *)R).angle()) < 1e-15, "angle"); Cmplx z(*R), zp((aa_tf_rotmatp *)R); CLOSE("Cmplx(RotMatP)", z.real(), (double)c, t1); CLOSE("Cmplx(RotMatP)-im", z.imag(), (double)s, t1); CHECK("Cmplx(RotMatP*)", z == zp, "pointer and value differ"); auto ri = R->inv(); NP("RotMatP::inv", (P2{ri.data[0], ri.data[1], 0, 0}), (P2{c, -s, 0, 0}), t1); CHECK("RotMatP::inv-form", rotp(ri.data), "not a rotation"); }
    Vec2 v(xy[0], xy[1]), w(xy[2], xy[3]), p(px, py); CHECK("Vec2", v.x() == xy[0] && v.y() == xy[1], "components"); { Vec2 z; z.x() = 3; z.y() = 4; const Vec2 &cz = z; CHECK("Vec2-ref", cz.x() == 3 && cz.y() == 4 && std::abs(z) == 5, "references"); }
    CmplxTran E0(C.c_cmplx(), v), E1((Cmplx::type)C, v), E2(th, v), E3(a, v), E4(&a, v), E5(R0, v), E6(&R0, v); CmplxTran E7((aa_tf_cv &)E0), E8((aa_tf_cv *)&E0); TfMatP T0(R0, v), T1((aa_tf_rotmatp *)&R0, v), T2(C.c_cmplx(), v), T3((Cmplx::type)C, v), T4(th, v), T5(a, v), T6(&a, v), T7((aa_tf_cv &)E0), T8((aa_tf_cv *)&E0); TfMatP T9((aa_tf_tfmatp *)&T0); CmplxTran Ea((aa_tf_tfmatp &)T0), Eb((aa_tf_tfmatp *)&T0);
    for (auto *E : {&E0, &E1, &E2, &E3, &E4, &E5, &E6, &E7, &E8, &Ea, &Eb}) { NP("CmplxTran", of(*E), W, t1); L ix = -(c * xy[0] + s * xy[1]), iy = s * xy[0] - c * xy[1]; NP("CmplxTran::inv", of(E->inv()), (P2{c, -s, ix, iy}), tp); }
    for (auto *T : {&T0, &T1, &T2, &T3, &T4, &T5, &T6, &T7, &T8, &T9}) { NP("TfMatP", of(*T), W, t1); CHECK("TfMatP-form", rotp(T->data), "not a rotation"); L ix = -(c * xy[0] + s * xy[1]), iy = s * xy[0] - c * xy[1]; auto i = T->inv(); NP("TfMatP::inv", of(i), (P2{c, -s, ix, iy}), tp); CHECK("TfMatP::inv-form", rotp(i.data), "not a rotation"); }
    TfMatP U(t2, w); CmplxTran F(t2, w); RotMatP V(t2); NP("TfMatP*TfMatP", of(T0 * U), mul(W, W2), tp); NP("CmplxTran*CmplxTran", of(E0 * F), mul(W, W2), tp); { auto r = R0 * V; P2 m = mul(P2{c, s, 0, 0}, P2{W2.c, W2.s, 0, 0}); NP("RotMatP*RotMatP", (P2{r.data[0], r.data[1], 0, 0}), m, 1e-15); CHECK("RotMatP*-form", fabs(r.data[0] - r.data[3]) < 1e-15 && fabs(r.data[1] + r.data[2]) < 1e-15, "not a rotation"); }
    P2 q = mul(W, P2{1, 0, px, py}), qr = mul(P2{c, s, 0, 0}, P2{1, 0, px, py}); Vec2 r1 = C * p, r2 = R0 * p; aa_tf_vec2 pp = p; Vec2 r3 = T0 * pp, r4 = E0 * pp; NP("Cmplx*Vec2", (P2{0, 0, r1.x(), r1.y()}), (P2{0, 0, qr.x, qr.y}), tp); NP("RotMatP*Vec2", (P2{0, 0, r2.x(), r2.y()}), (P2{0, 0, qr.x, qr.y}), tp); NP("TfMatP*vec2", (P2{0, 0, r3.x(), r3.y()}), (P2{0, 0, q.x, q.y}), tp); NP("CmplxTran*vec2", (P2{0, 0, r4.x(), r4.y()}), (P2{0, 0, q.x, q.y}), tp);
}
// region-backed containers and scopes
SECTION(region, 3000, 80000) {
    using namespace amino;
    struct aa_mem_region R; static const std::vector<size_t> sz = {16, 64, 200, 1024, 8192}; size_t s0 = rng.pick(sz); aa_mem_region_init(&R, s0); int n = (int)rng.range(1, 60), depth = (int)rng.range(1, 4); note("region %zu, %d operations, depth %d", s0, n, depth); distinct(s0 * 64 + (uint64_t)n + 4096 * (uint64_t)depth);
    std::vector<std::pair<uint8_t *, size_t>> outer; for (int i = 0; i < 3; i++) { size_t k = (size_t)rng.range(1, 50); uint8_t *p = (uint8_t *)aa_mem_region_alloc(&R, k); memset(p, 0x30 + i, k); outer.push_back({p, k}); }
    std::function<void(int)> level = [&](int d) {
        RegionScope sc(&R); CHECK("scope-region", sc.reg() == &R && (struct aa_mem_region *)sc == &R, "the scope names another region"); void *before = aa_mem_region_ptr(&R);
        { RegionVector<double>::type v{RegionVector<double>::allocator(sc)}; RegionList<int>::type l{RegionList<int>::allocator(sc)}; RegionMap<int, std::string>::type m{std::less<int>(), RegionMap<int, std::string>::allocator(sc)}; std::vector<double> rv_; std::list<int> rl; std::map<int, std::string> rm; std::vector<std::pair<double *, size_t>> arr;
          for (int i = 0; i < n; i++) { int k = (int)rng.range(0, 9), e = (int)rng.range(0, 20);
            switch (k) { case 0: case 1: { double x = rng.uni(-1, 1); v.push_back(x); rv_.push_back(x); break; } case 2: if (!rv_.empty()) { v.pop_back(); rv_.pop_back(); } break; case 3: l.push_back(e); rl.push_back(e); break; case 4: l.push_front(e); rl.push_front(e); break; case 5: l.remove(e); rl.remove(e); break; case 6: { std::string t(1 + (size_t)e * 2, 'a' + (char)(e % 26)); m[e] = t; rm[e] = t; break; } case 7: m.erase(e); rm.erase(e); break;
              case 8: { size_t q = (size_t)rng.range(1, 20); double *p = new (&R) double[q]; CHECK("new-align", ((uintptr_t)p & 15) == 0, "%p", (void *)p); for (size_t j = 0; j < q; j++) p[j] = (double)(arr.size() * 100 + j); arr.push_back({p, q}); break; } default: if (d > 0 && rng.coin(0.3)) level(d - 1); } }
          CHECK("region-vector", v.size() == rv_.size() && std::equal(v.begin(), v.end(), rv_.begin()), "vector contents"); CHECK("region-list", l.size() == rl.size() && std::equal(l.begin(), l.end(), rl.begin()), "list contents"); CHECK("region-map", m.size() == rm.size() && std::equal(m.begin(), m.end(), rm.begin()), "map contents"); for (size_t i = 0; i < arr.size(); i++) for (size_t j = 0; j < arr[i].second; j++) CHECK("region-array", arr[i].first[j] == (double)(i * 100 + j), "array %zu overwritten", i); }
        (void)before; };
    size_t cc = aa_mem_region_chunk_count(&R); void *p0 = aa_mem_region_ptr(&R); size_t f0 = aa_mem_region_freesize(&R); level(depth);
    { void *p1 = aa_mem_region_ptr(&R); size_t f1 = aa_mem_region_freesize(&R), tp = aa_mem_region_topsize(&R); CHECK("scope-restore", (p1 == p0 && f1 == f0) || (f1 == tp && aa_mem_region_chunk_count(&R) <= cc + 1), "a scope left %zu bytes free of %zu", f1, tp); }
    for (size_t i = 0; i < outer.size(); i++) for (size_t j = 0; j < outer[i].second; j++) CHECK("scope-outer", outer[i].first[j] == 0x30 + (int)i, "memory allocated before the scope was overwritten");
    aa_mem_region_destroy(&R);
    fresh_region(rng); { struct aa_mem_region *L_ = aa_mem_region_local_get(); void *a = aa_mem_region_alloc(L_, 16); memset(a, 7, 16); { RegionScope ls; CHECK("scope-local", ls.reg() == L_, "not this thread's region"); new (ls) char[100]; } void *b = aa_mem_region_ptr(L_); CHECK("scope-local-restore", (uint8_t *)b == (uint8_t *)a + 16 || aa_mem_region_freesize(L_) == aa_mem_region_topsize(L_), "local region not restored"); aa_mem_region_pop(L_, a); }
    { std::vector<int> v{1, 2, 3, 4}; auto it = v.begin(); CHECK("next-prev", *amino::next(it) == 2 && *amino::prev(v.end()) == 4, "next/prev"); pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; { ScopedMutex l(mx); CHECK("scoped-lock", pthread_mutex_trylock(&mx) != 0, "not locked"); } CHECK("scoped-unlock", pthread_mutex_trylock(&mx) == 0, "still locked"); pthread_mutex_unlock(&mx); { ScopedMutex l(&mx); CHECK("scoped-lock-ptr", pthread_mutex_trylock(&mx) != 0, "not locked"); } CHECK("scoped-unlock-ptr", pthread_mutex_trylock(&mx) == 0, "still locked"); pthread_mutex_unlock(&mx); }
}
VK_MAIN
