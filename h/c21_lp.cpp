// C21: linear programs: every backend, entry point and modification history against an exact rational simplex.
#include "lpref.hpp"
#include "reg.hpp"
#include <amino/opt/opt.h>
#include <amino/opt/lp.h>
#include <coin/ClpSimplex.hpp>
using namespace vk;
namespace {
const char *BN[] = {"lpsolve", "glpk", "clp"};
double num(Rng &r, int k) { switch (r.range(0, 3)) { case 0: return (double)r.range(-k, k); case 1: return (double)r.range(0, k); case 2: return (double)r.range(-4 * k, 4 * k) / 4; default: return 0; } }
void bnd(Rng &r, double *l, double *u, bool finite, int k) { double a = num(r, k), b = num(r, k); if (a > b) std::swap(a, b); *l = a; *u = b; int t = (int)r.range(0, finite ? 1 : 6); if (t == 0) *u = *l; else if (t == 2) *l = -INFINITY; else if (t == 3) *u = INFINITY; else if (t == 4) { *l = -INFINITY; *u = INFINITY; } else if (t == 5) { *l = 0; *u = INFINITY; } else if (t == 6 && r.coin(0.3)) { *l = -DBL_MAX; } }
void clean(LpIn &P) { (void)P; }
LpIn gen(Rng &r) { LpIn P; bool big = r.coin(.004); P.m = (size_t)r.range(1, big ? 10 : 5); P.n = (size_t)r.range(1, big ? 10 : 5); double dens = r.uni(0.3, 1); P.A.resize(P.m * P.n); for (auto &a : P.A) a = r.coin(dens) ? num(r, 5) : 0; P.bl.resize(P.m); P.bu.resize(P.m); P.c.resize(P.n); P.xl.resize(P.n); P.xu.resize(P.n); bool fin = r.coin(0.3); for (size_t i = 0; i < P.m; i++) bnd(r, &P.bl[i], &P.bu[i], r.coin(0.3), 12); for (size_t j = 0; j < P.n; j++) { bnd(r, &P.xl[j], &P.xu[j], fin, 6); P.c[j] = num(r, 6); } return P; }
LpIn fin(const LpIn &P) { LpIn q = P; auto f = [](std::vector<double> &v) { for (auto &x : v) if (fabs(x) >= DBL_MAX) x = x > 0 ? INFINITY : -INFINITY; }; f(q.bl); f(q.bu); f(q.xl); f(q.xu); return q; }
bool ref(const LpIn &P, LpOut *o) { try { *o = mip_ref<Ratio>(fin(P)); return true; } catch (Ratio::Over &) { count("reference overflow"); return false; } }
// CLP itself misjudges about one problem in 10^5 as optimal or infeasible; only differences from CLP used directly count
bool clp_itself(const LpIn &P, int want) { ClpSimplex M; M.setLogLevel(0); M.resize((int)P.m, 0); std::vector<int> rows; for (size_t i = 0; i < P.m; i++) rows.push_back((int)i); auto B = [](double v) { return std::isfinite(v) ? v : v > 0 ? DBL_MAX : -DBL_MAX; }; for (size_t j = 0; j < P.n; j++) M.addColumn((int)P.m, rows.data(), &P.A[j * P.m], B(P.xl[j]), B(P.xu[j]), P.c[j]); for (size_t i = 0; i < P.m; i++) M.setRowBounds((int)i, B(P.bl[i]), B(P.bu[i])); M.setOptimizationDirection(P.max ? -1 : 1); int r = M.initialSolve(); if (!r) r = M.primal(); if (r == want) count("problems CLP itself misjudges"); return r == want; }
void judge(int be, const LpIn &P, const LpOut &o, int r, const double *x, const char *how) {
    if (be == 2 && (o.st == 0) != (r == 0) && clp_itself(P, r)) return; if (o.st) { count(o.st == 1 ? "infeasible" : "unbounded"); CHECK("status", r != 0, "%s %s reported success for an %s problem", BN[be], how, o.st == 1 ? "infeasible" : "unbounded"); return; } count("optimal");
    CHECK("status", r == 0, "%s %s returned %d for a problem with optimum %g", BN[be], how, r, o.obj); if (r) return; double v = 0, sc = 1; for (size_t j = 0; j < P.n; j++) { CHECK("finite", std::isfinite(x[j]), "%s %s: x[%zu] = %g", BN[be], how, j, x[j]); v += P.c[j] * x[j]; sc = std::max(sc, fabs(x[j])); }
    for (size_t j = 0; j < P.n; j++) { CHECK("bounds", x[j] >= P.xl[j] - 1e-6 * sc && x[j] <= P.xu[j] + 1e-6 * sc, "%s %s: x[%zu] = %.9g outside [%g,%g]", BN[be], how, j, x[j], P.xl[j], P.xu[j]); if (j < P.type.size() && P.type[j]) CHECK("integer", fabs(x[j] - std::round(x[j])) < 1e-6, "%s %s: integer x[%zu] = %.9g", BN[be], how, j, x[j]); if (j < P.type.size() && P.type[j] == 1) CHECK("binary", x[j] > -1e-6 && x[j] < 1 + 1e-6, "%s %s: binary x[%zu] = %.9g", BN[be], how, j, x[j]); }
    for (size_t i = 0; i < P.m; i++) { double s = 0; for (size_t j = 0; j < P.n; j++) s += P.a(i, j) * x[j]; CHECK("constraint", s >= P.bl[i] - 1e-5 * sc && s <= P.bu[i] + 1e-5 * sc, "%s %s: constraint %zu = %.9g outside [%g,%g]", BN[be], how, i, s, P.bl[i], P.bu[i]); }
    CHECK("optimum", fabs(v - o.obj) <= 6e-5 * sc, "%s %s%s: objective %.12g, optimum %.12g", BN[be], how, P.max ? "" : " (minimise)", v, o.obj); }
struct Crs { std::vector<double> v; std::vector<int> c, p; double *vp; int *cp, *pp; Crs(const LpIn &P, Rng &r) { bool keepz = r.coin(0.2); p.push_back(0); for (size_t i = 0; i < P.m; i++) { std::vector<size_t> o; for (size_t j = 0; j < P.n; j++) if (P.a(i, j) != 0 || (keepz && r.coin())) o.push_back(j); if (r.coin(0.3)) std::reverse(o.begin(), o.end()); for (size_t j : o) { v.push_back(P.a(i, j)); c.push_back((int)j); } p.push_back((int)v.size()); } vp = (double *)malloc(v.size() * 8 + !v.size()); if (v.size()) memcpy(vp, v.data(), v.size() * 8); cp = (int *)malloc(c.size() * 4 + !c.size()); if (c.size()) memcpy(cp, c.data(), c.size() * 4); pp = (int *)malloc(p.size() * 4); memcpy(pp, p.data(), p.size() * 4); } ~Crs() { free(vp); free(cp); free(pp); } };
struct Gm { Buf A, bl, bu, c, xl, xu; size_t ld; Gm(const LpIn &P, Rng &r) : A((P.m + 3) * P.n), bl(P.m), bu(P.m), c(P.n), xl(P.n), xu(P.n) { ld = P.m + (size_t)r.range(0, 3); for (size_t k = 0; k < (P.m + 3) * P.n; k++) A[k] = NAN; for (size_t j = 0; j < P.n; j++) for (size_t i = 0; i < P.m; i++) A[j * ld + i] = P.a(i, j); memcpy(bl.p, P.bl.data(), 8 * P.m); memcpy(bu.p, P.bu.data(), 8 * P.m); memcpy(c.p, P.c.data(), 8 * P.n); memcpy(xl.p, P.xl.data(), 8 * P.n); memcpy(xu.p, P.xu.data(), 8 * P.n); } };
aa_opt_gmcreate_fun *const GM[] = {aa_opt_lpsolve_gmcreate, aa_opt_glpk_gmcreate, aa_opt_clp_gmcreate};
typedef aa_opt_cx *crsfun(size_t, size_t, const double *, int *, int *, const double *, const double *, const double *, const double *, const double *);
crsfun *const CR[] = {aa_opt_lpsolve_crscreate, aa_opt_glpk_crscreate, aa_opt_clp_crscreate};
aa_opt_lp_solver_fun *const LP[] = {aa_opt_lp_lpsolve, aa_opt_lp_glpk, aa_opt_lp_clp};
aa_opt_lp_crs_solver *const LC[] = {aa_opt_lp_crs_lpsolve, aa_opt_lp_crs_glpk, aa_opt_lp_crs_clp};
const aa_opt_lp_solver EN[] = {AA_OPT_LP_SOLVER_LPSOLVE, AA_OPT_LP_SOLVER_GLPK, AA_OPT_LP_SOLVER_CLP};
aa_opt_cx *mk(Rng &r, int be, const LpIn &P, std::string *how) { aa_opt_cx *cx; if (r.coin(0.35)) { Crs C(P, r); Gm G(P, r); *how = "sparse"; LIB(cx = CR[be](P.m, P.n, C.vp, C.cp, C.pp, G.bl, G.bu, G.c, G.xl, G.xu)); } else { Gm G(P, r); if (r.coin()) { *how = "dense"; LIB(cx = GM[be](P.m, P.n, G.A, G.ld, G.bl, G.bu, G.c, G.xl, G.xu)); } else { *how = "generic"; aa_opt_lp_solver s = EN[be]; if (be == 1 && r.coin()) s = AA_OPT_LP_SOLVER_DEFAULT; LIB(cx = aa_opt_gmcreate(s, P.m, P.n, G.A, G.ld, G.bl, G.bu, G.c, G.xl, G.xu)); } } CHECK("create", cx != nullptr, "%s %s: no context", BN[be], how->c_str()); return cx; }
std::string dump(const LpIn &P) { std::string s; char b[64]; auto put = [&](const char *n, const std::vector<double> &v) { s += n; for (double x : v) { snprintf(b, 64, " %g", x); s += b; } s += "; "; }; snprintf(b, 64, "m=%zu n=%zu ", P.m, P.n); s = b; put("A", P.A); put("bl", P.bl); put("bu", P.bu); put("c", P.c); put("xl", P.xl); put("xu", P.xu); return s; }
}
SECTION(oneshot, 6000, 120000) {
    fresh_region(rng); LpIn P = gen(rng); int be = (int)rng.range(0, 2); LpOut o; if (!ref(P, &o)) return; Buf x(P.n); Gm G(P, rng); int r; bool sp = rng.coin(); std::string d = dump(P); note("%s %s %.400s", BN[be], sp ? "sparse" : "dense", d.c_str()); distinct(fnv(P.A.data(), P.A.size() * 8, fnv(P.c.data(), P.n * 8)));
    if (sp) { Crs C(P, rng); LIB(r = LC[be](P.m, P.n, C.vp, C.cp, C.pp, G.bl, G.bu, G.c, G.xl, G.xu, x)); } else LIB(r = LP[be](P.m, P.n, G.A, G.ld, G.bl, G.bu, G.c, G.xl, G.xu, x)); judge(be, P, o, r, x, sp ? "sparse" : "dense");
}
SECTION(history, 3000, 60000) {
    // one context modified and solved repeatedly; after every change it must solve the current problem
    fresh_region(rng); LpIn P = gen(rng); int be = (int)rng.range(0, 2); P.max = true; std::string how; aa_opt_cx *cx = mk(rng, be, P, &how); std::string hist = how; int steps = (int)rng.range(1, 8); P.type.assign(P.n, 0); bool mip = be != 2 && rng.coin(0.3);
    for (int k = 0; k < steps; k++) { int e = 0; switch (rng.range(0, mip ? 6 : 5)) {
        case 0: P.max = rng.coin(); LIB(e = aa_opt_set_direction(cx, P.max ? AA_OPT_MAXIMIZE : AA_OPT_MINIMIZE)); hist += P.max ? " max" : " min"; break;
        case 1: { for (auto &c : P.c) c = num(rng, 6); Gm G(P, rng); LIB(e = aa_opt_set_obj(cx, P.n, G.c)); hist += " obj"; break; }
        case 2: { for (size_t j = 0; j < P.n; j++) if (!P.type[j]) bnd(rng, &P.xl[j], &P.xu[j], false, 6); Gm G(P, rng); LIB(e = aa_opt_set_bnd(cx, P.n, G.xl, G.xu)); hist += " bnd"; break; }
        case 3: { LpIn Q = gen(rng); double dens = rng.uni(0.3, 1); for (auto &a : P.A) a = rng.coin(dens) ? num(rng, 5) : 0; for (size_t i = 0; i < P.m; i++) bnd(rng, &P.bl[i], &P.bu[i], false, 12); Gm G(P, rng); LIB(e = aa_opt_set_cstr_gm(cx, P.m, P.n, G.A, G.ld, G.bl, G.bu)); hist += " cstr"; break; }
        case 6: { size_t j = (size_t)rng.range(0, (long)P.n - 1); int t = (int)rng.range(0, 2); if (t) { double a = (double)rng.range(-3, 3), b = (double)rng.range(-3, 3); P.xl[j] = t == 1 ? 0 : std::min(a, b); P.xu[j] = t == 1 ? 1 : std::max(a, b); P.type[j] = t; } else P.type[j] = 0; LIB(e = aa_opt_set_type(cx, j, t == 0 ? AA_OPT_CONTINUOUS : t == 1 ? AA_OPT_BINARY : AA_OPT_INTEGER)); CHECK("set", e == 0, "%s set_type returned %d", BN[be], e); Gm G(P, rng); LIB(e = aa_opt_set_bnd(cx, P.n, G.xl, G.xu)); hist += t == 0 ? " cont" : t == 1 ? " bin" : " int"; break; }
        default: hist += " solve"; }
        CHECK("set", e == 0, "%s change '%s' returned %d", BN[be], hist.c_str(), e); if (rng.coin(0.6) || k == steps - 1) { bool anyint = false; for (size_t j = 0; j < P.n; j++) anyint |= P.type[j] != 0; LpOut o; if (!ref(P, &o)) break; if (anyint && o.st) { /* a mixed-integer problem with an unbounded or infeasible relaxation is only required to fail */ } Buf x(P.n); int r; std::string d = dump(P); note("%s %s | %.350s", BN[be], hist.c_str(), d.c_str()); distinct(fnv(P.A.data(), P.A.size() * 8, fnv(hist.data(), hist.size()))); LIB(r = aa_opt_solve(cx, P.n, x)); judge(be, P, o, r, x, hist.c_str()); } }
    int e; LIB(e = aa_opt_destroy(cx)); CHECK("destroy", e == 0, "destroy returned %d", e);
}
SECTION(lifetime, 400, 8000) {
    fresh_region(rng); int be = (int)rng.range(0, 2); LpIn P = gen(rng); LpOut o; auto once = [&](Rng r) { std::string h; aa_opt_cx *cx = mk(r, be, P, &h); Buf x(P.n); if (be != 2) aa_opt_solve(cx, P.n, x); /* CLP's own presolve leaks */ Gm G(P, r); aa_opt_set_obj(cx, P.n, G.c); aa_opt_set_bnd(cx, P.n, G.xl, G.xu); aa_opt_set_cstr_gm(cx, P.m, P.n, G.A, G.ld, G.bl, G.bu); aa_opt_destroy(cx); }; uint64_t s = rng.u64(); once(Rng(s)); once(Rng(s)); size_t a = __sanitizer_get_current_allocated_bytes(); once(Rng(s)); size_t b = __sanitizer_get_current_allocated_bytes(); note("%s", BN[be]); distinct(s); CHECK("leak", a == b, "%ld bytes still allocated after destroying a %s context", (long)(b - a), BN[be]); (void)o;
}
VK_MAIN
