// C14: forward kinematics in every form and entry point against the long-double model.
#include "sgmodel.hpp"
using namespace vk;
namespace {
struct World { aa_rx_sg *sg; MSg m; size_t n, nc; std::vector<std::string> name, cfg; World(Rng &r, bool mimic) { sg = aa_rx_sg_create(); sg_build(r, sg, m, (size_t)r.range(1, r.coin(0.004) ? 300 : r.coin(0.2) ? 30 : 9), r.coin() ? 0.9 : 0.3, mimic); aa_rx_sg_init(sg); n = aa_rx_sg_frame_count(sg); nc = aa_rx_sg_config_count(sg); for (size_t i = 0; i < n; i++) name.push_back(aa_rx_sg_frame_name(sg, (aa_rx_frame_id)i)); for (size_t i = 0; i < nc; i++) cfg.push_back(aa_rx_sg_config_name(sg, (aa_rx_config_id)i)); } ~World() { aa_rx_sg_destroy(sg); }
    std::vector<TF> abs(const double *q) { std::vector<TF> T(n); for (size_t i = 0; i < n; i++) { T[i] = rel(i, q); aa_rx_frame_id p = aa_rx_sg_frame_parent(sg, (aa_rx_frame_id)i); if (!m.f.at(name[i]).parent.empty()) T[i] = T[(size_t)p] * T[i]; } return T; }
    TF rel(size_t i, const double *q) { const MFrame &f = m.f.at(name[i]); double x = 0; if (f.type != MFIX) x = q[aa_rx_sg_config_id(sg, f.cfg.c_str())]; return f.rel(x); }
    std::vector<double> tol(const double *q) { std::vector<double> t(n); for (size_t i = 0; i < n; i++) { const MFrame &f = m.f.at(name[i]); double x = 0; if (f.type != MFIX) x = fabs(q[aa_rx_sg_config_id(sg, f.cfg.c_str())]) + fabs(f.off); t[i] = fabs(f.E[4]) + fabs(f.E[5]) + fabs(f.E[6]) + 2 * x + 1; aa_rx_frame_id p = aa_rx_sg_frame_parent(sg, (aa_rx_frame_id)i); if (p >= 0) t[i] += t[(size_t)p]; } for (auto &v : t) v *= 4e-15 * (double)(n + 2); return t; } };
TF e7(const double *e) { return {rot(q4(e)), v3(e + 4)}; }
TF d8(const double *s) { Q4 r = q4(s), d = q4(s + 4); return {rot(r), (2 / dot(r, r)) * qvec(qm(d, qc(r)))}; }
struct Dv { Buf b; aa_dvec v; Dv(const double *q, size_t n, size_t inc) : b(n ? (n - 1) * inc + 1 : 0) { for (size_t i = 0; i < n; i++) b[i * inc] = q[i]; v = AA_DVEC_INIT(n, b.p, inc); } };
}
SECTION(tf, 12000, 300000) {
    fresh_region(rng); World w(rng, rng.coin(0.3)); size_t n = w.n, nc = w.nc; aa_rx_sg *sg = w.sg; Buf q(nc); for (size_t i = 0; i < nc; i++) q[i] = rconf(rng);
    note("frames %zu configs %zu q=%s", n, nc, vstr(q, nc).c_str()); distinct(fnv(q.p, nc * 8, n)); auto A = w.abs(q); auto tol = w.tol(q);
    size_t lr = (size_t)rng.range(7, 15), la = (size_t)rng.range(7, 15), nt = rng.coin(0.7) ? n : (size_t)rng.range(0, (long)n + 2), nn = std::min(nt, n); auto sz = [](size_t k, size_t ld, size_t e) { return k ? (k - 1) * ld + e : 0; };
    { Buf R(sz(nn, lr, 7)), X(sz(nn, la, 7)); LIB(aa_rx_sg_tf(sg, nc, q, nt, R, lr, X, la)); for (size_t i = 0; i < nn; i++) { NEARM("tf-rel", e7(R + i * lr), w.rel(i, q), tol[i]); NEARM("tf-abs", e7(X + i * la), A[i], tol[i]); CLOSE("tf-unit", (double)norm(q4(X + i * la)), 1, 1e-14 * (double)(n + 1)); for (size_t k = 7; k < la && i + 1 < nn; k++) CHECK("tf-pad", std::isnan(X[i * la + k]), "padding written"); for (size_t k = 7; k < lr && i + 1 < nn; k++) CHECK("tf-pad", std::isnan(R[i * lr + k]), "padding written"); } }
    lr = (size_t)rng.range(12, 20); la = (size_t)rng.range(12, 20);
    { Buf R(sz(nn, lr, 12)), X(sz(nn, la, 12)); LIB(aa_rx_sg_tfmat(sg, nc, q, nt, R, lr, X, la)); for (size_t i = 0; i < nn; i++) { NEARM("tfmat-rel", tf12(R + i * lr), w.rel(i, q), tol[i]); NEARM("tfmat-abs", tf12(X + i * la), A[i], tol[i]); for (size_t k = 12; k < la && i + 1 < nn; k++) CHECK("tfmat-pad", std::isnan(X[i * la + k]), "padding written"); for (size_t k = 12; k < lr && i + 1 < nn; k++) CHECK("tfmat-pad", std::isnan(R[i * lr + k]), "padding written"); } }
    lr = (size_t)rng.range(8, 16); la = (size_t)rng.range(8, 16);
    { Buf R(sz(nn, lr, 8)), X(sz(nn, la, 8)); LIB(aa_rx_sg_duqu(sg, nc, q, nt, R, lr, X, la)); for (size_t i = 0; i < nn; i++) { NEARM("duqu-rel", d8(R + i * lr), w.rel(i, q), 2 * tol[i]); NEARM("duqu-abs", d8(X + i * la), A[i], 2 * tol[i]); CLOSE("duqu-unit", (double)norm(q4(X + i * la)), 1, 1e-14 * (double)(n + 1)); CLOSE("duqu-orthogonal", (double)dot(q4(X + i * la), q4(X + i * la + 4)), 0, 4 * tol[i]); for (size_t k = 8; k < la && i + 1 < nn; k++) CHECK("duqu-pad", std::isnan(X[i * la + k]), "padding written"); } }
    // interleaved relative and absolute storage
    { Buf X(14 * n); LIB(aa_rx_sg_tf(sg, nc, q, n, X, 14, X + 7, 14)); for (size_t i = 0; i < n; i++) { NEARM("tf-interleaved", e7(X + i * 14 + 7), A[i], tol[i]); NEARM("tf-interleaved-rel", e7(X + i * 14), w.rel(i, q), tol[i]); } }
    // descriptor entry points, any increment
    size_t inc = (size_t)rng.range(1, 3); Dv v(q, nc, inc); Buf T(7 * n); size_t ld = (size_t)rng.range(7, 10); Buf F(sz(n, ld, 7)); aa_dmat M = AA_DMAT_INIT(7, n, F.p, ld); LIB(aa_rx_sg_fill_tf_abs(sg, &v.v, &M)); for (size_t i = 0; i < n; i++) NEARM("fill-tf-abs", e7(F + i * ld), A[i], tol[i]);
    { aa_mem_region_t reg; aa_mem_region_init(&reg, 64); aa_dmat *G; LIB(G = aa_rx_sg_get_tf_abs(sg, &reg, &v.v)); CHECK("get-tf-abs", G->rows == 7 && G->cols == n, "%zu x %zu", (size_t)G->rows, (size_t)G->cols); for (size_t i = 0; i < n; i++) NEARM("get-tf-abs", e7(&AA_DMAT_REF(G, 0, i)), A[i], tol[i]); double *al = aa_rx_sg_alloc_tf(sg, &reg), *ac = aa_rx_sg_alloc_config(sg, &reg); for (size_t i = 0; i < 7 * n; i++) al[i] = 1; for (size_t i = 0; i < nc; i++) ac[i] = 2; for (size_t i = 0; i < n; i++) NEARM("get-tf-abs-kept", e7(&AA_DMAT_REF(G, 0, i)), A[i], tol[i]); aa_mem_region_destroy(&reg); }
    // the local region may hold the result as well
    { aa_mem_region_t *reg = aa_mem_region_local_get(); void *p0 = aa_mem_region_ptr(reg); aa_dmat *G = aa_rx_sg_get_tf_abs(sg, reg, &v.v); for (int k = 0; k < 3; k++) memset(aa_mem_region_alloc(reg, 100), 0x5a, 100); for (size_t i = 0; i < n; i++) NEARM("get-tf-abs-local", e7(&AA_DMAT_REF(G, 0, i)), A[i], tol[i]); (void)p0; aa_mem_region_pop(reg, G); }
    // relative transforms between any two frames
    for (int k = 0; k < 6; k++) { long a = rng.range(-1, (long)n - 1), b = rng.range(-1, (long)n - 1); double r[7]; LIB(aa_rx_sg_rel_tf(sg, a < 0 ? AA_RX_FRAME_ROOT : a, b < 0 ? AA_RX_FRAME_ROOT : b, F, ld, r)); TF ta = a < 0 ? TF{eye3(), {{0, 0, 0}}} : A[(size_t)a], tb = b < 0 ? TF{eye3(), {{0, 0, 0}}} : A[(size_t)b]; NEARM("rel-tf", e7(r), inv(ta) * tb, 4 * (tol[n - 1] + (a < 0 ? 0 : tol[(size_t)a]) + (b < 0 ? 0 : tol[(size_t)b]))); }
}
SECTION(update, 12000, 300000) {
    fresh_region(rng); World w(rng, rng.coin(0.3)); size_t n = w.n, nc = w.nc; aa_rx_sg *sg = w.sg; Buf q0(nc), q(nc); for (size_t i = 0; i < nc; i++) q0[i] = q[i] = rconf(rng);
    size_t lr = (size_t)rng.range(7, 9), la = (size_t)rng.range(7, 9); Buf R0(n * lr), X0(n * la), R(n * 8), X(n * 9), R1(n * 8), X1(n * 9); aa_rx_sg_tf(sg, nc, q0, n, R0, lr, X0, la);
    double pc = rng.coin(0.2) ? 0 : rng.coin(0.2) ? 1 : rng.u01(); std::string ch; for (size_t i = 0; i < nc; i++) { bool c = rng.coin(pc); if (c) q[i] = rng.coin(0.3) ? nextafter(q0[i], 10) : rconf(rng); ch += c ? '1' : '0'; }
    note("frames %zu changed %s", n, ch.c_str()); distinct(fnv(ch) + n * 7919);
    LIB(aa_rx_sg_tf_update(sg, nc, q0, q, n, R0, lr, X0, la, R, 8, X, 9)); aa_rx_sg_tf(sg, nc, q, n, R1, 8, X1, 9); auto A = w.abs(q); auto tol = w.tol(q);
    for (size_t i = 0; i < n; i++) { CLOSEV("update-rel", R + i * 8, R1 + i * 8, 7, 1e-15); CLOSEV("update-abs", X + i * 9, X1 + i * 9, 7, 1e-15); NEARM("update-abs-model", e7(X + i * 9), A[i], tol[i]); }
    // a chain of updates, each starting from the previous result
    Buf Rc(n * 8), Xc(n * 9); for (int s = 0; s < 3; s++) { memcpy(q0.p, q.p, nc * 8); for (size_t i = 0; i < nc; i++) if (rng.coin(0.3)) q[i] = rconf(rng); LIB(aa_rx_sg_tf_update(sg, nc, q0, q, n, R, 8, X, 9, Rc, 8, Xc, 9)); aa_rx_sg_tf(sg, nc, q, n, R1, 8, X1, 9); for (size_t i = 0; i < n; i++) CLOSEV("update-chain", Xc + i * 9, X1 + i * 9, 7, 1e-15); memcpy(R.p, Rc.p, n * 64); memcpy(X.p, Xc.p, n * 72); }
}
SECTION(fk, 12000, 300000) {
    fresh_region(rng); World w(rng, rng.coin(0.3)); size_t n = w.n, nc = w.nc; aa_rx_sg *sg = w.sg; Buf q(nc); for (size_t i = 0; i < nc; i++) q[i] = rconf(rng); note("frames %zu configs %zu q=%s", n, nc, vstr(q, nc).c_str()); distinct(fnv(q.p, nc * 8, n));
    auto A = w.abs(q); auto tol = w.tol(q); Dv v(q, nc, (size_t)rng.range(1, 3)); aa_mem_region_t reg; aa_mem_region_init(&reg, 32);
    aa_rx_fk *fk, *fr; LIB(fk = aa_rx_fk_malloc(sg)); LIB(fr = aa_rx_fk_alloc(sg, &reg)); LIB(aa_rx_fk_all(fk, &v.v)); CHECK("fk-cnt", aa_rx_fk_cnt(fk) == n && aa_rx_fk_ld(fk) >= 7, "count %zu", aa_rx_fk_cnt(fk));
    LIB(aa_rx_fk_cpy(fr, fk)); for (aa_rx_fk *f : {fk, fr}) for (size_t i = 0; i < n; i++) { double e[7]; aa_rx_fk_get_abs_qutr(f, (aa_rx_frame_id)i, e); NEARM("fk-abs", e7(e), A[i], tol[i]); NEARM("fk-ref", e7(aa_rx_fk_ref(f, (aa_rx_frame_id)i)), A[i], tol[i]); NEARM("fk-data", e7(aa_rx_fk_data(f) + i * aa_rx_fk_ld(f)), A[i], tol[i]); }
    for (int k = 0; k < 6; k++) { long a = rng.range(-1, (long)n - 1), b = rng.range(-1, (long)n - 1); double r[7]; LIB(aa_rx_fk_get_rel_qutr(fk, a < 0 ? AA_RX_FRAME_ROOT : a, b < 0 ? AA_RX_FRAME_ROOT : b, r)); TF ta = a < 0 ? TF{eye3(), {{0, 0, 0}}} : A[(size_t)a], tb = b < 0 ? TF{eye3(), {{0, 0, 0}}} : A[(size_t)b]; NEARM("fk-rel", e7(r), inv(ta) * tb, 4 * tol[n - 1] + 4 * (a < 0 ? 0 : tol[(size_t)a]) + 4 * (b < 0 ? 0 : tol[(size_t)b])); }
    // overriding one relative transform
    { size_t i = (size_t)rng.range(0, (long)n - 1); Pose P = rpose(rng); double E[7]; memcpy(E, P.q, 32); memcpy(E + 4, P.p, 24); std::vector<double> before(aa_rx_fk_data(fr), aa_rx_fk_data(fr) + 7 * n); LIB(aa_rx_fk_set_rel(fr, (aa_rx_frame_id)i, E)); aa_rx_frame_id p = aa_rx_sg_frame_parent(sg, (aa_rx_frame_id)i); NEARM("fk-set-rel", e7(aa_rx_fk_ref(fr, (aa_rx_frame_id)i)), p < 0 ? P.T() : A[(size_t)p] * P.T(), 2 * tol[i] + 1e-14 * P.ps()); for (size_t j = 0; j < n; j++) if (j != i) CHECK("fk-set-rel-others", !memcmp(aa_rx_fk_ref(fr, (aa_rx_frame_id)j), &before[7 * j], 56), "frame %zu changed", j); for (size_t j = 0; j < n; j++) NEARM("fk-cpy-independent", e7(aa_rx_fk_ref(fk, (aa_rx_frame_id)j)), A[j], tol[j]); }
    // only the frames of a chain: the rest keep their poses
    if (nc) { size_t i = (size_t)rng.range(0, (long)n - 1); std::set<size_t> in; size_t joints = 0; std::set<int> ids; for (long j = (long)i; j >= 0; j = aa_rx_sg_frame_parent(sg, (aa_rx_frame_id)j)) { in.insert((size_t)j); const MFrame &f = w.m.f.at(w.name[(size_t)j]); if (f.type != MFIX) { joints++; ids.insert(aa_rx_sg_config_id(sg, f.cfg.c_str())); } }
      if (joints && joints == ids.size()) { aa_rx_sg_sub *ss; LIB(ss = aa_rx_sg_chain_create(sg, AA_RX_FRAME_ROOT, (aa_rx_frame_id)i)); size_t k = aa_rx_sg_sub_config_count(ss); CHECK("fk-sub-count", k == joints, "%zu configurations", k); Buf q1(nc), qs(k); for (size_t j = 0; j < nc; j++) q1[j] = q[j]; for (size_t j = 0; j < k; j++) qs[j] = q1[aa_rx_sg_sub_config(ss, j)] = rconf(rng); Dv ds(qs, k, (size_t)rng.range(1, 3)); std::vector<double> before(aa_rx_fk_data(fk), aa_rx_fk_data(fk) + 7 * n); LIB(aa_rx_fk_sub(fk, ss, &ds.v)); auto B = w.abs(q1); auto tb = w.tol(q1);
        for (size_t j = 0; j < n; j++) if (in.count(j)) NEARM("fk-sub", e7(aa_rx_fk_ref(fk, (aa_rx_frame_id)j)), B[j], tb[j]); else CHECK("fk-sub-others", !memcmp(aa_rx_fk_ref(fk, (aa_rx_frame_id)j), &before[7 * j], 56), "frame %zu outside the chain changed", j); aa_rx_sg_sub_destroy(ss); } }
    // re-evaluation reuses the storage
    for (size_t i = 0; i < nc; i++) q[i] = rconf(rng); Dv v2(q, nc, 1); LIB(aa_rx_fk_all(fk, &v2.v)); A = w.abs(q); tol = w.tol(q); for (size_t i = 0; i < n; i++) NEARM("fk-again", e7(aa_rx_fk_ref(fk, (aa_rx_frame_id)i)), A[i], tol[i]);
    aa_rx_fk_destroy(fk); aa_mem_region_destroy(&reg);
}
VK_MAIN
