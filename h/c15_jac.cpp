// C15/C16: chains, sub-scenegraphs and their Jacobians.
#include "sgmodel.hpp"
#include <amino/rx/scene_ik_internal.h>
extern "C" { struct aa_rx_sg_sub *aa_rx_sg_multiple_chain_create(const struct aa_rx_sg *, aa_rx_frame_id, size_t, aa_rx_frame_id *); }
using namespace vk;
namespace {
int g_err; void on_err(const char *) { g_err++; }
struct World { aa_rx_sg *sg; MSg m; size_t n, nc; std::vector<std::string> name, cfg; World(Rng &r) { sg = aa_rx_sg_create(); sg_build(r, sg, m, (size_t)r.range(1, r.coin(0.004) ? 150 : r.coin(0.2) ? 24 : 9), r.coin() ? 0.9 : 0.4, false); for (auto &c : m.configs()) if (r.coin(0.6)) { MLim &l = m.lim[c]; l.has[0] = true; l.lo[0] = r.uni(-4, 2); l.hi[0] = l.lo[0] + r.uni(0, 5); aa_rx_sg_set_limit_pos(sg, c.c_str(), l.lo[0], l.hi[0]); } aa_rx_sg_init(sg); n = aa_rx_sg_frame_count(sg); nc = aa_rx_sg_config_count(sg); for (size_t i = 0; i < n; i++) name.push_back(aa_rx_sg_frame_name(sg, (aa_rx_frame_id)i)); for (size_t i = 0; i < nc; i++) cfg.push_back(aa_rx_sg_config_name(sg, (aa_rx_config_id)i)); } ~World() { aa_rx_sg_destroy(sg); }
    // frames from root (exclusive) to tip (inclusive), root first
    std::vector<std::string> chain(const std::string &root, std::string tip) { std::vector<std::string> v; while (!tip.empty() && tip != root) { v.push_back(tip); tip = m.f.at(tip).parent; } std::reverse(v.begin(), v.end()); return v; }
    TF abs(const std::string &f, const std::vector<L> &q) { const MFrame &x = m.f.at(f); TF T{rot(q4(x.E)), v3(x.E + 4)}; if (x.type != MFIX) { L c = q[(size_t)aa_rx_sg_config_id(sg, x.cfg.c_str())] + x.off; V3 a = v3(x.axis); T = T * (x.type == MREV ? TF{rotexp(c * a), {{0, 0, 0}}} : TF{eye3(), c * a}); } return x.parent.empty() ? T : abs(x.parent, q) * T; } };
struct Dv { Buf b; aa_dvec v; Dv(const double *q, size_t n, size_t inc) : b(n ? (n - 1) * inc + 1 : 0) { for (size_t i = 0; i < n; i++) b[i * inc] = q[i]; v = AA_DVEC_INIT(n, b.p, inc); } };
}
SECTION(chain, 16000, 400000) {
    fresh_region(rng); World w(rng); aa_rx_sg *sg = w.sg; size_t n = w.n, nc = w.nc;
    std::string tip = w.name[(size_t)rng.range(0, (long)n - 1)], root = ""; int how = (int)rng.range(0, 4); if (how <= 1) { auto c = w.chain("", tip); root = c[(size_t)rng.range(0, (long)c.size() - 1)]; } else if (how == 2) root = w.name[(size_t)rng.range(0, (long)n - 1)];
    note("frames %zu, chain '%s' to '%s'", n, root.c_str(), tip.c_str());
    aa_rx_frame_id rid = root.empty() ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(sg, root.c_str()), tid = aa_rx_sg_frame_id(sg, tip.c_str());
    auto C = w.chain(root, tip); std::vector<std::string> J; for (auto &f : C) if (w.m.is_joint(f)) J.push_back(f); std::string sig; for (auto &f : C) sig += (char)('0' + w.m.f[f].type); distinct(fnv(sig) + n * 31 + (uint64_t)how);
    aa_rx_sg_sub *s; LIB(s = aa_rx_sg_chain_create(sg, rid, tid));
    CHECK("sub-sg", aa_rx_sg_sub_sg(s) == sg, "other graph"); CHECK("sub-count", aa_rx_sg_sub_frame_count(s) == C.size() && aa_rx_sg_sub_config_count(s) == J.size(), "%zu frames %zu configs, want %zu %zu", aa_rx_sg_sub_frame_count(s), aa_rx_sg_sub_config_count(s), C.size(), J.size()); CHECK("sub-all", aa_rx_sg_sub_all_config_count(s) == nc && aa_rx_sg_sub_all_frame_count(s) == n, "all counts");
    if (aa_rx_sg_sub_frame_count(s) == C.size() && aa_rx_sg_sub_config_count(s) == J.size()) {
        for (size_t i = 0; i < C.size(); i++) { CHECK("sub-frame", aa_rx_sg_sub_frame(s, i) == aa_rx_sg_frame_id(sg, C[i].c_str()) && aa_rx_sg_sub_frames(s)[i] == aa_rx_sg_sub_frame(s, i), "frame %zu is %ld", i, (long)aa_rx_sg_sub_frame(s, i)); }
        for (size_t i = 0; i < J.size(); i++) CHECK("sub-config", aa_rx_sg_sub_config(s, i) == aa_rx_sg_config_id(sg, w.m.f[J[i]].cfg.c_str()) && aa_rx_sg_sub_configs(s)[i] == aa_rx_sg_sub_config(s, i), "config %zu is %ld", i, (long)aa_rx_sg_sub_config(s, i));
        CHECK("sub-ee", aa_rx_sg_sub_frame_ee(s) == tid, "end-effector %ld", (long)aa_rx_sg_sub_frame_ee(s));
        // the functions behind it, also with arrays shorter than the chain
        { size_t nf; LIB(nf = aa_rx_sg_chain_frame_count(sg, rid, tid)); CHECK("chain-count", nf == C.size(), "%zu frames", nf); size_t cap = (size_t)rng.range(0, (long)nf); std::vector<aa_rx_frame_id> fs(cap + 1, -77), full(aa_rx_sg_sub_frames(s), aa_rx_sg_sub_frames(s) + nf); if (cap) { LIB(aa_rx_sg_chain_frames(sg, rid, tid, cap, fs.data())); for (size_t i = 0; i < cap; i++) CHECK("chain-frames", fs[i] == full[nf - cap + i], "frame %zu of the last %zu", i, cap); CHECK("chain-frames", fs[cap] == -77, "wrote past the end"); }
          size_t kc; LIB(kc = aa_rx_sg_chain_config_count(sg, nf, full.data())); CHECK("chain-configs", kc == J.size(), "%zu configs", kc); size_t kcap = (size_t)rng.range(0, (long)kc); std::vector<aa_rx_config_id> cs(kcap + 1, -77); LIB(aa_rx_sg_chain_configs(sg, nf, full.data(), kcap, cs.data())); for (size_t i = 0; i < kcap; i++) CHECK("chain-configs", cs[i] == aa_rx_sg_sub_config(s, i), "config %zu", i); CHECK("chain-configs", cs[kcap] == -77, "wrote past the end"); }
        // vectors of other lengths are refused
        if (nc && rng.coin(0.1)) { g_err = 0; aa_la_set_err(on_err); size_t k = J.size(); Buf A(nc + 1), S(k + 1); for (size_t i = 0; i <= nc; i++) A[i] = 0; for (size_t i = 0; i <= k; i++) S[i] = 0; aa_dvec wa = AA_DVEC_INIT(nc + 1, A.p, 1), ws = AA_DVEC_INIT(k + 1, S.p, 1), ga = AA_DVEC_INIT(nc, A.p, 1), gs = AA_DVEC_INIT(k, S.p, 1);
          aa_rx_sg_sub_config_scatter(s, &gs, &wa); CHECK("length", g_err == 1, "scatter into a longer vector"); g_err = 0; aa_rx_sg_sub_config_scatter(s, &ws, &ga); CHECK("length", g_err == 1, "scatter of a longer vector"); g_err = 0; aa_rx_sg_sub_config_gather(s, &wa, &gs); CHECK("length", g_err == 1, "gather from a longer vector"); g_err = 0; aa_rx_sg_sub_config_gather(s, &ga, &ws); CHECK("length", g_err == 1, "gather into a longer vector"); aa_la_set_err([](const char *m) { fputs(m, stderr); abort(); }); }
        // moving configurations between the chain and the whole graph
        size_t k = J.size(); Buf all(nc), sub(k), back(nc); for (size_t i = 0; i < nc; i++) { all[i] = rconf(rng); back[i] = -100 - (double)i; } LIB(aa_rx_sg_sub_config_get(s, nc, all, k, sub)); for (size_t i = 0; i < k; i++) CHECK("get", sub[i] == all[aa_rx_sg_sub_config(s, i)], "config %zu", i);
        LIB(aa_rx_sg_sub_config_set(s, k, sub, nc, back)); std::vector<double> want(nc); for (size_t i = 0; i < nc; i++) want[i] = -100 - (double)i; for (size_t i = 0; i < k; i++) want[aa_rx_sg_sub_config(s, i)] = sub[i]; for (size_t i = 0; i < nc; i++) CHECK("set", back[i] == want[i], "config %zu is %g", i, back[i]);
        { size_t ia = (size_t)rng.range(1, 3), is = (size_t)rng.range(1, 3); Dv A(all, nc, ia), S(sub, k, is), G(all, k <= nc ? k : nc, is); for (size_t i = 0; i < k; i++) G.b[i * is] = -1; LIB(aa_rx_sg_sub_config_gather(s, &A.v, &G.v)); for (size_t i = 0; i < k; i++) CHECK("gather", G.b[i * is] == sub[i], "config %zu", i); for (size_t i = 0; i < nc; i++) A.b[i * ia] = -100 - (double)i; LIB(aa_rx_sg_sub_config_scatter(s, &S.v, &A.v)); for (size_t i = 0; i < nc; i++) CHECK("scatter", A.b[i * ia] == want[i], "config %zu", i); for (size_t i = 0; i + 1 < nc; i++) for (size_t j = 1; j < ia; j++) CHECK("scatter-pad", std::isnan(A.b[i * ia + j]), "gap written"); }
        // whole-graph path of a chain path
        { size_t np = (size_t)rng.range(0, 4); Buf p(np * k), P(np * nc), st0(nc); for (size_t i = 0; i < np * k; i++) p[i] = rng.gauss(); for (size_t i = 0; i < nc; i++) st0[i] = rng.gauss(); bool st_ = rng.coin(); if (!st_) for (size_t i = 0; i < np * nc; i++) P[i] = (double)i; LIB(aa_rx_sg_sub_expand_path(s, np, st_ ? st0.p : nullptr, p, P)); for (size_t i = 0; i < np; i++) { std::vector<double> W(nc); for (size_t j = 0; j < nc; j++) W[j] = st_ ? st0[j] : (double)(i * nc + j); for (size_t j = 0; j < k; j++) W[aa_rx_sg_sub_config(s, j)] = p[i * k + j]; for (size_t j = 0; j < nc; j++) CHECK("expand-path", P[i * nc + j] == W[j], "point %zu config %zu", i, j); } }
        // centre and random configurations respect limits
        { size_t inc = (size_t)rng.range(1, 3); Dv v(all, std::min(k, nc), inc); Buf c(k); LIB(aa_rx_sg_sub_center_configs(s, k, c)); LIB(aa_rx_sg_sub_center_configv(s, &v.v)); for (size_t i = 0; i < k; i++) { MLim l; auto it = w.m.lim.find(w.m.f[J[i]].cfg); if (it != w.m.lim.end()) l = it->second; double ce = l.has[0] ? (l.lo[0] + l.hi[0]) / 2 : 0; CLOSE("center", c[i], ce, 1e-15); CLOSE("center-v", v.b[i * inc], ce, 1e-15); }
          srand((unsigned)rng.u64()); srandom((unsigned)rng.u64()); for (int t = 0; t < 4; t++) { LIB(aa_rx_sg_sub_rand_config(s, &v.v)); for (size_t i = 0; i < k; i++) { MLim l; auto it = w.m.lim.find(w.m.f[J[i]].cfg); if (it != w.m.lim.end()) l = it->second; double lo = l.has[0] ? l.lo[0] : -M_PI, hi = l.has[0] ? l.hi[0] : M_PI; CHECK("rand", v.b[i * inc] >= lo - 1e-12 && v.b[i * inc] <= hi + 1e-12, "random %g outside [%g,%g]", v.b[i * inc], lo, hi); } for (size_t i = 0; i + 1 < k; i++) for (size_t j = 1; j < inc; j++) CHECK("rand-pad", std::isnan(v.b[i * inc + j]), "gap written"); } }
        // forward kinematics of the chain only
        if (nc) { Buf q0(nc), q1(nc), qs(k); for (size_t i = 0; i < nc; i++) q0[i] = q1[i] = rng.uni(-3, 3); for (size_t i = 0; i < k; i++) qs[i] = q1[aa_rx_sg_sub_config(s, i)] = rng.uni(-3, 3); aa_rx_fk *f0 = aa_rx_fk_malloc(sg), *f1 = aa_rx_fk_malloc(sg); Dv d0(q0, nc, 1), d1(q1, nc, 1), ds(qs, k, (size_t)rng.range(1, 2)); aa_rx_fk_all(f0, &d0.v); aa_rx_fk_all(f1, &d1.v); std::vector<double> before(aa_rx_fk_data(f0), aa_rx_fk_data(f0) + 7 * n); LIB(aa_rx_fk_sub(f0, s, &ds.v)); std::set<std::string> in(C.begin(), C.end());
          for (size_t i = 0; i < n; i++) { const double *e = aa_rx_fk_ref(f0, (aa_rx_frame_id)i); if (in.count(w.name[i])) CLOSEV("fk-sub", e, aa_rx_fk_ref(f1, (aa_rx_frame_id)i), 7, 1e-14 * 1e3); else CHECK("fk-sub-others", !memcmp(e, &before[7 * i], 56), "frame %zu outside the chain changed", i); } aa_rx_fk_destroy(f0); aa_rx_fk_destroy(f1); }
    }
    aa_rx_sg_sub_destroy(s);
    // several tips
    { size_t nt = (size_t)rng.range(1, 4); std::vector<aa_rx_frame_id> tips; std::set<aa_rx_frame_id> U; for (size_t i = 0; i < nt; i++) { std::string t = w.name[(size_t)rng.range(0, (long)n - 1)]; tips.push_back(aa_rx_sg_frame_id(sg, t.c_str())); for (auto &f : w.chain(root, t)) U.insert(aa_rx_sg_frame_id(sg, f.c_str())); }
      aa_rx_sg_sub *ms; LIB(ms = aa_rx_sg_multiple_chain_create(sg, rid, nt, tips.data())); std::vector<aa_rx_frame_id> got; for (size_t i = 0; i < aa_rx_sg_sub_frame_count(ms); i++) got.push_back(aa_rx_sg_sub_frame(ms, i)); std::set<aa_rx_frame_id> gs(got.begin(), got.end()); CHECK("multi-frames", gs == U && got.size() == U.size(), "%zu frames, want %zu", got.size(), U.size());
      for (size_t i = 0; i < got.size(); i++) for (size_t j = 0; j < i; j++) CHECK("multi-order", got[j] != aa_rx_sg_frame_parent(sg, got[i]) || j < i, "order"); for (size_t i = 0; i < got.size(); i++) { aa_rx_frame_id p = aa_rx_sg_frame_parent(sg, got[i]); if (gs.count(p)) CHECK("multi-order", std::find(got.begin(), got.begin() + (long)i, p) != got.begin() + (long)i, "parent after child"); }
      std::multiset<aa_rx_config_id> wc, gc; for (auto id : U) { aa_rx_config_id c = aa_rx_sg_frame_config(sg, id); if (c >= 0) wc.insert(c); } for (size_t i = 0; i < aa_rx_sg_sub_config_count(ms); i++) gc.insert(aa_rx_sg_sub_config(ms, i)); CHECK("multi-configs", wc == gc, "%zu configs, want %zu", gc.size(), wc.size());
      CHECK("multi-ees", aa_rx_sg_sub_frame_ee_count(ms) == nt, "%zu end-effectors", aa_rx_sg_sub_frame_ee_count(ms)); if (aa_rx_sg_sub_frame_ee_count(ms) == nt) for (size_t i = 0; i < nt; i++) CHECK("multi-ees", aa_rx_sg_sub_frame_ees(ms)[i] == tips[i], "end-effector %zu", i); aa_rx_sg_sub_destroy(ms); }
}
SECTION(jacobian, 16000, 300000) {
    fresh_region(rng); World w(rng); aa_rx_sg *sg = w.sg; size_t n = w.n, nc = w.nc; std::string tip = w.name[(size_t)rng.range(0, (long)n - 1)], root = ""; if (rng.coin(0.4)) { auto c = w.chain("", tip); root = c[(size_t)rng.range(0, (long)c.size() - 1)]; }
    auto C = w.chain(root, tip); std::vector<std::string> Jn; for (auto &f : C) if (w.m.is_joint(f)) Jn.push_back(f); size_t k = Jn.size();
    aa_rx_sg_sub *s = aa_rx_sg_chain_create(sg, root.empty() ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(sg, root.c_str()), aa_rx_sg_frame_id(sg, tip.c_str())); Buf q(nc); for (size_t i = 0; i < nc; i++) q[i] = rng.coin(0.3) ? rconf(rng) : rng.uni(-3, 3); note("frames %zu chain of %zu joints q=%s", n, k, vstr(q, nc).c_str()); distinct(fnv(q.p, nc * 8, k));
    std::vector<L> Q(nc); for (size_t i = 0; i < nc; i++) Q[i] = q[i];
    size_t r_, c_; aa_rx_sg_sub_jacobian_size(s, &r_, &c_); CHECK("size", r_ == 6 && c_ == k, "%zu x %zu want 6 x %zu", r_, c_, k);
    // true velocity Jacobian by 6th-order long-double differences of the model
    std::vector<double> Wv(6 * k), Wt(6 * k); double scale = 1; TF T0 = C.empty() ? TF{eye3(), {{0, 0, 0}}} : w.abs(tip, Q); for (auto &f : w.chain("", tip)) { const MFrame &x = w.m.f[f]; for (int i = 4; i < 7; i++) scale += fabs(x.E[i]); if (x.type == MPRI) scale += 2 * (fabs(x.off) + 20); }
    for (size_t j = 0; j < k; j++) { size_t ci = (size_t)aa_rx_sg_config_id(sg, w.m.f[Jn[j]].cfg.c_str()); const L h = 1e-3L, cc[3] = {45.0L / 60, -9.0L / 60, 1.0L / 60}; V3 v{{0, 0, 0}}; M3 D = 0.0L * eye3(); for (int i = 1; i <= 3; i++) { auto qa = Q, qb = Q; qa[ci] += i * h; qb[ci] -= i * h; TF a = w.abs(tip, qa), b = w.abs(tip, qb); v = v + (cc[i - 1] / h) * (a.p - b.p); D = D + (cc[i - 1] / h) * (a.R - b.R); } M3 S = D * tr(T0.R); V3 om{{(S(2, 1) - S(1, 2)) / 2, (S(0, 2) - S(2, 0)) / 2, (S(1, 0) - S(0, 1)) / 2}}; V3 tw = v - cross(om, T0.p); for (int i = 0; i < 3; i++) { Wv[6 * j + (size_t)i + AA_TF_DX_V] = (double)v[i]; Wv[6 * j + (size_t)i + AA_TF_DX_W] = (double)om[i]; Wt[6 * j + (size_t)i + AA_TF_DX_V] = (double)tw[i]; Wt[6 * j + (size_t)i + AA_TF_DX_W] = (double)om[i]; } }
    double tol = 1e-13 * scale * (double)(n + 2);
    Buf X(n * 8); aa_rx_sg_tf(sg, nc, q, n, Buf(7 * n), 7, X, 8); size_t ld = (size_t)rng.range(6, 9); Buf J1(k ? (k - 1) * ld + 6 : 0); LIB(aa_rx_sg_sub_jacobian(s, n, X, 8, J1, ld)); for (size_t j = 0; j < k; j++) CLOSEV("sub-jacobian", J1 + j * ld, &Wv[6 * j], 6, tol);
    aa_mem_region_t reg; aa_mem_region_init(&reg, 64); aa_dmat *G, TA = AA_DMAT_INIT(7, n, X.p, 8); LIB(G = aa_rx_sg_sub_get_jacobian(s, &reg, &TA)); CHECK("get-size", G->rows == 6 && G->cols == k, "%zu x %zu", (size_t)G->rows, (size_t)G->cols); for (size_t j = 0; j < k; j++) CLOSEV("get-jacobian", &AA_DMAT_REF(G, 0, j), &Wv[6 * j], 6, tol);
    aa_rx_fk *fk = aa_rx_fk_malloc(sg); Dv v(q, nc, 1); aa_rx_fk_all(fk, &v.v);
    if (k) { LIB(G = aa_rx_sg_sub_jac_vel_get(s, &reg, fk)); for (size_t j = 0; j < k; j++) CLOSEV("jac-vel", &AA_DMAT_REF(G, 0, j), &Wv[6 * j], 6, tol); LIB(G = aa_rx_sg_sub_jac_twist_get(s, &reg, fk)); for (size_t j = 0; j < k; j++) CLOSEV("jac-twist", &AA_DMAT_REF(G, 0, j), &Wt[6 * j], 6, tol * scale); }
    if (k) { Buf F(k ? (k - 1) * ld + 6 : 0), H(k ? (k - 1) * ld + 6 : 0); aa_dmat M = AA_DMAT_INIT(6, k, F.p, ld), N = AA_DMAT_INIT(6, k, H.p, ld); LIB(aa_rx_sg_sub_jac_vel_fill(s, fk, &M)); LIB(aa_rx_sg_sub_jac_twist_fill(s, fk, &N)); for (size_t j = 0; j < k; j++) { CLOSEV("jac-vel-fill", F + j * ld, &Wv[6 * j], 6, tol); CLOSEV("jac-twist-fill", H + j * ld, &Wt[6 * j], 6, tol * scale); for (size_t i = 6; i < ld && j + 1 < k; i++) CHECK("jac-pad", std::isnan(F[j * ld + i]) && std::isnan(H[j * ld + i]) && std::isnan(J1[j * ld + i]), "padding written"); }
      // rotational and translational parts into separate matrices
      size_t lr = (size_t)rng.range(3, 5), lp = (size_t)rng.range(3, 5); Buf R((k - 1) * lr + 3), P((k - 1) * lp + 3), R2((k - 1) * lr + 3), P2((k - 1) * lp + 3); aa_dmat MR = AA_DMAT_INIT(3, k, R.p, lr), MP = AA_DMAT_INIT(3, k, P.p, lp), MR2 = AA_DMAT_INIT(3, k, R2.p, lr), MP2 = AA_DMAT_INIT(3, k, P2.p, lp); LIB(aa_rx_sg_sub_jac_vel_fill2(s, fk, &MR, &MP)); LIB(aa_rx_sg_sub_jac_twist_fill2(s, fk, &MR2, &MP2)); for (size_t j = 0; j < k; j++) { CLOSEV("jac-vel-fill2", R + j * lr, &Wv[6 * j + AA_TF_DX_W], 3, tol); CLOSEV("jac-vel-fill2", P + j * lp, &Wv[6 * j + AA_TF_DX_V], 3, tol); CLOSEV("jac-twist-fill2", R2 + j * lr, &Wt[6 * j + AA_TF_DX_W], 3, tol * scale); CLOSEV("jac-twist-fill2", P2 + j * lp, &Wt[6 * j + AA_TF_DX_V], 3, tol * scale); for (size_t i = 3; i < lr && j + 1 < k; i++) CHECK("jac-pad", std::isnan(R[j * lr + i]) && std::isnan(R2[j * lr + i]), "padding written"); for (size_t i = 3; i < lp && j + 1 < k; i++) CHECK("jac-pad", std::isnan(P[j * lp + i]) && std::isnan(P2[j * lp + i]), "padding written"); } }
    double *aj = aa_rx_sg_sub_alloc_jacobian(s, &reg), *ac = aa_rx_sg_sub_alloc_config(s, &reg); for (size_t i = 0; i < 6 * k; i++) aj[i] = 1; for (size_t i = 0; i < k; i++) ac[i] = 1; if (k) for (size_t j = 0; j < k; j++) CLOSEV("jac-kept", &AA_DMAT_REF(G, 0, j), &Wt[6 * j], 6, tol * scale);
    aa_mem_region_destroy(&reg); aa_rx_fk_destroy(fk); aa_rx_sg_sub_destroy(s);
}
VK_MAIN
