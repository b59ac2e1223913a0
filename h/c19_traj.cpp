// C19: trajectories: waypoint lists, linear, trapezoidal and parabolic-blend segments, SLERP, checks and workspace paths.
#include "arm.hpp"
#include <deque>
#include <functional>
#include <memory>
#include <amino/ct/state.h>
#include <amino/ct/traj.h>
#include <amino/rx/rx_ct.h>
#include <amino/rx/scene_ik.h>
using namespace vk;
namespace {
typedef std::vector<L> Vl;
struct Samp { Vl q, dq, ddq; bool edge = false; };
struct Lim { std::vector<double> vl, vh, al, ah; aa_ct_state mn, mx; aa_ct_limit l; Lim(Rng &r, size_t n, bool symacc) { bool slow = r.coin(0.4); for (size_t i = 0; i < n; i++) { double v = r.logu(-2, 1), a = slow ? r.logu(-3, -1) : r.logu(-2, 2); vh.push_back(v); vl.push_back(r.coin() ? -v : -r.logu(-2, 1)); ah.push_back(a); al.push_back(symacc || r.coin() ? -a : -r.logu(-2, 2)); } memset(&mn, 0, sizeof mn); memset(&mx, 0, sizeof mx); mn.n_q = mx.n_q = n; mn.dq = vl.data(); mx.dq = vh.data(); mn.ddq = al.data(); mx.ddq = ah.data(); l.min = &mn; l.max = &mx; } };
// reference trajectories
struct RLin { std::vector<Vl> w; std::vector<L> T; std::vector<Vl> v; RLin(const std::vector<Vl> &W, const Lim &l) : w(W) { T.push_back(0); for (size_t k = 0; k + 1 < w.size(); k++) { L d = 0; for (size_t i = 0; i < w[k].size(); i++) { L x = w[k + 1][i] - w[k][i]; d = std::max(d, x < 0 ? x / l.vl[i] : x / l.vh[i]); } Vl s; for (size_t i = 0; i < w[k].size(); i++) s.push_back((w[k + 1][i] - w[k][i]) / d); v.push_back(s); T.push_back(T[k] + d); } }
    L dur() const { return T.back(); } Samp at(L t) const { Samp s; size_t k = 0; while (k + 1 < v.size() && t > T[k + 1]) k++; for (size_t i = 0; i < w[0].size(); i++) { s.q.push_back(w[k][i] + (t - T[k]) * v[k][i]); s.dq.push_back(v[k][i]); s.ddq.push_back(0); } for (L b : T) if (fabsl(t - b) < 1e-10L * (1 + dur())) s.edge = true; return s; } };
struct RTrap { std::vector<Vl> w; std::vector<L> T, ta, tc; RTrap(const std::vector<Vl> &W, const Lim &l) : w(W) { T.push_back(0); for (size_t k = 0; k + 1 < w.size(); k++) { L A = 0, C = 0; for (size_t i = 0; i < w[k].size(); i++) { L d = w[k + 1][i] - w[k][i], v = d < 0 ? -l.vl[i] : l.vh[i], a = d < 0 ? -l.al[i] : l.ah[i]; d = fabsl(d); L x = sqrtl(d / a), y = x; if (x * a > v) { x = v / a; y = d / v; } A = std::max(A, x); C = std::max(C, y); } ta.push_back(A); tc.push_back(C); T.push_back(T[k] + A + C); } }
    L dur() const { return T.back(); } Samp at(L t) const { Samp s; size_t k = 0; while (k + 1 < ta.size() && t > T[k + 1]) k++; L A = ta[k], C = tc[k], x = t - T[k]; for (L b : {(L)0, A, C, A + C}) if (fabsl(x - b) < 1e-9L * (1 + dur())) s.edge = true; for (size_t i = 0; i < w[0].size(); i++) { L d = w[k + 1][i] - w[k][i], v = d / C, a = v / A; if (x <= A) { s.q.push_back(w[k][i] + a * x * x / 2); s.dq.push_back(a * x); s.ddq.push_back(a); } else if (x <= C) { s.q.push_back(w[k][i] + v * (x - A / 2)); s.dq.push_back(v); s.ddq.push_back(0); } else { L y = A + C - x; s.q.push_back(w[k + 1][i] - a * y * y / 2); s.dq.push_back(a * y); s.ddq.push_back(-a); } } return s; } };
// parabolic blends with the slow-down iteration of the method
struct RPb { std::vector<Vl> w, v, a; std::vector<L> T, dt, b; RPb(const std::vector<Vl> &W, const Lim &l) : w(W) { size_t m = w.size(), n = w[0].size(); dt.assign(m, 0); b.assign(m, 0); T.assign(m, 0); v.assign(m, Vl(n, 0)); a.assign(m, Vl(n, 0)); auto lim = [&](const Vl &x, const std::vector<double> &lo, const std::vector<double> &hi) { L r = DBL_MIN; for (size_t i = 0; i < n; i++) r = std::max(r, x[i] < 0 ? x[i] / lo[i] : x[i] / hi[i]); return r; };
        auto diff = [&](const Vl &x, const Vl &y) { Vl r; for (size_t i = 0; i < n; i++) r.push_back(x[i] - y[i]); return r; }; for (size_t k = 0; k + 1 < m; k++) dt[k] = lim(diff(w[k + 1], w[k]), l.vl, l.vh); dt[m - 1] = DBL_MAX;
        for (;;) { for (size_t k = 0; k < m; k++) { if (k + 1 < m) for (size_t i = 0; i < n; i++) v[k][i] = (w[k + 1][i] - w[k][i]) / dt[k]; Vl p = k ? v[k - 1] : Vl(n, 0), d = diff(v[k], p); b[k] = lim(d, l.al, l.ah); for (size_t i = 0; i < n; i++) a[k][i] = d[i] / b[k]; T[k] = k ? T[k - 1] + dt[k - 1] : b[k] / 2; }
            std::vector<L> f(m, 1); bool any = false; for (size_t k = 0; k < m; k++) { L pd = k ? dt[k - 1] : (L)DBL_MAX; bool o = (k && pd < b[k] && 2 * pd - b[k - 1] < b[k]) || (k + 1 < m && dt[k] < b[k] && 2 * dt[k] - b[k + 1] < b[k]); if (o) { f[k] = sqrtl(std::min(pd, dt[k]) / b[k]); if (f[k] < 1 - 1e-16L) any = true; } } for (size_t k = 0; k + 1 < m; k++) dt[k] /= std::min(f[k], f[k + 1]); if (!any) break; } }
    L dur() const { return T.back() + b.back() / 2; } Samp at(L t) const { Samp s; size_t m = w.size(), n = w[0].size(); for (size_t k = 0; k < m; k++) for (L e : {T[k] - b[k] / 2, T[k] + b[k] / 2}) if (fabsl(t - e) < 1e-9L * (1 + dur())) s.edge = true; size_t k = 0; while (k + 1 < m && t > T[k + 1] - b[k + 1] / 2) k++; L x = t - T[k]; bool bl = x <= b[k] / 2; for (size_t i = 0; i < n; i++) { L p = k ? v[k - 1][i] : 0; if (bl) { L y = x + b[k] / 2; s.q.push_back(w[k][i] + p * x + a[k][i] * y * y / 2); s.dq.push_back(p + a[k][i] * y); s.ddq.push_back(a[k][i]); } else { s.q.push_back(w[k][i] + v[k][i] * x); s.dq.push_back(v[k][i]); s.ddq.push_back(0); } } return s; } };
struct Pts { std::vector<Vl> w; aa_ct_pt_list *l; };
// waypoints kept by the list: a point closer than the comparison tolerance to the previous one is skipped
Pts points(Rng &r, aa_mem_region_t *reg, size_t n, size_t m) { Pts P; std::vector<Vl> raw; int how = (int)r.range(0, 3); if (how <= 1) LIB(P.l = aa_ct_pt_list_create(reg)); double sc = r.coin(0.8) ? 3 : r.logu(-1, 3); std::vector<double> prev; for (size_t k = 0; k < m; k++) { Buf q(n); for (size_t i = 0; i < n; i++) q[i] = r.coin(0.1) && k ? prev[i] : r.uni(-sc, sc); if (k && r.coin(0.1)) for (size_t i = 0; i < n; i++) q[i] = prev[i]; bool same = k; if (k) for (size_t i = 0; i < n; i++) same &= fabs(q[i] - prev[i]) <= AA_EPSILON; bool lose = false; if (k && !same) { double d = 0; for (size_t i = 0; i < n; i++) d = std::max(d, fabs(q[i] - prev[i])); lose = d < 1.1e-3; } if (lose) { k--; continue; } raw.push_back(Vl(q.p, q.p + n)); if (how == 0) { LIB(aa_ct_pt_list_add_q(P.l, n, q)); } else if (how == 1) { aa_ct_state s; memset(&s, 0, sizeof s); s.n_q = n; s.q = q.p; LIB(aa_ct_pt_list_add(P.l, &s)); memset(&s, 0x5a, sizeof s); } if (!same) { P.w.push_back(Vl(q.p, q.p + n)); prev.assign(q.p, q.p + n); } }
    if (how == 2) { Buf path(n * raw.size()); for (size_t k = 0; k < raw.size(); k++) for (size_t i = 0; i < n; i++) path[k * n + i] = (double)raw[k][i]; LIB(P.l = aa_rx_ct_pt_list(reg, n, raw.size(), path)); count("lists_from_paths"); }
    if (how == 3) { LIB(P.l = aa_ct_pt_list_create(reg)); for (size_t k = P.w.size(); k-- > 0;) { Buf q(n); for (size_t i = 0; i < n; i++) q[i] = (double)P.w[k][i]; aa_ct_state s; memset(&s, 0, sizeof s); s.n_q = n; s.q = q.p; LIB(aa_ct_pt_list_add_front(P.l, &s)); if (r.coin(.1)) LIB(aa_ct_pt_list_add_front(P.l, &s)); } count("lists_from_the_front"); }
    return P; }
template <class R> void follow(Rng &rng, aa_ct_seg_list *s, const R &ref, const Lim &lim, size_t n, const char *what, bool exact_n) {
    double T = (double)ref.dur(), D = aa_ct_seg_list_duration(s); double rel = 1e-12; CLOSE("duration", D, T, rel * 100 * (1 + T)); CHECK("n_q", aa_ct_seg_list_n_q(s) == n, "%zu configurations", aa_ct_seg_list_n_q(s)); double sc = 1; for (auto &w : ref.w) for (L x : w) sc = std::max(sc, fabs((double)x)); double vm = 0, am = 0; for (size_t i = 0; i < n; i++) { vm = std::max({vm, lim.vh[i], -lim.vl[i]}); am = std::max({am, lim.ah[i], -lim.al[i]}); } double tq = 1e-11 * (sc + vm * (1 + T)), td = 1e-11 * (vm + am * (1 + T)) * (1 + sc), ta = 1e-9 * am * (1 + sc) * (1 + T);
    int N = (int)rng.range(4, 40); double t = 0; bool mono = rng.coin(0.4); for (int k = 0; k < N; k++) {
        if (mono) t += rng.uni(0, 2 * D / N); else t = rng.uni(0, D); if (k == 0 && rng.coin()) t = 0; if (k == 1 && rng.coin()) t = D; bool out = false; if (rng.coin(0.1)) { t = rng.coin() ? -rng.logu(-6, 1) : D + rng.logu(-6, 1); } if (rng.coin(0.1) && ref.T.size()) t = (double)ref.T[(size_t)rng.range(0, (long)ref.T.size() - 1)]; out = t < 0 || t > D; if (fabs(t - D) < 1e-9 * (1 + D) && t != D) continue;
        size_t sn = exact_n || rng.coin(0.8) ? n : (size_t)rng.range(0, (long)n); Buf q(sn), dq(sn), ddq(sn); for (size_t i = 0; i < sn; i++) q[i] = dq[i] = ddq[i] = NAN; int m = (int)rng.range(0, 9), r; bool hq = true, hv = true, ha = true; note("%s of %zu waypoints, %zu joints, t=%.17g of %g, mask %d", what, ref.w.size(), n, t, D, m);
        if (m == 0) { LIB(r = aa_ct_seg_list_eval_q(s, t, sn, q)); hv = ha = false; } else if (m == 1) { LIB(r = aa_ct_seg_list_eval_dq(s, t, sn, q, dq)); ha = false; } else { aa_ct_state st; memset(&st, 0, sizeof st); st.n_q = sn; hq = m != 2; hv = m != 3; ha = m != 4; if (m == 5) hq = hv = ha = false; st.q = hq ? q.p : nullptr; st.dq = hv ? dq.p : nullptr; st.ddq = ha ? ddq.p : nullptr; LIB(r = aa_ct_seg_list_eval(s, &st, t)); }
        if (out) { CHECK("outside", r == AA_CT_SEG_OUT, "time %g outside [0,%g] reported inside", t, D); continue; } CHECK("inside", r == AA_CT_SEG_IN, "time %g in [0,%g] reported outside", t, D); if (r != AA_CT_SEG_IN) continue; Samp w = ref.at(t);
        for (size_t i = 0; i < sn; i++) { if (hq) CLOSE("q", q[i], (double)w.q[i], tq); if (hv && !w.edge) CLOSE("dq", dq[i], (double)w.dq[i], td); if (ha && !w.edge) CLOSE("ddq", ddq[i], (double)w.ddq[i], ta); if (hv) CHECK("velocity-limit", dq[i] <= lim.vh[i] + td && dq[i] >= lim.vl[i] - td, "joint %zu velocity %g outside [%g,%g] at %g", i, dq[i], lim.vl[i], lim.vh[i], t); if (ha) CHECK("acceleration-limit", ddq[i] <= lim.ah[i] + ta && ddq[i] >= lim.al[i] - ta, "joint %zu acceleration %g outside [%g,%g] at %g", i, ddq[i], lim.al[i], lim.ah[i], t); }
    }
    // ends
    { Buf q(n), v(n); int r; LIB(r = aa_ct_seg_list_eval_dq(s, 0, n, q, v)); CHECK("start", r == AA_CT_SEG_IN, "start outside"); for (size_t i = 0; i < n; i++) CLOSE("start", q[i], (double)ref.w[0][i], tq); LIB(r = aa_ct_seg_list_eval_dq(s, D, n, q, v)); CHECK("end", r == AA_CT_SEG_IN, "end outside"); for (size_t i = 0; i < n; i++) CLOSE("end", q[i], (double)ref.w.back()[i], tq); }
    // the library's own checks
    { struct C { double t, dt; uint64_t n; int stop; const R *ref; double tq; bool bad; } c{0, D / rng.uni(3, 50), 0, rng.coin() ? (int)rng.range(1, 5) : -1, &ref, tq, false}; auto f = [](void *cx, double t_, const aa_ct_state *st) -> int { C &x = *(C *)cx; if (fabs(t_ - x.t) > 1e-9 * (1 + t_)) x.bad = true; x.t = t_ + x.dt; Samp w = x.ref->at(t_); for (size_t i = 0; i < w.q.size(); i++) if (!(fabs(st->q[i] - (double)w.q[i]) <= x.tq)) x.bad = true; x.n++; return (int)x.n == x.stop ? 77 : 0; }; int r; LIB(r = aa_ct_seg_list_check(s, c.dt, f, &c)); CHECK("check-states", !c.bad, "a state handed to the check function is wrong"); uint64_t all = (uint64_t)std::floor(D / c.dt); bool st = c.stop > 0 && c.n == (uint64_t)c.stop; CHECK("check-result", r == (st ? 77 : 0), "returned %d", r); if (!st) CHECK("check-coverage", c.n >= all && c.n <= all + 2, "%zu states checked, want %zu", (size_t)c.n, (size_t)all + 1); }
    { double dt = D / rng.uni(20, 60), tol = 0; for (size_t i = 0; i < n; i++) tol += std::max(lim.vh[i], -lim.vl[i]); int r; LIB(r = aa_ct_seg_list_check_c0(s, dt, tol * dt * 1.01 + tq, 1e-6 * (1 + sc))); CHECK("c0", r == 0, "continuous trajectory judged %d", r); double far = 0, st = 0; for (double t0 = 0; t0 + dt < D * (1 - 1e-9); t0 += dt) { Samp a = ref.at(t0), b = ref.at(t0 + dt); st = 0; for (size_t i = 0; i < n; i++) st += fabs((double)(a.q[i] - b.q[i])); far = std::max(far, st); } if (far > 1e-6) { LIB(r = aa_ct_seg_list_check_c0(s, dt, far * 0.99, 1e-6 * (1 + sc))); CHECK("c0-steps", r == 1, "a step of %g passed the limit %g: %d", far, far * 0.99, r); } }
}
}
SECTION(joint, 6000, 200000) {
    fresh_region(rng); size_t n = (size_t)rng.range(1, rng.coin(.004) ? 70 : rng.coin(0.1) ? 20 : 7), m = (size_t)rng.range(1, rng.coin(.004) ? 150 : rng.coin(0.1) ? 30 : 8); int kind = (int)rng.range(0, 2); aa_mem_region_t reg; aa_mem_region_init(&reg, (size_t)rng.range(1, 2000)); Pts P = points(rng, &reg, n, m); Lim lim(rng, n, kind == 1); distinct(fnv(&P.w[0][0], 8, n * 100 + m * 3 + (size_t)kind)); note("kind %d, %zu joints, %zu of %zu waypoints", kind, n, P.w.size(), m);
    CHECK("points", aa_ct_pt_list_size(P.l) == P.w.size(), "%zu points kept of %zu distinct", aa_ct_pt_list_size(P.l), P.w.size()); if (aa_ct_pt_list_size(P.l) == P.w.size()) { const aa_ct_state *a = aa_ct_pt_list_start_state(P.l), *b = aa_ct_pt_list_final_state(P.l); CHECK("end-states", a->n_q == n && b->n_q == n && a->q && b->q && !a->X && !a->dq, "states"); for (size_t i = 0; i < n; i++) CHECK("end-states", a->q[i] == (double)P.w[0][i] && b->q[i] == (double)P.w.back()[i], "joint %zu", i); }
    if (aa_ct_pt_list_size(P.l) == P.w.size() && (P.w.size() > 1 || kind == 2)) {
        aa_ct_seg_list *s; if (kind == 0) { LIB(s = aa_ct_tjq_lin_generate(&reg, P.l, &lim.l)); } else if (kind == 1) { LIB(s = aa_ct_tjq_trap_generate(&reg, P.l, &lim.l)); } else { LIB(s = aa_ct_tjq_pb_generate(&reg, P.l, &lim.l)); }
        bool gone = rng.coin(); if (gone) aa_ct_pt_list_destroy(P.l);
        if (kind == 0) { RLin r(P.w, lim); follow(rng, s, r, lim, n, "linear", false); } else if (kind == 1) { RTrap r(P.w, lim); follow(rng, s, r, lim, n, "trapezoidal", false); } else { RPb r(P.w, lim); if (P.w.size() > 1) follow(rng, s, r, lim, n, "blended", true); else { Buf q(n); int e; LIB(e = aa_ct_seg_list_eval_q(s, 0, n, q)); CHECK("single", e == AA_CT_SEG_IN, "single point outside"); for (size_t i = 0; i < n; i++) CHECK("single", q[i] == (double)P.w[0][i], "joint %zu", i); } for (L b : r.b) if (b > 1e-9L) { count("blends"); } for (size_t k = 0; k + 1 < r.w.size(); k++) if ((r.b[k] + r.b[k + 1]) / 2 > r.dt[k] * (1 - 1e-9L)) count("blends that touch"); }
        aa_ct_seg_list_destroy(s); if (!gone) aa_ct_pt_list_destroy(P.l);
    } else aa_ct_pt_list_destroy(P.l);
    aa_mem_region_destroy(&reg);
}
SECTION(slerp, 4000, 100000) {
    fresh_region(rng); aa_mem_region_t reg; aa_mem_region_init(&reg, (size_t)rng.range(1, 2000)); Pose A = rpose(rng), B = rpose(rng); double E[7], F[7]; memcpy(E, A.q, 32); memcpy(E + 4, A.p, 24); memcpy(F, B.q, 32); memcpy(F + 4, B.p, 24); double e0 = 0; for (int i = 0; i < 7; i++) e0 = std::max(e0, fabs(E[i] - F[i])); if (e0 < 2e-3) { aa_mem_region_destroy(&reg); return; } distinct(fnv(E, 56, fnv(F, 56))); note("from %s to %s", vstr(E, 7).c_str(), vstr(F, 7).c_str());
    aa_ct_pt_list *p = aa_ct_pt_list_create(&reg); { Buf b(7); memcpy(b.p, E, 56); LIB(aa_ct_pt_list_add_qutr(p, b)); memcpy(b.p, F, 56); LIB(aa_ct_pt_list_add_qutr(p, b)); } if (rng.coin(0.05)) { double G[7]; memcpy(G, E, 56); G[4] += 1; aa_ct_pt_list_add_qutr(p, G); aa_ct_seg_list *s; LIB(s = aa_ct_tjx_slerp_generate(&reg, p)); CHECK("three-points", s == nullptr, "accepted three points"); aa_ct_pt_list_destroy(p); aa_mem_region_destroy(&reg); return; }
    aa_ct_seg_list *s; LIB(s = aa_ct_tjx_slerp_generate(&reg, p)); if (rng.coin()) { aa_ct_pt_list_destroy(p); p = nullptr; void *junk = aa_mem_region_alloc(&reg, 400); memset(junk, 0x5a, 400); } double D = aa_ct_seg_list_duration(s); CHECK("duration", D > 0, "duration %g", D); Q4 qa = qunit(q4(E)), qb = qunit(q4(F)); L dt_ = qa[0] * qb[0] + qa[1] * qb[1] + qa[2] * qb[2] + qa[3] * qb[3]; double sc = 1; for (int i = 4; i < 7; i++) sc += fabs(E[i]) + fabs(F[i]);
    Q4 rel = qm(qb, qc(qa)); if (rel[3] < 0) rel = -1.0L * rel; V3 om = (2.0L / (L)D) * qlogv(rel); size_t nq = (size_t)rng.range(0, 8); int K = (int)rng.range(3, 12);
    for (int k = 0; k < K; k++) { double t = k == 0 ? 0 : k == 1 ? D : rng.coin(0.2) ? rng.uni(-1, 0) : rng.coin(0.2) ? D + rng.uni(0, 1) : rng.uni(0, D); aa_ct_state *st = aa_ct_state_alloc(&reg, nq, 0); for (size_t i = 0; i < nq; i++) st->eff[i] = 9; for (int i = 0; i < 7; i++) st->X[i] = 77; bool hx = rng.coin(0.8), hv = rng.coin(0.8); double *x = st->X, *v = st->dX; if (!hx) st->X = nullptr; if (!hv) st->dX = nullptr; int r; LIB(r = aa_ct_seg_list_eval(s, st, t)); bool in = t >= 0 && t <= D; CHECK("inside", r == (in ? AA_CT_SEG_IN : AA_CT_SEG_OUT), "time %g of %g reported %d", t, D, r); double u = std::min(1.0, std::max(0.0, t / D));
        if (hx) { if (fabsl(dt_) > 1e-6L || u == 0 || u == 1) { Q4 w = slerp(u, qa, qb); double d1 = md(rot(q4(x)), rot(w)); CHECK("rotation", d1 <= 1e-12 / std::max(1e-3, (double)fabsl(dt_)), "rotation off by %g at %g", d1, u); } for (int i = 0; i < 3; i++) CLOSE("translation", x[4 + i], E[4 + i] + u * (F[4 + i] - E[4 + i]), 1e-13 * sc); }
        if (hv && u > 0 && u < 1 && fabsl(dt_) > 1e-6L) { for (int i = 0; i < 3; i++) { CLOSE("velocity", v[AA_TF_DX_V + i], (F[4 + i] - E[4 + i]) / D, 1e-12 * sc); CLOSE("angular-velocity", v[AA_TF_DX_W + i], (double)om[i], 1e-11 / std::max(1e-3, (double)fabsl(dt_))); } } for (size_t i = 0; i < nq; i++) CHECK("effort", st->eff[i] == 0 || st->eff[i] == 9, "effort overwritten"); if (!in && hv) for (int i = 0; i < 6; i++) CHECK("at-rest", v[i] == 0, "moving outside the trajectory"); aa_mem_region_pop(&reg, st); }
    aa_ct_seg_list_destroy(s); if (p) aa_ct_pt_list_destroy(p); aa_mem_region_destroy(&reg);
}
SECTION(blendx, 2500, 60000) {
    fresh_region(rng); aa_mem_region_t reg; aa_mem_region_init(&reg, (size_t)rng.range(1, 2000)); size_t m = (size_t)rng.range(2, 6); aa_ct_pt_list *p = aa_ct_pt_list_create(&reg); std::vector<Vl> w; Lim lim(rng, 6, false); bool amb = false, gen = rng.coin(0.8); std::vector<TF> poses; uint64_t h = m;
    for (size_t k = 0; k < m; k++) { Pose A = rpose(rng); double E[7]; memcpy(E, A.q, 32); if (gen) { Q4 g = qexpv((rng.uni(0.01, 1.5) * rng.sgn()) * rdir(rng)); if (rng.coin(0.3)) g = -1.0L * g; for (int i = 0; i < 4; i++) E[i] = (double)g[i]; } for (int i = 0; i < 3; i++) E[4 + i] = rng.uni(-2, 2); aa_ct_pt_list_add_qutr(p, E); h = fnv(E, 56, h); TF T{rot(q4(E)), v3(E + 4)}; V3 rv = 2.0L * qlogv(q4(E)); L th = norm(rv); if (fabsl(th - M_PIl) < 0.04L || th < 1e-3L || th > 6.28L) amb = true; Vl x{T.p[0], T.p[1], T.p[2], rv[0], rv[1], rv[2]}; if (k && !amb) { V3 pr{{w.back()[3], w.back()[4], w.back()[5]}}; L best = 1e9L, sec = 1e9L; V3 bv = rv; for (int c = -4; c <= 4; c++) { V3 y = ((th + 2 * M_PIl * c) / th) * rv; V3 d = y - pr; L e = norm(d); if (e < best) { sec = best; best = e; bv = y; } else if (e < sec) sec = e; } if (sec - best < 1e-3L) amb = true; for (int i = 0; i < 3; i++) x[(size_t)(3 + i)] = bv[i]; } w.push_back(x); poses.push_back(T); }
    bool keep = true; for (size_t k = 0; k + 1 < m; k++) { double d = 0; for (size_t i = 0; i < 6; i++) d = std::max(d, fabs((double)(w[k + 1][i] - w[k][i]))); if (d < 3e-3) keep = false; } if (!keep || aa_ct_pt_list_size(p) != m) { aa_ct_pt_list_destroy(p); aa_mem_region_destroy(&reg); return; } distinct(h); note("%zu poses, first angle vector (%Lg %Lg %Lg)", m, w[0][3], w[0][4], w[0][5]);
    aa_ct_limit L_; aa_ct_state mn, mx; memset(&mn, 0, sizeof mn); memset(&mx, 0, sizeof mx); L_.min = &mn; L_.max = &mx; mn.dX = lim.vl.data(); mn.ddX = lim.al.data(); mx.dX = lim.vh.data(); mx.ddX = lim.ah.data(); aa_ct_seg_list *s; LIB(s = aa_ct_tjX_pb_generate(&reg, p, &L_)); double D = aa_ct_seg_list_duration(s); CHECK("duration", D > 0 && std::isfinite(D), "%g", D); auto ev = [&](double t, double *X, double *dX) { aa_ct_state st; memset(&st, 0, sizeof st); st.X = X; st.dX = dX; int r; LIB(r = aa_ct_seg_list_eval(s, &st, t)); return r; }; double X[7], dX[6];
    for (int e = 0; e < 2; e++) { int r = ev(e ? D : 0, X, dX); CHECK("ends", r == AA_CT_SEG_IN, "end %d outside", e); double d = md(TF{rot(q4(X)), v3(X + 4)}, poses[e ? m - 1 : 0]); CHECK("ends", d < 1e-8, "end %d off by %g", e, d); double vv = 0; for (double v : dX) vv += fabs(v); CHECK("rest", vv < 1e-8 * (1 + vv), "moving at the ends: %g", vv); } CHECK("outside", ev(D * 1.01 + 1e-6, X, dX) == AA_CT_SEG_OUT && ev(-1e-3, X, dX) == AA_CT_SEG_OUT, "outside times reported inside");
    double am = 0; for (double a : lim.ah) am = std::max(am, a); for (double a : lim.al) am = std::max(am, -a); std::unique_ptr<RPb> R; if (!amb) { R.reset(new RPb(w, lim)); CLOSE("duration", D, (double)R->dur(), 1e-6 * (1 + D)); } else count("pose sequences with an ambiguous rotation vector"); bool okD = !amb && fabs(D - (double)R->dur()) <= 1e-6 * (1 + D);
    for (int k = 0; k < 12; k++) { double t = rng.uni(0, D), hh = 1e-5 * std::min(1.0, D), Y[7], Z[7]; int r = ev(t, X, dX); CHECK("inside", r == AA_CT_SEG_IN, "time %g of %g outside", t, D); if (r != AA_CT_SEG_IN) break; double nq = X[0] * X[0] + X[1] * X[1] + X[2] * X[2] + X[3] * X[3]; CLOSE("unit", nq, 1, 1e-12); for (int i = 0; i < 3; i++) CHECK("velocity-limit", dX[AA_TF_DX_V + i] <= lim.vh[(size_t)i] * (1 + 1e-9) && dX[AA_TF_DX_V + i] >= lim.vl[(size_t)i] * (1 + 1e-9), "axis %d velocity %g", i, dX[AA_TF_DX_V + i]);
        if (okD) { Samp sp = R->at(t); TF T{rotexp(V3{{sp.q[3], sp.q[4], sp.q[5]}}), {{sp.q[0], sp.q[1], sp.q[2]}}}; double d = md(TF{rot(q4(X)), v3(X + 4)}, T); CHECK("pose", d < 1e-6 * (1 + D) * (1 + am), "pose off by %g at %g", d, t); }
        if (t - hh < 0 || t + hh > D) continue; ev(t - hh, Y, nullptr); ev(t + hh, Z, nullptr); V3 om = (1 / (2 * (L)hh)) * selog_w(TF{rot(q4(Z)) * tr(rot(q4(Y))), {{0, 0, 0}}}); double sp_ = 1; for (double v : lim.vh) sp_ = std::max(sp_, v); for (double v : lim.vl) sp_ = std::max(sp_, -v); double tol = 4 * am * hh * 3 + 1e-9 / hh + 100 * sp_ * sp_ * hh; for (int i = 0; i < 3; i++) { CLOSE("velocity", dX[AA_TF_DX_V + i], (Z[4 + i] - Y[4 + i]) / (2 * hh), tol); CLOSE("angular-velocity", dX[AA_TF_DX_W + i], (double)om[i], tol); } }
    aa_ct_seg_list_destroy(s); aa_ct_pt_list_destroy(p); aa_mem_region_destroy(&reg);
}
SECTION(state, 6000, 100000) {
    fresh_region(rng); aa_mem_region_t reg; aa_mem_region_init(&reg, (size_t)rng.range(1, 500)); size_t n = (size_t)rng.range(0, 9), nt = (size_t)rng.range(0, 5); aa_ct_state *a; LIB(a = aa_ct_state_alloc(&reg, n, nt)); CHECK("alloc", a->n_q == n && a->n_tf == nt, "sizes"); for (size_t i = 0; i < n; i++) CHECK("zero", a->q[i] == 0 && a->dq[i] == 0 && a->ddq[i] == 0, "not zero"); double *arr[7] = {a->q, a->dq, a->ddq, a->eff, a->X, a->dX, a->ddX}; size_t len[7] = {n, n, n, n, 7, 6, 6}; for (int k = 0; k < 7; k++) for (size_t i = 0; i < len[k]; i++) arr[k][i] = 100 * k + (double)i + rng.uni(0, 1); for (size_t i = 0; i < nt; i++) a->TF_abs[i] = a->TF_rel[i] = (double)i; for (int k = 0; k < 7; k++) for (size_t i = 0; i < len[k]; i++) CHECK("overlap", std::floor(arr[k][i]) == 100 * k + (double)i, "arrays overlap");
    int drop = (int)rng.range(-1, 6); aa_ct_state src = *a; double **sp[7] = {&src.q, &src.dq, &src.ddq, &src.eff, &src.X, &src.dX, &src.ddX}; if (drop >= 0) *sp[drop] = nullptr; note("%zu joints, dropped array %d", n, drop); distinct((uint64_t)(n * 100 + nt * 10 + (size_t)(drop + 1))); aa_ct_state c; LIB(aa_ct_state_clone(&reg, &c, &src)); double *cp[7] = {c.q, c.dq, c.ddq, c.eff, c.X, c.dX, c.ddX}; CHECK("clone", c.n_q == n && c.n_tf == nt, "sizes"); for (int k = 0; k < 7; k++) { if (k == drop) { CHECK("clone-null", !cp[k], "array appeared"); continue; } CHECK("clone-own", len[k] == 0 || cp[k] != arr[k], "shares the source"); for (size_t i = 0; i < len[k]; i++) CHECK("clone", cp[k][i] == arr[k][i], "array %d element %zu", k, i); }
    int e; LIB(e = aa_ct_state_eq(&c, &src)); CHECK("eq-clone", e == 1, "a clone differs"); int k = (int)rng.range(0, 6); if (k != 3 && k != drop && len[k]) { size_t i = (size_t)rng.range(0, (long)len[k] - 1); double d = rng.coin() ? rng.uni(0.0012, 1) : rng.uni(0, 0.0008); arr[k][i] += rng.sgn() * d; int x, y; LIB(x = aa_ct_state_eq(&c, &src)); LIB(y = aa_ct_state_eq(&src, &c)); CHECK("eq", x == (d < 0.001) && x == y, "array %d off by %g: %d %d", k, d, x, y); } if (drop >= 0 && drop != 3) { LIB(e = aa_ct_state_eq(a, &c)); CHECK("eq-null", len[drop] == 0 ? true : e == 0, "a missing array is equal"); }
    { char *buf = nullptr; size_t sz = 0; FILE *f = open_memstream(&buf, &sz); LIB(aa_ct_state_dump(f, &src)); fclose(f); std::istringstream in(std::string(buf, sz)); free(buf); std::string line; static const char *lab[7] = {"q:", "dq:", "ddq:", "eff:", "X:", "dX:", "ddX:"}; for (int j = 0; j < 7; j++) { if (j == drop) continue; bool got = (bool)std::getline(in, line); CHECK("dump", got, "line %s missing", lab[j]); std::istringstream ls(line); std::string t; ls >> t; CHECK("dump", t == lab[j], "label %s, want %s", t.c_str(), lab[j]); for (size_t i = 0; i < len[j]; i++) { double v = NAN; ls >> v; CLOSE("dump-value", v, arr[j][i], 1e-4 * (1 + fabs(arr[j][i]))); } } }
    double E[7]; for (double &x : E) x = rng.uni(-1, 1); LIB(aa_ct_state_set_qutr(a, E)); CHECK("set-qutr", !memcmp(a->X, E, 56), "pose"); aa_mem_region_destroy(&reg);
}
// histories of lists of waypoints that give any of the parts of a state
SECTION(lists, 4000, 100000) {
    fresh_region(rng); aa_mem_region_t reg; aa_mem_region_init(&reg, (size_t)rng.range(1, 1000)); aa_ct_pt_list *l; LIB(l = aa_ct_pt_list_create(&reg)); typedef std::array<std::vector<double>, 7> S; std::deque<std::pair<size_t, S>> m; int ops = (int)rng.range(1, 14); size_t n0 = (size_t)rng.range(1, 4); std::string hist;
    auto same = [](const std::pair<size_t, S> &a, const std::pair<size_t, S> &b) { if (a.first != b.first) return false; for (int j = 0; j < 7; j++) if (j != 3) { if (a.second[j].size() != b.second[j].size()) return false; for (size_t i = 0; i < a.second[j].size(); i++) if (fabs(a.second[j][i] - b.second[j][i]) > .001) return false; } return true; };
    auto raw = [](aa_ct_state &s, std::pair<size_t, S> &x) { memset(&s, 0, sizeof s); s.n_q = x.first; double **f[7] = {&s.q, &s.dq, &s.ddq, &s.eff, &s.X, &s.dX, &s.ddX}; for (int j = 0; j < 7; j++) if (!x.second[j].empty()) *f[j] = x.second[j].data(); };
    for (int o = 0; o < ops; o++) {
        std::pair<size_t, S> x; int op = (int)rng.range(0, 3); bool front = op == 1; x.first = op == 3 ? 0 : rng.coin(.9) ? n0 : (size_t)rng.range(1, 4); unsigned mask = op == 2 ? 1 : op == 3 ? 16 : (unsigned)rng.range(1, 127);
        for (int j = 0; j < 7; j++) if (mask >> j & 1) { x.second[j].resize(j < 4 ? x.first : j == 4 ? 7 : 6); for (auto &v : x.second[j]) v = (double)rng.range(-300, 300) / 100; }
        if (!m.empty() && rng.coin(.35) && op <= 1) { x = front ? m.front() : m.back(); int j = (int)rng.range(0, 6); if (rng.coin() && !x.second[j].empty()) { size_t i = (size_t)rng.range(0, (long)x.second[j].size() - 1); x.second[j][i] += rng.coin() ? 3e-4 : .02; } else if (rng.coin(.3)) x.second[j].clear(); }
        { std::pair<size_t, S> y = x; std::vector<std::unique_ptr<Buf>> keep; aa_ct_state s; memset(&s, 0, sizeof s); s.n_q = x.first; double **f[7] = {&s.q, &s.dq, &s.ddq, &s.eff, &s.X, &s.dX, &s.ddX}; for (int j = 0; j < 7; j++) if (!y.second[j].empty()) { keep.emplace_back(new Buf(y.second[j].size())); memcpy(keep.back()->p, y.second[j].data(), 8 * y.second[j].size()); *f[j] = keep.back()->p; }
          if (op == 2) { LIB(aa_ct_pt_list_add_q(l, x.first, s.q)); } else if (op == 3) { LIB(aa_ct_pt_list_add_qutr(l, s.X)); } else if (front) { LIB(aa_ct_pt_list_add_front(l, &s)); } else { LIB(aa_ct_pt_list_add(l, &s)); } }
        bool dup = !m.empty() && same(x, front ? m.front() : m.back()); hist += dup ? (front ? 'F' : 'B') : front ? 'f' : 'b'; if (!dup) { if (front) m.push_front(x); else m.push_back(x); } note("waypoints %s", hist.c_str());
        size_t sz; LIB(sz = aa_ct_pt_list_size(l)); CHECK("list-size", sz == m.size(), "%zu waypoints, expected %zu", sz, m.size()); if (sz != m.size()) break;
        for (int e = 0; e < 2; e++) { const aa_ct_state *s = e ? aa_ct_pt_list_final_state(l) : aa_ct_pt_list_start_state(l); auto &w = e ? m.back() : m.front(); const double *f[7] = {s->q, s->dq, s->ddq, s->eff, s->X, s->dX, s->ddX}; bool ok = s->n_q == w.first; for (int j = 0; j < 7 && ok; j++) ok = w.second[j].empty() ? !f[j] : f[j] && !memcmp(f[j], w.second[j].data(), 8 * w.second[j].size()); CHECK("list-ends", ok, "the %s waypoint differs", e ? "last" : "first"); }
        if (rng.coin(.3)) { auto text = [](std::function<void(FILE *)> g) { char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); g(f); fclose(f); std::string t(b, z); free(b); return t; }; std::string got = text([&](FILE *f) { LIB(aa_ct_pt_list_dump(f, l)); }), want = text([&](FILE *f) { size_t k = 0; for (auto &w : m) { fprintf(f, "PT %zu: \n", k++); aa_ct_state s; raw(s, w); aa_ct_state_dump(f, &s); fputc('\n', f); } }); CHECK("list-dump", got == want, "printed %.200s", got.c_str()); }
    }
    distinct(fnv(hist)); aa_ct_pt_list_destroy(l); aa_mem_region_destroy(&reg);
}
// every kind of limit of a scene graph, or none, for every configuration
SECTION(limits, 3000, 60000) {
    fresh_region(rng); size_t n = (size_t)rng.range(0, 9); aa_rx_sg *sg = aa_rx_sg_create(); std::map<std::string, std::array<std::pair<double, double>, 4>> want; double q0[4] = {0, 0, 0, 1}, v0[3] = {0, 0, 0}, ax[3] = {0, 0, 1}; std::string set; bool late = rng.coin(.2);
    for (size_t i = 0; i < n; i++) { std::string f = "f" + std::to_string(rng.range(0, 999)) + "_" + std::to_string(i), c = "c" + std::to_string(rng.range(0, 999)) + "_" + std::to_string(i); if (rng.coin()) aa_rx_sg_add_frame_revolute(sg, "", f.c_str(), q0, v0, c.c_str(), ax, 0); else aa_rx_sg_add_frame_prismatic(sg, "", f.c_str(), q0, v0, c.c_str(), ax, 0); auto &w = want[c]; for (auto &x : w) x = {-INFINITY, INFINITY}; }
    if (late) aa_rx_sg_init(sg); typedef void (*setl)(aa_rx_sg *, const char *, double, double); static const setl SL[4] = {aa_rx_sg_set_limit_pos, aa_rx_sg_set_limit_vel, aa_rx_sg_set_limit_acc, aa_rx_sg_set_limit_eff};
    for (auto &w : want) for (int k = 0; k < 4; k++) { bool on = rng.coin(.6); set += on ? '1' : '0'; if (on) { double lo = rng.uni(-9, 2), hi = lo + rng.uni(.1, 9); SL[k](sg, w.first.c_str(), lo, hi); w.second[(size_t)k] = {lo, hi}; } }
    if (!late) aa_rx_sg_init(sg); note("%zu configurations, limits %s", n, set.c_str()); distinct(fnv(set)); aa_mem_region_t reg; aa_mem_region_init(&reg, (size_t)rng.range(1, 2000)); aa_ct_limit *lim[2]; LIB(lim[0] = aa_rx_ct_sg_limits(&reg, sg)); LIB(lim[1] = aa_rx_ct_limits(&reg, sg)); static const char *what[4] = {"position", "velocity", "acceleration", "effort"};
    for (auto *x : lim) { CHECK("limits-size", x->min->n_q == n && x->max->n_q == n, "%zu and %zu of %zu", (size_t)x->min->n_q, (size_t)x->max->n_q, n); for (size_t i = 0; i < n; i++) { auto &w = want[aa_rx_sg_config_name(sg, (aa_rx_config_id)i)]; const double *a[4] = {x->min->q, x->min->dq, x->min->ddq, x->min->eff}, *b[4] = {x->max->q, x->max->dq, x->max->ddq, x->max->eff}; for (size_t k = 0; k < 4; k++) CHECK("limits", a[k][i] == w[k].first && b[k][i] == w[k].second, "configuration %zu %s limits [%g,%g], want [%g,%g]", i, what[k], a[k][i], b[k][i], w[k].first, w[k].second); } }
    aa_mem_region_destroy(&reg); aa_rx_sg_destroy(sg);
}
SECTION(path, 1200, 20000) {
    fresh_region(rng); Arm A(rng, (size_t)rng.range(rng.coin(0.6) ? 6 : 1, 8), rng.coin(0.6)); size_t n = A.nq, na = A.na; if (!n) return; A.start(rng); Buf qs(na); for (size_t i = 0; i < na; i++) qs[i] = A.qstart[i]; std::vector<double> q0(n), q1(n); for (size_t i = 0; i < n; i++) { q0[i] = A.lim[i] ? A.lo[i] + (A.hi[i] - A.lo[i]) * rng.uni(0.2, 0.8) : rng.uni(-3, 3); q1[i] = q0[i] + rng.uni(-0.15, 0.15); if (rng.coin(0.1)) q0[i] = A.frac(rng, i); qs[(size_t)aa_rx_sg_sub_config(A.ssg, i)] = q0[i]; } double E[7], F[7]; pose7(A.fk(q0.data(), A.tip), E); pose7(A.fk(q1.data(), A.tip), F); if (rng.coin()) for (int i = 0; i < 4; i++) F[i] = -F[i]; distinct(fnv(q0.data(), n * 8, na));
    aa_mem_region_t reg; aa_mem_region_init(&reg, (size_t)rng.range(1, 4000)); aa_ct_limit *lim, *lim2; LIB(lim = aa_rx_ct_sg_limits(&reg, A.sg)); LIB(lim2 = aa_rx_ct_limits(&reg, A.sg)); for (size_t i = 0; i < na; i++) { MLim l; auto it = A.m.lim.find(aa_rx_sg_config_name(A.sg, (aa_rx_config_id)i)); if (it != A.m.lim.end()) l = it->second; double lo = l.has[0] ? l.lo[0] : -INFINITY, hi = l.has[0] ? l.hi[0] : INFINITY; for (aa_ct_limit *x : {lim, lim2}) { CHECK("limits", x->min->q[i] == lo && x->max->q[i] == hi, "joint %zu limits [%g,%g], want [%g,%g]", i, x->min->q[i], x->max->q[i], lo, hi); CHECK("no-limits", x->min->dq[i] == -INFINITY && x->max->dq[i] == INFINITY && x->min->ddq[i] == -INFINITY && x->max->eff[i] == INFINITY, "joint %zu", i); } }
    double dist = 0; for (int i = 0; i < 7; i++) dist = std::max(dist, std::min(fabs(E[i] - F[i]), fabs(E[i] + F[i]))); if (dist < 2e-3) { aa_mem_region_destroy(&reg); return; }
    aa_ct_pt_list *p = aa_ct_pt_list_create(&reg); aa_ct_pt_list_add_qutr(p, E); aa_ct_pt_list_add_qutr(p, F); aa_ct_seg_list *s = aa_ct_tjx_slerp_generate(&reg, p); aa_rx_ik_parm *o = aa_rx_ik_parm_create(); double dt = 1.0 / (double)rng.range(10, 60); aa_rx_ik_parm_set_dt(o, dt); size_t np = 0; double *P = nullptr; int r; note("%zu of %zu joints, step %g", n, na, dt); LIB(r = aa_rx_ct_tjx_path(&reg, o, A.ssg, s, na, qs, &np, &P)); CHECK("rc", r == 0, "returned %d", r); CHECK("points", np >= 2 && P, "%zu points", np); if (np < 2 || !P) return;
    CHECK("count", np >= (size_t)(1 / dt) && np <= (size_t)(1 / dt) + 3, "%zu points for step %g", np, dt); for (size_t i = 0; i < n; i++) CHECK("start", P[i] == q0[i] || (A.lim[i] && P[i] == std::min(A.hi[i], std::max(A.lo[i], q0[i]))), "joint %zu starts at %g, want %g", i, P[i], q0[i]); bool clamp = false; L smin = 9; for (size_t k = 0; k < np; k++) { for (size_t i = 0; i < n; i++) { CHECK("finite", std::isfinite(P[k * n + i]), "point %zu", k); if (A.lim[i]) { CHECK("position-limit", P[k * n + i] >= A.lo[i] && P[k * n + i] <= A.hi[i], "joint %zu at %g", i, P[k * n + i]); if (P[k * n + i] == A.lo[i] || P[k * n + i] == A.hi[i]) clamp = true; } } Kin K(A, P + k * n); smin = std::min(smin, K.smin); }
    // independent integration
    if (smin > 0.15L && !clamp) { TF T0{rot(q4(E)), v3(E + 4)}, T1{rot(q4(F)), v3(F + 4)}; Q4 rel = matq(T1.R * tr(T0.R)); if (rel[3] < 0) rel = -1.0L * rel; V3 om = 2.0L * qlogv(rel), dv = T1.p - T0.p; auto f = [&](L t, const Vl &q) { L u = std::min((L)1, std::max((L)0, t)); TF R{rotexp(u * om) * T0.R, T0.p + u * dv}; std::vector<double> qd; for (L x : q) qd.push_back((double)x); TF X = A.fk(qd.data(), A.tip); TF D = X * inv(R); V3 w = 0.5L * selog_w(D), tt = 0.5L * selog_v(D), vv = tt + cross(w, X.p); Vl dx(6, 0); bool mv = t > 0 && t < 1; for (size_t i = 0; i < 3; i++) { dx[AA_TF_DX_V + i] = (mv ? dv[(int)i] : 0) - vv[(int)i]; dx[AA_TF_DX_W + i] = (mv ? om[(int)i] : 0) - w[(int)i]; } return Kin(A, qd.data()).bwd(dx); };
        Vl q(q0.begin(), q0.end()); L t = 0, err = 0; size_t kk = std::min<size_t>(np - 1, (size_t)(1 / dt) - 1); for (size_t k = 0; k < kk; k++) { Vl k1 = f(t, q), y = q; for (size_t i = 0; i < n; i++) y[i] = q[i] + dt / 2 * k1[i]; Vl k2 = f(t + dt / 2, y); for (size_t i = 0; i < n; i++) y[i] = q[i] + dt / 2 * k2[i]; Vl k3 = f(t + dt / 2, y); for (size_t i = 0; i < n; i++) y[i] = q[i] + dt * k3[i]; Vl k4 = f(t + dt, y); for (size_t i = 0; i < n; i++) { q[i] += (L)dt / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]); err = std::max(err, fabsl(q[i] - P[(k + 1) * n + i])); } t += dt; } CHECK("integration", err < 1e-6L * A.scale(), "path departs from the integrated controller by %Lg", err); count("paths integrated independently");
        if (n >= 6) { double th, x; perr(A.fk(P + (np - 1) * n, A.tip), T1, &th, &x); double slack = 0.5 * dt * (double)norm(om) + 2e-3; CHECK("arrives", th < slack && x < 0.5 * dt * (double)norm(dv) + slack * A.scale(), "ends %g rad %g m from the goal", th, x); count("paths that must arrive"); } }
    { size_t z = 0; double *Z = nullptr; LIB(r = aa_rx_ct_tjx_path(&reg, o, A.ssg, s, 0, nullptr, &z, &Z)); CHECK("no-start", r == AA_RX_INVALID_PARAMETER, "a missing start returned %d", r); LIB(r = aa_rx_ct_tjx_path(&reg, o, A.ssg, s, na, nullptr, &z, &Z)); CHECK("no-start", r == AA_RX_INVALID_PARAMETER, "a missing start returned %d", r); }
    aa_rx_ik_parm_destroy(o); aa_ct_seg_list_destroy(s); aa_ct_pt_list_destroy(p); aa_mem_region_destroy(&reg);
}
VK_MAIN
