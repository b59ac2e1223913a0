// Random serial arm with side branches, limits and its long-double model.
#pragma once
#include "sgmodel.hpp"
namespace vk {
struct Arm { aa_rx_sg *sg; aa_rx_sg_sub *ssg; MSg m; std::string tip, root; std::vector<std::string> cfg; std::vector<double> lo, hi; std::vector<bool> lim; size_t nq, na; std::map<std::string, double> qs; std::vector<double> qstart; bool onroot; 
    Arm(Rng &r, size_t nj, bool unlimited) { sg = aa_rx_sg_create(); std::string p; size_t nb = r.coin(0.4) ? (size_t)r.range(1, 3) : 0; for (size_t i = 0; i < nb; i++) { std::string nm = "base" + std::to_string(i); sg_add(r, sg, m, nm, p, "", (int)r.range(0, 2)); p = nm; } root = nb && r.coin(0.7) ? p : "";
        for (size_t i = 0; i < nj; i++) { std::string nm = "j" + std::to_string(i); if (r.coin(0.3)) { std::string fx = "fix" + std::to_string(i); add(r, fx, p, MFIX); p = fx; } add(r, nm, p, r.coin(0.8) ? MREV : MPRI); p = nm; if (r.coin(0.3)) sg_add(r, sg, m, "side" + std::to_string(i), p, "", (int)r.range(0, 2)); } add(r, "ee", p, MFIX); tip = r.coin(0.8) ? "ee" : p;
        for (auto &c : m.configs()) { bool pr = false; for (auto &f : m.f) if (f.second.type == MPRI && f.second.cfg == c) pr = true; double l = r.uni(-3, -0.1), h = r.uni(0.1, 3); if (pr) { l = r.uni(-1, 0); h = r.uni(0.1, 1); } if (r.coin(0.1)) { l += 2; h += 2; } if (unlimited || r.coin(0.15)) continue; aa_rx_sg_set_limit_pos(sg, c.c_str(), l, h); MLim L; L.has[0] = true; L.lo[0] = l; L.hi[0] = h; m.lim[c] = L; }
        aa_rx_sg_init(sg); ssg = aa_rx_sg_chain_create(sg, root.empty() ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(sg, root.c_str()), aa_rx_sg_frame_id(sg, tip.c_str())); nq = aa_rx_sg_sub_config_count(ssg); na = aa_rx_sg_config_count(sg); onroot = root.empty();
        for (size_t i = 0; i < nq; i++) { std::string c = aa_rx_sg_config_name(sg, aa_rx_sg_sub_config(ssg, i)); cfg.push_back(c); bool l = m.lim.count(c); lim.push_back(l); lo.push_back(l ? m.lim[c].lo[0] : -3); hi.push_back(l ? m.lim[c].hi[0] : 3); } qstart.assign(na, 0); for (size_t i = 0; i < na; i++) qs[aa_rx_sg_config_name(sg, (aa_rx_config_id)i)] = 0; }
    void add(Rng &r, const std::string &n, const std::string &p, int t) { MFrame x; x.name = n; x.parent = p; x.type = t; Pose P = rpose(r); double s = r.uni(0.05, 0.6); V3 d = rdir(r); memcpy(x.E, P.q, 32); for (int i = 0; i < 3; i++) x.E[4 + i] = s * (double)d[i]; if (t != MFIX) { raxis(r, x.axis, true); x.off = r.coin(0.7) ? 0 : r.uni(-1, 1); x.cfg = n; } m.f[n] = x; if (t == MFIX) aa_rx_sg_add_frame_fixed(sg, p.c_str(), n.c_str(), x.E, x.E + 4); else if (t == MREV) aa_rx_sg_add_frame_revolute(sg, p.c_str(), n.c_str(), x.E, x.E + 4, nullptr, x.axis, x.off); else aa_rx_sg_add_frame_prismatic(sg, p.c_str(), n.c_str(), x.E, x.E + 4, nullptr, x.axis, x.off); }
    ~Arm() { aa_rx_sg_sub_destroy(ssg); aa_rx_sg_destroy(sg); }
    void start(Rng &r) { for (size_t i = 0; i < na; i++) { qstart[i] = rconf(r); qs[aa_rx_sg_config_name(sg, (aa_rx_config_id)i)] = qstart[i]; } }
    TF fk(const double *q, const std::string &f) const { auto s = qs; for (size_t i = 0; i < nq; i++) s[cfg[i]] = q[i]; return m.abs(f, s); }
    double frac(Rng &r, size_t i) const { return r.coin(0.1) ? (r.coin() ? lo[i] : hi[i]) : r.uni(lo[i], hi[i]); }
    double scale() const { double s = 1; for (auto &f : m.f) s += fabs(f.second.E[4]) + fabs(f.second.E[5]) + fabs(f.second.E[6]) + fabs(f.second.off); for (auto &q : qs) s += fabs(q.second); return s; } };
inline void pose7(const TF &T, double *E) { Q4 q = matq(T.R); for (int i = 0; i < 4; i++) E[i] = (double)q[i]; for (int i = 0; i < 3; i++) E[4 + i] = (double)T.p[i]; }
// half angle and distance between two poses
inline void perr(const TF &A, const TF &B, double *th, double *x) { TF D = inv(A) * B; Q4 q = matq(D.R); L v = sqrtl(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]); *th = (double)atan2l(v, fabsl(q[3])); V3 d = A.p - B.p; *x = (double)norm(d); }
// symmetric 6x6 eigenvalues by Jacobi rotations
inline void jacobi6(L a[6][6], L V[6][6]) { for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) V[i][j] = i == j; for (int s = 0; s < 60; s++) { L off = 0; for (int p = 0; p < 6; p++) for (int q = p + 1; q < 6; q++) { off += fabsl(a[p][q]); if (fabsl(a[p][q]) < 1e-300L) continue; L th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), sn = t * c; for (int k = 0; k < 6; k++) { L x = a[k][p], y = a[k][q]; a[k][p] = c * x - sn * y; a[k][q] = sn * x + c * y; } for (int k = 0; k < 6; k++) { L x = a[p][k], y = a[q][k]; a[p][k] = c * x - sn * y; a[q][k] = sn * x + c * y; } for (int k = 0; k < 6; k++) { L x = V[k][p], y = V[k][q]; V[k][p] = c * x - sn * y; V[k][q] = sn * x + c * y; } } if (off == 0) break; } }
struct Kin { size_t n; std::vector<L> J, S; L smin, smax; // J is 6 x n by columns, S (n x 6 by columns) the damped inverse
    Kin(const Arm &A, const double *q) : n(A.nq), J(6 * A.nq), S(6 * A.nq) {
        TF T = A.fk(q, A.tip); auto s = A.qs; for (size_t i = 0; i < n; i++) s[A.cfg[i]] = q[i];
        for (size_t j = 0; j < n; j++) for (auto &p : A.m.f) { const MFrame &x = p.second; if (x.type == MFIX || x.cfg != A.cfg[j]) continue; TF P = (x.parent.empty() ? TF{eye3(), {{0, 0, 0}}} : A.m.abs(x.parent, s)) * TF{rot(q4(x.E)), v3(x.E + 4)}; V3 a = P.R * v3(x.axis); V3 v = x.type == MREV ? cross(a, T.p - P.p) : a; V3 w = x.type == MREV ? a : V3{{0, 0, 0}}; for (int i = 0; i < 3; i++) { J[6 * j + AA_TF_DX_V + (size_t)i] = v[i]; J[6 * j + AA_TF_DX_W + (size_t)i] = w[i]; } }
        L a[6][6], V[6][6]; for (int i = 0; i < 6; i++) for (int k = 0; k < 6; k++) { a[i][k] = 0; for (size_t j = 0; j < n; j++) a[i][k] += J[6 * j + (size_t)i] * J[6 * j + (size_t)k]; } jacobi6(a, V); std::vector<L> ev; for (int i = 0; i < 6; i++) ev.push_back(a[i][i]); std::sort(ev.begin(), ev.end()); smax = sqrtl(ev[5]); smin = sqrtl(std::max((L)0, ev[6 - std::min<size_t>(6, n)]));
        const L s2 = 1e-3L; for (size_t j = 0; j < n; j++) for (int k = 0; k < 6; k++) { L t = 0; for (int e = 0; e < 6; e++) { L g = a[e][e] >= s2 ? 1 / a[e][e] : 1 / s2, p = 0; for (int i = 0; i < 6; i++) p += J[6 * j + (size_t)i] * V[i][e]; t += p * g * V[k][e]; } S[(size_t)k * n + j] = t; } }
    std::vector<L> fwd(const std::vector<L> &d) const { std::vector<L> r(6, 0); for (size_t j = 0; j < n; j++) for (size_t i = 0; i < 6; i++) r[i] += J[6 * j + i] * d[j]; return r; }
    std::vector<L> bwd(const std::vector<L> &x) const { std::vector<L> r(n, 0); for (size_t k = 0; k < 6; k++) for (size_t j = 0; j < n; j++) r[j] += S[k * n + j] * x[k]; return r; }
    std::vector<L> null(const std::vector<L> &d) const { auto r = bwd(fwd(d)); for (size_t j = 0; j < n; j++) r[j] = d[j] - r[j]; return r; } };
struct Fk { aa_rx_fk *f; Fk(const Arm &A, const double *q) { Buf all(A.na); for (size_t i = 0; i < A.na; i++) all[i] = A.qstart[i]; for (size_t i = 0; i < A.nq; i++) all[(size_t)aa_rx_sg_sub_config(A.ssg, i)] = q[i]; f = aa_rx_fk_malloc(A.sg); aa_dvec v = AA_DVEC_INIT(A.na, all.p, 1); aa_rx_fk_all(f, &v); } ~Fk() { aa_rx_fk_destroy(f); } };
}
