// Reference model of a scene graph: plain maps by name, long-double kinematics.
#pragma once
#include "vk.hpp"
#include "reg.hpp"
#include "tfref.hpp"
#include <amino/rx.h>
#include <amino/rx/rxtype.h>
#include <amino/rx/scenegraph.h>
#include <amino/rx/scene_geom.h>
#include <amino/rx/scene_dyn.h>
#include <amino/rx/scene_fk.h>
#include <amino/rx/scene_sub.h>
#include <amino/rx/rxerr.h>
namespace vk {
enum { MFIX, MREV, MPRI };
struct MFrame { std::string name, parent; int type = MFIX; double E[7]; std::string cfg; double axis[3] = {0, 0, 1}, off = 0; std::vector<aa_rx_geom *> geom; bool inertial = false; double mass = 0, inertia[9];
    TF rel(double q) const { TF T{rot(q4(E)), v3(E + 4)}; L x = (L)q + off; V3 a = v3(axis); if (type == MREV) T = T * TF{rotexp(x * a), {{0, 0, 0}}}; else if (type == MPRI) T = T * TF{eye3(), x * a}; return T; } };
struct MLim { bool has[4] = {0, 0, 0, 0}; double lo[4], hi[4]; };
struct MSg {
    std::map<std::string, MFrame> f; std::map<std::string, MLim> lim; std::set<std::pair<std::string, std::string>> allowed, maybe;  // maybe: named a frame that was removed meanwhile
    bool dirty = false;
    bool is_joint(const std::string &n) const { return f.at(n).type != MFIX; }
    std::set<std::string> configs() const { std::set<std::string> s; for (auto &p : f) if (p.second.type != MFIX) s.insert(p.second.cfg); return s; }
    // every chain of parents ends at the root
    bool valid() const { for (auto &p : f) { std::string n = p.first; size_t k = 0; while (!n.empty()) { auto i = f.find(n); if (i == f.end() || ++k > f.size()) return false; n = i->second.parent; } } return true; }
    bool is_ancestor(const std::string &a, std::string n) const { size_t k = 0; while (!n.empty() && k++ <= f.size()) { if (n == a) return true; auto i = f.find(n); if (i == f.end()) return false; n = i->second.parent; } return false; }
    TF abs(const std::string &n, const std::map<std::string, double> &q) const { if (n.empty()) return TF{eye3(), {{0, 0, 0}}}; const MFrame &m = f.at(n); double x = 0; if (m.type != MFIX) x = q.at(m.cfg); return abs(m.parent, q) * m.rel(x); }
    int depth(const std::string &n) const { return n.empty() ? 0 : 1 + depth(f.at(n).parent); }
};
inline const std::string &rname(Rng &r, bool shared = true) {
    static const std::vector<std::string> base = {"a", "b", "c", "d", "e", "f", "link", "link ", "link/1", "LINK", "q0", "q1", "q2", "joint_with_a_rather_long_name_that_does_not_fit_the_small_string_buffer", "joint_with_a_rather_long_name_that_does_not_fit_the_small_string_buffes", "\xc3\xa9", "?", "NONE", "0", "-1"};
    (void)shared; return base[(size_t)r.range(0, (long)base.size() - 1)];
}
inline void raxis(Rng &r, double *a, bool unit) { V3 d = rdir(r); double s = unit ? 1 : r.coin(0.7) ? 1 : r.uni(-2, 2); for (int i = 0; i < 3; i++) a[i] = s * (double)d[i]; }
inline void qdefault(double *E, int what) { if (what & 1) { E[0] = E[1] = E[2] = 0; E[3] = 1; } if (what & 2) E[4] = E[5] = E[6] = 0; }
// add (or replace) a random frame in both the library and the model
inline void sg_add(Rng &r, aa_rx_sg *sg, MSg &m, const std::string &name, const std::string &parent, const std::string &cfg, int type) {
    MFrame x; x.name = name; x.parent = parent; x.type = type;
    Pose P = rpose(r); memcpy(x.E, P.q, 32); memcpy(x.E + 4, P.p, 24); int dflt = (int)r.range(0, 9); int nq = dflt == 0 || dflt == 2, nv = dflt == 1 || dflt == 2; qdefault(x.E, nq | nv << 1);
    const double *q = nq ? nullptr : x.E, *v = nv ? nullptr : x.E + 4;
    if (type != MFIX) { raxis(r, x.axis, type == MREV); x.off = r.coin(0.4) ? 0 : r.uni(-3, 3); x.cfg = cfg.empty() ? name : cfg; }
    const char *cn = cfg.empty() ? nullptr : cfg.c_str();
    switch (type) {
    case MFIX: aa_rx_sg_add_frame_fixed(sg, parent.c_str(), name.c_str(), q, v); break;
    case MREV: aa_rx_sg_add_frame_revolute(sg, parent.c_str(), name.c_str(), q, v, cn, x.axis, x.off); break;
    default: aa_rx_sg_add_frame_prismatic(sg, parent.c_str(), name.c_str(), q, v, cn, x.axis, x.off); break;
    }
    m.f[name] = x; m.dirty = true;
}
// random valid graph of n frames, added in random order (children may come first); distinct configurations unless mimic
inline void sg_build(Rng &r, aa_rx_sg *sg, MSg &m, size_t n, double chainy, bool mimic) {
    std::vector<std::string> names; for (size_t i = 0; i < n; i++) names.push_back("f" + std::to_string(r.range(0, 9)) + "_" + std::to_string(i));
    struct A { std::string n, p, c; int t; }; std::vector<A> v; std::vector<std::string> cfgs;
    for (size_t i = 0; i < n; i++) { A a; a.n = names[i]; a.p = i == 0 || r.coin(0.08) ? "" : r.coin(chainy) ? names[i - 1] : names[(size_t)r.range(0, (long)i - 1)]; a.t = (int)r.range(0, 2); if (r.coin(0.3)) a.t = MREV; if (r.coin(0.4)) a.c = "q" + std::to_string(i); if (mimic && !cfgs.empty() && r.coin(0.3)) a.c = r.pick(cfgs); if (a.t != MFIX) cfgs.push_back(a.c.empty() ? a.n : a.c); v.push_back(a); }
    for (size_t i = n; i > 1; i--) if (!r.coin(0.3)) std::swap(v[i - 1], v[(size_t)r.range(0, (long)i - 1)]);
    for (auto &a : v) sg_add(r, sg, m, a.n, a.p, a.c, a.t);
}
inline int sg_init(aa_rx_sg *sg, MSg &m) { int e = aa_rx_sg_init(sg); if (e == 0) m.dirty = false; return e; }
inline double rconf(Rng &r) { switch (r.range(0, 5)) { case 0: return 0; case 1: return M_PI / 2 * (double)r.range(-4, 4); case 2: return r.sgn() * r.logu(-12, -2); case 3: return r.uni(-20, 20); default: return r.uni(-M_PI, M_PI); } }
}
