// C23: motion planning.  Every planned path is judged against a long-double
// model of the scene (spheres on frames), the limits, the start, the goal and
// the collisions allowed so far; contexts are reused over histories of requests.
#include "vk.hpp"
#include "reg.hpp"
#include "tfref.hpp"
#include "sgmodel.hpp"
#include "arm.hpp"
#include <amino/rx/scene_collision.h>
#include <amino/rx/scene_planning.h>
#include <amino/rx/mp_seq.h>
#include <amino/rx/rxerr.h>
#include <amino/rx/ompl/scene_state_space.h>
#include <amino/rx/ompl/scene_state_validity_checker.h>
#include <amino/rx/ompl/scene_workspace_goal.h>
#include <amino/rx/ompl/scene_ompl_internal.h>
#include <thread>
#include <ompl/util/Console.h>
#include <ompl/util/RandomNumbers.h>
using namespace vk;
namespace {
struct Quiet { Quiet() { ompl::msg::noOutputHandler(); ompl::RNG::setSeed(12345); } } quiet;
typedef std::map<std::string, double> Conf;
typedef std::set<std::pair<int, int>> Pairs;
struct W {
    aa_rx_sg *sg; aa_rx_sg_sub *ssg; MSg m; std::map<std::string, double> rad; std::vector<std::string> names, cfg, all; std::map<std::string, std::pair<double, double>> lim; size_t n, nq, na; std::vector<std::string> fr; std::vector<double> r_; bool free_ = true; Pairs sgallow; std::string tip;
    void frame(Rng &r, const std::string &nm, const std::string &p, int t, double len) { MFrame x; x.name = nm; x.parent = p; x.type = t; Pose P = rpose(r); V3 d = rdir(r); memcpy(x.E, P.q, 32); for (int i = 0; i < 3; i++) x.E[4 + i] = len * (double)d[i]; if (t != MFIX) { raxis(r, x.axis, true); x.off = r.coin(.7) ? 0 : r.uni(-.5, .5); x.cfg = r.coin(.3) ? "q_" + nm : nm; } m.f[nm] = x; const char *c = x.cfg == nm || t == MFIX ? nullptr : x.cfg.c_str();
        if (t == MFIX) aa_rx_sg_add_frame_fixed(sg, p.c_str(), nm.c_str(), x.E, x.E + 4); else if (t == MREV) aa_rx_sg_add_frame_revolute(sg, p.c_str(), nm.c_str(), x.E, x.E + 4, c, x.axis, x.off); else aa_rx_sg_add_frame_prismatic(sg, p.c_str(), nm.c_str(), x.E, x.E + 4, c, x.axis, x.off);
        if (t != MFIX) { double mid = r.uni(-1, 1), w = t == MPRI ? r.uni(.1, .8) : r.uni(.2, 1.6); if (t == MPRI) mid *= .2; if (r.coin(.08)) { lim[x.cfg] = {-M_PI, M_PI}; } else { lim[x.cfg] = {mid - w, mid + w}; aa_rx_sg_set_limit_pos(sg, x.cfg.c_str(), mid - w, mid + w); } } }
    void ball(const std::string &nm, double rd) { rad[nm] = rd; aa_rx_geom_opt *o = aa_rx_geom_opt_create(); aa_rx_geom_opt_set_collision(o, 1); aa_rx_geom_attach(sg, nm.c_str(), aa_rx_geom_sphere(o, rd)); aa_rx_geom_opt_destroy(o); }
    W(Rng &r, size_t nj, bool balls) { sg = aa_rx_sg_create(); std::string p, root; free_ = !balls; if (r.coin(.3)) { frame(r, "base", p, MFIX, .2); p = "base"; } bool early = r.coin(.3); if (early) { frame(r, "x0", p, r.coin() ? MREV : MPRI, .2); p = "x0"; } root = p;
        for (size_t i = 0; i < nj; i++) { std::string nm = std::string(1, (char)('z' - (int)i)) + "j"; frame(r, nm, p, r.coin(.75) ? MREV : MPRI, r.uni(.1, .4)); p = nm; if (balls && r.coin(.4)) ball(nm, r.uni(.04, .12)); if (r.coin(.3)) { std::string s = "s" + std::to_string(i); frame(r, s, p, r.coin(.3) ? MREV : MFIX, r.uni(.05, .2)); if (balls && r.coin(.7)) ball(s, r.uni(.04, .15)); } }
        frame(r, "ee", p, MFIX, r.uni(.1, .3)); if (balls) ball("ee", r.uni(.05, .15)); tip = "ee";
        if (balls) { long no = r.range(0, 4); for (long i = 0; i < no; i++) { std::string o = "o" + std::to_string(i); frame(r, o, "", r.coin(.3) ? MPRI : MFIX, r.uni(.2, .9)); ball(o, r.uni(.05, .3)); } }
        if (aa_rx_sg_init(sg)) abort();
        n = aa_rx_sg_frame_count(sg); na = aa_rx_sg_config_count(sg); fr.resize(n); r_.assign(n, 0); for (auto &f : m.f) { size_t id = (size_t)aa_rx_sg_frame_id(sg, f.first.c_str()); fr[id] = f.first; if (rad.count(f.first)) r_[id] = rad[f.first]; }
        for (size_t i = 0; i < na; i++) all.push_back(aa_rx_sg_config_name(sg, (aa_rx_config_id)i));
        if (r.coin(.3) && n > 1) { int i = (int)r.range(0, (long)n - 1), j = (int)r.range(0, (long)n - 1); if (i != j) { aa_rx_sg_allow_collision(sg, i, j, 1); sgallow.insert({std::max(i, j), std::min(i, j)}); } }
        aa_rx_sg_cl_init(sg); ssg = aa_rx_sg_chain_create(sg, root.empty() ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(sg, root.c_str()), aa_rx_sg_frame_id(sg, "ee")); nq = aa_rx_sg_sub_config_count(ssg); for (size_t i = 0; i < nq; i++) cfg.push_back(aa_rx_sg_config_name(sg, aa_rx_sg_sub_config(ssg, i))); }
    ~W() { aa_rx_sg_sub_destroy(ssg); aa_rx_sg_destroy(sg); }
    Conf conf(const double *q) const { Conf c; for (size_t i = 0; i < na; i++) c[all[i]] = q[i]; return c; }
    void random(Rng &r, double *q, double out = 0) const { for (size_t i = 0; i < na; i++) { auto l = lim.at(all[i]); double u = r.coin(.05) ? (r.coin() ? 0 : 1) : r.u01(); q[i] = l.first + u * (l.second - l.first); if (r.coin(out)) q[i] = l.second + r.uni(.01, .5); } }
    bool within(const std::string &c, double v, double tol) const { auto l = lim.at(c); return v >= l.first - tol && v <= l.second + tol; }
    // penetration depth of each pair of spheres, deepest pairs first irrelevant
    std::vector<V3> centres(const Conf &c) const { std::vector<V3> v(n); for (size_t i = 0; i < n; i++) if (r_[i] > 0) v[i] = m.abs(fr[i], c).p; return v; }
    // deepest unallowed pair; amb set if a pair lies within the margin
    L deepest(const Conf &c, const Pairs &ok, int *pi = nullptr, int *pj = nullptr) const { auto v = centres(c); L d = -INFINITY; for (int i = 0; i < (int)n; i++) for (int j = 0; j < i; j++) if (r_[(size_t)i] > 0 && r_[(size_t)j] > 0 && !ok.count({i, j})) { L e = (L)r_[(size_t)i] + r_[(size_t)j] - norm(v[(size_t)i] - v[(size_t)j]); if (e > d) { d = e; if (pi) { *pi = i; *pj = j; } } } return d; }
    // pairs in collision; returns false when one is too close to call
    bool colliding(const Conf &c, Pairs &out) const { auto v = centres(c); bool sure = true; for (int i = 0; i < (int)n; i++) for (int j = 0; j < i; j++) if (r_[(size_t)i] > 0 && r_[(size_t)j] > 0) { L e = (L)r_[(size_t)i] + r_[(size_t)j] - norm(v[(size_t)i] - v[(size_t)j]); if (fabsl(e) < 1e-6L) sure = false; if (e > 0) out.insert({i, j}); } return sure; }
    // Lipschitz bound of the distance between two spheres over the chain's joints
    double lip() const { double reach = 0; for (auto &f : m.f) { double l = sqrt(f.second.E[4] * f.second.E[4] + f.second.E[5] * f.second.E[5] + f.second.E[6] * f.second.E[6]); if (f.second.type == MPRI) l += fabs(f.second.off) + std::max(fabs(lim.at(f.second.cfg).first), fabs(lim.at(f.second.cfg).second)); if (f.first[0] != 'o') reach += l; } double s = 0; for (auto &f : m.f) if (f.second.type != MFIX && std::count(cfg.begin(), cfg.end(), f.second.cfg)) { double l = f.second.type == MREV ? reach : 1; s += l * l; } return sqrt(s); }
    // how far a pair may overlap between two states the planner checked: first-order bound at the point plus curvature
    L slack(const Conf &c, int i, int j, double K, double sg) const { auto dist = [&](const Conf &x) { return norm(m.abs(fr[(size_t)i], x).p - m.abs(fr[(size_t)j], x).p); }; L g = 0; for (auto &q : cfg) { Conf a = c, b = c; a[q] += 1e-5; b[q] -= 1e-5; L d = (dist(a) - dist(b)) / 2e-5L; g += d * d; } L d0 = dist(c); return .6L * sg * sqrtl(g) + .15L * sg * sg * K * K * (2 + 1 / std::max(d0, 1e-3L)) + 1e-6L; }
    double seg() const { double s = 0; for (auto &c : cfg) { auto l = lim.at(c); s += (l.second - l.first) * (l.second - l.first); } return .01 * sqrt(s); }
};
Pairs pairsof(const aa_rx_cl_set *s, size_t n) { Pairs r; for (int i = 0; i < (int)n; i++) for (int j = 0; j < i; j++) if (aa_rx_cl_set_get(s, i, j)) r.insert({i, j}); return r; }
struct Plan {
    W &w; aa_rx_mp *mp; Pairs allow; std::vector<double> q0; bool started = false; int goal = 0; std::vector<double> qg; TF Eg; bool amb = false, reach = false, simplify = false, track = false; std::string hist; int planner = 0;
    Plan(W &w_) : w(w_) { LIB(mp = aa_rx_mp_create(w.ssg)); allow = w.sgallow; q0.assign(w.na, 0); check("created"); }
    ~Plan() { LIB(aa_rx_mp_destroy(mp)); }
    std::string diff(const Pairs &got) { std::string s; auto v = w.centres(w.conf(q0.data())); for (auto &x : allow) if (!got.count(x)) { char b[200]; snprintf(b, sizeof b, "missing %d %d: radii %.17g %.17g distance %.17Lg; ", x.first, x.second, w.r_[(size_t)x.first], w.r_[(size_t)x.second], norm(v[(size_t)x.first] - v[(size_t)x.second])); s += b; } for (auto &x : got) if (!allow.count(x)) s += "extra " + std::to_string(x.first) + " " + std::to_string(x.second) + "; "; return s; }
    void check(const char *op) { if (amb) return; Pairs got = pairsof(aa_rx_mp_get_allowed(mp), w.n); CHECK("allowed_pairs", got == allow, "after %s: %zu pairs allowed, expected %zu (%s)", op, got.size(), allow.size(), diff(got).c_str()); }
    void allowConf(Buf &q) { Pairs c; if (!w.colliding(w.conf(q), c)) amb = true; for (auto &x : c) { if (w.sgallow.count(x) && !allow.count(x)) amb = true; /* allowed by the graph, withdrawn here: left open */ allow.insert(x); } }
    void say(const char *s) { hist += s; note("%zu joints of %zu, %zu frames: %s", w.nq, w.na, w.n, hist.c_str()); }
    void setPlanner(Rng &r) { planner = (int)r.range(0, w.nq > 2 ? 4 : 2); /* the identity projection of OMPL 1.5 (SBL, LBKPIECE1 in up to two dimensions) aborts */ say(("planner" + std::to_string(planner) + " ").c_str());
        switch (planner) {
        case 0: aa_rx_mp_set_rrt(mp, nullptr); break;
        case 1: { aa_rx_mp_rrt_attr *a = aa_rx_mp_rrt_attr_create(); if (r.coin()) aa_rx_mp_rrt_attr_set_bidirectional(a, (int)r.pick(std::vector<long>{1, 2, -1})); aa_rx_mp_set_rrt(mp, a); aa_rx_mp_rrt_attr_destroy(a); break; }
        case 2: { aa_rx_mp_rrt_attr *a = aa_rx_mp_rrt_attr_create(); aa_rx_mp_rrt_attr_set_bidirectional(a, 0); aa_rx_mp_set_rrt(mp, a); aa_rx_mp_rrt_attr_destroy(a); break; }
        case 3: { aa_rx_mp_sbl_attr *a = r.coin() ? aa_rx_mp_sbl_attr_create() : nullptr; aa_rx_mp_set_sbl(mp, a); if (a) aa_rx_mp_sbl_attr_destroy(a); break; }
        default: { aa_rx_mp_kpiece_attr *a = r.coin() ? aa_rx_mp_kpiece_attr_create() : nullptr; aa_rx_mp_set_kpiece(mp, a); if (a) aa_rx_mp_kpiece_attr_destroy(a); break; } } }
    void setStart(Rng &r) { reach = false; Buf q(w.na); w.random(r, q, .02); if (r.coin(.15) && goal == 1) for (size_t i = 0; i < w.nq; i++) for (size_t k = 0; k < w.na; k++) if (w.all[k] == w.cfg[i]) q[k] = qg[i]; std::vector<double> c(q.p, q.p + w.na); LIB(aa_rx_mp_set_start(mp, w.na, q)); CHECK("start_unchanged", !memcmp(c.data(), q.p, 8 * w.na), "set_start changed its argument"); q0 = c; started = true; allowConf(q); say("start "); check("set_start"); }
    void allowC(Rng &r) { Buf q(w.na); w.random(r, q); LIB(aa_rx_mp_allow_config(mp, w.na, q)); allowConf(q); say("allow_config "); check("allow_config"); }
    void allowP(Rng &r) { int i = (int)r.range(0, (long)w.n - 1), j = (int)r.range(0, (long)w.n - 1); if (i == j) return; int on = r.coin(.6); LIB(aa_rx_mp_allow_collision(mp, i, j, on)); auto p = std::make_pair(std::max(i, j), std::min(i, j)); if (on) allow.insert(p); else allow.erase(p); say(on ? "allow " : "forbid "); check("allow_collision"); }
    Conf full(const double *q) const { Conf c = w.conf(q0.data()); for (size_t i = 0; i < w.nq; i++) c[w.cfg[i]] = q[i]; return c; }
    void setGoal(Rng &r) { Buf all(w.na), q(w.nq); w.random(r, all, .02); for (size_t i = 0; i < w.nq; i++) q[i] = all[(size_t)aa_rx_sg_sub_config(w.ssg, i)]; if (started && r.coin(.05)) for (size_t i = 0; i < w.nq; i++) q[i] = q0[(size_t)aa_rx_sg_sub_config(w.ssg, i)];
        int e; LIB(e = aa_rx_mp_set_goal(mp, w.nq, q)); L d = w.deepest(full(q), allow); say(e ? "badgoal " : "goal ");
        bool in = true, edge = false; for (size_t i = 0; i < w.nq; i++) { in = in && w.within(w.cfg[i], q[i], 0); edge = edge || (w.within(w.cfg[i], q[i], 1e-9) != w.within(w.cfg[i], q[i], -1e-9)); }
        if (!amb && fabsl(d) > 1e-6L && (in || !edge)) { CHECK("goal_validity", (e == AA_RX_OK) == (d < 0 && in), "set_goal returned %d; deepest unallowed penetration %.3Lg%s", e, d, in ? "" : ", outside the limits"); if (d > 0 || !in) { count("colliding_goals"); CHECK("goal_error", e == AA_RX_INVALID_STATE, "colliding goal reported as %d", e); } else count("free_goals"); }
        if (e == AA_RX_OK) { goal = 1; qg.assign(q.p, q.p + w.nq); } }
    void setWs(Rng &r) { Buf all(w.na); w.random(r, all); Conf c = w.conf(q0.data()); for (auto &x : w.cfg) for (size_t k = 0; k < w.na; k++) if (w.all[k] == x) c[x] = all[k]; Eg = w.m.abs(w.tip, c); reach = true; for (auto &x : w.cfg) reach = reach && w.within(x, c[x], 1e-12); if (r.coin(.1)) { Eg.p[0] += 10; reach = false; } size_t ld = r.coin() ? 7 : 9; Buf E(ld); Q4 q = matq(Eg.R); double s = r.sgn(); for (size_t i = 0; i < 4; i++) E[i] = s * (double)q[i]; for (size_t i = 0; i < 3; i++) E[4 + i] = (double)Eg.p[i]; aa_rx_frame_id id = aa_rx_sg_frame_id(w.sg, w.tip.c_str()); int e; bool nul = r.coin(); LIB(e = aa_rx_mp_set_wsgoal(mp, 1, nul ? nullptr : &id, E, ld)); CHECK("wsgoal_ok", e == 0, "set_wsgoal returned %d", e); goal = 2; say("wsgoal "); }
    void plan(Rng &r) {
        size_t np = 77; double *P = (double *)&np; bool sin = true, gin = true; for (auto &c : w.cfg) sin = sin && w.within(c, w.conf(q0.data()).at(c), 1e-12); if (goal == 1) for (size_t i = 0; i < w.nq; i++) gin = gin && w.within(w.cfg[i], qg[i], 1e-12);
        bool sure = w.free_ && started && goal == 1 && sin && gin && planner <= 1, pose = w.free_ && started && goal == 2 && reach && sin && planner <= 1; double to = sure || pose ? 8 : r.uni(.02, goal == 2 ? .4 : .15); int e; say("plan "); LIB(e = aa_rx_mp_plan(mp, to, &np, &P));
        if (pose) count("surely_reachable_poses"); count(e == 0 ? (goal == 2 ? "paths_to_poses" : "paths_to_configurations") : "no_path");
        if (track) { const aa_rx_cl_set *s = aa_rx_mp_get_collisions(mp); CHECK("tracking", s != nullptr, "no collisions recorded while tracking"); if (s && !amb) { Pairs p = pairsof(s, w.n); for (auto &x : p) { CHECK("tracked_allowed", !allow.count(x), "allowed pair %d %d recorded as a collision", x.first, x.second); CHECK("tracked_shapes", w.r_[(size_t)x.first] > 0 && w.r_[(size_t)x.second] > 0, "frames without shapes recorded as colliding"); } if (w.free_) CHECK("tracked_none", p.empty(), "collisions recorded in a scene without shapes"); } } else CHECK("not_tracking", aa_rx_mp_get_collisions(mp) == nullptr, "collisions returned without tracking");
        if (e) { CHECK("failure_output", np == 0 && P == nullptr, "planning failed (%d) with %zu points", e, np); if (sure) fail("complete", "no path (%d) in a scene without obstacles", e); if (pose) fail("complete_pose", "no path (%d) to a reachable pose in a scene without obstacles", e); return; }
        CHECK("has_goal", goal != 0 && started, "a path was found without %s", started ? "goal" : "start"); if (!goal || !started) { free(P); return; }
        CHECK("nonempty", np >= 1 && P, "success with %zu points", np); if (!np || !P) return;
        CHECK("start_in_limits", sin, "path from a start outside the limits"); CHECK("goal_in_limits", gin, "path to a goal outside the limits");
        double K = w.lip(), sg = w.seg(); distinct(fnv(P, 8 * np * w.na)); 
        if (!amb) { L d0 = w.deepest(w.conf(q0.data()), allow); if (d0 > 1e-6L) fail("start_valid", "path from a start in collision by %.3Lg", d0); }
        double s = 0; for (size_t k = 0; k < np; k++) { const double *q = P + k * w.na; Conf c = w.conf(q); bool isgoal = k + 1 == np, ends = k == 0 || isgoal; 
            for (size_t i = 0; i < w.na; i++) { bool in = std::count(w.cfg.begin(), w.cfg.end(), w.all[i]) > 0; event(); if (!std::isfinite(q[i])) fail("finite", "point %zu of %zu has coordinate %g", k, np, q[i]); if (!in && q[i] != q0[i]) fail("other_joints", "configuration %s outside the plan moved from %.17g to %.17g", w.all[i].c_str(), q0[i], q[i]); if (in && !w.within(w.all[i], q[i], 1e-9)) fail("limits", "point %zu of %zu: %s = %.17g outside [%g,%g]", k, np, w.all[i].c_str(), q[i], w.lim[w.all[i]].first, w.lim[w.all[i]].second); if (k == 0 && in && !(fabs(q[i] - q0[i]) <= 1e-9)) fail("starts_at_start", "first point has %s = %.17g, start %.17g", w.all[i].c_str(), q[i], q0[i]); }
            if (isgoal && goal == 1) for (size_t i = 0; i < w.nq; i++) { double v = c[w.cfg[i]]; event(); if (!(fabs(v - qg[i]) <= 1e-6)) fail("ends_at_goal", "last of %zu points has %s = %.17g, goal %.17g", np, w.cfg[i].c_str(), v, qg[i]); }
            if (isgoal && goal == 2) { TF T = w.m.abs(w.tip, c), D = inv(T) * Eg; Q4 dq = matq(D.R); double th = (double)(2 * atan2l(sqrtl(dq[0] * dq[0] + dq[1] * dq[1] + dq[2] * dq[2]), fabsl(dq[3]))), x = (double)norm(T.p - Eg.p); CHECK("reaches_pose", th < 6e-3 && x < 4e-4, "last of %zu points is %g rad and %g m from the goal pose", np, th, x); }
            if (!amb) { int i = 0, j = 0; L tol = simplify && !ends ? (L)(K * sg * .55) + 1e-6L : 1e-6L; L d = w.deepest(c, allow, &i, &j); event(); if (d > 1e-6L && simplify && !ends) tol = std::min(tol, w.slack(c, i, j, K, sg)); if (d > tol) fail(simplify ? "waypoint_collides_simplified" : "waypoint_collides", "point %zu of %zu: frames %s and %s overlap by %.3Lg (tolerance %.3Lg)", k, np, w.fr[(size_t)i].c_str(), w.fr[(size_t)j].c_str(), d, tol);
                if (k) { const double *p = q - w.na; double len = 0; for (size_t a = 0; a < w.na; a++) len += (q[a] - p[a]) * (q[a] - p[a]); s += len = sqrt(len); int m = std::min(12, (int)(len / sg * 2)); for (int t = 1; t < m; t++) { std::vector<double> mid(w.na); for (size_t a = 0; a < w.na; a++) mid[a] = p[a] + (q[a] - p[a]) * t / m; d = w.deepest(w.conf(mid.data()), allow, &i, &j); event(); L sl = d > 1e-6L ? std::min((L)(K * sg * .55) + 1e-6L, w.slack(w.conf(mid.data()), i, j, K, sg)) : 0; if (d > 1e-6L && d > sl) fail("segment_collides", "between points %zu and %zu of %zu: frames %s and %s overlap by %.3Lg (resolution allows %.3Lg)", k - 1, k, np, w.fr[(size_t)i].c_str(), w.fr[(size_t)j].c_str(), d, sl); } } } }
        if (s > 0) count("moving_paths"); if (np > 2) count("paths_with_detours"); free(P);
    }
};
}

SECTION(plans, 3000, 30000) {
    W w(rng, (size_t)rng.range(1, 5), rng.coin(.8)); Plan p(w); if (rng.coin(.7)) p.setPlanner(rng); p.simplify = rng.coin(.4); if (p.simplify || rng.coin(.3)) aa_rx_mp_set_simplify(p.mp, p.simplify ? (int)rng.pick(std::vector<long>{1, 2, -4}) : 0);
    if (rng.coin(.3)) { aa_rx_mp_set_track_collisions(p.mp, 1); p.track = true; }
    int rounds = (int)rng.range(1, 4);
    for (int k = 0; k < rounds; k++) {
        if (rng.coin(.1)) p.setGoal(rng); if (k == 0 ? rng.coin(.95) : rng.coin(.4)) p.setStart(rng);
        if (rng.coin(.2)) p.allowC(rng); if (rng.coin(.3)) p.allowP(rng);
        int tries = 0; if (k == 0 || rng.coin(.7)) do { if (rng.coin(.08)) p.setWs(rng); else p.setGoal(rng); } while (!p.goal && tries++ < 8);
        if (rng.coin(.1)) p.allowP(rng); if (rng.coin(.15)) p.setPlanner(rng); if (rng.coin(.1)) { p.simplify = !p.simplify; aa_rx_mp_set_simplify(p.mp, p.simplify); } if (rng.coin(.1)) { p.track = !p.track; aa_rx_mp_set_track_collisions(p.mp, p.track); }
        p.plan(rng);
    }
}

SECTION(poses, 500, 5000) {
    W w(rng, (size_t)rng.range(2, 6), rng.coin(.6)); Plan p(w); p.setPlanner(rng); p.simplify = rng.coin(.3); aa_rx_mp_set_simplify(p.mp, p.simplify);
    int rounds = (int)rng.range(1, 3);
    for (int k = 0; k < rounds; k++) { if (k == 0 ? rng.coin(.97) : rng.coin(.4)) p.setStart(rng); if (k == 0 || rng.coin(.6)) { if (rng.coin(.85)) p.setWs(rng); else p.setGoal(rng); } if (rng.coin(.2)) p.setPlanner(rng); p.plan(rng); }
}

// the planning library's view of the scene: bounds, states, validity (from any thread) and distance to pose goals
SECTION(states, 1500, 25000) {
    W w(rng, (size_t)rng.range(1, 6), rng.coin(.8)); Plan p(w); typedef amino::sgSpaceInformation::StateType St; amino::sgSpaceInformation::Ptr si = p.mp->space_information; amino::sgStateSpace *ss = si->getTypedStateSpace(); size_t nq = w.nq;
    CHECK("space", ss->config_count_all() == w.na && ss->config_count_subset() == nq && ss->frame_count() == w.n && ss->get_scene_graph() == w.sg && si->getStateDimension() == nq, "dimensions of the state space");
    for (size_t i = 0; i < nq; i++) { auto l = w.lim.at(w.cfg[i]); CHECK("space-bounds", ss->getBounds().low[i] == l.first && ss->getBounds().high[i] == l.second, "bounds [%g,%g] of a joint limited to [%g,%g]", ss->getBounds().low[i], ss->getBounds().high[i], l.first, l.second); }
    int rounds = (int)rng.range(1, 3);
    for (int k = 0; k < rounds; k++) {
        if (rng.coin(.8)) p.setStart(rng); if (rng.coin(.2)) p.allowC(rng); if (rng.coin(.4)) p.allowP(rng); if (rng.coin(.2)) { p.track = !p.track; aa_rx_mp_set_track_collisions(p.mp, p.track); }
        int m = (int)rng.range(1, 6); std::vector<ompl::base::State *> st; std::vector<int> want, got;
        for (int j = 0; j < m; j++) {
            Buf all(w.na), all2(w.na), q(nq); w.random(rng, all); for (size_t i = 0; i < w.na; i++) all2[i] = 100 + (double)i; amino::sgSpaceInformation::StateType *s = si->allocTypedState(); ss->extract_state(all, s); ss->insert_state(s, all2); bool same = true; for (size_t i = 0; i < nq; i++) q[i] = s->values[i];
            for (size_t i = 0; i < w.na; i++) { bool in = false; for (size_t x = 0; x < nq; x++) if (w.cfg[x] == w.all[i]) { in = true; same = same && q[x] == all[i] && all2[i] == all[i]; } same = same && (in || all2[i] == 100 + (double)i); } CHECK("space-states", same, "a state differs from the joints it was made from");
            Buf q3(nq); for (size_t i = 0; i < nq; i++) q3[i] = q[i] + 1; St *t = si->allocTypedState(); ss->copy_state(q3, t); for (size_t i = 0; i < nq; i++) CHECK("space-copy", t->values[i] == q3[i], "copied state differs"); si->freeTypedState(t);
            L d = w.deepest(p.full(q), p.allow); want.push_back(p.amb || fabsl(d) < 1e-6L ? -1 : d < 0); st.push_back(s); distinct(fnv(q.p, 8 * nq));
            // poses of all frames for this state
            double *T = ss->get_tf_abs(s, p.q0.data()); Conf c = p.full(q); for (size_t i = 0; i < w.n; i++) { TF X{rot(q4(T + 7 * i)), v3(T + 7 * i + 4)}; TF R = w.m.abs(w.fr[i], c); L e = norm(X.p - R.p); CHECK("space-poses", e < 1e-12, "frame %zu is off by %.3Lg", i, e); } ss->region_pop(T);
        }
        got.assign((size_t)m, 0); if (rng.coin(.3)) { std::vector<std::thread> th; for (int t = 0; t < 3; t++) th.emplace_back([&, t] { for (int j = t; j < m; j += 3) got[(size_t)j] = si->isValid(st[(size_t)j]); }); for (auto &t : th) t.join(); count("threads"); } else for (int j = 0; j < m; j++) got[(size_t)j] = si->isValid(st[(size_t)j]);
        for (int j = 0; j < m; j++) if (want[(size_t)j] >= 0) { CHECK("space-valid", got[(size_t)j] == want[(size_t)j], "state %d is reported %s", j, got[(size_t)j] ? "valid but collides" : "invalid but is free"); count(want[(size_t)j] ? "valid_states" : "invalid_states"); }
        // distance to a goal of one or several poses
        size_t ne = (size_t)rng.range(1, 3), ld = rng.coin() ? 7 : 9; Buf E(ne * ld); std::vector<TF> ref; std::vector<aa_rx_frame_id> id; bool nul = rng.coin(.2); aa_rx_frame_id tip = aa_rx_sg_frame_id(w.sg, w.tip.c_str());
        for (size_t i = 0; i < ne; i++) { Pose P = rpose(rng, 2); memcpy(&E[i * ld], P.q, 32); memcpy(&E[i * ld + 4], P.p, 24); ref.push_back(P.T()); id.push_back(nul ? tip : (aa_rx_frame_id)rng.range(0, (long)w.n - 1)); }
        if (!nul) id[0] = tip;
        LIB(aa_rx_mp_set_wsgoal(p.mp, ne, nul ? NULL : id.data(), E, ld)); for (size_t i = 0; i < ne * ld; i++) E[i] = NAN;
        auto *g = p.mp->problem_definition->getGoal()->as<amino::sgWorkspaceGoal>(); Buf q0(w.na); for (size_t i = 0; i < w.na; i++) q0[i] = p.q0[i]; g->setStart(w.na, q0); double wo = rng.coin() ? 1 : rng.uni(0, 3), wt = rng.coin() ? 1 : rng.uni(0, 3); g->weight_orientation = wo; g->weight_translation = wt;
        for (int j = 0; j < m; j++) { const St *s = st[(size_t)j]->as<St>(); Conf c = p.full(s->values); double want_ = 0; for (size_t i = 0; i < ne; i++) { TF X = w.m.abs(w.fr[(size_t)id[i]], c); double th, x; perr(X, ref[i], &th, &x); (void)x; want_ += wo * th + wt * (double)norm(X.p - ref[i].p); } double d; LIB(d = g->distanceGoal(s)); CLOSE("goal-distance", d, want_, 1e-7 * (1 + want_)); }
        for (auto *s : st) si->freeState(s);
    }
    note("%zu joints of %zu, %zu frames", w.nq, w.na, w.n);
}

// sequences of plans over several graphs
SECTION(sequences, 4000, 60000) {
    size_t ng = (size_t)rng.range(1, 3); std::vector<aa_rx_sg *> sg; for (size_t i = 0; i < ng; i++) { aa_rx_sg *s = aa_rx_sg_create(); MSg m; sg_build(rng, s, m, (size_t)rng.range(1, 8), .5, false); if (aa_rx_sg_init(s)) abort(); sg.push_back(s); }
    struct El { aa_rx_sg *s; std::vector<double> q; size_t n; }; std::vector<El> ref; size_t total = 0; int ops = (int)rng.range(0, 25); note("%d operations on a sequence over %zu graphs", ops, ng);
    size_t before[2], after[2];
    for (int pass = 0; pass < 2; pass++) {
        ref.clear(); total = 0; ref.reserve(64); Rng r(rng.s[0] ^ 5); before[pass] = 0; after[pass] = 0;
        std::vector<El>().swap(ref); 
        before[pass] = __sanitizer_get_current_allocated_bytes();
        {
            aa_rx_mp_seq *q = aa_rx_mp_seq_create();
            for (int k = 0; k < ops; k++) {
                aa_rx_sg *s = r.pick(sg); size_t n = (size_t)r.range(0, 6), nc = aa_rx_sg_config_count(s); Buf path(n * nc); for (size_t i = 0; i < n * nc; i++) path[i] = r.gauss(); El e{s, std::vector<double>(path.p, path.p + n * nc), n};
                aa_rx_mp_seq_append_all(q, s, n, path); ref.push_back(e); total += n; for (size_t i = 0; i < n * nc; i++) path[i] = NAN;
                CHECK("seq_count", aa_rx_mp_seq_count(q) == ref.size(), "%zu plans, expected %zu", aa_rx_mp_seq_count(q), ref.size()); CHECK("seq_points", aa_rx_mp_seq_point_count(q) == total, "%zu points, expected %zu", aa_rx_mp_seq_point_count(q), total);
            }
            for (size_t i = 0; i <= ref.size() + 1; i++) { const aa_rx_sg *s = (const aa_rx_sg *)&s; size_t n = 99; const double *p = (const double *)&n; aa_rx_mp_seq_elt(q, i, &s, &n, &p); if (i >= ref.size()) { CHECK("seq_past_end", !s && !n && !p, "element %zu of %zu exists", i, ref.size()); continue; } CHECK("seq_elt", s == ref[i].s && n == ref[i].n && (ref[i].q.empty() || !memcmp(p, ref[i].q.data(), 8 * ref[i].q.size())), "element %zu differs", i); distinct(fnv(ref[i].q.data(), 8 * ref[i].q.size()) ^ i); }
            aa_rx_mp_seq_destroy(q);
        }
        std::vector<El>().swap(ref);
        after[pass] = __sanitizer_get_current_allocated_bytes();
    }
    CHECK("seq_leak", after[1] == before[1], "%zu bytes remain after destruction of a sequence of %d plans", after[1] - before[1], ops);
    for (auto *s : sg) aa_rx_sg_destroy(s);
}

// a status prints as the names of its errors, and as OK exactly if there are none
SECTION(status, 60, 600) {
    static const std::pair<int, const char *> nm[] = {{AA_RX_NO_SOLUTION, "no_solution"}, {AA_RX_NO_IK, "no_inverse_kinematics"}, {AA_RX_NO_MP, "no_motion_plan"}, {AA_RX_INVALID_FRAME, "invalid_frame"}, {AA_RX_INVALID_PARAMETER, "invalid_parameter"}, {AA_RX_INVALID_STATE, "invalid_state"}};
    aa_mem_region reg; aa_mem_region_init(&reg, (size_t)rng.range(16, 600)); int e = (int)rng.range(0, 63); std::set<std::string> want, got; for (auto &x : nm) if (e & x.first) want.insert(x.second); if (!e) want.insert("OK");
    char *b; LIB(b = aa_rx_errstr(&reg, e)); std::string t; for (char *c = b; *c; c++) if (*c == ':') { CHECK("status_once", got.insert(t).second, "'%s' lists an error twice", b); t.clear(); } else t += *c; CHECK("status_once", got.insert(t).second, "'%s' lists an error twice", b); distinct((uint64_t)e + 1);
    CHECK("status_names", got == want, "status %#x prints as '%s'", e, b); aa_mem_region_destroy(&reg);
}
VK_MAIN
