// C13: histories of scene graph edits against a model by names.
#include "sgmodel.hpp"
#include <amino/rx/scene_collision.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
extern "C" { int aa_rx_sg_is_clean(struct aa_rx_sg *); int aa_rx_sg_is_clean_collision(struct aa_rx_sg *); int aa_rx_sg_is_clean_gl(struct aa_rx_sg *); void aa_rx_sg_clean_collision(struct aa_rx_sg *); void aa_rx_sg_clean_gl(struct aa_rx_sg *); void aa_rx_sg_set_destructor(const struct aa_rx_sg *, void (*)(void *), void *); void aa_rx_sg_copy_frame_geom(struct aa_rx_sg *, const char *, const char *); }
using namespace vk;
namespace {
typedef void (*setl)(aa_rx_sg *, const char *, double, double); typedef int (*getl)(const aa_rx_sg *, aa_rx_config_id, double *, double *);
const setl SL[4] = {aa_rx_sg_set_limit_pos, aa_rx_sg_set_limit_vel, aa_rx_sg_set_limit_acc, aa_rx_sg_set_limit_eff};
const getl GL[4] = {aa_rx_sg_get_limit_pos, aa_rx_sg_get_limit_vel, aa_rx_sg_get_limit_acc, aa_rx_sg_get_limit_eff};
struct World { aa_rx_sg *sg; MSg m; size_t nc = 0, n = 0; };
void collect(void *cx, aa_rx_frame_id id, aa_rx_geom *g) { ((std::multimap<aa_rx_frame_id, aa_rx_geom *> *)cx)->insert({id, g}); }
// Run f in a child process; true if the program was stopped by abort()
template <class F> bool stops(F f) {
    fflush(stdout); fflush(stderr); pid_t p = fork();
    if (!p) { signal(SIGABRT, SIG_DFL); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); f(); _exit(0); }
    int s = 0; while (waitpid(p, &s, 0) < 0 && errno == EINTR) {} return WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT;
}
// A graph edited since its last init says so and refuses to be evaluated
void judge_stale(Rng &rng, World &w, bool edited, bool regeom, int op) {
    aa_rx_sg *sg = w.sg;
    if (edited) CHECK("stale-frames", !aa_rx_sg_is_clean(sg), "graph clean right after edit %d", op);
    if (regeom) CHECK("stale-geometry", !aa_rx_sg_is_clean_collision(sg) && !aa_rx_sg_is_clean_gl(sg), "geometry data clean right after edit %d", op);
    if (edited && rng.coin(0.004)) { count("stale_evaluations"); int k = (int)rng.range(0, 12); size_t nc = w.nc, n = w.n; std::vector<double> q(nc + 1), a(12 * n + 12), b(12 * n + 12);
        static const char *nm[] = {"tf", "tfmat", "duqu", "tf update", "config count", "frame type", "config id", "frame name", "config name", "frame parent", "map of geometries", "relative transform", "copy"};
        bool st = stops([&] { switch (k) { case 0: aa_rx_sg_tf(sg, nc, q.data(), n, a.data(), 7, b.data(), 7); break; case 1: aa_rx_sg_tfmat(sg, nc, q.data(), n, a.data(), 12, b.data(), 12); break; case 2: aa_rx_sg_duqu(sg, nc, q.data(), n, a.data(), 8, b.data(), 8); break;
            case 3: { std::vector<double> c(a), d(b); aa_rx_sg_tf_update(sg, nc, q.data(), q.data(), n, a.data(), 7, b.data(), 7, c.data(), 7, d.data(), 7); break; } case 4: aa_rx_sg_config_count(sg); break; case 5: if (n) aa_rx_sg_frame_type(sg, 0); else abort(); break; case 6: aa_rx_sg_config_id(sg, "a"); break; case 7: aa_rx_sg_frame_name(sg, 0); break; case 8: aa_rx_sg_config_name(sg, 0); break; case 9: aa_rx_sg_frame_parent(sg, 0); break;
            case 10: { std::multimap<aa_rx_frame_id, aa_rx_geom *> mg; aa_rx_sg_map_geom(sg, collect, &mg); break; } case 11: aa_rx_sg_rel_tf(sg, AA_RX_FRAME_ROOT, AA_RX_FRAME_ROOT, b.data(), 7, a.data()); break; case 12: aa_rx_sg_copy(sg); break; } });
        CHECK("stale-evaluated", st, "%s of a graph edited after its init went ahead", nm[k]); }
}
void judge(World &w, const char *why) {
    aa_rx_sg *sg = w.sg; MSg &m = w.m; size_t n = m.f.size();
    CHECK("clean", aa_rx_sg_is_clean(sg) == 1, "not clean after %s", why);
    CHECK("frame-count", aa_rx_sg_frame_count(sg) == n, "count %zu want %zu (%s)", aa_rx_sg_frame_count(sg), n, why); if (aa_rx_sg_frame_count(sg) != n) return;
    std::set<aa_rx_frame_id> seen; auto cf = m.configs(); size_t nc = cf.size();
    CHECK("config-count", aa_rx_sg_config_count(sg) == nc, "count %zu want %zu", aa_rx_sg_config_count(sg), nc); if (aa_rx_sg_config_count(sg) != nc) return; w.nc = nc; w.n = n;
    for (auto &p : m.f) { const MFrame &x = p.second; aa_rx_frame_id id = aa_rx_sg_frame_id(sg, p.first.c_str());
        CHECK("frame-id", id >= 0 && (size_t)id < n && seen.insert(id).second, "frame %s has id %ld of %zu", p.first.c_str(), (long)id, n); if (id < 0 || (size_t)id >= n) return;
        CHECK("frame-name", p.first == aa_rx_sg_frame_name(sg, id), "name of id %ld is %s, want %s", (long)id, aa_rx_sg_frame_name(sg, id), p.first.c_str());
        aa_rx_frame_id pid = aa_rx_sg_frame_parent(sg, id); CHECK("frame-parent", x.parent.empty() ? pid == AA_RX_FRAME_ROOT : pid == aa_rx_sg_frame_id(sg, x.parent.c_str()), "parent of %s is %ld", p.first.c_str(), (long)pid);
        CHECK("topological", pid < id, "parent id %ld not before %ld", (long)pid, (long)id);
        enum aa_rx_frame_type t = aa_rx_sg_frame_type(sg, id); CHECK("frame-type", t == (x.type == MFIX ? AA_RX_FRAME_FIXED : x.type == MREV ? AA_RX_FRAME_REVOLUTE : AA_RX_FRAME_PRISMATIC), "type %d of %s", (int)t, p.first.c_str());
        aa_rx_config_id c = aa_rx_sg_frame_config(sg, id);
        if (x.type == MFIX) CHECK("fixed-config", c == AA_RX_CONFIG_NONE, "config %ld of fixed frame", (long)c);
        else { CHECK("frame-config", c == aa_rx_sg_config_id(sg, x.cfg.c_str()), "config of %s is %ld, want %s", p.first.c_str(), (long)c, x.cfg.c_str()); const double *a = aa_rx_sg_frame_axis(sg, id); CHECK("axis", !memcmp(a, x.axis, 24), "axis of %s changed", p.first.c_str()); }
        double mass = aa_rx_sg_frame_get_mass(sg, id); const double *in = aa_rx_sg_frame_get_inertia(sg, id);
        if (x.inertial) CHECK("inertial", mass == x.mass && in && !memcmp(in, x.inertia, 72), "mass %g want %g", mass, x.mass); else CHECK("no-inertial", std::isnan(mass) && !in, "mass %g without inertial", mass); }
    std::set<aa_rx_config_id> cs; std::vector<const char *> nm(nc + 2, "zz");
    for (auto &c : cf) { aa_rx_config_id id = aa_rx_sg_config_id(sg, c.c_str()); CHECK("config-id", id >= 0 && (size_t)id < nc && cs.insert(id).second, "config %s has id %ld of %zu", c.c_str(), (long)id, nc); if (id < 0 || (size_t)id >= nc) return; CHECK("config-name", c == aa_rx_sg_config_name(sg, id), "config %ld is %s", (long)id, aa_rx_sg_config_name(sg, id));
        MLim l; auto i = m.lim.find(c); if (i != m.lim.end()) l = i->second;
        for (int k = 0; k < 4; k++) { double lo = 77, hi = 78; int e = GL[k](sg, id, &lo, &hi); if (l.has[k]) CHECK("limit", e == 0 && lo == l.lo[k] && hi == l.hi[k], "limit %d of %s: %d %g %g want %g %g", k, c.c_str(), e, lo, hi, l.lo[k], l.hi[k]); else CHECK("no-limit", e != 0 && lo == 77 && hi == 78, "limit %d of %s reported", k, c.c_str()); }
        double cen = aa_rx_sg_config_center(sg, id); CLOSE("center", cen, l.has[0] ? (l.lo[0] + l.hi[0]) / 2 : 0, 1e-15 * (l.has[0] ? fabs(l.lo[0]) + fabs(l.hi[0]) : 0)); }
    size_t want = (size_t)(n % 3 == 0 ? nc + 2 : n % 3 == 1 ? nc : nc / 2); size_t got = aa_rx_sg_config_names(sg, want, nm.data()); CHECK("config-names", got == std::min(want, nc), "%zu names", got);
    for (size_t i = 0; i < nc + 2; i++) CHECK("config-names", i < got ? !strcmp(nm[i], aa_rx_sg_config_name(sg, (aa_rx_config_id)i)) : !strcmp(nm[i], "zz"), "name %zu is %s", i, nm[i]);
    { std::vector<const char *> all; for (auto &c : cf) all.push_back(c.c_str()); all.push_back("no such configuration"); std::vector<aa_rx_config_id> ids(all.size()); aa_rx_sg_config_indices(sg, all.size(), all.data(), ids.data()); for (size_t i = 0; i < all.size(); i++) CHECK("config-indices", ids[i] == aa_rx_sg_config_id(sg, all[i]), "index %zu", i);
      Buf q(nc), sub(cf.size()), q2(nc); for (size_t i = 0; i < nc; i++) { q[i] = (double)i + 1; q2[i] = -1; } aa_rx_sg_config_get(sg, nc, nc, ids.data(), q, sub); for (size_t i = 0; i < nc; i++) CHECK("config-get", sub[i] == (double)ids[i] + 1, "config_get %zu", i); aa_rx_sg_config_set(sg, nc, nc, ids.data(), sub, q2); CHECK("config-set", !memcmp(q.p, q2.p, nc * 8), "config_set does not undo config_get"); 
      Buf ce(nc + 1); ce[nc] = 5; aa_rx_sg_center_configs(sg, n % 2 ? nc : nc / 2, ce); for (size_t i = 0; i < (n % 2 ? nc : nc / 2); i++) CHECK("center-configs", ce[i] == aa_rx_sg_config_center(sg, (aa_rx_config_id)i), "center %zu", i); CHECK("center-configs", ce[nc] == 5, "wrote past the end"); }
    CHECK("unknown", aa_rx_sg_frame_id(sg, "no such frame") == AA_RX_FRAME_NONE && aa_rx_sg_frame_id(sg, "") == AA_RX_FRAME_ROOT && aa_rx_sg_config_id(sg, "no such configuration") == AA_RX_CONFIG_NONE, "unknown names");
    CHECK("unknown", !strcmp(aa_rx_sg_frame_name(sg, AA_RX_FRAME_ROOT), "") && !strcmp(aa_rx_sg_frame_name(sg, AA_RX_FRAME_NONE), "?") && !strcmp(aa_rx_sg_frame_name(sg, (aa_rx_frame_id)n), "?") && !strcmp(aa_rx_sg_frame_name(sg, -7), "?"), "names of invalid frame ids");
    CHECK("unknown", !strcmp(aa_rx_sg_config_name(sg, AA_RX_CONFIG_NONE), "NONE") && !strcmp(aa_rx_sg_config_name(sg, AA_RX_CONFIG_MULTI), "MULTI") && !strcmp(aa_rx_sg_config_name(sg, (aa_rx_config_id)nc), "NONE") && !strcmp(aa_rx_sg_config_name(sg, -9), "NONE"), "names of invalid config ids");
    CHECK("unknown", aa_rx_sg_frame_parent(sg, AA_RX_FRAME_ROOT) == AA_RX_FRAME_NONE && aa_rx_sg_frame_parent(sg, AA_RX_FRAME_NONE) == AA_RX_FRAME_NONE, "parent of root");
    std::multimap<aa_rx_frame_id, aa_rx_geom *> mg; aa_rx_sg_map_geom(sg, collect, &mg); size_t total = 0;
    for (auto &p : m.f) { aa_rx_frame_id id = aa_rx_sg_frame_id(sg, p.first.c_str()); std::multiset<aa_rx_geom *> a, b(p.second.geom.begin(), p.second.geom.end()); auto r = mg.equal_range(id); for (auto i = r.first; i != r.second; ++i) a.insert(i->second); CHECK("geometry", a == b, "frame %s has %zu geometries, want %zu", p.first.c_str(), a.size(), b.size()); total += b.size(); }
    CHECK("geometry", mg.size() == total, "%zu geometries", mg.size());
    aa_rx_cl_set *set = aa_rx_cl_set_create(sg); aa_rx_sg_cl_set_copy(sg, set);
    for (auto &p : m.f) for (auto &q : m.f) { bool al = m.allowed.count({std::min(p.first, q.first), std::max(p.first, q.first)}); int g = aa_rx_cl_set_get(set, aa_rx_sg_frame_id(sg, p.first.c_str()), aa_rx_sg_frame_id(sg, q.first.c_str())); CHECK("allowed", !!g == al || m.maybe.count({std::min(p.first, q.first), std::max(p.first, q.first)}), "allowed collision %s - %s is %d", p.first.c_str(), q.first.c_str(), g); }
    aa_rx_cl_set_destroy(set);
    // kinematics of the edited graph: all three transform forms agree with the model
    std::map<std::string, double> qc_; Buf q(nc); for (auto &c : cf) { double v = sin(7.0 * (double)fnv(c) * 1e-19 + (double)n); qc_[c] = v; q[aa_rx_sg_config_id(sg, c.c_str())] = v; }
    Buf a(7 * n), b(7 * n), ma(12 * n), mb(12 * n), da(8 * n), db(8 * n); aa_rx_sg_tf(sg, nc, q, n, a, 7, b, 7); aa_rx_sg_tfmat(sg, nc, q, n, ma, 12, mb, 12); aa_rx_sg_duqu(sg, nc, q, n, da, 8, db, 8);
    for (auto &p : m.f) { aa_rx_frame_id id = aa_rx_sg_frame_id(sg, p.first.c_str()); TF T = m.abs(p.first, qc_); double sc = 1; for (std::string s = p.first; !s.empty(); s = m.f[s].parent) sc += fabs(m.f[s].E[4]) + fabs(m.f[s].E[5]) + fabs(m.f[s].E[6]) + 5; sc *= 1e-14 * (m.depth(p.first) + 2);
        TF X{rot(q4(b + 7 * id)), v3(b + 7 * id + 4)}; NEARM("tf", X, T, sc); NEARM("tfmat", tf12(mb + 12 * id), T, sc); Q4 r = q4(db + 8 * id), d = q4(db + 8 * id + 4); TF D{rot(r), (2 / dot(r, r)) * qvec(qm(d, qc(r)))}; NEARM("duqu", D, T, sc); }
}
}
SECTION(history, 16000, 400000) {
    fresh_region(rng);
    { std::vector<World> W; W.push_back({aa_rx_sg_create(), {}}); int dest = 0; uint64_t hh = 0; std::string log;
    std::vector<std::pair<aa_rx_geom *, int>> extra; aa_rx_geom_opt *opt = aa_rx_geom_opt_create();
    if (rng.coin(.01)) sg_build(rng, W[0].sg, W[0].m, (size_t)rng.range(20, 150), rng.u01(), rng.coin());
    int ops = (int)rng.range(5, 60);
    for (int o = 0; o < ops; o++) {
        size_t wi = (size_t)rng.range(0, (long)W.size() - 1); World &w = W[wi]; MSg &m = w.m; aa_rx_sg *sg = w.sg; int op = (int)rng.range(0, 19);
        auto anyf = [&]() -> std::string { if (m.f.empty()) return ""; auto i = m.f.begin(); std::advance(i, rng.range(0, (long)m.f.size() - 1)); return i->first; };
        std::string f = anyf(), g = anyf(); char b[64]; snprintf(b, sizeof b, " %zu:%d", wi, op); log += b; note("ops%s", log.size() > 800 ? log.c_str() + (log.size() - 800) : log.c_str()); hh = hh * 31 + (uint64_t)op * 7 + m.f.size(); distinct(hh);
        bool edited = false, regeom = false;
        // what collision checking and drawing do once they have taken in the geometry
        if (rng.coin(0.3)) { aa_rx_sg_clean_collision(sg); aa_rx_sg_clean_gl(sg); CHECK("cleaned", aa_rx_sg_is_clean_collision(sg) == 1 && aa_rx_sg_is_clean_gl(sg) == 1, "geometry data stale after being taken in"); }
        if (op <= 5) { edited = true; std::string name = rng.coin(0.15) && !f.empty() ? f : rname(rng); std::string par = rng.coin(0.1) ? rname(rng) : rng.coin(0.15) ? "" : f; if (rng.coin(0.9) && (par == name || m.is_ancestor(name, par))) par = ""; sg_add(rng, sg, m, name, par, rng.coin(0.5) ? "" : rname(rng), (int)rng.range(0, 2)); }
        else if (op == 6 && !f.empty()) { edited = true; // remove, sometimes by the graph's own string
            if (!m.dirty && rng.coin()) aa_rx_sg_rm_frame(sg, aa_rx_sg_frame_name(sg, aa_rx_sg_frame_id(sg, f.c_str()))); else aa_rx_sg_rm_frame(sg, f.c_str()); m.f.erase(f); m.dirty = true; for (auto i = m.allowed.begin(); i != m.allowed.end();) if (i->first == f || i->second == f) { if (rng.coin()) m.maybe.insert(*i); else aa_rx_sg_allow_collision_name(sg, i->first.c_str(), i->second.c_str(), 0); i = m.allowed.erase(i); } else ++i; }
        else if (op == 7 && rng.coin(0.3)) { aa_rx_sg_rm_frame(sg, "no such frame"); m.dirty = true; }
        else if ((op == 8 || op == 9) && !f.empty()) { edited = true; Pose P = rpose(rng); std::string par = rng.coin(0.2) ? "" : g; if (rng.coin(0.9) && m.is_ancestor(f, par)) par = ""; double E[7]; memcpy(E, P.q, 32); memcpy(E + 4, P.p, 24);
            if (!m.dirty && rng.coin()) aa_rx_sg_reparent_id(sg, aa_rx_sg_frame_id(sg, par.c_str()), aa_rx_sg_frame_id(sg, f.c_str()), E); else aa_rx_sg_reparent_name(sg, par.empty() && rng.coin() ? nullptr : par.c_str(), f.c_str(), E); m.f[f].parent = par; memcpy(m.f[f].E, E, 56); m.dirty = true; }
        else if (op == 10 || op == 11) { std::string c = rname(rng); if (rng.coin() && !f.empty() && m.is_joint(f)) c = m.f[f].cfg; int k = (int)rng.range(0, 3); double lo = rng.uni(-5, 5), hi = lo + rng.uni(0, 5); SL[k](sg, c.c_str(), lo, hi); MLim &l = m.lim[c]; l.has[k] = true; l.lo[k] = lo; l.hi[k] = hi; }
        else if (op == 12 && !f.empty()) { MFrame &x = m.f[f]; x.inertial = true; x.mass = rng.uni(0, 9); for (double &v : x.inertia) v = rng.gauss(); double in[9]; memcpy(in, x.inertia, 72); aa_rx_sg_frame_set_inertial(sg, f.c_str(), x.mass, in); }
        else if (op == 13 && !f.empty()) { regeom = true; double d[3] = {1, 2, 3}; aa_rx_geom *ge = rng.coin() ? aa_rx_geom_sphere(opt, rng.uni(0.1, 1)) : aa_rx_geom_box(opt, d); if (rng.coin(0.3)) extra.push_back({aa_rx_geom_copy(ge), 1}); aa_rx_geom_attach(sg, f.c_str(), ge); m.f[f].geom.push_back(ge); }
        else if (op == 14 && !f.empty() && f != g) { regeom = true; aa_rx_sg_copy_frame_geom(sg, f.c_str(), g.c_str()); auto v = m.f[f].geom; for (auto *x : v) m.f[g].geom.push_back(x); }
        else if (op == 15 && !f.empty() && !g.empty() && f != g) { int al = rng.coin(0.7); if (!m.dirty && rng.coin()) aa_rx_sg_allow_collision(sg, aa_rx_sg_frame_id(sg, f.c_str()), aa_rx_sg_frame_id(sg, g.c_str()), al); else aa_rx_sg_allow_collision_name(sg, f.c_str(), g.c_str(), al); std::pair<std::string, std::string> p{std::min(f, g), std::max(f, g)}; m.maybe.erase(p); if (al) m.allowed.insert(p); else m.allowed.erase(p); CHECK("allow-dirty", !aa_rx_sg_is_clean_collision(sg), "collision data clean after changing allowances"); }
        else if (op == 16 && !m.dirty && m.valid() && W.size() < 4 && !(m.f.empty() && !aa_rx_sg_is_clean(sg))) { aa_rx_sg *c = aa_rx_sg_copy(sg); count("copies"); World nw{c, m}; W.push_back(nw); judge(W.back(), "copy"); judge(W[wi], "being copied"); continue; }
        else if (op == 17 && W.size() > 1) { if (rng.coin(0.4)) { aa_rx_sg_set_destructor(sg, [](void *x) { ++*(int *)x; }, &dest); int d0 = dest; aa_rx_sg_destroy(sg); CHECK("destructor", dest == d0 + 1, "destructor ran %d times", dest - d0); } else aa_rx_sg_destroy(sg); W.erase(W.begin() + (long)wi); continue; }
        else if (op >= 18 || rng.coin(0.2)) { int e = sg_init(sg, m); bool v = m.valid(); count(v ? "init_valid" : "init_invalid"); CHECK("init", (e == 0) == v, "init returned %d for a%s graph", e, v ? " valid" : "n invalid");
            if (!v && e) CHECK("init-error", e == AA_RX_INVALID_FRAME && !aa_rx_sg_is_clean(sg), "error %d", e);
            if (v && !e) judge(w, "init"); else if (!v) { // repair: give orphans and cycles a valid parent
                for (auto &p : m.f) if (!p.second.parent.empty() && (!m.f.count(p.second.parent) || m.is_ancestor(p.first, p.second.parent))) { aa_rx_sg_reparent_name(sg, "", p.first.c_str(), p.second.E); p.second.parent = ""; m.dirty = true; }
                int e2 = sg_init(sg, m); CHECK("init-repaired", (e2 == 0) == m.valid(), "init returned %d after repair", e2); if (!e2) judge(w, "repair"); } }
        if (edited && op < 10) judge_stale(rng, w, true, false, op); if (regeom && op < 16) judge_stale(rng, w, false, true, op);
    }
    for (auto &w : W) { if (w.m.valid()) { int e = sg_init(w.sg, w.m); CHECK("init", e == 0, "final init returned %d", e); if (!e) judge(w, "end"); } }
    while (!W.empty()) { size_t i = (size_t)rng.range(0, (long)W.size() - 1); aa_rx_sg_destroy(W[i].sg); W.erase(W.begin() + (long)i); if (W.size() && W[0].m.valid()) judge(W[0], "destroying another"); }
    // geometries we still hold a reference to survive their graphs
    for (auto &x : extra) { enum aa_rx_geom_shape t; void *p = aa_rx_geom_shape(x.first, &t); CHECK("geom-survives", p && (t == AA_RX_SPHERE || t == AA_RX_BOX) && aa_rx_geom_refcount(x.first) == 1, "refcount %u", aa_rx_geom_refcount(x.first)); aa_rx_geom_destroy(x.first); }
    aa_rx_geom_opt_destroy(opt); }
}
VK_MAIN
