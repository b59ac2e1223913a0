// C28: compiled scene plugins: loading, sharing, unloading.
#include "sgmodel.hpp"
#include <amino/rx/scene_geom_internal.h>
#include <amino/rx/scene_plugin.h>
#include <amino/rx/scene_collision.h>
#include <dlfcn.h>
#include <list>
#include "plug.h"
#ifndef PLUG_DIR
#define PLUG_DIR "."
#endif
using namespace vk;
// what the plugins call must be in this program
__attribute__((used)) void *const vk_keep[] = {(void *)aa_rx_mesh_create, (void *)aa_rx_mesh_set_vertices, (void *)aa_rx_mesh_set_indices, (void *)aa_rx_mesh_set_normals, (void *)aa_rx_mesh_set_rgba, (void *)aa_rx_mesh_set_uv, (void *)aa_rx_mesh_destroy, (void *)aa_rx_geom_opt_create, (void *)aa_rx_geom_opt_set_color3, (void *)aa_rx_geom_opt_set_collision, (void *)aa_rx_geom_opt_set_visual, (void *)aa_rx_geom_opt_destroy, (void *)aa_rx_geom_mesh, (void *)aa_rx_geom_box, (void *)aa_rx_geom_attach, (void *)aa_rx_sg_create, (void *)aa_rx_sg_add_frame_fixed, (void *)aa_rx_sg_add_frame_revolute, (void *)aa_rx_sg_add_frame_prismatic, (void *)aa_rx_sg_set_limit_pos, (void *)aa_rx_sg_allow_collision_name};
namespace {
std::string file(int p) { return std::string(PLUG_DIR "/plug") + std::to_string(p) + ".so"; }
bool mapped(int p) { void *h = dlopen(file(p).c_str(), RTLD_LAZY | RTLD_NOLOAD); if (h) dlclose(h); return h != NULL; }
std::string nm(int p, const char *n) { return "plug" + std::to_string(p) + n; }
struct G { aa_rx_sg *sg; MSg m; std::map<std::string, std::multiset<int>> geo; std::set<int> plugs; };  // geo: plugin of each mesh, 0 for a box
struct M { aa_rx_mesh *m; int plug; unsigned mine = 1; };
void ckmesh(const char *key, const aa_rx_mesh *m, int p) {
    event(); size_t n = 0, k = 0; const float *v = aa_rx_mesh_get_vertices(m, &n); const unsigned *x = aa_rx_mesh_get_indices(m, &k);
    bool ok = n == 4 && k == 4 && v[3] == PLUG_F(p) && v[7] == 1.f && v[11] == 1.f && x[0] == 0 && x[11] == 3 && m->normals && m->normals[2] == 1.f && m->rgba && m->rgba[0] == p && m->width_rgba == 2 && m->height_rgba == 1 && m->uv && m->uv[6] == PLUG_F(p);
    CHECK(key, ok, "mesh of plugin %d: %zu vertices, %zu triangles or contents differ", p, n, k);
}
struct Seen { std::map<aa_rx_frame_id, std::multiset<int>> at; };
void collect(void *cx, aa_rx_frame_id id, aa_rx_geom *g) {
    enum aa_rx_geom_shape t; void *s = aa_rx_geom_shape(g, &t); int p = 0;
    if (t == AA_RX_MESH) { const aa_rx_mesh *m = (const aa_rx_mesh *)s; p = m->rgba ? m->rgba[0] : -1; ckmesh("mesh-contents", m, p); }
    const aa_rx_geom_opt *o = aa_rx_geom_get_opt(g); CHECK("geom-options", aa_rx_geom_opt_get_color_red(o) == .25 && aa_rx_geom_opt_get_color_blue(o) == .75 && aa_rx_geom_opt_get_collision(o), "options of a plugin geometry");
    ((Seen *)cx)->at[id].insert(p);
}
void mfr(MSg &m, const std::string &n, const std::string &par, int type, L x, L y, L z, const std::string &cfg, int axis, double off) { MFrame f; f.name = n; f.parent = par; f.type = type; double E[7] = {0, 0, 0, 1, (double)x, (double)y, (double)z}; memcpy(f.E, E, 56); f.cfg = cfg; f.axis[0] = axis == 0; f.axis[1] = 0; f.axis[2] = axis == 2; f.off = off; m.f[n] = f; m.dirty = true; }
void expect(G &g, int p, int scene, const std::string &root) {
    double F = PLUG_F(p); g.plugs.insert(p);
    if (scene == 0) { mfr(g.m, nm(p, "a"), root, MFIX, F, 0, 1, "", 2, 0); g.geo[nm(p, "a")] = {0}; }
    else { mfr(g.m, nm(p, "b"), root, MREV, F, 2, 1, nm(p, "q"), 2, .5); mfr(g.m, nm(p, "c"), nm(p, "b"), MPRI, 0, F, 0, nm(p, "p"), 0, 0); mfr(g.m, nm(p, "d"), nm(p, "c"), MFIX, 1, 0, 0, "", 2, 0); MLim &l = g.m.lim[nm(p, "q")]; l.has[0] = true; l.lo[0] = -1; l.hi[0] = F; g.geo[nm(p, "b")] = {p}; g.geo[nm(p, "c")].clear(); g.geo[nm(p, "d")] = {p, 0}; g.m.allowed.insert({nm(p, "b"), nm(p, "d")}); }
}
void judge(Rng &rng, G &g, const char *why) {
    aa_rx_sg *sg = g.sg; MSg &m = g.m; if (m.dirty) { int e; LIB(e = aa_rx_sg_init(sg)); CHECK("init", e == 0, "init %d", e); if (e) return; m.dirty = false; }
    size_t n = m.f.size(); CHECK("frames", aa_rx_sg_frame_count(sg) == n, "%zu frames, want %zu (%s)", aa_rx_sg_frame_count(sg), n, why); auto cf = m.configs(); size_t nc = cf.size(); CHECK("configs", aa_rx_sg_config_count(sg) == nc, "%zu configs, want %zu", aa_rx_sg_config_count(sg), nc); if (aa_rx_sg_frame_count(sg) != n || aa_rx_sg_config_count(sg) != nc) return;
    std::map<std::string, double> qm_; Buf q(nc); for (auto &c : cf) { double v = rng.uni(-2, 2); qm_[c] = v; aa_rx_config_id id = aa_rx_sg_config_id(sg, c.c_str()); CHECK("config", id >= 0 && (size_t)id < nc, "config %s missing", c.c_str()); if (id < 0 || (size_t)id >= nc) return; q[id] = v; auto l = m.lim.find(c); double lo, hi; int e = aa_rx_sg_get_limit_pos(sg, id, &lo, &hi); CHECK("limit", l == m.lim.end() ? e != 0 : e == 0 && lo == l->second.lo[0] && hi == l->second.hi[0], "limit of %s", c.c_str()); }
    Buf a(7 * n), b(7 * n); aa_rx_sg_tf(sg, nc, q, n, a, 7, b, 7); Seen s; aa_rx_sg_map_geom(sg, collect, &s);
    for (auto &p : m.f) { aa_rx_frame_id id = aa_rx_sg_frame_id(sg, p.first.c_str()); CHECK("frame", id >= 0 && (size_t)id < n && p.first == aa_rx_sg_frame_name(sg, id), "frame %s missing", p.first.c_str()); if (id < 0 || (size_t)id >= n) return; aa_rx_frame_id pid = aa_rx_sg_frame_parent(sg, id); CHECK("parent", p.second.parent.empty() ? pid == AA_RX_FRAME_ROOT : pid == aa_rx_sg_frame_id(sg, p.second.parent.c_str()), "parent of %s is %ld", p.first.c_str(), (long)pid);
        TF T = m.abs(p.first, qm_), X{rot(q4(b + 7 * id)), v3(b + 7 * id + 4)}; NEARM("pose", X, T, 1e-12); CHECK("geometry", s.at[id] == g.geo[p.first], "%zu geometries at %s, want %zu", s.at[id].size(), p.first.c_str(), g.geo[p.first].size()); }
    if (rng.coin(0.3)) { aa_rx_cl_set *set = aa_rx_cl_set_create(sg); aa_rx_sg_cl_set_copy(sg, set); for (auto &x : m.f) for (auto &y : m.f) if (x.first < y.first) CHECK("allowed", !!aa_rx_cl_set_get(set, aa_rx_sg_frame_id(sg, x.first.c_str()), aa_rx_sg_frame_id(sg, y.first.c_str())) == (bool)m.allowed.count({x.first, y.first}), "%s - %s", x.first.c_str(), y.first.c_str()); aa_rx_cl_set_destroy(set); }
    if (rng.coin(0.2)) { LIB(aa_rx_sg_cl_init(sg)); aa_rx_cl *cl; LIB(cl = aa_rx_cl_create(sg)); (void)aa_rx_cl_check(cl, n, b, 7, NULL); aa_rx_cl_destroy(cl); count("collision_checks"); }
}
}
SECTION(history, 8000, 150000) {
    fresh_region(rng); std::list<G> gs; std::vector<M> ms; uint64_t h = 0; std::string log; int ops = (int)rng.range(4, 30);
    int save = dup(2), nul = open("/dev/null", O_WRONLY); (void)save;
    auto quiet = [&](auto f) { fflush(stderr); dup2(nul, 2); f(); fflush(stderr); dup2(save, 2); };
    auto anyg = [&]() { auto i = gs.begin(); std::advance(i, rng.range(0, (long)gs.size() - 1)); return i; };
    for (int o = 0; o < ops; o++) {
        int op = (int)rng.range(0, 11), p = (int)rng.range(1, 3), sc = (int)rng.range(0, 1); const char *sn = sc ? "two" : "one"; char t[32]; snprintf(t, sizeof t, " %d%c%d", op, 'a' + sc, p); log += t; note("ops%s", log.size() > 700 ? log.c_str() + log.size() - 700 : log.c_str()); h = h * 31 + (uint64_t)(op * 8 + p * 2 + sc); distinct(h * 64 + gs.size() * 8 + ms.size());
        if (op <= 1) { // into a new graph, with or without a root frame
            bool at = rng.coin(0.4); G g; g.sg = NULL; std::string root; aa_rx_sg *pre = NULL; if (at || rng.coin(0.2)) { pre = aa_rx_sg_create(); sg_add(rng, pre, g.m, "base", "", "", (int)rng.range(0, 2)); if (at) root = "base"; }
            if (root.empty() && rng.coin()) LIB(g.sg = aa_rx_dl_sg(file(p).c_str(), sn, pre)); else LIB(g.sg = aa_rx_dl_sg_at(file(p).c_str(), sn, pre, root.c_str()));
            CHECK("load", g.sg && (!pre || g.sg == pre), "loading %s from %s returned %p", sn, file(p).c_str(), (void *)g.sg); if (!g.sg) continue; expect(g, p, sc, root); gs.push_back(g); judge(rng, gs.back(), "load");
        } else if (op <= 3 && !gs.empty()) { // into an existing graph
            auto g = anyg(); if (g->m.f.count(nm(p, sc ? "b" : "a"))) continue; std::string root; if (rng.coin(0.6)) { auto i = g->m.f.begin(); std::advance(i, rng.range(0, (long)g->m.f.size() - 1)); root = i->first; }
            aa_rx_sg *r; LIB(r = aa_rx_dl_sg_at(file(p).c_str(), sn, g->sg, root.c_str())); CHECK("load-into", r == g->sg, "loading into a graph returned another"); expect(*g, p, sc, root); if (rng.coin()) judge(rng, *g, "load into");
        } else if (op == 4 && !gs.empty() && gs.size() < 6) { auto g = anyg(); judge(rng, *g, "before copy"); if (g->m.dirty) continue; G c = *g; LIB(c.sg = aa_rx_sg_copy(g->sg)); gs.push_back(c); judge(rng, gs.back(), "copy"); count("copies");
        } else if (op == 5 && !gs.empty()) { auto g = anyg(); LIB(aa_rx_sg_destroy(g->sg)); gs.erase(g);
        } else if (op == 6 && ms.size() < 6) { M m; m.plug = p; LIB(m.m = aa_rx_dl_mesh(file(p).c_str(), "m")); CHECK("load-mesh", m.m != NULL, "no mesh"); if (!m.m) continue; ckmesh("mesh-contents", m.m, p); CHECK("mesh-references", aa_rx_mesh_refcount(m.m) == 1, "%u references", aa_rx_mesh_refcount(m.m)); ms.push_back(m);
        } else if (op == 7 && !ms.empty() && !gs.empty()) { auto g = anyg(); M &m = ms[(size_t)rng.range(0, (long)ms.size() - 1)]; auto i = g->m.f.begin(); std::advance(i, rng.range(0, (long)g->m.f.size() - 1)); aa_rx_geom_opt *o = aa_rx_geom_opt_create(); aa_rx_geom_opt_set_color3(o, .25, .5, .75); aa_rx_geom_attach(g->sg, i->first.c_str(), aa_rx_geom_mesh(o, m.m)); aa_rx_geom_opt_destroy(o); g->geo[i->first].insert(m.plug);
        } else if (op == 8 && !ms.empty()) { size_t i = (size_t)rng.range(0, (long)ms.size() - 1); ckmesh("mesh-contents", ms[i].m, ms[i].plug); LIB(aa_rx_mesh_destroy(ms[i].m)); ms.erase(ms.begin() + (long)i);
        } else if (op == 9) { // loads that cannot work: nothing is returned, nothing is lost
            int k = (int)rng.range(0, 3); aa_rx_sg *into = NULL; if (!gs.empty() && rng.coin()) into = anyg()->sg; void *r = (void *)1; std::string bad = file(4);
            quiet([&] { if (k == 0) LIB(r = aa_rx_dl_sg_at(PLUG_DIR "/no such file.so", "one", into, "")); else if (k == 1) LIB(r = aa_rx_dl_sg(file(9).c_str(), "no such scene", into)); else if (k == 2) LIB(r = aa_rx_dl_mesh(PLUG_DIR "/no such file.so", "m")); else LIB(r = aa_rx_dl_mesh(file(9).c_str(), "one")); });
            CHECK("load-failure", r == NULL, "failing load %d returned something", k); count("failed_loads");
        } else if (op == 10 && !gs.empty()) judge(rng, *anyg(), "use");
        else if (op == 11 && !gs.empty()) { auto g = anyg(); if (g->m.f.size() < 2) continue; auto i = g->m.f.begin(); std::advance(i, rng.range(0, (long)g->m.f.size() - 1)); std::string x = i->first; bool leaf = true; for (auto &f : g->m.f) leaf = leaf && f.second.parent != x; if (!leaf || g->m.allowed.size()) continue; aa_rx_sg_rm_frame(g->sg, x.c_str()); g->m.f.erase(x); g->geo.erase(x); g->m.dirty = true; }
        // a plugin stays loaded exactly as long as something that came from it
        for (int k = 1; k <= 3; k++) { bool need = false; for (auto &g : gs) { need |= g.plugs.count(k) > 0; for (auto &e : g.geo) need |= e.second.count(k) > 0; } for (auto &m : ms) need |= m.plug == k; bool up = mapped(k); if (need) CHECK("unloaded", up, "plugin %d unloaded while in use", k); else if (up) CHECK("still-loaded", false, "plugin %d still loaded after everything from it is gone", k); else event(); }
    }
    while (!gs.empty()) { auto g = anyg(); aa_rx_sg_destroy(g->sg); gs.erase(g); for (auto &x : gs) judge(rng, x, "destroying another"); for (auto &m : ms) ckmesh("mesh-contents", m.m, m.plug); }
    while (!ms.empty()) { aa_rx_mesh_destroy(ms.back().m); ms.pop_back(); }
    for (int k = 1; k <= 3; k++) CHECK("still-loaded", !mapped(k), "plugin %d still loaded at the end", k);
    close(nul); close(save);
}
VK_MAIN
