// Scenes as they should be drawn: camera, settings, shapes, and the judge of a recorded frame.
#pragma once
#include "fakegl.hpp"
#include "reg.hpp"
#include "tfref.hpp"
#include "sgmodel.hpp"
#include <amino.h>
#include <amino/rx.h>
#include <amino/rx/scene_geom.h>
#include <amino/rx/scene_geom_internal.h>
#include <amino/rx/scene_gl.h>
extern "C" {
#include <amino/rx/scene_gl_internal.h>
}
#include <octomap/octomap.h>
#include <amino/rx/octree_geom.hpp>
#include <thread>
using namespace vk;
typedef std::array<double, 3> D3;
static fg::Ctx *ctx() {
    static fg::Ctx *c = nullptr;
    if (!c) { c = fg::new_ctx(); fg::cur = c; FILE *o = stdout; stdout = fopen("/dev/null", "w"); aa_gl_init(); fclose(stdout); stdout = o; }
    fg::cur = c; return c;
}
struct Cam { double E[7], home[7], fovy = M_PI_4, aspect = 1, zn = .05, zf = 100; double light[3], color[3], ambient[3], power = 25; bool vis = true, col = false; std::map<size_t, bool> mask; };
static bool masked(const Cam &m, size_t i) { auto it = m.mask.find(i); return it != m.mask.end() && it->second; }
static void rpose7(Rng &r, double *E) { Pose P = rpose(r); memcpy(E, P.q, 32); for (int i = 0; i < 3; i++) E[4 + i] = r.coin(.2) ? 0 : r.uni(-5, 5); }
// clip-space position of a world point
static void clip(const Cam &m, V3 w, double *o) {
    TF C{rot(q4(m.E)), v3(m.E + 4)}; V3 p = inv(C) * w; L t = tanl((L)m.fovy / 2);
    o[0] = (double)(p[0] / (t * m.aspect)); o[1] = (double)(p[1] / t); o[2] = (double)((-(m.zf + m.zn) * p[2] - 2 * m.zf * m.zn) / ((L)m.zf - m.zn)); o[3] = (double)-p[2];
}
static void ckglobals(const aa_gl_globals *G, const Cam &m, Rng &r) {
    CLOSEV("camera", G->world_E_cam, m.E, 7, 0); CLOSEV("camhome", G->world_E_camhome, m.home, 7, 0);
    // a world point goes through camera and perspective to where the model says
    for (int k = 0; k < 3; k++) {
        V3 w{{r.uni(-5, 5), r.uni(-5, 5), r.uni(-5, 5)}}; float a[4] = {(float)w[0], (float)w[1], (float)w[2], 1}, b[4] = {0}, c[4] = {0}; double want[4];
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) b[i] += G->cam_M_world[4 * j + i] * a[j];
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) c[i] += G->perspective[4 * j + i] * b[j];
        clip(m, w, want); double tol = 3e-5 * (1 + 1 / tan(m.fovy / 2) * (1 + 1 / m.aspect)) * (1 + fabs((m.zf + m.zn) / (m.zf - m.zn)));
        for (int i = 0; i < 4; i++) CLOSE("projection", (double)c[i], want[i], tol);
    }
    auto f3 = [&](const char *k, const float *a, const double *b) { for (int i = 0; i < 3; i++) CHECK(k, a[i] == (float)b[i], "component %d is %g instead of %g", i, a[i], b[i]); };
    f3("eye", G->world_v_cam, m.E + 4); f3("light", G->world_v_light, m.light); f3("lightcolor", G->light_color, m.color); f3("ambient", G->ambient, m.ambient);
    CHECK("power", G->light_power == (float)m.power, "%g", G->light_power); CHECK("show", (bool)G->show_visual == m.vis && (bool)G->show_collision == m.col, "show flags %d %d", G->show_visual, G->show_collision);
    for (int k = 0; k < 6; k++) { size_t i = (size_t)(k < 3 ? r.range(0, 400) : r.range(0, 40)); CHECK("mask", (bool)aa_gl_globals_is_masked(G, i) == masked(m, i), "frame %zu %s masked", i, masked(m, i) ? "is not" : "is"); }
    for (auto &p : m.mask) CHECK("mask", (bool)aa_gl_globals_is_masked(G, p.first) == p.second, "frame %zu %s masked", p.first, p.second ? "is not" : "is");
}
static void op(Rng &r, aa_gl_globals *G, Cam &m, int only = -1) {
    Buf v(7); double d[3]; for (double &x : d) x = r.coin(.2) ? 0 : r.uni(-2, 3);
    switch (only >= 0 ? only : (int)r.range(0, 13)) {
    case 0: rpose7(r, v); memcpy(m.E, v, 56); aa_gl_globals_set_camera(G, v); break;
    case 1: rpose7(r, v); memcpy(m.home, v, 56); aa_gl_globals_set_camera_home(G, v); break;
    case 2: memcpy(m.E, m.home, 56); aa_gl_globals_home_camera(G); break;
    case 3: { Buf b(d, 3); memcpy(m.light, d, 24); aa_gl_globals_set_light_position(G, b); break; }
    case 4: m.aspect = r.uni(.3, 3); aa_gl_globals_set_aspect(G, m.aspect); break;
    case 5: m.fovy = r.uni(.2, 2.5); m.aspect = r.uni(.3, 3); m.zn = r.logu(-2, 0); m.zf = m.zn * r.uni(2, 1000); aa_gl_globals_set_perspective(G, m.fovy, m.aspect, m.zn, m.zf); break;
    case 6: { Buf b(d, 3); memcpy(m.color, d, 24); aa_gl_globals_set_light_color(G, b); break; }
    case 7: m.power = r.uni(0, 100); aa_gl_globals_set_light_power(G, m.power); break;
    case 8: { Buf b(d, 3); memcpy(m.ambient, d, 24); aa_gl_globals_set_ambient(G, b); break; }
    case 9: { int x = (int)r.range(-1, 3) * (r.coin() ? 1 : 2); m.vis = x != 0; aa_gl_globals_set_show_visual(G, x); break; }
    case 10: { int x = (int)r.range(-1, 3) * (r.coin() ? 1 : 2); m.col = x != 0; aa_gl_globals_set_show_collision(G, x); break; }
    case 11: m.mask.clear(); aa_gl_globals_unmask_all(G); break;
    default: { size_t i = (size_t)(r.coin(.7) ? r.range(0, 40) : r.range(0, 400)); bool x = r.coin(.7); m.mask[i] = x; aa_gl_globals_mask(G, i, x); }
    }
}
static aa_gl_globals *globals(Cam &m) {
    aa_gl_globals *G = aa_gl_globals_create(); memcpy(m.E, G->world_E_cam, 56); memcpy(m.home, G->world_E_camhome, 56); m.fovy = G->fovy; m.aspect = G->aspect; m.zn = G->znear; m.zf = G->zfar;
    for (int i = 0; i < 3; i++) { m.light[i] = G->world_v_light[i]; m.color[i] = G->light_color[i]; m.ambient[i] = G->ambient[i]; } m.power = G->light_power; return G;
}
// ---------------------------------------------------------------- shapes
struct Geo { aa_rx_geom *g = nullptr; int type = 0; double d[5] = {0}; std::vector<float> v, n, uv; std::vector<unsigned> ix; std::vector<uint8_t> px; int tw = 1, th = 1; bool own_px = false; double scale = 1, color[4], spec[3]; bool vis = true, col = false; aa_rx_mesh *mesh = nullptr; octomap::OcTree *tree = nullptr; aa_rx_octree oct; std::vector<std::array<double, 4>> vox; };
static aa_rx_geom_opt *mkopt(Rng &r, Geo &g) {
    aa_rx_geom_opt *o = aa_rx_geom_opt_create(); for (double &x : g.color) x = r.coin(.2) ? (double)r.range(0, 1) : r.u01(); for (double &x : g.spec) x = r.coin(.3) ? 0 : r.u01();
    g.vis = r.coin(.7); g.col = r.coin(.5); g.scale = r.coin(.5) ? 1 : r.uni(.2, 3);
    aa_rx_geom_opt_set_color3(o, g.color[0], g.color[1], g.color[2]); aa_rx_geom_opt_set_alpha(o, g.color[3]); aa_rx_geom_opt_set_specular3(o, g.spec[0], g.spec[1], g.spec[2]); aa_rx_geom_opt_set_visual(o, g.vis); aa_rx_geom_opt_set_collision(o, g.col); aa_rx_geom_opt_set_scale(o, g.scale); return o;
}
static void mkgeom(Rng &r, Geo &g, int type) {
    aa_rx_geom_opt *o = mkopt(r, g); g.type = type; double *d = g.d;
    switch (type) {
    case AA_RX_BOX: for (int i = 0; i < 3; i++) d[i] = r.logu(-2, .7); g.g = aa_rx_geom_box(o, d); break;
    case AA_RX_SPHERE: d[0] = r.logu(-2, .7); g.g = aa_rx_geom_sphere(o, d[0]); break;
    case AA_RX_CYLINDER: d[0] = r.logu(-2, .7); d[1] = r.logu(-2, .7); g.g = aa_rx_geom_cylinder(o, d[0], d[1]); break;
    case AA_RX_CONE: d[0] = r.logu(-2, .7); d[1] = r.coin(.2) ? 0 : r.logu(-2, .7); d[2] = r.coin(.3) ? 0 : r.logu(-2, .7); if (d[1] == 0 && d[2] == 0) d[1] = 1; g.g = aa_rx_geom_cone(o, d[0], d[1], d[2]); break;
    case AA_RX_TORUS: d[2] = r.logu(-2, 0); d[1] = d[2] * r.uni(1.1, 10); d[0] = r.coin(.3) ? 2 * M_PI : r.uni(.05, 2 * M_PI); g.g = aa_rx_geom_torus(o, d[0], d[1], d[2]); break;
    case AA_RX_GRID: for (int i = 0; i < 2; i++) { d[2 + i] = r.logu(-2, 0); d[i] = d[2 + i] * r.uni(.2, 12); } d[4] = r.uni(.001, .1); g.g = aa_rx_geom_grid(o, d, d + 2, d[4]); break;
    case AA_RX_MESH: {
        size_t n = (size_t)r.range(1, 20), t = (size_t)r.range(1, 20); bool indexed = r.coin(.8); if (!indexed) n = 3 * ((n + 2) / 3);
        g.v.resize(3 * n); g.n.resize(3 * n); for (auto &x : g.v) x = (float)r.uni(-1, 1); for (size_t i = 0; i < n; i++) { V3 q = rdir(r); for (int k = 0; k < 3; k++) g.n[3 * i + (size_t)k] = (float)q[(size_t)k]; }
        g.mesh = aa_rx_mesh_create(); aa_rx_mesh_set_vertices(g.mesh, n, g.v.data(), 1); if (r.coin(.7)) aa_rx_mesh_set_normals(g.mesh, n, g.n.data(), 1); else g.n.clear();
        if (indexed) { g.ix.resize(3 * t); for (auto &x : g.ix) x = (unsigned)r.range(0, (long)n - 1); aa_rx_mesh_set_indices(g.mesh, t, g.ix.data(), 1); }
        if (r.coin(.4)) { g.own_px = true; g.tw = (int)r.range(1, 4); g.th = (int)r.range(1, 4); g.px.resize(4 * (size_t)(g.tw * g.th)); for (auto &x : g.px) x = (uint8_t)r.u64(); aa_rx_mesh_set_rgba(g.mesh, (size_t)g.tw, (size_t)g.th, g.px.data(), 1); if (r.coin(.8)) { g.uv.resize(2 * n); for (auto &x : g.uv) x = (float)r.u01(); aa_rx_mesh_set_uv(g.mesh, n, g.uv.data(), 1); } }
        else aa_rx_mesh_set_texture(g.mesh, o);
        g.g = aa_rx_geom_mesh(o, g.mesh); aa_rx_mesh_destroy(g.mesh); break; }
    default: {
        double res = r.logu(-1.3, 0); g.tree = new octomap::OcTree(res); int n = (int)r.range(1, 12);
        for (int i = 0; i < n; i++) { octomap::point3d p((float)r.uni(-6 * res, 6 * res), (float)r.uni(-6 * res, 6 * res), (float)r.uni(-6 * res, 6 * res)); bool occ = r.coin(.7); g.tree->updateNode(p, occ, false); }
        if (r.coin(.4)) { double e = 2 * res; for (int i = 0; i < 8; i++) g.tree->updateNode(octomap::point3d((float)(2 * e + (i & 1 ? .75 : .25) * e), (float)((i & 2 ? .75 : .25) * e), (float)((i & 4 ? .75 : .25) * e)), true, false); g.tree->updateInnerOccupancy(); g.tree->prune(); }
        else g.tree->updateInnerOccupancy();
        for (auto it = g.tree->begin_leafs(), e = g.tree->end_leafs(); it != e; ++it) if (it->getOccupancy() > .5) g.vox.push_back({it.getX(), it.getY(), it.getZ(), it.getSize()});
        g.oct.otree = g.tree; g.g = aa_rx_geom_octree(o, &g.oct); }
    }
    aa_rx_geom_opt_destroy(o);
}
static double area(const D3 &a, const D3 &b, const D3 &c) { double u[3], v[3], x[3]; for (int i = 0; i < 3; i++) { u[i] = b[i] - a[i]; v[i] = c[i] - a[i]; } for (int i = 0; i < 3; i++) x[i] = u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3]; return .5 * sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); }
// every edge of the surface belongs to an even number of triangles
static bool closed(const std::vector<D3> &p, double q) {
    std::map<std::array<long, 6>, int> e; auto key = [&](const D3 &a) { std::array<long, 3> k; for (size_t i = 0; i < 3; i++) k[i] = lround(a[i] / q); return k; };
    for (size_t t = 0; t + 2 < p.size(); t += 3) for (size_t i = 0; i < 3; i++) { auto a = key(p[t + i]), b = key(p[t + (i + 1) % 3]); if (a == b) continue; if (b < a) std::swap(a, b); e[{a[0], a[1], a[2], b[0], b[1], b[2]}]++; }
    for (auto &x : e) if (x.second % 2) return false; return true;
}
static void ckshape(const Geo &g, const fg::Draw &d) {
    const char *nm = aa_rx_geom_shape_str((enum aa_rx_geom_shape)g.type); std::vector<D3> p; event();
    for (auto &a : d.pos) p.push_back({a[0], a[1], a[2]});
    CHECK("triangles", d.mode == GL_TRIANGLES && d.count % 3 == 0 && p.size() == d.count, "a %s is drawn as mode %u with %zu vertices", nm, d.mode, d.count); if (p.size() != d.count || d.count % 3) return;
    // colour
    std::vector<uint8_t> want = g.px; if (!g.own_px) { want.resize(4); for (size_t i = 0; i < 4; i++) want[i] = (uint8_t)(g.color[i] * 255); }
    CHECK("texture", d.tw == g.tw && d.th == g.th && d.rgba == want, "the texture of a %s is %d x %d (%d %d %d %d)", nm, d.tw, d.th, d.rgba.size() > 3 ? d.rgba[0] : -1, d.rgba.size() > 3 ? d.rgba[1] : -1, d.rgba.size() > 3 ? d.rgba[2] : -1, d.rgba.size() > 3 ? d.rgba[3] : -1);
    double tot = 0; for (size_t t = 0; t + 2 < p.size(); t += 3) tot += area(p[t], p[t + 1], p[t + 2]);
    double lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9}; for (auto &x : p) for (int i = 0; i < 3; i++) { lo[i] = std::min(lo[i], x[(size_t)i]); hi[i] = std::max(hi[i], x[(size_t)i]); }
    auto normal = [&](size_t k) { return D3{d.nrm[k][0], d.nrm[k][1], d.nrm[k][2]}; }; bool nn = d.nrm.size() == p.size();
    if (g.type != AA_RX_GRID && g.type != AA_RX_MESH) { CHECK("normals", nn, "a %s has no normals", nm); if (nn) for (size_t k = 0; k < p.size(); k++) { D3 n = normal(k); double m = sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]); if (fabs(m - 1) > 1e-5) { fail("normals", "a normal of a %s has length %g", nm, m); break; } } event(p.size()); }
    const double *D = g.d; double q;
    switch (g.type) {
    case AA_RX_BOX: {
        double A = 2 * (D[0] * D[1] + D[1] * D[2] + D[0] * D[2]); CLOSE("boxarea", tot, A, 1e-5 * A); CHECK("boxclosed", closed(p, std::min({D[0], D[1], D[2]}) / 8), "the surface of a box has holes");
        for (size_t k = 0; k < p.size(); k++) { bool corner = true; for (size_t i = 0; i < 3; i++) corner &= fabs(fabs(p[k][i]) - D[i] / 2) <= 1e-6 * D[i]; if (!corner) { fail("boxvertex", "vertex (%g %g %g) is no corner of the box %g %g %g", p[k][0], p[k][1], p[k][2], D[0], D[1], D[2]); break; } }
        if (nn) for (size_t t = 0; t < p.size(); t += 3) for (size_t k = t; k < t + 3; k++) { D3 n = normal(k); for (size_t i = 0; i < 3; i++) if (fabs(n[i]) > .5) for (size_t m = t; m < t + 3; m++) if (p[m][i] * n[i] < D[i] * .49) { fail("boxnormal", "a face of a box has a normal that does not point outwards"); k = t = p.size(); i = 3; break; } }
        break; }
    case AA_RX_SPHERE:
        for (size_t k = 0; k < p.size(); k++) { double m = sqrt(p[k][0] * p[k][0] + p[k][1] * p[k][1] + p[k][2] * p[k][2]); if (fabs(m - D[0]) > 1e-5 * D[0]) { fail("spherevertex", "a vertex of a sphere of radius %g is at distance %g", D[0], m); break; } if (nn) { D3 n = normal(k); double c = (n[0] * p[k][0] + n[1] * p[k][1] + n[2] * p[k][2]) / m; if (c < 1 - 1e-5) { fail("spherenormal", "a normal of a sphere is not radial"); break; } } }
        q = 4 * M_PI * D[0] * D[0]; CHECK("spherearea", tot > .95 * q && tot < 1.0001 * q, "area %g of %g", tot, q); CHECK("sphereclosed", closed(p, D[0] / 1000), "the surface of a sphere has holes"); break;
    case AA_RX_CYLINDER: case AA_RX_CONE: {
        double h = D[0], r0 = D[1], r1 = g.type == AA_RX_CONE ? D[2] : D[1], rm = std::max(r0, r1), sl = sqrt(h * h + (r0 - r1) * (r0 - r1)), A = M_PI * (r0 * r0 + r1 * r1 + sl * (r0 + r1));
        for (size_t k = 0; k < p.size(); k++) { double z = p[k][2], m = hypot(p[k][0], p[k][1]); bool b = fabs(z) < 1e-6 * h, t = fabs(z - h) < 1e-5 * h, ok = (b || t) && (m < 1e-6 * rm || fabs(m - (b ? r0 : r1)) < 1e-5 * rm); if (!ok) { fail("conevertex", "vertex (%g %g %g) of a %s of height %g and radii %g %g", p[k][0], p[k][1], z, nm, h, r0, r1); break; } }
        CHECK("conearea", tot > .97 * A && tot < 1.0001 * A, "the area of a %s is %g instead of %g", nm, tot, A); CHECK("coneclosed", closed(p, std::min({h, r0 > 0 ? r0 : r1, r1 > 0 ? r1 : r0}) / 500), "the surface of a %s has holes", nm);
        if (nn) for (size_t t = 0; t < p.size(); t += 3) { bool cap = fabs(p[t][2] - p[t + 1][2]) < 1e-6 * h && fabs(p[t][2] - p[t + 2][2]) < 1e-6 * h; bool top = p[t][2] > h / 2, bad = false; for (size_t k = t; k < t + 3; k++) { D3 n = normal(k); if (cap) bad |= (top ? n[2] : -n[2]) < .9; else { double m = hypot(p[k][0], p[k][1]); if (g.type == AA_RX_CYLINDER) bad |= (n[0] * p[k][0] + n[1] * p[k][1]) / m < 1 - 1e-5; else if (m > 1e-6) bad |= (n[0] * p[k][0] + n[1] * p[k][1]) / m < 0; } } if (bad) { fail("conenormal", "a normal of a %s does not point outwards", nm); break; } }
        break; }
    case AA_RX_TORUS: {
        double ph0 = 1e9, ph1 = -1e9;
        for (size_t k = 0; k < p.size(); k++) { double m = hypot(p[k][0], p[k][1]), u = m - D[1], z = p[k][2], ph = atan2(p[k][1], p[k][0]); if (ph < -1e-4) ph += 2 * M_PI; ph0 = std::min(ph0, ph); ph1 = std::max(ph1, ph); if (fabs(hypot(u, z) - D[2]) > 1e-4 * D[2]) { fail("torusvertex", "a vertex of a torus is %g from the centre of the tube of radius %g", hypot(u, z), D[2]); break; } if (ph > D[0] + 1e-4) { fail("torusangle", "a vertex of a torus of angle %g is at angle %g", D[0], ph); break; } if (nn) { D3 n = normal(k); double c = (n[0] * p[k][0] + n[1] * p[k][1]) / m * u / D[2] + n[2] * z / D[2]; if (c < 1 - 1e-3) { fail("torusnormal", "a normal of a torus does not point away from the tube"); break; } } }
        CHECK("torusangle", ph0 < 1e-3 && ph1 > D[0] - (D[0] > 6 ? .2 : 1e-3), "a torus of angle %g covers %g to %g", D[0], ph0, ph1); q = D[0] * D[1] * 2 * M_PI * D[2]; CHECK("torusarea", tot > .97 * q && tot < 1.001 * q, "the area of a torus is %g instead of %g", tot, q); break; }
    case AA_RX_GRID: {
        bool ok = false; std::string why;
        for (int c = 0; c < 4 && !ok; c++) { // the last line may fall on either side of rounding
            long n[2]; for (int i = 0; i < 2; i++) n[i] = (long)floor(D[i] / D[2 + i] + ((c >> i) & 1 ? 1e-9 : -1e-9)); if (n[0] < 0 || n[1] < 0) continue;
            std::map<std::pair<int, long>, int> lines; bool good = true; double w = D[4] / 2;
            // triangles come as pieces of bars: each bar is a rectangle along x or y
            std::map<std::pair<int, long>, double> ar; std::map<std::pair<int, long>, std::array<double, 4>> bb;
            for (size_t t = 0; t < p.size() && good; t += 3) {
                double l[2] = {1e9, 1e9}, u[2] = {-1e9, -1e9}; for (size_t k = t; k < t + 3; k++) for (size_t i = 0; i < 2; i++) { l[i] = std::min(l[i], p[k][i]); u[i] = std::max(u[i], p[k][i]); } for (size_t k = t; k < t + 3; k++) good &= p[k][2] == 0;
                int best = -1; for (int ax = 0; ax < 2; ax++) { double cc = (l[ax] + u[ax]) / 2; long m = lround(cc / D[2 + ax]); if (labs(m) <= n[ax] && fabs(cc - (double)m * D[2 + ax]) < 1e-5 * (1 + fabs(cc)) && fabs((u[ax] - l[ax]) / 2 - w) < 1e-5 * (1 + fabs(cc)) && fabs(u[1 - ax] - (double)n[1 - ax] * D[3 - ax]) < 1e-5 * (1 + u[1 - ax]) && fabs(l[1 - ax] + (double)n[1 - ax] * D[3 - ax]) < 1e-5 * (1 + u[1 - ax])) { best = ax; lines[{ax, m}]++; ar[{ax, m}] += area(p[t], p[t + 1], p[t + 2]); break; } }
                if (best < 0) { good = false; char b[200]; snprintf(b, sizeof b, "a triangle spans x %g to %g, y %g to %g", l[0], u[0], l[1], u[1]); why = b; }
            }
            for (int ax = 0; ax < 2 && good; ax++) for (long m = -n[ax]; m <= n[ax] && good; m++) { auto it = ar.find({ax, m}); double A = 2 * (double)n[1 - ax] * D[3 - ax] * 2 * w; if (n[1 - ax] == 0 && it == ar.end()) continue; if (it == ar.end()) { good = false; why = "the line " + std::to_string(m) + " is missing"; } else if (fabs(it->second - A) > 1e-4 * (1 + A)) { if (!(n[0] == 0 || n[1] == 0)) { good = false; why = "the line " + std::to_string(m) + " is not covered once"; } } }
            ok |= good;
        }
        CHECK("grid", ok, "a grid of %g x %g with step %g x %g and width %g: %s", D[0], D[1], D[2], D[3], D[4], why.c_str()); break; }
    case AA_RX_MESH: {
        std::vector<unsigned> ix = g.ix; if (ix.empty()) for (unsigned i = 0; i < g.v.size() / 3; i++) ix.push_back(i);
        CHECK("meshindex", d.idx == ix, "%zu vertices drawn instead of %zu", d.idx.size(), ix.size()); if (d.idx != ix) break;
        if (!g.uv.empty()) for (size_t k = 0; k < ix.size(); k++) for (size_t i = 0; i < 2; i++) if (!d.has_uv || k >= d.uv.size() || d.uv[k][i] != g.uv[2 * ix[k] + i]) { fail("meshuv", "texture coordinate %zu of a mesh differs", k); return; }
        for (size_t k = 0; k < ix.size(); k++) for (size_t i = 0; i < 3; i++) { if (p[k][i] != g.v[3 * ix[k] + i]) { fail("meshvertex", "vertex %zu of a mesh differs", k); return; } if (!g.n.empty() && (!nn || d.nrm[k][i] != g.n[3 * ix[k] + i])) { fail("meshnormal", "normal %zu of a mesh differs", k); return; } }
        break; }
    default: { // octree: one cube for every occupied leaf
        CHECK("voxels", p.size() == 36 * g.vox.size(), "%zu triangles for %zu occupied voxels", p.size() / 3, g.vox.size()); double A = 0; for (auto &v : g.vox) A += 6 * v[3] * v[3]; CLOSE("voxelarea", tot, A, 1e-4 * (A + 1e-9));
        std::vector<double> per(g.vox.size());
        for (size_t t = 0; t + 2 < p.size(); t += 3) { double b = 1e9; size_t at = 0; for (size_t v = 0; v < g.vox.size(); v++) { double e = 0; for (size_t k = t; k < t + 3; k++) for (size_t i = 0; i < 3; i++) e = std::max(e, fabs(fabs(p[k][i] - g.vox[v][i]) - g.vox[v][3] / 2)); if (e < b) { b = e; at = v; } } if (g.vox.empty() || b > 1e-4 * g.vox[at][3]) { fail("voxelvertex", "a triangle of an octree is no part of an occupied voxel"); return; } per[at] += area(p[t], p[t + 1], p[t + 2]); }
        for (size_t v = 0; v < per.size(); v++) CHECK("voxelarea", fabs(per[v] - 6 * g.vox[v][3] * g.vox[v][3]) < 1e-3 * per[v] || per.size() > 1, "voxel %zu is covered with %g", v, per[v]);
        }
    }
}
static const int TYPES[] = {AA_RX_BOX, AA_RX_SPHERE, AA_RX_CYLINDER, AA_RX_CONE, AA_RX_TORUS, AA_RX_GRID, AA_RX_MESH, AA_RX_OCTREE};
struct Quiet { int e; Quiet() { fflush(stdout); e = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Quiet() { fflush(stdout); dup2(e, 1); close(e); } };

// the draws of the last frame against the model; map from drawn vertex buffer to geometry is made on the way
static void ckframe(Rng &r, fg::Ctx *c, const Cam &m, const std::map<std::string, TF> &pose, const std::vector<std::pair<std::string, Geo *>> &all, const std::function<long(const std::string &)> &id, bool shapes) {
    std::vector<std::pair<std::string, Geo *>> want; for (auto &x : all) { long f = id(x.first); if (f >= 0 && masked(m, (size_t)f)) continue; if ((m.vis && x.second->vis) || (m.col && x.second->col)) want.push_back(x); }
    CHECK("visible", c->frame.size() == want.size(), "%zu objects drawn instead of %zu of %zu", c->frame.size(), want.size(), all.size());
    std::vector<bool> used(c->frame.size()); size_t unmatched = 0; std::string who;
    for (auto &x : want) {
        Geo *g = x.second; TF T = pose.at(x.first); bool got = false;
        for (size_t k = 0; k < c->frame.size() && !got; k++) {
            if (used[k]) continue; auto &d = c->frame[k]; if (d.pos.empty()) { if (g->type == AA_RX_OCTREE && g->vox.empty()) { used[k] = got = true; } continue; }
            if (g->type == AA_RX_MESH && (d.pos.size() != (g->ix.empty() ? g->v.size() / 3 : g->ix.size()))) continue;
            bool ok = true; double sc = fabs(m.E[4]) + fabs(m.E[5]) + fabs(m.E[6]) + (double)(fabsl(T.p[0]) + fabsl(T.p[1]) + fabsl(T.p[2])) + 20;
            for (int j = 0; j < 3 && ok; j++) {
                size_t v = (size_t)r.range(0, (long)d.pos.size() - 1); fg::Shaded s = fg::shade(c, d, v, false); if (!s.ok_v) { count("unjudged_shader"); break; }
                V3 w = T * V3{{(L)(g->scale * d.pos[v][0]), (L)(g->scale * d.pos[v][1]), (L)(g->scale * d.pos[v][2])}}; double e[4]; clip(m, w, e); double big = sc * (1 + 1 / tan(m.fovy / 2) * (1 + 1 / m.aspect)) * (1 + fabs((m.zf + m.zn) / (m.zf - m.zn)));
                for (int i = 0; i < 4; i++) ok &= fabs(s.pos[i] - e[i]) < 4e-6 * big;
            }
            if (!ok) continue;
            // identity of the object: its colour or its data
            std::vector<uint8_t> px = g->px; if (!g->own_px) { px.resize(4); for (size_t i = 0; i < 4; i++) px[i] = (uint8_t)(g->color[i] * 255); }
            if (d.rgba != px) continue;
            used[k] = got = true; if (shapes) ckshape(*g, d);
            for (auto &u : d.u) if (u.second.size() == 3 && u.first.find("pecular") != std::string::npos) for (size_t i = 0; i < 3; i++) CHECK("specular", u.second[i] == (float)g->spec[i], "specular component %zu is %g instead of %g", i, u.second[i], g->spec[i]);
        }
        if (!got) { unmatched++; who = aa_rx_geom_shape_str((enum aa_rx_geom_shape)g->type); }
    }
    CHECK("placed", unmatched == 0, "%zu of %zu visible objects (a %s) are not drawn at the pose of their frame with their scale and colour", unmatched, want.size(), who.c_str());
    CHECK("state", c->cleared_c && c->cleared_d && c->enabled.count(GL_DEPTH_TEST) && c->enabled.count(GL_BLEND) && c->bs == GL_SRC_ALPHA && c->bd == GL_ONE_MINUS_SRC_ALPHA, "frame buffer or blending not set up");
    for (auto &a : c->attr) CHECK("state", !a.second.on, "vertex attribute left enabled");
}
