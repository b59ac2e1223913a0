// C27: geometry objects, meshes, options and octrees: contents and lifetimes.
#include "vk.hpp"
#include "reg.hpp"
#include "tfref.hpp"
#include <amino/rx.h>
#include <amino/rx/rxtype.h>
#include <amino/rx/scenegraph.h>
#include <amino/rx/scene_geom.h>
#include <amino/rx/scene_geom_internal.h>
#include <amino/rx/scene_collision.h>
#include <amino/rx/octree_geom.hpp>
#include <list>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#include <unistd.h>
#include <limits.h>
extern "C" { void aa_rx_geom_opt_set_color(struct aa_rx_geom_opt *, const double[3]); void aa_rx_geom_opt_set_specular(struct aa_rx_geom_opt *, const double[3]); }
using namespace vk;
namespace {
struct Opt { int shadow = 0, visual = 1, coll = 1; double col[3] = {.5, .5, .5}, alpha = 1, spec[3] = {0, 0, 0}, scale = 1; };
bool same(double a, double b) { return !memcmp(&a, &b, 8); }
void ckopt(const char *key, const aa_rx_geom_opt *o, const Opt &m) {
    event();
    CHECK(key, !aa_rx_geom_opt_get_no_shadow(o) == !m.shadow && !aa_rx_geom_opt_get_visual(o) == !m.visual && !aa_rx_geom_opt_get_collision(o) == !m.coll, "flags %d %d %d", aa_rx_geom_opt_get_no_shadow(o), aa_rx_geom_opt_get_visual(o), aa_rx_geom_opt_get_collision(o));
    double r = aa_rx_geom_opt_get_color_red(o), g = aa_rx_geom_opt_get_color_green(o), b = aa_rx_geom_opt_get_color_blue(o);
    CHECK(key, same(r, m.col[0]) && same(g, m.col[1]) && same(b, m.col[2]) && same(aa_rx_geom_opt_get_alpha(o), m.alpha), "colour %g %g %g instead of %g %g %g, alpha %g of %g", r, g, b, m.col[0], m.col[1], m.col[2], aa_rx_geom_opt_get_alpha(o), m.alpha);
    r = aa_rx_geom_opt_get_specular_red(o), g = aa_rx_geom_opt_get_specular_green(o), b = aa_rx_geom_opt_get_specular_blue(o);
    CHECK(key, same(r, m.spec[0]) && same(g, m.spec[1]) && same(b, m.spec[2]), "specular %g %g %g instead of %g %g %g", r, g, b, m.spec[0], m.spec[1], m.spec[2]);
    CHECK(key, same(aa_rx_geom_opt_get_scale(o), m.scale), "scale %g instead of %g", aa_rx_geom_opt_get_scale(o), m.scale);
}
double val(Rng &r) { return r.coin(.1) ? r.pick(std::vector<double>{0, -0.0, 1, NAN, INFINITY, -1, 1e308, 5e-324}) : r.u01(); }
void edit(Rng &r, aa_rx_geom_opt *o, Opt &m) {
    int f = r.coin() ? 0 : (int)r.pick(std::vector<int>{1, 2, -1, 256, INT_MIN});
    switch (r.range(0, 8)) {
    case 0: aa_rx_geom_opt_set_no_shadow(o, f); m.shadow = f; break;
    case 1: aa_rx_geom_opt_set_visual(o, f); m.visual = f; break;
    case 2: aa_rx_geom_opt_set_collision(o, f); m.coll = f; break;
    case 3: for (auto &x : m.col) x = val(r); aa_rx_geom_opt_set_color3(o, m.col[0], m.col[1], m.col[2]); break;
    case 4: for (auto &x : m.spec) x = val(r); aa_rx_geom_opt_set_specular3(o, m.spec[0], m.spec[1], m.spec[2]); break;
    case 5: m.alpha = val(r); aa_rx_geom_opt_set_alpha(o, m.alpha); break;
    case 6: m.scale = val(r); aa_rx_geom_opt_set_scale(o, m.scale); break;
    case 7: for (auto &x : m.col) x = val(r); { Buf b(m.col, 3); aa_rx_geom_opt_set_color(o, b); } break;
    default: for (auto &x : m.spec) x = val(r); { Buf b(m.spec, 3); aa_rx_geom_opt_set_specular(o, b); }
    }
}
struct Mesh { aa_rx_mesh *h = NULL; unsigned mine = 1, geoms = 0; size_t nv = 0, ni = 0; std::vector<float> v, *vown = NULL; std::vector<unsigned> ix, *iown = NULL; bool vset = false, iset = false;
    std::vector<float> n, u; const float *nown = NULL, *uown = NULL; std::vector<uint8_t> px; const uint8_t *pown = NULL; size_t w = 0, hh = 0; bool nset = false, uset = false, pset = false; };
struct Geom { aa_rx_geom *g; int type; double d[8]; Mesh *mesh = NULL; Opt opt; unsigned mine = 1, inside = 0; };
struct Graph { aa_rx_sg *sg; std::map<std::string, std::multiset<Geom *>> at; bool clean = false; };
struct Hist {
    Rng &r; std::vector<Mesh *> meshes; std::vector<Geom *> geoms; std::vector<Graph *> graphs; std::vector<aa_rx_geom_opt *> opts; std::vector<Opt> mo; std::list<std::vector<float>> keep; std::list<std::vector<unsigned>> keepi; uint64_t sig = 0; std::list<std::vector<uint8_t>> keepc;
    Hist(Rng &x) : r(x) { int n = (int)r.range(1, 3); while (n--) { opts.push_back(aa_rx_geom_opt_create()); mo.push_back(Opt()); } }
    size_t anyopt() { return (size_t)r.range(0, (long)opts.size() - 1); }
    void fresh(Geom *g) { // what a geometry must be, right after creation
        geoms.push_back(g); ck(g);
    }
    void make(Geom *from = NULL) {
        size_t o = anyopt(); Geom *g = new Geom; g->opt = mo[o]; 
        if (from) { g->type = from->type; memcpy(g->d, from->d, sizeof g->d); g->mesh = from->mesh; if (g->mesh) g->mesh->geoms++; g->g = aa_rx_geom_modify_opt(from->g, opts[o]); fresh(g); return; }
        for (auto &x : g->d) x = val(r);
        int t = (int)r.range(0, 6); if (t == 6 && meshes.empty()) t = 0;
        double *d = g->d;
        switch (t) {
        case 0: { Buf b(d, 3); g->type = AA_RX_BOX; g->g = aa_rx_geom_box(opts[o], b); break; }
        case 1: g->type = AA_RX_SPHERE; g->g = aa_rx_geom_sphere(opts[o], d[0]); break;
        case 2: g->type = AA_RX_CYLINDER; g->g = aa_rx_geom_cylinder(opts[o], d[0], d[1]); break;
        case 3: g->type = AA_RX_CONE; g->g = aa_rx_geom_cone(opts[o], d[0], d[1], d[2]); break;
        case 4: { Buf a(d, 2), b(d + 2, 2); g->type = AA_RX_GRID; g->g = aa_rx_geom_grid(opts[o], a, b, d[4]); break; }
        case 5: g->type = AA_RX_TORUS; g->g = aa_rx_geom_torus(opts[o], d[0], d[1], d[2]); break;
        default: { Mesh *m = meshes[(size_t)r.range(0, (long)meshes.size() - 1)]; g->type = AA_RX_MESH; g->mesh = m; m->geoms++; g->g = aa_rx_geom_mesh(opts[o], m->h); }
        }
        fresh(g);
    }
    static bool same4(const float *a, const std::vector<float> &b) { return b.empty() || !memcmp(a, b.data(), 4 * b.size()); }
    void ckmesh(const Mesh *m) {
        event(); CHECK("meshref", aa_rx_mesh_refcount(m->h) == m->mine + m->geoms, "mesh has %u references instead of %u", aa_rx_mesh_refcount(m->h), m->mine + m->geoms);
        size_t n = 77; const float *v = aa_rx_mesh_get_vertices(m->h, &n); CHECK("vertices", n == m->nv && (!m->vset ? v == NULL : m->vown ? v == m->vown->data() : v != NULL), "%zu vertices instead of %zu", n, m->nv); CHECK("vertices", v == aa_rx_mesh_get_vertices(m->h, NULL) && (!m->vset || n != m->nv || !n || !memcmp(v, m->v.data(), 12 * n)), "vertices differ");
        const unsigned *x = aa_rx_mesh_get_indices(m->h, &n); CHECK("indices", n == m->ni && (!m->iset ? x == NULL : m->iown ? x == m->iown->data() : x != NULL), "%zu triangles instead of %zu", n, m->ni); CHECK("indices", x == aa_rx_mesh_get_indices(m->h, NULL) && (!m->iset || n != m->ni || !n || !memcmp(x, m->ix.data(), 12 * n)), "triangles differ");
        const aa_rx_mesh *h = m->h; // what has no getter
        CHECK("normals", !m->nset ? !h->normals : m->nown ? h->normals == m->nown : h->normals && same4(h->normals, m->n), "normals differ");
        CHECK("uv", !m->uset ? !h->uv : m->uown ? h->uv == m->uown : h->uv && same4(h->uv, m->u), "texture coordinates differ"); if (m->uown) CHECK("uv", same4(m->uown, m->u), "the user's texture coordinates changed"); if (m->nown) CHECK("normals", same4(m->nown, m->n), "the user's normals changed");
        CHECK("rgba", h->width_rgba == m->w && h->height_rgba == m->hh && (!m->pset ? !h->rgba : m->pown ? h->rgba == m->pown : h->rgba != NULL) && (m->px.empty() || !memcmp(h->rgba, m->px.data(), m->px.size())), "texture of %zu x %zu differs", m->w, m->hh);
    }
    void ck(const Geom *g) {
        event(); enum aa_rx_geom_shape t = AA_RX_NOSHAPE; void *s = aa_rx_geom_shape(g->g, &t); const double *d = g->d; bool ok = (int)t == g->type && s == aa_rx_geom_shape(g->g, NULL);
        CHECK("shape", ok, "shape %s", aa_rx_geom_shape_str(t)); if (!ok) return;
        CHECK("georef", aa_rx_geom_refcount(g->g) == g->mine + g->inside, "%s has %u references instead of %u", aa_rx_geom_shape_str(t), aa_rx_geom_refcount(g->g), g->mine + g->inside);
        if (t == AA_RX_BOX) ok = !memcmp(((aa_rx_shape_box *)s)->dimension, d, 24);
        else if (t == AA_RX_SPHERE) ok = same(((aa_rx_shape_sphere *)s)->radius, d[0]);
        else if (t == AA_RX_CYLINDER) { auto *c = (aa_rx_shape_cylinder *)s; ok = same(c->height, d[0]) && same(c->radius, d[1]); }
        else if (t == AA_RX_CONE) { auto *c = (aa_rx_shape_cone *)s; ok = same(c->height, d[0]) && same(c->start_radius, d[1]) && same(c->end_radius, d[2]); }
        else if (t == AA_RX_GRID) { auto *c = (aa_rx_shape_grid *)s; ok = !memcmp(c->dimension, d, 16) && !memcmp(c->delta, d + 2, 16) && same(c->width, d[4]); }
        else if (t == AA_RX_TORUS) { auto *c = (aa_rx_shape_torus *)s; ok = same(c->angle, d[0]) && same(c->major_radius, d[1]) && same(c->minor_radius, d[2]); }
        else ok = s == (void *)g->mesh->h;
        CHECK("dims", ok, "the dimensions of a %s changed", aa_rx_geom_shape_str(t));
        ckopt("geomopt", aa_rx_geom_get_opt(g->g), g->opt);
        if (g->mesh) ckmesh(g->mesh);
    }
    Geom *gone(Geom *g) { if (g->mine + g->inside) return g; geoms.erase(std::find(geoms.begin(), geoms.end(), g)); Mesh *m = g->mesh; delete g; if (m) { m->geoms--; dropped(m); } return NULL; }
    void cull(const std::set<Geom *> &u) { std::vector<Geom *> left; for (auto *x : u) if (gone(x)) left.push_back(x); for (auto *x : left) ck(x); }
    void dropped(Mesh *m) { if (m->mine + m->geoms) return; meshes.erase(std::find(meshes.begin(), meshes.end(), m)); delete m; }
    void setmesh(Mesh *m) {
        int copy = (int)r.range(0, 1);
        switch (r.range(0, 5)) {
        case 0: { size_t n = (size_t)r.range(0, r.coin(.01) ? 3000 : 12); std::vector<float> v(3 * n + 1); for (auto &x : v) x = (float)r.uni(-1, 1); m->v = v; m->nv = n; m->vset = true; if (copy) { float *h = (float *)malloc(12 * n + 1); memcpy(h, v.data(), 12 * n); aa_rx_mesh_set_vertices(m->h, n, h, r.coin() ? 1 : 2); free(h); m->vown = NULL; } else { keep.push_back(v); m->vown = &keep.back(); aa_rx_mesh_set_vertices(m->h, n, m->vown->data(), 0); } break; }
        case 1: { size_t n = (size_t)r.range(0, r.coin(.01) ? 3000 : 12); std::vector<unsigned> v(3 * n + 1); for (auto &x : v) x = (unsigned)r.u64(); m->ix = v; m->ni = n; m->iset = true; if (copy) { unsigned *h = (unsigned *)malloc(12 * n + 1); memcpy(h, v.data(), 12 * n); aa_rx_mesh_set_indices(m->h, n, h, 1); free(h); m->iown = NULL; } else { keepi.push_back(v); m->iown = &keepi.back(); aa_rx_mesh_set_indices(m->h, n, m->iown->data(), 0); } break; }
        case 2: case 3: { bool uv = r.coin(); size_t n = (size_t)r.range(0, r.coin(.01) ? 3000 : 12), e = uv ? 2 : 3; std::vector<float> v(e * n + 1); for (auto &x : v) x = (float)r.uni(-1, 1); (uv ? m->u : m->n).assign(v.begin(), v.end() - 1); (uv ? m->uset : m->nset) = true; const float *own = NULL; auto set = uv ? aa_rx_mesh_set_uv : aa_rx_mesh_set_normals;
            if (copy) { float *h = (float *)malloc(4 * e * n + 1); memcpy(h, v.data(), 4 * e * n); set(m->h, n, h, r.coin() ? 1 : 2); free(h); } else { keep.push_back(v); own = keep.back().data(); set(m->h, n, own, 0); } (uv ? m->uown : m->nown) = own; break; }
        case 4: { size_t w = (size_t)r.range(0, 5), h = (size_t)r.range(0, 5); std::vector<uint8_t> v(4 * w * h + 1); for (auto &x : v) x = (uint8_t)r.u64(); m->px.assign(v.begin(), v.end() - 1); m->pset = true; m->w = w; m->hh = h; m->pown = NULL; if (copy) { uint8_t *p = (uint8_t *)malloc(4 * w * h + 1); memcpy(p, v.data(), 4 * w * h); aa_rx_mesh_set_rgba(m->h, w, h, p, 1); free(p); } else { keepc.push_back(v); m->pown = keepc.back().data(); aa_rx_mesh_set_rgba(m->h, w, h, m->pown, 0); } break; }
        default: { aa_rx_geom_opt *o = aa_rx_geom_opt_create(); double c[4]; for (double &x : c) x = r.coin(0.2) ? (double)r.range(0, 1) : r.u01(); aa_rx_geom_opt_set_color3(o, c[0], c[1], c[2]); aa_rx_geom_opt_set_alpha(o, c[3]); aa_rx_mesh_set_texture(m->h, o); aa_rx_geom_opt_destroy(o);
            m->px.clear(); for (double x : c) m->px.push_back((uint8_t)(x * 255)); m->w = m->hh = 1; m->pset = true; m->pown = NULL; m->u.assign(2 * m->nv, 0); m->uset = true; m->uown = NULL; }
        }
        ckmesh(m);
    }
    static void coll(void *cx, aa_rx_frame_id id, aa_rx_geom *g) { ((std::map<aa_rx_frame_id, std::multiset<aa_rx_geom *>> *)cx)->operator[](id).insert(g); }
    void ckgraph(Graph *G) {
        if (!G->clean) { if (aa_rx_sg_init(G->sg)) abort(); G->clean = true; }
        std::map<aa_rx_frame_id, std::multiset<aa_rx_geom *>> got; aa_rx_sg_map_geom(G->sg, coll, &got);
        for (auto &p : G->at) { std::multiset<aa_rx_geom *> want; for (auto *g : p.second) want.insert(g->g); aa_rx_frame_id id = aa_rx_sg_frame_id(G->sg, p.first.c_str()); event(); CHECK("attached", got[id] == want, "%zu geometries at a frame instead of %zu", got[id].size(), want.size()); got.erase(id); }
        size_t left = 0; for (auto &p : got) left += p.second.size(); CHECK("attached", !left, "%zu geometries at frames that have none", left);
    }
    void step() {
        int op = (int)r.range(0, 15); sig = Rng::mix(sig * 31 + (uint64_t)op + geoms.size() * 1000 + meshes.size() * 77); distinct(sig);
        Geom *g = geoms.empty() ? NULL : geoms[(size_t)r.range(0, (long)geoms.size() - 1)]; Mesh *m = meshes.empty() ? NULL : meshes[(size_t)r.range(0, (long)meshes.size() - 1)]; Graph *G = graphs.empty() ? NULL : graphs[(size_t)r.range(0, (long)graphs.size() - 1)];
        auto frame = [&](Graph *q) { std::vector<std::string> f; for (auto &p : q->at) f.push_back(p.first); return f[(size_t)r.range(0, (long)f.size() - 1)]; };
        if (op < 2) { size_t o = anyopt(); edit(r, opts[o], mo[o]); ckopt("opt", opts[o], mo[o]); }
        else if (op < 4) make();
        else if (op == 4) { Mesh *x = new Mesh; x->h = aa_rx_mesh_create(); meshes.push_back(x); ckmesh(x); }
        else if (op < 7) { if (m) setmesh(m); }
        else if (op == 7) { if (m && m->mine) { m->mine--; aa_rx_mesh_destroy(m->h); if (m->mine + m->geoms) ckmesh(m); dropped(m); } }
        else if (op == 8) { if (g && g->mine) { aa_rx_geom *c = aa_rx_geom_copy(g->g); CHECK("copy", c == g->g, "a copy is another object"); g->mine++; ck(g); } }
        else if (op == 9) { if (g && g->mine) { g->mine--; aa_rx_geom_destroy(g->g); if (gone(g)) ck(g); } }
        else if (op == 10) { if (g) { Opt before = g->opt; make(g); (void)before; ck(g); } }
        else if (op == 11) { if (graphs.size() < 3) { Graph *q = new Graph; q->sg = aa_rx_sg_create(); int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) { std::string f = std::string(1, (char)('a' + i)); aa_rx_sg_add_frame_fixed(q->sg, i && r.coin() ? "a" : "", f.c_str(), NULL, NULL); q->at[f]; } graphs.push_back(q); } }
        else if (op == 12) { if (G && g && g->mine) { std::string f = frame(G); aa_rx_geom_attach(G->sg, f.c_str(), g->g); g->mine--; g->inside++; G->at[f].insert(g); G->clean = false; ck(g); } }
        else if (op == 13) { if (G && graphs.size() < 3) { ckgraph(G); Graph *q = new Graph; q->sg = aa_rx_sg_copy(G->sg); q->at = G->at; for (auto &p : q->at) for (auto *x : p.second) x->inside++; graphs.push_back(q); for (auto &p : q->at) for (auto *x : p.second) ck(x); } }
        else if (op == 14) { if (G && r.coin(.6)) { auto at = G->at; graphs.erase(std::find(graphs.begin(), graphs.end(), G)); aa_rx_sg_destroy(G->sg); delete G; for (auto &p : at) for (auto *x : p.second) x->inside--; std::set<Geom *> u; for (auto &p : at) u.insert(p.second.begin(), p.second.end()); cull(u); }
                        else if (G && G->at.size() > 1) { std::string f; int k = 9; do f = frame(G); while (f == "a" && k--); if (f != "a") { auto at = G->at[f]; aa_rx_sg_rm_frame(G->sg, f.c_str()); G->at.erase(f); G->clean = false; for (auto *x : at) x->inside--; std::set<Geom *> u(at.begin(), at.end()); cull(u); } } }
        else if (G) ckgraph(G);
    }
    void finish() {
        while (!graphs.empty()) { Graph *G = graphs.back(); graphs.pop_back(); aa_rx_sg_destroy(G->sg); std::set<Geom *> u; for (auto &p : G->at) for (auto *x : p.second) { x->inside--; u.insert(x); } delete G; cull(u); }
        while (!geoms.empty()) { Geom *g = geoms.back(); g->mine--; aa_rx_geom_destroy(g->g); gone(g); }
        while (!meshes.empty()) { Mesh *m = meshes.back(); m->mine--; aa_rx_mesh_destroy(m->h); dropped(m); }
        for (auto *o : opts) aa_rx_geom_opt_destroy(o);
    }
};
}
SECTION(life, 6000, 120000) {
    size_t before = 0; Rng again = rng; int ops = 0;
    // the second run of the same history must give back every byte
    for (int k = 0; k < 2; k++) {
        if (k) before = __sanitizer_get_current_allocated_bytes();
        { Rng r = again; Hist h(r); ops = (int)r.range(5, 80); for (int i = 0; i < ops; i++) h.step(); h.finish(); }
        if (k) { size_t after = __sanitizer_get_current_allocated_bytes(); CHECK("leak", after <= before, "%ld bytes still allocated after destroying every object", (long)(after - before)); }
    }
    note("%d operations", ops);
}
SECTION(octree, 400, 6000) {
    fresh_region(rng);
    double res = rng.pick(std::vector<double>{.05, .1, .25, .5, 1, 2}); octomap::OcTree t(res);
    std::map<std::string, int> u; int n = (int)rng.range(0, 40); double c[3]; for (auto &x : c) x = rng.uni(-20, 20) * res;
    if (rng.coin(.4)) { int b = (int)rng.range(2, 4); for (int i = 0; i < b; i++) for (int j = 0; j < b; j++) for (int k = 0; k < b; k++) t.updateNode(octomap::point3d((float)((i + .5) * res), (float)((j + .5) * res), (float)((k + .5) * res)), true); }
    for (int i = 0; i < n; i++) { octomap::point3d p((float)(c[0] + rng.uni(-6, 6) * res), (float)(c[1] + rng.uni(-6, 6) * res), (float)(c[2] + rng.uni(-6, 6) * res)); int k = (int)rng.range(1, 4); bool occ = rng.coin(.7); while (k--) t.updateNode(p, occ); }
    t.updateInnerOccupancy(); t.prune();
    struct aa_rx_octree o{&t}, *po = &o; bool file = rng.coin(.3); std::string path;
    if (file) { char tmp[] = "/tmp/c27XXXXXX"; int fd = mkstemp(tmp); close(fd); path = std::string(tmp) + ".ot"; unlink(tmp); t.write(path); po = aa_rx_geom_read_octree_from_file(path.c_str()); unlink(path.c_str()); CHECK("read", po && po->otree && po->otree->size() == t.size() && po->otree->getResolution() == res, "a written octree is not read back"); if (!po || !po->otree) return; }
    struct Leaf { double x[3], d; }; std::vector<Leaf> want; octomap::OcTree *T = po->otree;
    for (auto it = T->begin_leafs(); it != T->end_leafs(); ++it) if (it->getOccupancy() > .5) { double d = res; for (unsigned k = it.getDepth(); k < T->getTreeDepth(); k++) d *= 2; want.push_back({{it.getX(), it.getY(), it.getZ()}, d}); }
    aa_rx_sg *sg = aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(sg, "", "base", NULL, NULL); bool root = rng.coin(), vis = rng.coin(.8); aa_rx_geom_opt *op = vis ? aa_rx_geom_opt_create() : NULL; Opt mo; if (vis) for (int i = 0; i < 5; i++) edit(rng, op, mo);
    LIB(aa_rx_sg_add_octree(sg, root ? "" : "base", "oct", po, op));
    if (aa_rx_sg_init(sg)) abort();
    CHECK("frames", aa_rx_sg_frame_count(sg) == want.size() + 1, "%zu frames for %zu occupied voxels", aa_rx_sg_frame_count(sg), want.size());
    std::map<aa_rx_frame_id, std::multiset<aa_rx_geom *>> got; aa_rx_sg_map_geom(sg, Hist::coll, &got);
    std::vector<double> REL(7 * aa_rx_sg_frame_count(sg)), ABS(REL.size()); aa_rx_sg_tf(sg, 0, NULL, aa_rx_sg_frame_count(sg), REL.data(), 7, ABS.data(), 7);
    std::vector<Leaf> have; std::set<std::string> seen;
    for (size_t i = 0; i < aa_rx_sg_frame_count(sg); i++) {
        const char *nm = aa_rx_sg_frame_name(sg, (aa_rx_frame_id)i); if (!strcmp(nm, "base")) continue;
        CHECK("name", !strncmp(nm, "oct/", 4) && seen.insert(nm).second, "frame '%s'", nm); CHECK("parent", aa_rx_sg_frame_parent(sg, (aa_rx_frame_id)i) == (root ? AA_RX_FRAME_ROOT : aa_rx_sg_frame_id(sg, "base")), "a voxel is not attached to its parent");
        double E[7]; memcpy(E, &REL[7 * i], 56); CHECK("rot", E[0] == 0 && E[1] == 0 && E[2] == 0 && std::fabs(E[3]) == 1, "a voxel is rotated");
        Leaf l{{E[4], E[5], E[6]}, 0}; auto &gs = got[(aa_rx_frame_id)i]; CHECK("geoms", gs.size() == (vis ? 1u : 0u), "%zu geometries on a voxel", gs.size());
        if (vis && gs.size() == 1) { enum aa_rx_geom_shape ty; auto *b = (aa_rx_shape_box *)aa_rx_geom_shape(*gs.begin(), &ty); CHECK("box", ty == AA_RX_BOX, "a voxel is a %s", aa_rx_geom_shape_str(ty)); if (ty == AA_RX_BOX) { CHECK("cube", b->dimension[0] == b->dimension[1] && b->dimension[1] == b->dimension[2], "a voxel is no cube"); l.d = b->dimension[0]; } ckopt("voxelopt", aa_rx_geom_get_opt(*gs.begin()), mo); }
        have.push_back(l);
    }
    // every occupied voxel is one frame of its centre and size
    for (auto &w : want) { bool f = false; for (size_t i = 0; i < have.size() && !f; i++) { auto &h = have[i]; if (std::fabs(h.x[0] - w.x[0]) < 1e-9 && std::fabs(h.x[1] - w.x[1]) < 1e-9 && std::fabs(h.x[2] - w.x[2]) < 1e-9) { f = true; event(); if (vis) CHECK("size", std::fabs(h.d - w.d) < 1e-6 * w.d, "a voxel of size %g has a box of size %g", w.d, h.d); have.erase(have.begin() + (long)i); } } CHECK("voxel", f, "an occupied voxel at %g %g %g is missing", w.x[0], w.x[1], w.x[2]); }
    distinct(Rng::mix(want.size() ^ (uint64_t)(res * 100) << 20 ^ rng.u64() << 30)); note("%zu voxels of %g", want.size(), res);
    aa_rx_sg_destroy(sg);
    { // an octree as one geometry
        aa_rx_geom_opt *o2 = aa_rx_geom_opt_create(), *o3 = aa_rx_geom_opt_create(); Opt m2, m3; for (int i = 0; i < 4; i++) { edit(rng, o2, m2); edit(rng, o3, m3); }
        aa_rx_geom *g = aa_rx_geom_octree(o2, po), *h = aa_rx_geom_modify_opt(g, o3); enum aa_rx_geom_shape a, b; CHECK("octgeom", aa_rx_geom_shape(g, &a) == po && aa_rx_geom_shape(h, &b) == po && a == AA_RX_OCTREE && b == AA_RX_OCTREE, "the shape of an octree geometry is lost");
        CHECK("octstr", !strcmp(aa_rx_geom_shape_str(AA_RX_OCTREE), "octree"), "%s", aa_rx_geom_shape_str(AA_RX_OCTREE));
        ckopt("octopt", aa_rx_geom_get_opt(g), m2); ckopt("octopt", aa_rx_geom_get_opt(h), m3); CHECK("octref", aa_rx_geom_refcount(g) == 1 && aa_rx_geom_refcount(h) == 1, "references");
        aa_rx_geom_destroy(g); aa_rx_geom_destroy(h); aa_rx_geom_opt_destroy(o2); aa_rx_geom_opt_destroy(o3);
    }
    if (op) aa_rx_geom_opt_destroy(op);
    if (file) { delete po->otree; delete po; }
}
VK_MAIN
