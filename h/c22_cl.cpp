// C22: collision sets, collision detection and separation distances.
// Two oracles judge every pair: certificates from alternating projections in
// long double (a separating direction, or a common point of shrunken shapes),
// and direct FCL calls on objects built here from the meaning of each shape.
#include "vk.hpp"
#include "reg.hpp"
#include "tfref.hpp"
#include "sgmodel.hpp"
#include <amino/rx/scene_collision.h>
#include <fcl/fcl.h>
using namespace vk;
typedef fcl::CollisionObject<double> FObj;
namespace {
enum { SPH, BOX, CYL, MESH };
struct Geo { int type; double d[3]; double scale; bool collide; std::vector<float> v; std::vector<unsigned> ix; std::shared_ptr<fcl::CollisionGeometry<double>> f; };
struct Placed { const Geo *g; TF T; double E[7]; };
V3 sc(V3 a, L s) { return s * a; }
L dot3(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
V3 mulT(const M3 &R, const V3 &x) { V3 r; for (int i = 0; i < 3; i++) r[i] = R(0, i) * x[0] + R(1, i) * x[1] + R(2, i) * x[2]; return r; }
// one convex piece: a solid or a triangle
struct Cvx { int type; L d[3]; TF T; V3 t[3];
    V3 proj(const V3 &p) const {
        if (type == MESH) return tri(p);
        V3 x = mulT(T.R, p - T.p);
        if (type == SPH) { L n = norm(x); if (n > d[0]) x = (d[0] / n) * x; }
        else if (type == BOX) for (int i = 0; i < 3; i++) x[i] = std::max(-d[i] / 2, std::min(d[i] / 2, x[i]));
        else { L r = sqrtl(x[0] * x[0] + x[1] * x[1]); if (r > d[0]) { x[0] *= d[0] / r; x[1] *= d[0] / r; } x[2] = std::max(d[2], std::min(d[1], x[2])); }
        return T.R * x + T.p;
    }
    // greatest n.x
    L sup(const V3 &n) const {
        if (type == MESH) return std::max(dot3(n, t[0]), std::max(dot3(n, t[1]), dot3(n, t[2])));
        V3 m = mulT(T.R, n); L s = dot3(n, T.p);
        if (type == SPH) return s + d[0] * norm(m);
        if (type == BOX) { for (int i = 0; i < 3; i++) s += fabsl(m[i]) * d[i] / 2; return s; }
        return s + d[0] * sqrtl(m[0] * m[0] + m[1] * m[1]) + std::max(m[2] * d[1], m[2] * d[2]);
    }
    V3 tri(const V3 &p) const {   // closest point of a triangle (Ericson)
        V3 a = t[0], b = t[1], c = t[2], ab = b - a, ac = c - a, ap = p - a; L d1 = dot3(ab, ap), d2 = dot3(ac, ap);
        if (d1 <= 0 && d2 <= 0) return a;
        V3 bp = p - b; L d3 = dot3(ab, bp), d4 = dot3(ac, bp); if (d3 >= 0 && d4 <= d3) return b;
        L vc = d1 * d4 - d3 * d2; if (vc <= 0 && d1 >= 0 && d3 <= 0) return a + (d1 / (d1 - d3)) * ab;
        V3 cp = p - c; L d5 = dot3(ab, cp), d6 = dot3(ac, cp); if (d6 >= 0 && d5 <= d6) return c;
        L vb = d5 * d2 - d1 * d6; if (vb <= 0 && d2 >= 0 && d6 <= 0) return a + (d2 / (d2 - d6)) * ac;
        L va = d3 * d6 - d5 * d4; if (va <= 0 && d4 - d3 >= 0 && d5 - d6 >= 0) return b + ((d4 - d3) / ((d4 - d3) + (d5 - d6))) * (c - b);
        L den = 1 / (va + vb + vc); return a + (vb * den) * ab + (vc * den) * ac;
    }
    bool shrink(L m) { if (type == SPH) { d[0] -= m; return d[0] > 0; } if (type == BOX) { for (auto &x : d) { x -= 2 * m; if (x <= 0) return false; } return true; } if (type == CYL) { d[0] -= m; d[1] -= m; d[2] += m; return d[0] > 0 && d[1] > d[2]; } return true; }
};
std::vector<Cvx> pieces(const Placed &p) {
    std::vector<Cvx> r; Cvx c; const Geo &g = *p.g; L s = g.scale; c.type = g.type; c.T = p.T;
    if (g.type == SPH) c.d[0] = s * g.d[0]; else if (g.type == BOX) for (int i = 0; i < 3; i++) c.d[i] = s * g.d[i];
    else if (g.type == CYL) { c.d[0] = s * g.d[0]; c.d[1] = s * g.d[1]; c.d[2] = 0; }
    if (g.type != MESH) { r.push_back(c); return r; }
    for (size_t i = 0; i + 2 < g.ix.size(); i += 3) { for (int k = 0; k < 3; k++) { const float *v = &g.v[3 * g.ix[i + (size_t)k]]; c.t[k] = p.T.R * V3{{s * v[0], s * v[1], s * v[2]}} + p.T.p; } r.push_back(c); }
    return r;
}
// bounds of the distance of two convex pieces
void bounds(const Cvx &A, const Cvx &B, L *lo, L *up, L tol, int iters) {
    *lo = 0; *up = INFINITY; V3 a = A.type == MESH ? A.t[0] : A.T.p, b = B.proj(a);
    for (int k = 0; k < iters; k++) {
        a = A.proj(b); b = B.proj(a); V3 w = b - a; L n = norm(w); *up = std::min(*up, n);
        if (n < 1e-12L) return;
        if (k % 8 == 7 || k < 4) { V3 u = (1 / n) * w; V3 mu = (-1.0L) * u; L l = -B.sup(mu) - A.sup(u); *lo = std::max(*lo, l); if (*up - *lo < tol) return; }
    }
}
enum { NO = 0, YES = 1, UNK = 2 };
struct Truth { int coll; L lo, up; };
Truth truth(const Placed &p, const Placed &q) {
    Truth t{NO, INFINITY, INFINITY}; bool unk = false;
    for (auto &a : pieces(p)) for (auto &b : pieces(q)) {
        L lo, up; bounds(a, b, &lo, &up, 1e-6L, 600); t.lo = std::min(t.lo, lo); t.up = std::min(t.up, up);
        if (lo > 2e-4L) continue;
        Cvx x = a, y = b; bool sx = x.shrink(1e-4L), sy = y.shrink(1e-4L);
        if (sx && sy && (a.type != MESH || b.type != MESH)) { bounds(x, y, &lo, &up, 0, 600); if (up < 1e-9L) { t.coll = YES; continue; } }
        unk = true;
    }
    if (t.coll != YES && unk) t.coll = UNK;
    return t;
}
fcl::Transform3<double> ftf(const TF &T) { fcl::Transform3<double> r = fcl::Transform3<double>::Identity(); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) r.linear()(i, j) = (double)T.R(i, j); r.translation()[i] = (double)T.p[i]; } return r; }
// FCL is unstable near degenerate placements: ask it about the placement to the
// last bit, rounded as the library rounds, after checking the rounding is one
TF tfE(const double *E) { return TF{rot(q4(E)), v3(E + 4)}; }
FObj fobj(const Placed &p, int jitter = 0) {
    TF T = p.T; double E[7], off[7] = {0, 0, 0, 1, 0, 0, p.g->scale * p.g->d[1] / 2}, m[12]; memcpy(E, p.E, 56);
    if (p.g->type == CYL) { T = T * TF{eye3(), {{0, 0, (L)off[6]}}}; aa_tf_qutr_mul(p.E, off, E); }
    aa_tf_qutr2tfmat(E, m); TF D = tf12(m); L e = norm(D.p - T.p); for (int i = 0; i < 9; i++) e += fabsl(D.R.m[i] - T.R.m[i]);
    if (jitter) { uint64_t z = Rng::mix((uint64_t)jitter * 77 + (uint64_t)(E[4] * 1e6)); for (int i = 0; i < 7; i++) E[i] *= 1 + ((double)((z >> (7 * i)) & 127) - 63) * 3e-17 * jitter; TF J = tfE(E); FObj o(p.g->f, ftf(J)); o.computeAABB(); return o; }
    FObj o(p.g->f, ftf(e < 1e-9L * (1 + norm(T.p)) ? D : T)); o.computeAABB(); return o;
}
int fcoll(const Placed &p, const Placed &q) { FObj a = fobj(p), b = fobj(q); fcl::CollisionRequest<double> rq; fcl::CollisionResult<double> rs; fcl::collide(&a, &b, rq, rs); return rs.isCollision() || (fcl::collide(&b, &a, rq, rs), rs.isCollision()) ? YES : NO; }

Geo mkgeo(Rng &r, bool mesh) {
    Geo g; g.scale = r.coin(.6) ? 1 : r.uni(.3, 2.5); g.collide = r.coin(.9); g.type = (int)r.range(0, mesh ? 3 : 2);
    double z = r.coin(.2) ? .1 : 1;
    for (auto &x : g.d) x = r.uni(.08, .7) * z / g.scale;
    double s = g.scale;
    if (g.type == SPH) g.f.reset(new fcl::Sphere<double>(s * g.d[0]));
    else if (g.type == BOX) g.f.reset(new fcl::Box<double>(s * g.d[0], s * g.d[1], s * g.d[2]));
    else if (g.type == CYL) g.f.reset(new fcl::Cylinder<double>(s * g.d[0], s * g.d[1]));
    else {
        // closed or open triangle meshes away from their origin
        double c[3]; for (auto &x : c) x = r.coin(.5) ? r.uni(-1, 1) : 0;
        size_t nv = (size_t)r.range(3, 8); for (size_t i = 0; i < 3 * nv; i++) g.v.push_back((float)((c[i % 3] + r.uni(-.4, .4)) / s));
        size_t nt = (size_t)r.range(1, 8); for (size_t i = 0; i < nt; i++) { unsigned a = (unsigned)r.range(0, (long)nv - 1), b = (a + 1 + (unsigned)r.range(0, (long)nv - 2)) % nv, cc; do cc = (unsigned)r.range(0, (long)nv - 1); while (cc == a || cc == b); g.ix.push_back(a); g.ix.push_back(b); g.ix.push_back(cc); }
        auto *m = new fcl::BVHModel<fcl::OBBRSS<double>>; std::vector<fcl::Vector3<double>> vs; std::vector<fcl::Triangle> ts;
        for (size_t i = 0; i < nv; i++) vs.push_back(fcl::Vector3<double>(s * g.v[3 * i], s * g.v[3 * i + 1], s * g.v[3 * i + 2]));
        for (size_t i = 0; i < g.ix.size(); i += 3) ts.push_back(fcl::Triangle(g.ix[i], g.ix[i + 1], g.ix[i + 2]));
        m->beginModel(); m->addSubModel(vs, ts); m->endModel(); g.f.reset(m);
    }
    return g;
}
struct Scene {
    aa_rx_sg *sg; MSg m; std::vector<std::vector<Geo>> geo; size_t n; std::set<std::pair<int, int>> allowed; std::vector<std::pair<std::string, std::string>> an;
    std::vector<aa_rx_geom *> held;
    Scene(Rng &r, size_t maxf, bool mesh) {
        sg = aa_rx_sg_create(); size_t nf = (size_t)r.range(1, (long)maxf); sg_build(r, sg, m, nf, .3, false);
        std::map<std::string, std::vector<Geo>> by;
        for (auto &p : m.f) { int k = r.coin(.2) ? 0 : r.coin(.2) ? 2 : 1; while (k--) { Geo g = mkgeo(r, mesh); attach(r, p.first, g); by[p.first].push_back(g); } }
        // permissions that name a frame removed since have no effect
        if (r.coin(.25)) { int k = (int)r.range(1, 2); aa_rx_sg_add_frame_fixed(sg, m.f.size() && r.coin() ? m.f.begin()->first.c_str() : "", "gone0", NULL, NULL); if (k > 1) aa_rx_sg_add_frame_fixed(sg, "", "gone1", NULL, NULL); if (aa_rx_sg_init(sg)) abort();
            for (int j = 0; j < 3; j++) { auto it = m.f.begin(); std::advance(it, r.range(0, (long)m.f.size() - 1)); std::string a = r.coin() ? "gone0" : k > 1 ? "gone1" : "gone0", b = r.coin(.8) ? it->first : "gone0"; if (a == b) continue; if (r.coin()) std::swap(a, b); if (r.coin()) aa_rx_sg_allow_collision_name(sg, a.c_str(), b.c_str(), 1); else aa_rx_sg_allow_collision(sg, aa_rx_sg_frame_id(sg, a.c_str()), aa_rx_sg_frame_id(sg, b.c_str()), 1); }
            for (int j = 0; j < k; j++) aa_rx_sg_rm_frame(sg, j ? "gone1" : "gone0"); }
        if (aa_rx_sg_init(sg)) abort();
        // allowed before or after init, sometimes withdrawn
        n = aa_rx_sg_frame_count(sg); geo.resize(n); std::vector<std::string> nm(n);
        for (auto &p : m.f) { int id = aa_rx_sg_frame_id(sg, p.first.c_str()); nm[(size_t)id] = p.first; geo[(size_t)id] = by[p.first]; }
        int na = (int)r.range(0, (long)n); while (na--) { int i = (int)r.range(0, (long)n - 1), j = (int)r.range(0, (long)n - 1); if (i == j) continue; bool on = r.coin(.8); if (r.coin()) aa_rx_sg_allow_collision(sg, i, j, on); else aa_rx_sg_allow_collision_name(sg, nm[(size_t)i].c_str(), nm[(size_t)j].c_str(), on); auto k = std::make_pair(std::max(i, j), std::min(i, j)); if (on) allowed.insert(k); else allowed.erase(k); }
        aa_rx_sg_cl_init(sg); names = nm;
    }
    std::vector<std::string> names;
    void attach(Rng &r, const std::string &f, const Geo &g) {
        aa_rx_geom_opt *o = aa_rx_geom_opt_create(); aa_rx_geom_opt_set_scale(o, g.scale); aa_rx_geom_opt_set_collision(o, g.collide); aa_rx_geom_opt_set_visual(o, r.coin()); aa_rx_geom *x;
        if (g.type == SPH) x = aa_rx_geom_sphere(o, g.d[0]); else if (g.type == BOX) x = aa_rx_geom_box(o, g.d); else if (g.type == CYL) x = aa_rx_geom_cylinder(o, g.d[1], g.d[0]);
        else { aa_rx_mesh *me = aa_rx_mesh_create(); aa_rx_mesh_set_vertices(me, g.v.size() / 3, g.v.data(), 1); aa_rx_mesh_set_indices(me, g.ix.size() / 3, g.ix.data(), 1); x = aa_rx_geom_mesh(o, me); aa_rx_mesh_destroy(me); }
        if (r.coin(.2)) held.push_back(aa_rx_geom_copy(x));
        aa_rx_geom_attach(sg, f.c_str(), x); aa_rx_geom_opt_destroy(o);
    }
    ~Scene() { aa_rx_sg_destroy(sg); for (auto *h : held) aa_rx_geom_destroy(h); }
};
void poses(Rng &r, size_t n, size_t ld, double *E) { double sp = r.pick(std::vector<double>{.2, .6, 1.2, 3}); for (size_t i = 0; i < n; i++) { Pose P = rpose(r); memcpy(E + i * ld, P.q, 32); for (int k = 0; k < 3; k++) E[i * ld + 4 + (size_t)k] = r.coin(.1) ? 0 : r.uni(-sp, sp); } }
typedef std::vector<std::vector<Placed>> World;
World world(const Scene &s, const double *E, size_t ld) { World w(s.n); for (size_t i = 0; i < s.n; i++) for (auto &g : s.geo[i]) if (g.collide) { Placed p{&g, tfE(E + i * ld), {}}; memcpy(p.E, E + i * ld, 56); w[i].push_back(p); }; return w; }
std::string geos(const std::vector<Placed> &a) { std::string s; for (auto &p : a) s += "SBCM"[p.g->type]; return s; }
// is FCL's distance of this pair stable and equal to the certificate?
bool stable(const Placed &p, const Placed &q) {
    Truth t = truth(p, q);
    for (int k = 0; k < 24; k++) try {
        FObj A = fobj(p, k), B = fobj(q, k); fcl::DistanceRequest<double> rq(true); fcl::DistanceResult<double> rs; fcl::distance(&A, &B, rq, rs);
        if (t.coll == YES ? rs.min_distance > 0 : t.coll == NO && (rs.min_distance < t.lo - 1e-4L || rs.min_distance > t.up + 1e-4L)) return false;
        if (t.coll == NO && p.g->type != MESH && q.g->type != MESH) { V3 a, b; for (int c = 0; c < 3; c++) { a[c] = rs.nearest_points[0][c]; b[c] = rs.nearest_points[1][c]; } if (norm(a - pieces(p)[0].proj(a)) > 1e-3L || norm(b - pieces(q)[0].proj(b)) > 1e-3L || fabsl(norm(a - b) - t.up) > 2e-3L) return false; }
    } catch (std::exception &) { return false; }
    return true;
}
// judge one pair of frames
void judge(const char *key, int got, const std::vector<Placed> &a, const std::vector<Placed> &b, int i, int j) {
    int t = NO, f = NO;
    for (auto &x : a) for (auto &y : b) { int k = truth(x, y).coll; if (k == YES) t = YES; else if (k == UNK && t == NO) t = UNK; }
    event(); count(t == YES ? "colliding_pairs" : t == NO ? "separate_pairs" : "touching_pairs");
    if (t == got || (t == UNK && 0)) return;
    for (auto &x : a) for (auto &y : b) if (fcoll(x, y)) f = YES;
    if (t == UNK && f == got) return;
    if (t != UNK && f == got) { count("fcl_disagrees_with_certificate"); return; }
    if (t == UNK) { count("undecided"); bool solid = true; for (auto &x : a) if (x.g->type == MESH) for (auto &y : b) if (y.g->type == MESH) solid = false; if (solid) return; }
    fail(key, "frames %d (%s) and %d (%s) reported %s", i, geos(a).c_str(), j, geos(b).c_str(), got ? "colliding but are apart" : "apart but collide");
}
std::set<std::pair<int, int>> pairsof(const aa_rx_cl_set *s, size_t n) { std::set<std::pair<int, int>> r; for (int i = 0; i < (int)n; i++) for (int j = 0; j <= i; j++) { int a = aa_rx_cl_set_get(s, i, j), b = aa_rx_cl_set_get(s, j, i); CHECK("symmetric", !a == !b, "pair %d %d is not symmetric", i, j); if (a) r.insert({i, j}); } return r; }
}

SECTION(sets, 15000, 400000) {
    Scene s(rng, rng.coin(.01) ? 80 : 8, false); size_t n = s.n; std::vector<aa_rx_cl_set *> v; std::vector<std::set<std::pair<int, int>>> ref; uint64_t sig = 0;
    for (int i = 0; i < 3; i++) { v.push_back(aa_rx_cl_set_create(s.sg)); ref.push_back({}); }
    int ops = (int)rng.range(5, 60);
    for (int k = 0; k < ops; k++) {
        size_t a = (size_t)rng.range(0, 2), b = (size_t)rng.range(0, 2); int i = (int)rng.range(0, (long)n - 1), j = (int)rng.range(0, (long)n - 1), op = (int)rng.range(0, 9); auto p = std::make_pair(std::max(i, j), std::min(i, j));
        if (op < 5) { int on = rng.coin(.7) ? (int)rng.pick(std::vector<long>{1, 2, -1, 256}) : 0; aa_rx_cl_set_set(v[a], i, j, on); if (on) ref[a].insert(p); else ref[a].erase(p); }
        else if (op == 5) { aa_rx_cl_set_clear(v[a]); ref[a].clear(); }
        else if (op == 6) { if (a != b) { aa_rx_cl_set_fill(v[a], v[b]); ref[a].insert(ref[b].begin(), ref[b].end()); } }
        else if (op == 7) { if (a != b) { aa_rx_cl_set_merge(v[a], v[b]); for (auto &q : ref[b]) if (q.first != q.second) ref[a].insert(q); if (0) break; } }
        else if (op == 8) { aa_rx_sg_cl_set_copy(s.sg, v[a]); ref[a].insert(s.allowed.begin(), s.allowed.end()); }
        else { auto got = pairsof(v[a], n); std::set<std::pair<int, int>> g2, r2; for (auto &q : got) if (q.first != q.second) g2.insert(q); for (auto &q : ref[a]) if (q.first != q.second) r2.insert(q); CHECK("set", g2 == r2, "a set has %zu pairs instead of %zu", g2.size(), r2.size()); }
        sig = Rng::mix(sig ^ (uint64_t)op ^ (uint64_t)i << 8 ^ (uint64_t)j << 16 ^ n << 24); distinct(sig); event();
    }
    for (size_t a = 0; a < 3; a++) { auto got = pairsof(v[a], n); std::set<std::pair<int, int>> g2, r2; for (auto &q : got) if (q.first != q.second) g2.insert(q); for (auto &q : ref[a]) if (q.first != q.second) r2.insert(q); CHECK("set", g2 == r2, "a set has %zu pairs instead of %zu", g2.size(), r2.size()); aa_rx_cl_set_destroy(v[a]); }
    note("%zu frames %d operations", n, ops);
}

SECTION(detect, 7000, 160000) {
    fresh_region(rng);
    Scene s(rng, rng.coin(.004) ? 30 : 9, true); size_t n = s.n, ld = (size_t)rng.range(7, 9); aa_rx_cl *cl; LIB(cl = aa_rx_cl_create(s.sg)); auto allow = s.allowed;
    int steps = (int)rng.range(1, 4);
    for (int k = 0; k < steps; k++) {
        if (rng.coin(.4)) { int i = (int)rng.range(0, (long)n - 1), j = (int)rng.range(0, (long)n - 1); if (i != j) { bool on = rng.coin(); auto p = std::make_pair(std::max(i, j), std::min(i, j)); if (rng.coin()) aa_rx_cl_allow(cl, i, j, on); else aa_rx_cl_allow_name(cl, s.names[(size_t)i].c_str(), s.names[(size_t)j].c_str(), on); if (on) allow.insert(p); else allow.erase(p); } }
        if (rng.coin(.15)) { aa_rx_cl_set *x = aa_rx_cl_set_create(s.sg); for (auto &p : allow) if (rng.coin(.3)) aa_rx_cl_set_set(x, p.first, p.second, 1); int i = (int)rng.range(0, (long)n - 1), j = (int)rng.range(0, (long)n - 1); if (i != j) { aa_rx_cl_set_set(x, i, j, 1); allow.insert({std::max(i, j), std::min(i, j)}); } aa_rx_cl_allow_set(cl, x); aa_rx_cl_set_destroy(x); }
        std::vector<double> E(n * ld, NAN), Ec; double *q = NULL; aa_rx_fk *fk = NULL; size_t nq = aa_rx_sg_config_count(s.sg); std::vector<double> Q(nq);
        bool byfk = rng.coin(.4); (void)q;
        if (byfk) { for (auto &x : Q) x = rconf(rng); struct aa_dvec dq; aa_dvec_view(&dq, nq, Q.data(), 1); fk = aa_rx_fk_malloc(s.sg); LIB(aa_rx_fk_all(fk, &dq)); for (size_t i = 0; i < n; i++) aa_rx_fk_get_abs_qutr(fk, (int)i, &E[i * ld]); }
        else poses(rng, n, ld, E.data());
        Ec = E; World w = world(s, E.data(), ld);
        aa_rx_cl_set *cs = aa_rx_cl_set_create(s.sg); int r1, r0;
        if (byfk) { LIB(r0 = aa_rx_cl_check_fk(cl, fk, NULL)); LIB(r1 = aa_rx_cl_check_fk(cl, fk, cs)); } else { LIB(r0 = aa_rx_cl_check(cl, n, E.data(), ld, NULL)); LIB(r1 = aa_rx_cl_check(cl, n, E.data(), ld, cs)); }
        CHECK("input", !memcmp(E.data(), Ec.data(), E.size() * 8), "transforms were changed");
        auto got = pairsof(cs, n);
        CHECK("result", !r1 == got.empty(), "result %d with %zu colliding pairs", r1, got.size());
        CHECK("shortcut", !r0 == !r1, "result %d without and %d with a set", r0, r1);
        for (int i = 0; i < (int)n; i++) for (int j = 0; j <= i; j++) {
            int g = got.count({i, j}) ? 1 : 0;
            if (i == j) CHECK("self", !g, "frame %d collides with itself", i);
            else if (allow.count({i, j})) CHECK("allowed", !g, "allowed pair %d %d reported", i, j);
            else judge("pair", g, w[(size_t)i], w[(size_t)j], i, j);
        }
        // detected pairs are added to what the set already holds
        if (n > 1 && rng.coin(.3)) { aa_rx_cl_set *c2 = aa_rx_cl_set_create(s.sg); aa_rx_cl_set_set(c2, 0, (int)n - 1, 1); if (byfk) aa_rx_cl_check_fk(cl, fk, c2); else aa_rx_cl_check(cl, n, E.data(), ld, c2); auto g2 = pairsof(c2, n); auto e2 = got; e2.insert({(int)n - 1, 0}); CHECK("added", g2 == e2, "%zu pairs instead of %zu", g2.size(), e2.size()); aa_rx_cl_set_destroy(c2); }
        if (byfk && allow == s.allowed) { // the scene-level query at the same configuration
            aa_rx_cl_set *c3 = aa_rx_cl_set_create(s.sg); LIB(aa_rx_sg_get_collision(s.sg, nq, Q.data(), c3)); auto g3 = pairsof(c3, n); CHECK("scene", g3 == got, "scene query found %zu pairs instead of %zu", g3.size(), got.size()); aa_rx_cl_set_destroy(c3);
        }
        distinct(Rng::mix(n ^ got.size() << 8 ^ allow.size() << 16 ^ rng.u64() << 24)); note("%zu frames, step %d, %zu colliding", n, k, got.size());
        aa_rx_cl_set_destroy(cs); if (fk) aa_rx_fk_destroy(fk);
    }
    // allowing a configuration silences exactly its collisions
    if (rng.coin(.4)) {
        size_t nq = aa_rx_sg_config_count(s.sg); std::vector<double> Q(nq); for (auto &x : Q) x = rconf(rng);
        aa_rx_cl_set *a = aa_rx_cl_set_create(s.sg), *b = aa_rx_cl_set_create(s.sg), *c = aa_rx_cl_set_create(s.sg);
        aa_rx_sg_get_collision(s.sg, nq, Q.data(), a); LIB(aa_rx_sg_allow_config(s.sg, nq, Q.data())); aa_rx_sg_cl_init(s.sg); aa_rx_sg_get_collision(s.sg, nq, Q.data(), b);
        auto pa = pairsof(a, n), pb = pairsof(b, n); CHECK("allowcfg", pb.empty(), "%zu pairs still reported at an allowed configuration", pb.size());
        aa_rx_sg_cl_set_copy(s.sg, c); auto pc = pairsof(c, n), e = s.allowed; e.insert(pa.begin(), pa.end()); CHECK("allowset", pc == e, "%zu pairs allowed instead of %zu", pc.size(), e.size());
        aa_rx_cl_set_destroy(a); aa_rx_cl_set_destroy(b); aa_rx_cl_set_destroy(c);
    }
    aa_rx_cl_destroy(cl);
}

SECTION(distance, 5000, 120000) {
    fresh_region(rng);
    bool mesh = rng.coin(.3); Scene s(rng, rng.coin(.004) ? 16 : 6, mesh); size_t n = s.n; aa_rx_cl *cl = aa_rx_cl_create(s.sg); aa_rx_cl_dist *cd; LIB(cd = aa_rx_cl_dist_create(cl));
    size_t nq = aa_rx_sg_config_count(s.sg); std::vector<double> Q(nq); aa_rx_fk *fk = aa_rx_fk_malloc(s.sg);
    for (int k = 0, steps = (int)rng.range(1, 3); k < steps; k++) {
        for (auto &x : Q) x = rconf(rng);
        struct aa_dvec dq; aa_dvec_view(&dq, nq, Q.data(), 1); aa_rx_fk_all(fk, &dq); std::vector<double> E(7 * n); for (size_t i = 0; i < n; i++) aa_rx_fk_get_abs_qutr(fk, (int)i, &E[7 * i]);
        World w = world(s, E.data(), 7); int r = 0; bool thrown = false;
        try { LIB(r = aa_rx_cl_dist_check(cd, fk)); } catch (std::exception &e) { thrown = true; }
        if (thrown) { count("fcl_refused"); continue; }
        bool neg = false;
        for (int i = 0; i < (int)n; i++) for (int j = 0; j <= i; j++) {
            double d = aa_rx_cl_dist_get_dist(cd, i, j), d2 = aa_rx_cl_dist_get_dist(cd, j, i), a[3], b[3], a2[3], b2[3];
            double p1 = aa_rx_cl_dist_get_points(cd, i, j, a, b), p2 = aa_rx_cl_dist_get_points(cd, j, i, b2, a2); event();
            CHECK("sym", d == d2 && p1 == d && p2 == d, "distances %g and %g of one pair", d, d2);
            if (i != j) CHECK("sympoints", !memcmp(a, a2, 24) && !memcmp(b, b2, 24), "closest points differ with the order of the frames");
            if (i == j) { CHECK("diag", d == 0, "a frame is %g from itself", d); continue; }
            auto &wa = w[(size_t)i], &wb = w[(size_t)j];
            if (s.allowed.count({i, j}) || wa.empty() || wb.empty()) { CHECK("none", d == DBL_MAX, "pair %d %d that is not checked has distance %g", i, j, d); continue; }
            if (d <= 0) neg = true;
            L lo = INFINITY, up = INFINITY; int col = NO; bool anymesh = false;
            for (auto &x : wa) for (auto &y : wb) { Truth t = truth(x, y); lo = std::min(lo, t.lo); up = std::min(up, t.up); if (t.coll == YES) col = YES; else if (t.coll == UNK && col == NO) col = UNK; if (x.g->type == MESH || y.g->type == MESH) anymesh = true; }
            bool ok = col == YES ? d <= 0 : col == NO ? d >= (double)lo - 3e-3 && d <= (double)up + 3e-3 : true;
            if (!ok && anymesh && col == YES) count("mesh_penetrations_fcl_missed");   // FCL has no distance for them
            else if (!ok) {   // third-party error? ask FCL about the same placement
                double fd = DBL_MAX; bool fc = false;
                try { for (auto &x : wa) for (auto &y : wb) { FObj A = fobj(x), B = fobj(y); fcl::DistanceRequest<double> rq(true); fcl::DistanceResult<double> rs; fcl::distance(&A, &B, rq, rs); if (rs.min_distance <= 0) fc = true; fd = std::min(fd, (double)rs.min_distance); } } catch (std::exception &) { fd = d; }
                bool st = true; if (!(std::fabs(fd - d) < 1e-4)) for (auto &x : wa) for (auto &y : wb) st = st && stable(x, y);
                if (!st || std::fabs(fd - d) < 1e-4 || (fc && d <= 0)) count("fcl_disagrees_with_certificate");
                else fail("dist", "frames %d (%s) and %d (%s) are between %.6Lf and %.6Lf apart, reported %.9g (colliding %d, FCL %.9g %d)", i, geos(wa).c_str(), j, geos(wb).c_str(), lo, up, d, col, fd, (int)fc);
            } else count(col == YES ? "penetrating_pairs" : "separate_pairs");
            if (d > 1e-3 && !anymesh && wa.size() == 1 && wb.size() == 1) {
                V3 A = v3(a), B = v3(b); V3 pa = pieces(wa[0])[0].proj(A), pb = pieces(wb[0])[0].proj(B); double l = (double)norm(A - B), ea = (double)norm(A - pa), eb = (double)norm(B - pb);
                bool good = ea < 1e-2 && eb < 1e-2 && std::fabs(l - d) < 5e-3;
                if (!good) { FObj fA = fobj(wa[0]), fB = fobj(wb[0]); fcl::DistanceRequest<double> rq(true); fcl::DistanceResult<double> rs; try { fcl::distance(&fA, &fB, rq, rs); } catch (std::exception &) { continue; }
                    double da = 0; for (int c = 0; c < 3; c++) da += std::fabs(rs.nearest_points[0][c] - a[c]) + std::fabs(rs.nearest_points[1][c] - b[c]);
                    if (da < 1e-4 || !stable(wa[0], wb[0])) count("fcl_points_disagree"); else fail("points", "closest points of frames %d (%s) and %d (%s) are %g and %g off their objects and %g apart instead of %g", i, geos(wa).c_str(), j, geos(wb).c_str(), ea, eb, l, d); }
            }
        }
        CHECK("flag", !r == !neg, "result %d, some pair at or below zero: %d", r, (int)neg);
        for (int i = 0; i < (int)n; i++) {
            double best = DBL_MAX; int at = -7; for (int j = 0; j < (int)n; j++) if (j != i) { double d = aa_rx_cl_dist_get_dist(cd, i, j); if (d < best) { best = d; at = j; } }
            aa_rx_frame_id id = -7; double pt[6]; for (auto &x : pt) x = NAN; bool wp = rng.coin(.8), wi = rng.coin(.8);
            double g = aa_rx_cl_dist_get_min_dist(cd, i, wi ? &id : NULL, wp ? pt : NULL);
            CHECK("min", g == best && (!wi || id == at), "nearest to %d is %d at %g instead of %d at %g", i, (int)id, g, at, best);
            if (wp && at >= 0) { double a[3], b[3]; aa_rx_cl_dist_get_points(cd, i, at, a, b); CHECK("minpoints", !memcmp(pt, a, 24) && !memcmp(pt + 3, b, 24), "points of the nearest pair differ"); }
        }
        distinct(Rng::mix(n ^ rng.u64() << 8)); note("%zu frames distances step %d", n, k);
    }
    aa_rx_fk_destroy(fk); aa_rx_cl_dist_destroy(cd); aa_rx_cl_destroy(cl);
}
VK_MAIN
