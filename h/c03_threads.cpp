// C03: concurrent use.  Runs under ThreadSanitizer; each thread's results are
// collected privately and judged after the threads have joined.
#include "vk.hpp"
#include "arm.hpp"
#include <amino/rx/scene_geom.h>
#include <amino/rx/scene_geom_internal.h>
#include <amino/rx/scene_ik.h>
#include <amino/rx/scene_collision.h>
#include <amino/rx/scene_wk.h>
#include <amino/rx/wavefront.h>
#include <amino/opt/lp.h>
#include <amino/opt/opt.h>
#include <amino/diffeq.h>
#include <thread>
#include <sched.h>
using namespace vk;
extern "C" unsigned aa_mem_ref_inc_atomic(std::atomic<unsigned> *);
extern "C" unsigned aa_mem_ref_dec_atomic(std::atomic<unsigned> *);
namespace {
void jitter(Rng &r) { switch (r.range(0, 11)) { case 0: case 1: sched_yield(); break; case 2: { struct timespec t = {0, r.range(1, 60000)}; nanosleep(&t, nullptr); break; } default: break; } }
struct Gate { std::atomic<int> n{0}; void wait(int T) { n++; while (n.load() < T) sched_yield(); } };
// run f(thread index, its own generator) on T threads released together
template<class F> void par(Rng &rng, int T, F f) {
    std::vector<std::thread> th; Gate g; std::vector<uint64_t> sd; for (int i = 0; i < T; i++) sd.push_back(rng.u64());
    for (int i = 0; i < T; i++) th.emplace_back([&, i]() { Rng r(sd[(size_t)i]); g.wait(T); f(i, r); });
    for (auto &t : th) t.join();
}
struct Msgs { std::mutex m; std::vector<std::string> v; void add(const char *fmt, ...) __attribute__((format(printf, 2, 3))) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); std::lock_guard<std::mutex> l(m); v.push_back(b); } };
#define JUDGE(key, M) CHECK(key, (M).v.empty(), "%zu findings, first: %s", (M).v.size(), (M).v.empty() ? "" : (M).v[0].c_str())
}

// Reference counters: the set of (operation, previous value) must be explained
// by some total order of atomic increments and decrements.
template<class C, class I, class D> static void counters(Rng &rng, I inc, D dec, const char *nm) {
    int T = (int)rng.range(2, 6); unsigned base = (unsigned)rng.range(0, 3) * 1000 + 1; C c{base};
    std::vector<std::vector<std::pair<int, unsigned>>> log((size_t)T); std::vector<int> held((size_t)T, 0); int K = (int)rng.range(20, 200);
    note("%s: %d threads, %d operations, from %u", nm, T, K, base);
    par(rng, T, [&](int i, Rng &r) { int h = 0; auto &L = log[(size_t)i]; for (int k = 0; k < K; k++) { if (h > 0 && r.coin()) { L.push_back({-1, dec(&c)}); h--; } else { L.push_back({1, inc(&c)}); h++; } if (r.coin(.1)) jitter(r); } held[(size_t)i] = h; });
    std::map<unsigned, long> up, down; long net = 0; size_t n = 0; for (auto &l : log) for (auto &o : l) { n++; if (o.first > 0) up[o.second]++; else down[o.second]++; net += o.first; }
    unsigned fin = c; CHECK("count_final", (long)fin == (long)base + net, "%s: final count %u, expected %ld", nm, fin, (long)base + net);
    // every edge v -> v+1 is crossed upwards as often as downwards, plus once if it separates the start from the end
    std::set<unsigned> lv; for (auto &p : up) lv.insert(p.first); for (auto &p : down) lv.insert(p.first - 1);
    for (unsigned v : lv) { long d = up[v] - down[v + 1], w = v >= base && v < fin ? 1 : 0; CHECK("count_order", d == w, "%s: level %u crossed up %ld and down %ld times (start %u end %u)", nm, v, up[v], down[v + 1], base, fin); }
    // each thread gives back what it holds, exactly one sees the last reference
    std::atomic<int> last{0}; held[0] += (int)base; par(rng, T, [&](int i, Rng &r) { for (int k = 0; k < held[(size_t)i]; k++) { if (dec(&c) == 1) last++; if (r.coin(.1)) jitter(r); } });
    CHECK("count_last", last == 1 && (unsigned)c == 0, "%s: %d threads saw the last reference, count %u", nm, (int)last, (unsigned)c);
    distinct(fnv(nm, strlen(nm), n * 31 + fin)); count("counter_operations", n); uint64_t h = 0; for (auto &l : log) for (auto &o : l) h = Rng::mix(h ^ o.second); distinct(h);
}
SECTION(refcounts, 400, 5000) {
    if (rng.coin()) counters<unsigned>(rng, aa_mem_ref_inc_mutex, aa_mem_ref_dec_mutex, "mutex"); else counters<std::atomic<unsigned>>(rng, aa_mem_ref_inc_atomic, aa_mem_ref_dec_atomic, "atomic");
}

// Geometries and meshes shared by graphs of different threads
SECTION(lifetimes, 240, 3000) {
    int T = (int)rng.range(2, 6); size_t before = 0; Msgs M; uint64_t cs = rng.u64();
    for (int rep = 0; rep < 2; rep++) {
        Rng r0(cs); if (rep == 1) before = __sanitizer_get_current_allocated_bytes();
        aa_rx_geom_opt *o = aa_rx_geom_opt_create(); aa_rx_geom_opt_set_color3(o, .25, .5, .75); aa_rx_geom_opt_set_scale(o, 1.5);
        aa_rx_mesh *mesh = aa_rx_mesh_create(); float V[9] = {0, 0, 0, 1, 0, 0, 0, 1, 0}; unsigned ix[3] = {0, 1, 2}; aa_rx_mesh_set_vertices(mesh, 3, V, 1); aa_rx_mesh_set_indices(mesh, 1, ix, 1);
        std::vector<aa_rx_geom *> G; double dim[3] = {.1, .2, .3}; G.push_back(aa_rx_geom_box(o, dim)); G.push_back(aa_rx_geom_sphere(o, .5)); G.push_back(aa_rx_geom_cylinder(o, 1, .25)); G.push_back(aa_rx_geom_mesh(o, mesh));
        aa_rx_sg *sg = aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(sg, "", "a", nullptr, nullptr); for (auto g : G) aa_rx_geom_attach(sg, "a", aa_rx_geom_copy(g)); aa_rx_sg_init(sg);
        bool early = r0.coin(); int K = (int)r0.range(3, 25); note("lifetimes: %d threads, %d rounds, owner leaves %s", T, K, early ? "early" : "late");
        std::atomic<int> started{0};
        // each thread owns one reference of everything before any other is dropped
        for (int i = 0; i < T; i++) for (auto g : G) aa_rx_geom_copy(g);
        auto body = [&](int, Rng &r) { started++;
            for (int k = 0; k < K; k++) { size_t j = (size_t)r.range(0, 3);
                switch (r.range(0, 4)) {
                case 0: { aa_rx_geom *c = aa_rx_geom_copy(G[j]); jitter(r); aa_rx_geom_destroy(c); break; }
                case 1: { aa_rx_sg *p = aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(p, "", "x", nullptr, nullptr); aa_rx_geom_attach(p, "x", aa_rx_geom_copy(G[j])); bool in = r.coin(); if (in) aa_rx_sg_init(p); jitter(r); aa_rx_sg *q = in && r.coin() ? aa_rx_sg_copy(p) : nullptr; aa_rx_sg_destroy(p); if (q) aa_rx_sg_destroy(q); break; }
                case 2: { enum aa_rx_geom_shape s; void *b = aa_rx_geom_shape(G[j], &s); static const enum aa_rx_geom_shape want[4] = {AA_RX_BOX, AA_RX_SPHERE, AA_RX_CYLINDER, AA_RX_MESH}; if (s != want[j] || !b) M.add("geometry %zu has shape %d", j, (int)s); const aa_rx_geom_opt *q = aa_rx_geom_get_opt(G[j]); if (aa_rx_geom_opt_get_scale(q) != 1.5) M.add("options changed"); break; }
                case 3: { aa_rx_geom *c = aa_rx_geom_mesh((aa_rx_geom_opt *)aa_rx_geom_get_opt(G[3]), mesh); jitter(r); aa_rx_geom_destroy(c); break; }
                case 4: if (aa_rx_geom_refcount(G[j]) < 1) M.add("live geometry with no references"); break; } }
            for (auto g : G) { jitter(r); aa_rx_geom_destroy(g); } };
        // case 3 uses the mesh itself: keep a creator reference until the end
        if (early) { std::thread w([&]() { while (started.load() < T) sched_yield(); for (auto g : G) aa_rx_geom_destroy(g); aa_rx_sg_destroy(sg); }); par(r0, T, body); w.join(); }
        else { par(r0, T, body); for (size_t j = 0; j < 4; j++) CHECK("ref_final", aa_rx_geom_refcount(G[j]) == 2, "geometry %zu has %u references, expected 2", j, aa_rx_geom_refcount(G[j])); CHECK("ref_mesh", aa_rx_mesh_refcount(mesh) == 2, "mesh has %u references, expected 2", aa_rx_mesh_refcount(mesh)); for (auto g : G) aa_rx_geom_destroy(g); aa_rx_sg_destroy(sg); }
        CHECK("ref_mesh", aa_rx_mesh_refcount(mesh) == 1, "mesh has %u references at the end, expected 1", aa_rx_mesh_refcount(mesh));
        aa_rx_mesh_destroy(mesh); aa_rx_geom_opt_destroy(o);
    }
    JUDGE("lifetimes", M); size_t after = __sanitizer_get_current_allocated_bytes();
    CHECK("lifetimes_leak", after <= before + 4096, "heap grew by %ld bytes", (long)after - (long)before); distinct(cs);
}

// Thread-local regions: private, intact and destroyed with their thread
SECTION(regions, 300, 4000) {
    int T = (int)rng.range(2, 7), K = (int)rng.range(10, 120); Msgs M; std::vector<const void *> reg((size_t)T, nullptr); note("regions: %d threads, %d operations", T, K);
    Gate all; std::atomic<size_t> ops{0};
    par(rng, T, [&](int i, Rng &r) {
        if (r.coin(.6)) aa_mem_region_local_init((size_t)(16 << r.range(0, 8)));
        aa_mem_region_t *R = aa_mem_region_local_get(); reg[(size_t)i] = R; all.wait(T);
        struct B { uint8_t *p; size_t n; uint8_t c; }; std::vector<B> st_;
        for (int k = 0; k < K; k++) { ops++;
            switch (r.range(0, 5)) {
            case 0: case 1: case 2: { size_t n = (size_t)r.range(1, 700); uint8_t c = (uint8_t)r.u64(); uint8_t *p = (uint8_t *)aa_mem_region_local_alloc(n); memset(p, c, n); st_.push_back({p, n, c}); break; }
            case 3: if (!st_.empty()) { size_t j = (size_t)r.range(0, (long)st_.size() - 1); aa_mem_region_local_pop(st_[j].p); st_.resize(j); } break;
            case 4: { size_t n = (size_t)r.range(1, 2000); memset(aa_mem_region_local_tmpalloc(n), 0x33, n); break; }
            case 5: { double A[9], I[9]; for (int a = 0; a < 9; a++) I[a] = A[a] = r.uni(-1, 1) + (a % 4 == 0 ? 3 : 0); if (aa_la_inv(3, I)) M.add("inverse failed"); double e = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { double s = 0; for (int c = 0; c < 3; c++) s += A[a + 3 * c] * I[c + 3 * b]; e = std::max(e, fabs(s - (a == b))); } if (e > 1e-10) M.add("inverse off by %g", e); break; } }
            jitter(r);
            for (auto &b : st_) for (size_t q = 0; q < b.n; q += 1 + b.n / 7) if (b.p[q] != b.c) { M.add("allocation of thread %d overwritten", i); k = K; break; }
            if (aa_mem_region_local_get() != R) M.add("region of thread %d changed", i); }
        if (r.coin(.3)) { aa_mem_region_local_release(); st_.clear(); if (r.coin()) { aa_mem_region_local_destroy(); if (!aa_mem_region_local_get()) M.add("no region after destroy"); } } });
    std::set<const void *> u(reg.begin(), reg.end()); CHECK("private", u.size() == (size_t)T, "%zu regions for %d threads", u.size(), T); JUDGE("regions", M); count("region_operations", ops); distinct((uint64_t)ops * 64 + (uint64_t)T); distinct(rng.u64());
    // regions go with their threads
    size_t b0 = 0; for (int rep = 0; rep < 3; rep++) { if (rep == 1) b0 = __sanitizer_get_current_allocated_bytes(); for (int k = 0; k < 4; k++) { std::thread t([]() { memset(aa_mem_region_local_alloc(100000), 1, 100000); }); t.join(); } }
    size_t b1 = __sanitizer_get_current_allocated_bytes(); CHECK("region_leak", b1 < b0 + 100000, "heap grew by %ld bytes over 8 threads", (long)b1 - (long)b0);
}

// Read-only use of shared graphs, chains and poses gives every thread the sequential answer
SECTION(queries, 200, 2500) {
    Arm A(rng, (size_t)rng.range(1, 7), rng.coin(.3)); A.start(rng); int T = (int)rng.range(2, 6); size_t n = aa_rx_sg_frame_count(A.sg);
    { double d[3] = {.3, .2, .1}; aa_rx_geom_opt *o = aa_rx_geom_opt_create(); aa_rx_geom_opt_set_collision(o, 1); for (auto &f : A.m.f) { if (rng.coin(.7)) aa_rx_geom_attach(A.sg, f.first.c_str(), rng.coin() ? aa_rx_geom_box(o, d) : aa_rx_geom_sphere(o, .15)); } aa_rx_geom_opt_destroy(o); aa_rx_sg_init(A.sg); aa_rx_sg_cl_init(A.sg); }
    Buf Q(A.na * 8); for (size_t i = 0; i < A.na * 8; i++) Q[i] = rng.uni(-3, 3); note("queries: %d threads, %zu frames, %zu joints", T, n, A.nq); distinct(fnv(Q.p, 8 * A.na * 8));
    struct Ans { std::vector<double> v; std::vector<long> s; bool operator!=(const Ans &o) const { return s != o.s || v.size() != o.v.size() || memcmp(v.data(), o.v.data(), 8 * v.size()); } };
    auto ask = [&](size_t k) { Ans a; const double *q = Q.p + A.na * k; std::vector<double> X(14 * n); aa_rx_sg_tf(A.sg, A.na, q, n, X.data(), 14, X.data() + 7, 14); a.v = X;
        aa_rx_fk *fk = aa_rx_fk_malloc(A.sg); aa_dvec v = AA_DVEC_INIT(A.na, (double *)q, 1); aa_rx_fk_all(fk, &v); std::vector<double> qs(A.nq), J(6 * A.nq); aa_rx_sg_sub_config_get(A.ssg, A.na, q, A.nq, qs.data()); aa_rx_sg_sub_jacobian(A.ssg, n, X.data() + 7, 14, J.data(), 6); a.v.insert(a.v.end(), J.begin(), J.end()); a.v.insert(a.v.end(), qs.begin(), qs.end());
        double E[7]; aa_rx_fk_get_abs_qutr(fk, aa_rx_sg_sub_frame_ee(A.ssg), E); a.v.insert(a.v.end(), E, E + 7);
        aa_dmat M = AA_DMAT_INIT(6, A.nq, J.data(), 6); aa_rx_sg_sub_jac_vel_fill(A.ssg, fk, &M); a.v.insert(a.v.end(), J.begin(), J.end());
        for (auto &f : A.m.f) { aa_rx_frame_id id = aa_rx_sg_frame_id(A.sg, f.first.c_str()); a.s.push_back(id); a.s.push_back(aa_rx_sg_frame_parent(A.sg, id)); a.s.push_back((long)fnv(std::string(aa_rx_sg_frame_name(A.sg, id)))); a.s.push_back(aa_rx_sg_frame_type(A.sg, id)); }
        for (size_t i = 0; i < A.na; i++) { double l = 0, h = 0; a.s.push_back(aa_rx_sg_get_limit_pos(A.sg, (aa_rx_config_id)i, &l, &h)); a.v.push_back(l); a.v.push_back(h); a.s.push_back(aa_rx_sg_config_id(A.sg, aa_rx_sg_config_name(A.sg, (aa_rx_config_id)i))); }
        aa_rx_cl *cl = aa_rx_cl_create(A.sg); aa_rx_cl_set *cs = aa_rx_cl_set_create(A.sg); a.s.push_back(aa_rx_cl_check_fk(cl, fk, cs)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) a.s.push_back(aa_rx_cl_set_get(cs, (aa_rx_frame_id)i, (aa_rx_frame_id)j)); aa_rx_cl_set_destroy(cs); aa_rx_cl_destroy(cl);
        aa_rx_fk_destroy(fk); return a; };
    std::vector<Ans> want; for (size_t k = 0; k < 8; k++) want.push_back(ask(k)); Msgs M; std::atomic<size_t> N{0};
    par(rng, T, [&](int, Rng &r) { for (int i = 0; i < 8; i++) { size_t k = (size_t)r.range(0, 7); jitter(r); if (ask(k) != want[k]) M.add("concurrent query of configuration %zu differs from the sequential one", k); N++; } });
    event(N); count("concurrent_query_batches", N); JUDGE("queries", M);
}

// Solvers, integrators, transforms and parsers on private data
SECTION(solvers, 160, 2000) {
    int T = (int)rng.range(2, 5); Arm A(rng, (size_t)rng.range(2, 6), rng.coin(.3)); A.start(rng); note("solvers: %d threads, %zu joints", T, A.nq);
    char dir[] = "/tmp/vkthrXXXXXX"; if (!mkdtemp(dir)) return; std::string fn = std::string(dir) + "/m.obj"; { FILE *f = fopen(fn.c_str(), "w"); for (int i = 0; i < 12; i++) fprintf(f, "v %g %g %g\n", rng.uni(-1, 1), rng.uni(-1, 1), rng.uni(-1, 1)); fprintf(f, "vn 0 0 1\n"); for (int i = 0; i < 10; i++) fprintf(f, "f %ld//1 %ld//1 %ld//1\n", rng.range(1, 12), rng.range(1, 12), rng.range(1, 12)); fclose(f); }
    typedef std::vector<double> V;
    auto job = [&](uint64_t sd) { Rng r(sd); V a; int k = (int)(sd % 6);
        if (k == 0) { aa_rx_ik_parm *p = aa_rx_ik_parm_create(); aa_rx_ik_parm_set_algo(p, r.coin() ? AA_RX_IK_SQP : AA_RX_IK_JPINV); aa_rx_ik_cx *cx = aa_rx_ik_cx_create(A.ssg, p); aa_rx_ik_set_restart_time(cx, 0); V s(A.nq), q(A.nq), qd(A.na, 0); for (size_t i = 0; i < A.nq; i++) { s[i] = A.frac(r, i); q[i] = A.frac(r, i); } Fk F(A, q.data()); double E[7]; aa_rx_fk_get_abs_qutr(F.f, aa_rx_sg_sub_frame_ee(A.ssg), E); aa_dvec vs = AA_DVEC_INIT(A.nq, s.data(), 1); aa_rx_ik_set_seed(cx, &vs); V o(A.nq, -77); aa_dvec vo = AA_DVEC_INIT(A.nq, o.data(), 1); aa_dmat mT = AA_DMAT_INIT(7, 1, E, 7); int rc = aa_rx_ik_solve(cx, &mT, &vo); a.push_back(rc); if (rc == 0) a.insert(a.end(), o.begin(), o.end()); aa_rx_ik_cx_destroy(cx); aa_rx_ik_parm_destroy(p); }
        else if (k == 1) { size_t m = 3, n = 3; double Am[9], bl[3], bu[3], c[3], xl[3], xu[3], x[3] = {0, 0, 0}; for (auto &t : Am) t = (double)r.range(-8, 8) / 4; for (int i = 0; i < 3; i++) { bl[i] = -4; bu[i] = (double)r.range(1, 16) / 4; c[i] = (double)r.range(-8, 8) / 4; xl[i] = 0; xu[i] = (double)r.range(1, 12); } struct aa_opt_cx *cx; int w = (int)r.range(0, 2); if (w == 0) cx = aa_opt_lpsolve_gmcreate(m, n, Am, m, bl, bu, c, xl, xu); else if (w == 1) cx = aa_opt_glpk_gmcreate(m, n, Am, m, bl, bu, c, xl, xu); else cx = aa_opt_clp_gmcreate(m, n, Am, m, bl, bu, c, xl, xu); aa_opt_set_direction(cx, AA_OPT_MAXIMIZE); int rc = aa_opt_solve(cx, n, x); double o = 0; for (int i = 0; i < 3; i++) o += c[i] * x[i]; a.push_back(rc); if (rc == 0) a.push_back(round(o * 1e6)); aa_opt_destroy(cx); }
        else if (k == 2) { struct aa_rx_wf_obj *o = aa_rx_wf_parse(fn.c_str()); if (o) { size_t n; const double *v; aa_rx_wf_obj_get_vertices(o, &v, &n); a.insert(a.end(), v, v + n); const int32_t *ix; aa_rx_wf_obj_get_vertex_indices(o, &ix, &n); a.insert(a.end(), ix, ix + n); aa_rx_wf_obj_destroy(o); } else a.push_back(-1); }
        else if (k == 3) { for (int i = 0; i < 12; i++) { double e[3] = {r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)}, q[4], R[9], w[3], E[7], S[8], ln[8]; aa_tf_eulerzyx2quat(e[0], e[1], e[2], q); a.insert(a.end(), q, q + 4); aa_tf_eulerxyz2rotmat(e[0], e[1], e[2], R); a.insert(a.end(), R, R + 9); aa_tf_quat2rotvec(q, w); a.insert(a.end(), w, w + 3); memcpy(E, q, 32); memcpy(E + 4, e, 24); aa_tf_qutr2duqu(E, S); aa_tf_duqu_ln(S, ln); a.insert(a.end(), ln, ln + 8); double EE[28], av[7]; for (int j = 0; j < 28; j++) EE[j] = r.uni(-1, 1); for (int j = 0; j < 4; j++) aa_tf_qnormalize(EE + 7 * j); double wt[4] = {.25, .25, .25, .25}; aa_tf_qutr_wavg(4, wt, EE, 7, av); a.insert(a.end(), av, av + 7); } }
        else if (k == 4) { size_t m = (size_t)r.range(2, 6), n = (size_t)r.range(2, 6); V B(m * n), P(m * n), U(m * m), S(std::min(m, n)), W(n * n), d(n, 0), z(m); for (auto &t : B) t = r.uni(-2, 2); for (auto &t : z) t = r.uni(-1, 1); aa_la_dpinv(m, n, 1e-4, B.data(), P.data()); a.insert(a.end(), P.begin(), P.end()); aa_la_svd(m, n, B.data(), U.data(), S.data(), W.data()); a.insert(a.end(), S.begin(), S.end()); aa_la_lls(m, n, 1, B.data(), z.data(), d.data()); a.insert(a.end(), d.begin(), d.end()); }
        else { aa_rx_wk_opts *o = aa_rx_wk_opts_create(); V q(A.nq), dq(A.nq, 0), dx(6); for (size_t i = 0; i < A.nq; i++) q[i] = A.frac(r, i); for (auto &t : dx) t = r.uni(-1, 1); Fk F(A, q.data()); aa_dvec vx = AA_DVEC_INIT(6, dx.data(), 1), vq = AA_DVEC_INIT(A.nq, dq.data(), 1); aa_rx_wk_dx2dq(A.ssg, o, F.f, &vx, &vq); a = dq; aa_rx_wk_opts_destroy(o); }
        return a; };
    std::vector<uint64_t> sd; std::vector<V> want; for (int i = 0; i < 12; i++) { sd.push_back(rng.u64()); distinct(sd.back()); want.push_back(job(sd.back())); }
    Msgs M; std::atomic<size_t> N{0};
    par(rng, T, [&](int, Rng &r) { for (int i = 0; i < 8; i++) { size_t k = (size_t)r.range(0, 11); V g = job(sd[k]); N++; if (g.size() != want[k].size() || memcmp(g.data(), want[k].data(), 8 * g.size())) M.add("job %zu (kind %d) differs from its sequential result (%s vs %s)", k, (int)(sd[k] % 6), vstr(g.data(), g.size()).c_str(), vstr(want[k].data(), want[k].size()).c_str()); jitter(r); } });
    unlink(fn.c_str()); rmdir(dir); event(N); count("concurrent_jobs", N); JUDGE("solvers", M);
}
VK_MAIN
