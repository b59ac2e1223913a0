// C29: what the viewer hands to OpenGL: settings, shapes, scenes, lifetimes.
#include "glmodel.hpp"
SECTION(globals, 6000, 120000) {
    ctx(); Rng r0 = rng;
    size_t grew[3] = {0, 0, 0};
    for (int k = 0; k < 3; k++) {
        Rng r = r0; size_t before = __sanitizer_get_current_allocated_bytes();
        {
            Cam m; aa_gl_globals *G = globals(m); if (k == 0) ckglobals(G, m, r); else { Rng t = r; (void)t; }
            // the default camera looks at the origin with the world's z pointing up
            if (k == 0) { TF C{rot(q4(m.E)), v3(m.E + 4)}; V3 o = inv(C) * V3{{0, 0, 0}}, z = inv(C) * V3{{0, 0, 1e-3L}}; CHECK("home", fabsl(o[0]) < 1e-9L && fabsl(o[1]) < 1e-9L && o[2] < -1 && z[1] > o[1] && fabsl(z[0]) < 1e-9L, "the default camera does not look at the origin"); }
            int n = (int)r.range(1, 25); Rng rr = r;
            for (int i = 0; i < n; i++) { op(rr, G, m); if (k == 0) { Rng t(rr.s[0] ^ 99); ckglobals(G, m, t); } }
            aa_gl_globals_destroy(G); distinct((uint64_t)n * 7919 + m.mask.size() + (m.mask.empty() ? 0 : m.mask.rbegin()->first * 131));
        }
        size_t after = __sanitizer_get_current_allocated_bytes(); grew[k] = after > before ? after - before : 0;
    }
    CHECK("leak", !grew[1] || !grew[2], "%zu bytes still allocated after destroying the settings", grew[2]);
    // conversions
    double E[7], T[12]; rpose7(rng, E); TF X{rot(q4(E)), v3(E + 4)}; float M[16], N[16];
    { Buf e(E, 7); aa_gl_qutr2glmat(e, M); } for (int j = 0; j < 4; j++) for (int i = 0; i < 3; i++) T[3 * j + i] = (double)(j < 3 ? X.R(i, j) : X.p[i]);
    { Buf t(T, 12); aa_gl_tfmat2glmat(t, N); }
    for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) { double w = i == 3 ? (j == 3) : T[3 * j + i]; CLOSE("glmat", (double)M[4 * j + i], w, 2e-6 * (1 + fabs(w))); CHECK("glmat", N[4 * j + i] == (float)w, "element %d %d of a matrix is %g instead of %g", i, j, N[4 * j + i], w); }
    // perspective: the corners of the view frustum map to the corners of the clip cube
    double fovy = rng.uni(.1, 2.9), asp = rng.uni(.2, 4), zn = rng.logu(-3, 1), zf = zn * rng.uni(1.5, 1e4), t = tan(fovy / 2); aa_gl_mat_perspective(fovy, asp, zn, zf, M);
    for (int k = 0; k < 8; k++) { double z = k & 4 ? zf : zn, p[4] = {(k & 1 ? 1 : -1) * asp * t * z, (k & 2 ? 1 : -1) * t * z, -z, 1}, c[4] = {0}; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) c[i] += (double)M[4 * j + i] * p[j]; CLOSE("frustum", c[0] / c[3], k & 1 ? 1 : -1, 1e-5); CLOSE("frustum", c[1] / c[3], k & 2 ? 1 : -1, 1e-5); CLOSE("frustum", c[2] / c[3], k & 4 ? 1 : -1, 1e-4); }
    static const GLenum es[] = {GL_NO_ERROR, GL_INVALID_ENUM, GL_INVALID_VALUE, GL_INVALID_OPERATION, GL_STACK_OVERFLOW, GL_STACK_UNDERFLOW, GL_OUT_OF_MEMORY}; static const char *en[] = {"GL_NO_ERROR", "GL_INVALID_ENUM", "GL_INVALID_VALUE", "GL_INVALID_OPERATION", "GL_STACK_OVERFLOW", "GL_STACK_UNDERFLOW", "GL_OUT_OF_MEMORY"};
    int e = (int)rng.range(0, 6); const char *s = aa_gl_error_string(es[e]); CHECK("errstr", s && strstr(s, en[e]), "error 0x%x is called '%s'", es[e], s ? s : "NULL"); s = aa_gl_error_string((GLenum)rng.range(1, 1000)); CHECK("errstr", s && *s, "no text for an unknown error");
}

SECTION(shapes, 2500, 40000) {
    fg::Ctx *c = ctx(); size_t lv = fg::live(c); Rng r0 = rng;
    size_t grew[3] = {0, 0, 0};
    for (int k = 0; k < 3; k++) {
        Rng r = r0; size_t before = __sanitizer_get_current_allocated_bytes();
        {
            Geo g; mkgeom(r, g, TYPES[r.range(0, 7)]); if (k == 0) note("a %s (%g %g %g %g %g)", aa_rx_geom_shape_str((enum aa_rx_geom_shape)g.type), g.d[0], g.d[1], g.d[2], g.d[3], g.d[4]);
            aa_rx_sg *sg = aa_rx_sg_create(); aa_rx_sg_add_frame_fixed(sg, "", "f", NULL, NULL); aa_rx_geom_attach(sg, "f", g.g); aa_rx_sg_init(sg);
            { Quiet qq; LIB(aa_rx_sg_gl_init(sg)); }
            g.vis = true; Cam m; aa_gl_globals *G = globals(m); aa_gl_globals_set_show_visual(G, 1); aa_gl_globals_set_show_collision(G, 1); m.col = true;
            Buf E(7); rpose7(r, E); op(r, G, m, 0); TF T{rot(q4(E)), v3(E + 4)};
            bool drawn = aa_rx_geom_opt_get_visual(aa_rx_geom_get_opt(g.g)) || aa_rx_geom_opt_get_collision(aa_rx_geom_get_opt(g.g)); g.vis = drawn; g.col = drawn;
            { Quiet qq; LIB(aa_rx_sg_render(sg, G, 1, E, 7)); }
            if (k == 0) { std::map<std::string, TF> P; P["f"] = T; ckframe(r, c, m, P, {{"f", &g}}, [](const std::string &) { return 0L; }, true); }
            distinct((uint64_t)g.type * 1000003 + (uint64_t)(g.d[0] * 1e6));
            aa_gl_globals_destroy(G); aa_rx_sg_destroy(sg); aa_gl_buffers_cleanup(); CHECK("glleak", fg::live(c) == lv, "%ld OpenGL objects of a %s remain after cleanup", (long)(fg::live(c) - lv), aa_rx_geom_shape_str((enum aa_rx_geom_shape)g.type));
            c->frame.clear(); c->frame.shrink_to_fit(); delete g.tree;
        }
        st().desc.shrink_to_fit(); size_t after = __sanitizer_get_current_allocated_bytes(); grew[k] = after > before ? after - before : 0;
    }
    CHECK("leak", !grew[1] || !grew[2], "%zu bytes still allocated after the scene is gone", grew[2]);
}
SECTION(scenes, 1200, 20000) {
    fg::Ctx *c = ctx(); size_t lv = fg::live(c);
    std::vector<std::unique_ptr<Geo>> pool; struct S { aa_rx_sg *sg; MSg m; std::vector<std::pair<std::string, Geo *>> geo; }; std::vector<std::unique_ptr<S>> sgs; Cam m; aa_gl_globals *G = globals(m); uint64_t h = 1; std::string hist;
    auto fresh = [&] { S *s = new S; s->sg = aa_rx_sg_create(); sg_build(rng, s->sg, s->m, (size_t)rng.range(1, rng.coin(.02) ? 40 : 8), rng.u01(), false); sg_init(s->sg, s->m); sgs.emplace_back(s); }; fresh();
    int n = (int)rng.range(3, 25);
    for (int i = 0; i < n; i++) {
        int o = (int)rng.range(0, 12); h = h * 31 + (uint64_t)o; hist += (char)('a' + o); note("%s", hist.c_str()); S *s = sgs.empty() ? nullptr : sgs[(size_t)rng.range(0, (long)sgs.size() - 1)].get();
        if (!s) { if (o < 4) fresh(); continue; }
        switch (o) {
        case 0: if (sgs.size() < 3) fresh(); break;
        case 1: case 2: case 3: { Geo *g = new Geo; pool.emplace_back(g); mkgeom(rng, *g, TYPES[rng.range(0, 7)]); auto it = s->m.f.begin(); std::advance(it, rng.range(0, (long)s->m.f.size() - 1)); aa_rx_geom_attach(s->sg, it->first.c_str(), g->g); s->geo.push_back({it->first, g}); if (rng.coin(.5)) { Quiet qq; aa_rx_sg_init(s->sg); } break; }
        case 4: if (sgs.size() < 3) { aa_rx_sg_init(s->sg); S *t = new S; t->sg = aa_rx_sg_copy(s->sg); t->m = s->m; t->geo = s->geo; sgs.emplace_back(t); aa_rx_sg_init(t->sg); } break;
        case 5: { size_t k = 0; while (sgs[k].get() != s) k++; if (rng.coin(.3)) { std::thread th([&] { aa_rx_sg_destroy(s->sg); }); th.join(); } else aa_rx_sg_destroy(s->sg); sgs.erase(sgs.begin() + (long)k); break; }
        case 6: { Quiet qq; aa_gl_buffers_cleanup(); break; }
        case 7: case 8: op(rng, G, m); break;
        case 9: { auto it = s->m.f.begin(); std::advance(it, rng.range(0, (long)s->m.f.size() - 1)); std::string nm = it->first; bool leaf = true; for (auto &p : s->m.f) leaf &= p.second.parent != nm; if (!leaf || s->m.f.size() < 2) break; aa_rx_sg_rm_frame(s->sg, nm.c_str()); s->m.f.erase(nm); std::vector<std::pair<std::string, Geo *>> k; for (auto &x : s->geo) if (x.first != nm) k.push_back(x); s->geo = k; break; }
        default: {
            aa_rx_sg_init(s->sg); size_t nq = aa_rx_sg_config_count(s->sg), nf = aa_rx_sg_frame_count(s->sg); Buf q(nq); std::map<std::string, double> qm; for (size_t j = 0; j < nq; j++) { q[j] = rng.uni(-3, 3); qm[aa_rx_sg_config_name(s->sg, (aa_rx_config_id)j)] = q[j]; }
            size_t ld = 7 + (size_t)rng.range(0, 3); Buf R(ld * nf + 1), A(ld * nf + 1); aa_rx_sg_tf(s->sg, nq, q, nf, R, ld, A, ld);
            if (rng.coin()) { Quiet qq; LIB(aa_rx_sg_gl_init(s->sg)); }
            { Quiet qq; LIB(aa_rx_sg_render(s->sg, G, nf, A, ld)); }
            std::map<std::string, TF> P; for (auto &f : s->m.f) P[f.first] = s->m.abs(f.first, qm); aa_rx_sg *sg = s->sg; event();
            ckframe(rng, c, m, P, s->geo, [sg](const std::string &f) { return (long)aa_rx_sg_frame_id(sg, f.c_str()); }, false);
            // lighting: the light adds colour in proportion to its power
            if (!c->frame.empty() && rng.coin(.5)) {
                std::vector<std::array<std::array<float, 4>, 3>> col(c->frame.size()); bool ok = true; double pw[3] = {0, 10, 20}; std::vector<size_t> vi;
                for (auto &d : c->frame) vi.push_back(d.pos.empty() ? 0 : (size_t)rng.range(0, (long)d.pos.size() - 1));
                std::vector<fg::Draw> keep;
                for (int k = 0; k < 3 && ok; k++) { aa_gl_globals_set_light_power(G, pw[k]); m.power = pw[k]; { Quiet qq; aa_rx_sg_render(s->sg, G, nf, A, ld); } if (c->frame.size() != col.size()) { ok = false; break; } for (size_t j = 0; j < col.size(); j++) { if (c->frame[j].pos.empty()) continue; fg::Shaded sh = fg::shade(c, c->frame[j], vi[j]); if (!sh.ok_v || !sh.ok_f) { ok = false; break; } memcpy(col[j][(size_t)k].data(), sh.color, 16); } }
                if (ok) for (size_t j = 0; j < col.size(); j++) { auto &d = c->frame[j]; if (d.pos.empty()) continue; event();
                    for (size_t i2 = 0; i2 < 3; i2++) { double a0 = col[j][0][i2], a1 = col[j][1][i2], a2 = col[j][2][i2]; bool same = d.nrm.empty(); if (same || !(fabs(a2) < 1e6)) continue; CHECK("lighting", fabs((a2 - a0) - 2 * (a1 - a0)) <= 1e-3 * (fabs(a2) + fabs(a0) + 1e-3), "light of power 0, 10, 20 gives %g, %g, %g", a0, a1, a2); CHECK("ambient", m.ambient[i2] != 0 || fabs(a0) < 1e-6, "colour %g without light", a0); if (m.color[i2] == 0) CHECK("lightcolor", fabs(a2 - a0) < 1e-5, "a light without this colour adds %g", a2 - a0); if (m.color[i2] > 0.05) CHECK("lit", a2 >= a0 - 1e-6, "light takes colour away"); }
                    CHECK("alpha", d.tw * d.th > 1 || fabs(col[j][0][3] - (double)d.rgba[3] / 255) < 1e-5, "alpha %g", col[j][0][3]); }
            }
            distinct(h * 31 + c->frame.size()); break; }
        }
    }
    while (!sgs.empty()) { aa_rx_sg_destroy(sgs.back()->sg); sgs.pop_back(); }
    { Quiet qq; aa_gl_buffers_cleanup(); } CHECK("glleak", fg::live(c) == lv, "%ld OpenGL objects remain after every graph is gone", (long)(fg::live(c) - lv)); aa_gl_globals_destroy(G); for (auto &g : pool) delete g->tree; c->frame.clear();
}
VK_MAIN
