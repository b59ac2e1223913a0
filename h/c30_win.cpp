// C30: the viewer window: event loop, camera control, display functions, plans, threads.
#include "glmodel.hpp"
#include "arm.hpp"
extern "C" {
#include <amino/rx/scene_sdl.h>
}
#include <amino/rx/scene_win.h>
#include <amino/rx/mp_seq.h>
#include <amino/time.h>
#include <sys/wait.h>
#include <poll.h>
#include <pthread.h>
#include <deque>
#include <chrono>
#ifndef __SANITIZE_THREAD__
extern "C" void __asan_describe_address(void *);
#else
static void __asan_describe_address(void *) {}
#endif
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
// ---- allocations made by the library while a window call runs (stand-ins excluded)
static thread_local int api = 0; static const void *livep[8192]; static std::atomic<int> nlive{0}; static pthread_spinlock_t lsp;
static void on_malloc(const volatile void *p, size_t) { if (!api || fg::inside || !p) return; pthread_spin_lock(&lsp); int n = nlive; if (n < 8192) { livep[n] = (const void *)p; nlive = n + 1; } pthread_spin_unlock(&lsp); }
static void on_free(const volatile void *p) { if (!p || !nlive) return; pthread_spin_lock(&lsp); int n = nlive; for (int i = 0; i < n; i++) if (livep[i] == (const void *)p) { livep[i] = livep[n - 1]; nlive = n - 1; break; } pthread_spin_unlock(&lsp); }
struct Api { int o, in; Api() : o(api), in(fg::inside) { api = 1; fg::inside = 0; } ~Api() { api = o; fg::inside = in; } };
#define W(...) do { Api a_; __VA_ARGS__; } while (0)

// ---- every case runs in a process of its own: a program has one window for life
static int repfd = -1, no_balance_ = (leak_every() = 0);   // cases are processes
static void report() {
    std::string o; { std::lock_guard<std::mutex> l(st().mtx); for (auto &v : st().viol) o += "V" + v.first + "\t" + v.second.second + "\n"; o += "E" + std::to_string(st().events) + "\n"; for (auto d : st().distinct) o += "D" + std::to_string(d) + "\n"; for (auto &c : st().counters) o += "C" + c.first + "\t" + std::to_string(c.second) + "\n"; o += "F\n"; }
    size_t k = 0; while (k < o.size()) { ssize_t w = write(repfd, o.data() + k, o.size() - k); if (w <= 0) break; k += (size_t)w; }
}
static void child(const std::function<void()> &f, int timeout = 60) {
    int p[2]; if (pipe(p)) return; fflush(stdout); fflush(stderr); pid_t pid = fork();
    if (pid == 0) {
        close(p[0]); st().viol.clear(); st().events = 0; st().distinct.clear(); st().counters.clear(); int n = open("/dev/null", O_WRONLY); dup2(n, 1);
        repfd = p[1]; f(); report(); _exit(0);
    }
    close(p[1]); std::string in; bool late = false; auto t0 = std::chrono::steady_clock::now();
    for (;;) {
        pollfd q = {p[0], POLLIN, 0}; int r = poll(&q, 1, 1000); if (r > 0) { char b[8192]; ssize_t n = read(p[0], b, sizeof b); if (n <= 0) break; in.append(b, (size_t)n); }
        if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(timeout)) { late = true; kill(pid, SIGKILL); break; }
    }
    close(p[0]); int s = 0; waitpid(pid, &s, 0); if (late) { fail("hang", "the viewer does not make progress"); return; }
    if (WIFSIGNALED(s) || (WIFEXITED(s) && WEXITSTATUS(s))) { signal(SIGABRT, SIG_DFL); fflush(stderr); if (WIFSIGNALED(s)) kill(getpid(), WTERMSIG(s)); _exit(WIFEXITED(s) ? WEXITSTATUS(s) : 66); }
    size_t i = 0; bool fin = false; while (i < in.size()) { size_t e = in.find('\n', i); if (e == std::string::npos) break; std::string l = in.substr(i, e - i); i = e + 1; size_t t = l.find('\t'); switch (l[0]) { case 'V': fail(l.substr(1, t - 1).c_str(), "%s", l.substr(t + 1).c_str()); break; case 'E': event(strtoull(l.c_str() + 1, 0, 10)); break; case 'D': st().distinct.insert((uint32_t)strtoul(l.c_str() + 1, 0, 10)); break; case 'C': count(l.substr(1, t - 1).c_str(), strtoull(l.c_str() + t + 1, 0, 10)); break; case 'F': fin = true; } }
    CHECK("exit", fin, "the viewer ended the program");
}
struct Loud { int a; Loud() : a(api) { api = 0; } ~Loud() { api = a; } };   // back in the harness

// ---- a scene whose drawing shows its configuration
struct Boxes { aa_rx_sg *sg; size_t n; bool rev; std::vector<std::string> fr;
    Boxes(size_t n_) : n(n_) { sg = aa_rx_sg_create(); double ax[3] = {1, 0, 0}; for (size_t i = 0; i < n; i++) { std::string f = "b" + std::to_string(i); fr.push_back(f); double E[7] = {0, 0, 0, 1, 0, (double)i, 0}; aa_rx_sg_add_frame_prismatic(sg, "", f.c_str(), E, E + 4, NULL, ax, 0); aa_rx_geom_opt *o = aa_rx_geom_opt_create(); aa_rx_geom_opt_set_color3(o, 0, 0, 0); aa_rx_geom_opt_set_alpha(o, 1); aa_rx_geom_opt_set_visual(o, 1); double d[3] = {1, 1, 1}; aa_rx_geom_attach(sg, f.c_str(), aa_rx_geom_box(o, d)); aa_rx_geom_opt_destroy(o); } aa_rx_sg_init(sg); }
    ~Boxes() { aa_rx_sg_destroy(sg); }
    // configuration a recorded frame shows: the camera is straight above
    bool read(fg::Ctx *c, const Cam &m, std::vector<double> &q) const {
        q.assign(n, NAN); std::vector<int> seen(n); L t = tanl((L)m.fovy / 2); 
        for (auto &d : c->frame) { // middle of the box in camera coordinates
            if (d.pos.empty()) return false; size_t o = 0; for (size_t k = 1; k < d.pos.size(); k++) { double e = 0, eo = 0; for (size_t j = 0; j < 3; j++) { e += d.pos[k][j] * d.pos[0][j]; eo += d.pos[o][j] * d.pos[0][j]; } if (e < eo) o = k; }
            double s[2] = {0, 0}; for (size_t k : {(size_t)0, o}) { fg::Shaded h = fg::shade(c, d, k, false); if (!h.ok_v) { count("unjudged_shader"); return false; } s[0] += h.pos[0]; s[1] += h.pos[1]; }
            double x = s[0] / 2 * (double)(t * m.aspect) + m.E[4], y = s[1] / 2 * (double)t + m.E[5]; long i = lround(y); if (i < 0 || i >= (long)n || fabs(y - (double)i) > .01) return false; q[(size_t)i] = x; seen[(size_t)i]++; }
        for (int k : seen) if (k != 1) return false; return true; } };
static const double ABOVE[7] = {0, 0, 0, 1, 0, 0, 40};

// ---- the window and what the loop does, step by step
struct Step { bool wait = false; SDL_Event e; std::function<void()> pre; };
struct Loop { std::deque<Step> steps; bool end_quit = true; size_t waits = 0, swaps = 0, limit = 4000; };
static Loop *LP = nullptr;
static int feed(SDL_Event *e, int ms) {
    Loud l_; if (ms <= 0) return 0;   // the rest of a millisecond at the end of a frame
    if (++LP->waits > LP->limit) { Loud l; fail("loop", "the loop does not end when told to"); report(); _exit(0); }
    if (LP->steps.empty()) { if (!LP->end_quit) return 0; memset(e, 0, sizeof *e); e->type = SDL_QUIT; return 1; }
    Step s = LP->steps.front(); LP->steps.pop_front(); if (s.pre) { s.pre(); } if (s.wait) return 0; *e = s.e; return 1;
}
static SDL_Event ev(Uint32 t) { SDL_Event e; memset(&e, 0, sizeof e); e.type = t; return e; }
static SDL_Event key(SDL_Keycode k) { SDL_Event e = ev(SDL_KEYDOWN); e.key.keysym.sym = k; e.key.windowID = 1; return e; }
static SDL_Event wheel(int y) { SDL_Event e = ev(SDL_MOUSEWHEEL); e.wheel.y = y; return e; }
static SDL_Event motion(int x, int y, Uint32 b) { SDL_Event e = ev(SDL_MOUSEMOTION); e.motion.x = x; e.motion.y = y; e.motion.state = b; return e; }
static TF camtf(const Cam &m) { return {rot(q4(m.E)), v3(m.E + 4)}; }
static void setcam(Cam &m, const TF &T) { Q4 q = matq(T.R); for (int i = 0; i < 4; i++) m.E[i] = (double)q[i]; for (int i = 0; i < 3; i++) m.E[4 + i] = (double)T.p[i]; }
static TF trans(L x, L y, L z) { return {eye3(), {{x, y, z}}}; }
static TF turn(V3 a, L t) { return {rotaa(a, t), {{0, 0, 0}}}; }
static void ckcam(aa_rx_win *w, const Cam &m, const char *what) { Buf E(7); aa_rx_win_get_tf_cam(w, E); TF A{rot(q4(E)), v3(E.p + 4)}; double s = 1 + fabs(m.E[4]) + fabs(m.E[5]) + fabs(m.E[6]), d = md(A, camtf(m)), n = fabs(E[0] * E[0] + E[1] * E[1] + E[2] * E[2] + E[3] * E[3] - 1); CHECK("camera", d < 1e-9 * s && n < 1e-9, "after %s the camera is off by %.3g", what, d); }
static void cleankeys() { memset(fg::keys(), 0, SDL_NUM_SCANCODES); fg::mouse() = fg::Mouse(); }
static aa_rx_win *mkwin(Rng &r, Cam &m) {
    int w = (int)r.range(50, 2000), h = (int)r.range(50, 2000); std::string t = "title" + std::to_string(w); aa_rx_win *win = nullptr;
    if (r.coin()) W(win = aa_rx_win_default_create(t.c_str(), w, h)); else W(win = aa_rx_win_create(t.c_str(), (int)r.range(0, 50), 7, w, h, SDL_WINDOW_SHOWN));
    if (!win) { fail("create", "no window"); report(); _exit(0); }
    CHECK("create", fg::windows().size() == 1 && fg::windows()[0]->w == w && fg::windows()[0]->h == h && fg::windows()[0]->title == t && (fg::windows()[0]->flags & SDL_WINDOW_OPENGL), "the window differs from what was asked");
    aa_gl_globals *G = aa_rx_win_gl_globals(win); memcpy(m.E, G->world_E_cam, 56); memcpy(m.home, G->world_E_camhome, 56); m.fovy = G->fovy; m.zn = G->znear; m.zf = G->zfar; m.aspect = (double)w / h; return win;
}
// one window's life around a run of the loop in this thread
static void setup(long long t0) { fg::ftime() = t0; pthread_spin_init(&lsp, 0); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); printf(" "); fflush(stdout); aa_mem_region_local_get(); aa_sdl_init(); cleankeys(); LP = new Loop; fg::on_wait() = feed; fg::on_swap() = nullptr; }
static void finish(aa_rx_win *w) { W(aa_rx_win_destroy(w)); CHECK("release", fg::windows().empty() && fg::contexts().empty(), "the window or its context remains after destroying it"); if (nlive && getenv("C30_WHERE")) for (int i = 0; i < nlive; i++) __asan_describe_address((void *)livep[i]); CHECK("leak", nlive == 0, "%d allocations of the window remain after destroying it", (int)nlive); }

// ---------------------------------------------------------------- camera
SECTION(camera, 500, 8000) {
    Rng r = rng; int n = (int)r.range(1, 14); note("%d inputs", n);
    child([&] {
        setup(1000000000LL * r.range(1, 100000)); Cam m; aa_rx_win *win = mkwin(r, m); aa_gl_globals *G = aa_rx_win_gl_globals(win); const double sr = G->scroll_ratio, ar = G->angle_ratio; int mx = 0, my = 0; bool known = false;
        std::vector<std::unique_ptr<Geo>> pool; MSg ms; aa_rx_sg *sg = aa_rx_sg_create(); sg_build(r, sg, ms, (size_t)r.range(1, r.coin(.03) ? 30 : 5), .5, false); std::vector<std::pair<std::string, Geo *>> geo; for (auto &f : ms.f) if (r.coin(.7)) { Geo *g = new Geo; pool.emplace_back(g); mkgeom(r, *g, AA_RX_BOX); aa_rx_geom_attach(sg, f.first.c_str(), g->g); geo.push_back({f.first, g}); } aa_rx_sg_init(sg);
        W(aa_rx_win_set_sg(win, sg)); size_t nq = aa_rx_sg_config_count(sg); std::vector<double> q(nq); auto shownq = q; bool havec = false;
        auto rq = [&] { for (auto &x : q) x = r.uni(-3, 3); if (r.coin()) { Buf b(nq); std::copy(q.begin(), q.end(), b.p); W(aa_rx_win_set_config(win, nq, b)); } else { size_t inc = (size_t)r.range(1, 3); Buf b(nq * inc + 1); for (size_t i = 0; i < nq; i++) b[i * inc] = q[i]; aa_dvec v = AA_DVEC_INIT(nq, b.p, inc); W(aa_rx_win_set_bconfig(win, &v)); } havec = true; };
        if (r.coin(.8)) rq();
        if (r.coin()) { Buf E(7); rpose7(r, E); memcpy(m.E, E, 56); aa_rx_win_set_tf_cam(win, E); }
        auto judge = [&](const char *what) { ckcam(win, m, what); }; std::string last = "creation"; uint64_t h = 3; int frames = 0; fg::Ctx *lastc = nullptr;
        fg::on_swap() = [&](fg::Ctx *c) { frames++; lastc = c; };
        auto look = [&] { // what the last frame shows
            if (!lastc || !havec) return; Loud l; std::map<std::string, double> qm; for (size_t j = 0; j < nq; j++) qm[aa_rx_sg_config_name(sg, (aa_rx_config_id)j)] = q[j]; std::map<std::string, TF> P; for (auto &f : ms.f) P[f.first] = ms.abs(f.first, qm); Cam f = m; ckframe(r, lastc, f, P, geo, [sg](const std::string &x) { return (long)aa_rx_sg_frame_id(sg, x.c_str()); }, false); };
        auto idle = [&](int k) { for (int i = 0; i < k; i++) { Step s; s.wait = true; LP->steps.push_back(s); } };
        for (int i = 0; i < n; i++) {
            int o = (int)r.range(0, 22); h = h * 31 + (uint64_t)o; Step s; int y = (int)r.range(1, 4) * (r.coin() ? 1 : -1), x = (int)r.range(-200, 900), yy = (int)r.range(-200, 900); bool rs = r.coin(); double val[7]; rpose7(r, val); int ww = (int)r.range(20, 3000), hh = (int)r.range(20, 3000); bool lr = r.coin();
            auto mods = [&, lr](Step &t, int c, int sh, int al, std::function<void()> model, SDL_Event e, std::string nm, Uint32 b = 0) { t.e = e; t.pre = [&, lr, c, sh, al, model, nm, b] { { Loud l; judge(last.c_str()); } cleankeys(); Uint8 *k = fg::keys(); if (c == 1) k[lr ? SDL_SCANCODE_LCTRL : SDL_SCANCODE_RCTRL] = 1; if (c == 2) k[SDL_SCANCODE_CAPSLOCK] = 1; if (sh) k[lr ? SDL_SCANCODE_LSHIFT : SDL_SCANCODE_RSHIFT] = 1; if (al) k[lr ? SDL_SCANCODE_LALT : SDL_SCANCODE_RALT] = 1; fg::mouse().b = b; model(); last = nm; }; };
            auto cz = [&](L a) { return [&m, a] { setcam(m, camtf(m) * turn({{0, 0, 1}}, a)); }; }; auto ct = [&](L a, L b, L c) { return [&m, a, b, c] { setcam(m, camtf(m) * trans(a, b, c)); }; };
            auto wz = [&](L a) { return [&m, a] { setcam(m, turn({{0, 0, 1}}, a) * camtf(m)); }; }; auto cx = [&](L a) { return [&m, a] { TF C = camtf(m); V3 ax{{C.R(0, 0), C.R(1, 0), C.R(2, 0)}}; setcam(m, turn(ax, a) * C); }; };
            switch (o) {
            case 0: mods(s, 0, 0, 0, ct(0, 0, -(L)sr * y), wheel(y), "wheel"); break;
            case 1: mods(s, 1 + (int)rs, 0, 0, ct((L)sr * y, 0, 0), wheel(y), "control and wheel"); break;
            case 2: mods(s, 0, 1, 0, ct(0, (L)sr * y, 0), wheel(y), "shift and wheel"); break;
            case 3: mods(s, 1 + (int)rs, 1, 0, cz((L)ar * y), wheel(y), "control, shift and wheel"); break;
            case 4: mods(s, 0, 0, 0, cz((L)ar * y), wheel(y), "left button and wheel", SDL_BUTTON(SDL_BUTTON_LEFT)); break;
            case 5: mods(s, 1 + (int)rs, 0, 1, wz((L)ar * y), wheel(y), "control, alt and wheel"); break;
            case 6: mods(s, 0, 1, 1, cx((L)ar * y), wheel(y), "alt, shift and wheel"); break;
            case 7: mods(s, 0, 0, 0, ct(0, 0, (L)sr), key(SDLK_KP_MINUS), "keypad -"); break;
            case 8: mods(s, 0, 0, 0, ct(0, 0, -(L)sr), key(SDLK_KP_PLUS), "keypad +"); break;
            case 9: if (lr == rs) mods(s, 1 + (int)rs, 0, 0, ct(-(L)sr, 0, 0), key(SDLK_KP_4), "control and keypad 4"); else mods(s, 0, 0, 0, wz(-(L)ar), key(SDLK_KP_4), "keypad 4"); break;
            case 10: if (lr == rs) mods(s, 1 + (int)rs, 0, 0, ct((L)sr, 0, 0), key(SDLK_KP_6), "control and keypad 6"); else mods(s, 0, 0, 0, wz((L)ar), key(SDLK_KP_6), "keypad 6"); break;
            case 11: if (lr == rs) mods(s, 1 + (int)rs, 0, 0, ct(0, (L)sr, 0), key(SDLK_KP_8), "control and keypad 8"); else mods(s, 0, 0, 0, cx((L)ar), key(SDLK_KP_8), "keypad 8"); break;
            case 12: if (lr == rs) mods(s, 1 + (int)rs, 0, 0, ct(0, -(L)sr, 0), key(SDLK_KP_2), "control and keypad 2"); else mods(s, 0, 0, 0, cx(-(L)ar), key(SDLK_KP_2), "keypad 2"); break;
            case 13: mods(s, 0, 0, 0, [&m] { memcpy(m.E, m.home, 56); }, key(SDLK_HOME), "home"); break;
            case 14: case 15: { bool left = o == 14, both = r.coin(.2); // press, then drag
                s.e = ev(SDL_MOUSEBUTTONDOWN); s.pre = [&, x, yy] { { Loud l; judge(last.c_str()); } cleankeys(); fg::mouse().x = mx = x; fg::mouse().y = my = yy; known = true; last = "press"; }; LP->steps.push_back(s);
                int nd = (int)r.range(1, 3); for (int d = 0; d < nd; d++) { int x1 = x + (int)r.range(-300, 300), y1 = yy + (int)r.range(-300, 300); Step t; t.e = motion(x1, y1, left ? SDL_BUTTON(SDL_BUTTON_LEFT) | (both ? SDL_BUTTON(SDL_BUTTON_RIGHT) : 0) : SDL_BUTTON(SDL_BUTTON_RIGHT)); t.pre = [&, x1, y1, left] { { Loud l; judge(last.c_str()); } L dx = x1 - mx, dy = y1 - my; mx = x1; my = y1; last = left ? "left drag" : "right drag"; if (left) { TF C = camtf(m); V3 ax{{C.R(0, 0), C.R(1, 0), C.R(2, 0)}}; setcam(m, turn({{0, 0, 1}}, -.1L * ar * dx) * (turn(ax, -.1L * ar * dy) * C)); } else setcam(m, camtf(m) * trans(-.1L * sr * dx, .1L * sr * dy, 0)); }; LP->steps.push_back(t); } continue; }
            case 16: s.e = motion(x, yy, 0); s.pre = [&, x, yy] { { Loud l; judge(last.c_str()); } mx = x; my = yy; last = "moving the mouse"; }; break;
            case 17: { s.e = ev(SDL_WINDOWEVENT); s.e.window.event = r.coin() ? SDL_WINDOWEVENT_RESIZED : SDL_WINDOWEVENT_SIZE_CHANGED; s.e.window.data1 = ww; s.e.window.data2 = hh; s.pre = [&, ww, hh] { m.aspect = (double)ww / hh; }; LP->steps.push_back(s); Step t; t.wait = true; t.pre = [&, ww, hh] { Loud l; fg::Ctx *c = fg::cur; CHECK("resize", c && c->vp[0] == 0 && c->vp[1] == 0 && c->vp[2] == ww && c->vp[3] == hh, "a window of %d x %d is drawn in %d x %d", ww, hh, c ? c->vp[2] : -1, c ? c->vp[3] : -1); }; LP->steps.push_back(t); continue; }
            case 18: { s.e = key(SDLK_c); mods(s, 0, 0, 0, [] { fg::clipboard() = ""; }, s.e, "copying the pose"); LP->steps.push_back(s); Step t; t.wait = true; t.pre = [&] { Loud l; double E[7]; char z; int k = sscanf(fg::clipboard().c_str(), "%lf %lf %lf %lf %lf %lf %lf %c", E, E + 1, E + 2, E + 3, E + 4, E + 5, E + 6, &z); CHECK("clipboard", k == 7, "the clipboard holds '%s'", fg::clipboard().c_str()); if (k != 7) return; Buf C(7); aa_rx_win_get_tf_cam(win, C); CLOSEV("clipboard", E, C.p, 7, 1.1e-6 * (1 + fabs(C[4]) + fabs(C[5]) + fabs(C[6])) ); }; LP->steps.push_back(t); continue; }
            case 19: { s.e = key(SDLK_F11); s.pre = [&] { last = "F11"; }; LP->steps.push_back(s); Step t; t.wait = true; bool *full = new bool; t.pre = [full] { Loud l; bool now = fg::windows()[0]->flags & SDL_WINDOW_FULLSCREEN_DESKTOP; static bool was = false; CHECK("fullscreen", now != was, "F11 does not toggle full screen"); was = now; delete full; }; LP->steps.push_back(t); continue; }
            case 20: { // configuration or camera set between frames
                s.wait = true; s.pre = [&, rs, val] { if (rs) { memcpy(m.E, val, 56); Buf E(val, 7); aa_rx_win_set_tf_cam(win, E); last = "setting the camera"; } else rq(); }; LP->steps.push_back(s); idle(3); Step t; t.wait = true; t.pre = look; LP->steps.push_back(t); continue; }
            case 21: { idle(3); s.wait = true; s.pre = look; break; }
            default: { // 3D mouse: fly
                int ax[6]; for (int &a : ax) a = r.coin(.4) ? (int)r.range(-30, 30) : (int)r.range(-350, 350); bool f = r.coin(.8), foc = r.coin(.8); s.wait = true; idle(2);
                s.pre = [&, ax0 = std::vector<int>(ax, ax + 6), f, foc] { { Loud l; judge(last.c_str()); } cleankeys(); spnav_event e; memset(&e, 0, sizeof e); e.motion.type = SPNAV_EVENT_MOTION; e.motion.x = ax0[0]; e.motion.y = ax0[1]; e.motion.z = ax0[2]; e.motion.rx = ax0[3]; e.motion.ry = ax0[4]; e.motion.rz = ax0[5]; { fg::Lk l; spnav_event junk = e; junk.motion.x = 300; fg::spq().push_back(junk); spnav_event b; memset(&b, 0, sizeof b); b.button.type = SPNAV_EVENT_BUTTON; b.button.press = 1; b.button.bnum = (ax0[0] + 400) % 40; fg::spq().push_back(b); fg::spq().push_back(e); } if (f) fg::keys()[SDL_SCANCODE_F] = 1; auto &fl = fg::windows()[0]->flags; if (foc) fl |= SDL_WINDOW_INPUT_FOCUS; else fl &= ~(Uint32)SDL_WINDOW_INPUT_FOCUS; };
                LP->steps.push_back(s); Step t; t.wait = true;
                t.pre = [&, ax0 = std::vector<int>(ax, ax + 6), f, foc] { // one frame later the camera has moved once
                    Loud l; double a[6]; for (int k = 0; k < 6; k++) { double v = ax0[(size_t)k] / 350.0; a[k] = fabs(v) <= .1 ? 0 : (v - (v > 0 ? .1 : -.1)) / .9; } Buf E(7); aa_rx_win_get_tf_cam(win, E); TF N{rot(q4(E)), v3(E.p + 4)}; TF D = inv(camtf(m)) * N; Q4 dq = matq(D.R); if (dq[3] < 0) dq = -1.0L * dq; bool on = f && foc;
                    double want[6], got[6]; for (int k = 0; k < 3; k++) { want[k] = on ? a[k] * (k == 2 ? -1.5 : 1.5) / G->fps : 0; want[3 + k] = on ? a[3 + k] * (k == 2 ? -2 : 2) / G->fps : 0; got[k] = (double)D.p[k]; got[3 + k] = 2 * (double)dq[k]; }
                    double nv = 0, nw = 0; for (int k = 0; k < 3; k++) { nv += fabs(want[k]); nw += fabs(want[3 + k]); } double tv = 1e-9 + .06 * nv, tw = 1e-9 + .01 * nw; for (int k = 0; k < 6; k++) CHECK("fly", fabs(got[k] - want[k]) <= (k < 3 ? tv : tw), "3D mouse axis %d at %d moves the camera by %g instead of %g%s", k, ax0[(size_t)k], got[k], want[k], on ? "" : " although flying is off");
                    double Ep[7]; memcpy(Ep, E.p, 56); memcpy(m.E, Ep, 56); cleankeys(); fg::windows()[0]->flags |= SDL_WINDOW_INPUT_FOCUS; last = "flying"; };
                LP->steps.push_back(t); continue; }
            }
            LP->steps.push_back(s);
        }
        idle(3); { Step t; t.wait = true; t.pre = [&] { { Loud l; judge(last.c_str()); } look(); }; LP->steps.push_back(t); }
        aa_rx_win_run(); { Loud l; CHECK("ran", LP->steps.empty() && frames > 0, "the loop ended early"); CHECK("running", !aa_rx_win_is_running(win), "still running after the loop ended"); distinct(h * 64 + nq); event((uint64_t)frames); }
        finish(win); aa_rx_sg_destroy(sg);
    });
}

// ---------------------------------------------------------------- display functions
struct Disp { aa_rx_win *win; int id, calls = 0, destroyed = 0; struct Rec *rec; };
struct Rec { Rng r; std::vector<std::unique_ptr<Disp>> all; Disp *now = nullptr; bool quit = false, stop = false, upd = true, swap_due = false, first = true, soq = true, setupd = false; timespec last{}, init{}; long long slow = 0, dt = 0; int calls = 0, loops = 1; std::map<int, int> hit; SDL_Event cur; aa_rx_win *win; Rec(Rng x) : r(x) {} };
static void destroy_disp(void *c) { Disp *d = (Disp *)c; d->destroyed++; }
static long long ns(const timespec *x) { return (long long)x->tv_sec * 1000000000 + x->tv_nsec; }
static int display_rec(aa_rx_win *win, void *c, aa_sdl_display_params *p) {
    Disp *d = (Disp *)c; Rec *R = d->rec; Loud l; R->calls++; d->calls++; long long t = fg::ftime();
    CHECK("display", win == R->win && d == R->now && !d->destroyed, "a display function is called after it was replaced or with a wrong argument");
    if (R->quit) { CHECK("quit", !R->soq && !R->stop, "a frame is drawn after the loop was told to quit"); R->first = R->upd = true; R->quit = false; R->loops++; }   // quitting does not stop it: it starts afresh
    CHECK("first", (bool)aa_sdl_display_params_is_first(p) == R->first, "a frame is %smarked as the first", R->first ? "not " : "");
    const timespec *n = aa_sdl_display_params_get_time_now(p), *a = aa_sdl_display_params_get_time_last(p), *i = aa_sdl_display_params_get_time_initial(p);
    CHECK("timenow", ns(n) == t, "the time of a frame is off by %lld ns", ns(n) - t); if (R->first) { R->init = *i; CHECK("timeinit", ns(i) == t, "the initial time is off by %lld ns", ns(i) - t); CHECK("timelast", ns(a) == ns(i), "the last time of the first frame is not the initial time"); } else { CHECK("timeinit", ns(i) == ns(&R->init), "the initial time changes"); CHECK("timelast", ns(a) == ns(&R->last), "the last time is not the time of the frame before"); }
    long long gap = ns(n) - ns(&R->last); CHECK("rate", R->first || (gap <= std::max(R->dt, R->slow) + 1000 && gap >= R->dt - 1000001), "frames are %lld ns apart instead of %lld", gap, R->dt); R->last = *n; R->first = false;
    bool u = aa_sdl_display_params_get_update(p); CHECK("update", u == R->upd, "update is %d instead of %d", u, R->upd); R->swap_due = R->upd; R->upd = false;
    R->slow = R->r.coin(.1) ? (long long)R->r.range(0, 100000000) : 0; fg::ftime() += R->slow;
    if (R->r.coin(.3)) { aa_sdl_display_params_set_update(p); R->swap_due = true; } if (R->stop) R->quit = true; return (int)R->r.range(-1, 1);
}
struct Hand { int id; int ret; bool quit, upd; Rec *R; };
static int handler(void *c, aa_sdl_display_params *p) { Hand *h = (Hand *)c; Loud l; h->R->hit[h->id]++; const SDL_Event *e = aa_sdl_display_params_get_event(p); CHECK("event", e && e->type == h->R->cur.type && (e->type != SDL_KEYDOWN || e->key.keysym.sym == h->R->cur.key.keysym.sym), "a handler is given another event"); if (h->quit) aa_sdl_display_params_set_quit(p); if (h->upd) aa_sdl_display_params_set_update(p); return h->ret; }
SECTION(display, 500, 8000) {
    Rng r = rng; int n = (int)r.range(1, 20); note("%d steps", n);
    child([&] {
        setup(1000000000LL * r.range(1, 100000)); Rec R(r); std::vector<std::unique_ptr<Hand>> hs; std::map<Uint32, int> evb; std::map<SDL_Keycode, int> kb; const Uint32 evs[] = {SDL_MOUSEWHEEL, SDL_USEREVENT, SDL_JOYAXISMOTION, SDL_KEYUP, SDL_MOUSEBUTTONUP, SDL_WINDOWEVENT}; const SDL_Keycode ks[] = {SDLK_a, SDLK_z, SDLK_KP_PLUS, SDLK_HOME, SDLK_F2, SDLK_SPACE, SDLK_c};
        auto bind = [&] { Hand *h = new Hand{(int)hs.size(), r.coin(.7) ? 0 : (r.coin() ? 1 : -1), r.coin(.08), r.coin(.3), &R}; hs.emplace_back(h); if (r.coin()) { Uint32 t = evs[r.range(0, 5)]; aa_sdl_bind_event((SDL_EventType)t, handler, h); if (!evb.count(t)) evb[t] = h->id; } else { SDL_Keycode k = ks[r.range(0, 6)]; aa_sdl_bind_key(k, handler, h); if (!kb.count(k)) kb[k] = h->id; } };
        Cam m; int nb = (int)r.range(0, 12); for (int i = 0; i < nb; i++) bind(); aa_rx_win *win = mkwin(r, m); R.win = win; aa_gl_globals *G = aa_rx_win_gl_globals(win); R.dt = (long long)(1e9 / G->fps);
        auto install = [&] { Disp *d = new Disp{win, (int)R.all.size(), 0, 0, &R}; R.all.emplace_back(d); Disp *o = R.now; R.now = d; W(aa_rx_win_set_display(win, display_rec, d, destroy_disp)); if (o) CHECK("destructor", o->destroyed == 1, "the destructor of a replaced display function ran %d times", o->destroyed); CHECK("destructor", d->destroyed == 0, "a display function is destroyed at once"); };
        install(); if (r.coin(.4)) { int v = r.coin() ? 0 : 7; R.soq = v; aa_rx_win_stop_on_quit(win, v); } int swaps = 0; fg::on_swap() = [&](fg::Ctx *) { swaps++; CHECK("swap", R.swap_due, "a frame is shown that was not updated"); R.swap_due = false; };
        uint64_t h = 5; std::vector<int> expect(64);
        // what one event must lead to
        auto happen = [&](const SDL_Event &e) { R.cur = e; int id = -1; if (e.type == SDL_KEYDOWN) { auto it = kb.find(e.key.keysym.sym); if (it != kb.end()) id = it->second; } else { auto it = evb.find(e.type); if (it != evb.end()) id = it->second; } bool fall = true; if (id >= 0) { expect[(size_t)id]++; Hand *q = hs[(size_t)id].get(); if (q->quit) R.quit = true; if (q->upd) R.upd = true; fall = q->ret != 0; } else if (e.type == SDL_KEYDOWN && e.key.keysym.sym == SDLK_BACKQUOTE) fall = false; else if (e.type == SDL_QUIT) { R.quit = true; fall = false; }
            if (fall) { if (e.type == SDL_MOUSEWHEEL || (e.type == SDL_KEYDOWN && (e.key.keysym.sym == SDLK_KP_PLUS || e.key.keysym.sym == SDLK_HOME))) R.upd = true; if (e.type == SDL_WINDOWEVENT && e.window.event == SDL_WINDOWEVENT_EXPOSED) R.upd = true; } return fall; };
        auto counts = [&] { for (auto &x : hs) CHECK("handler", R.hit[x->id] == expect[(size_t)x->id], "handler %d of %zu ran %d times instead of %d", x->id, hs.size(), R.hit[x->id], expect[(size_t)x->id]); };
        double camz[7]; aa_rx_win_get_tf_cam(win, camz); bool camfall = false; SDL_Event prev; memset(&prev, 0, sizeof prev);
        fg::on_wait() = [&](SDL_Event *e, int) -> int {
            Loud l; if (++LP->waits > LP->limit || R.loops > 300) { fail("loop", "the loop does not end when told to"); report(); _exit(0); }
            Buf E(7); aa_rx_win_get_tf_cam(win, E); bool moved = memcmp(E.p, camz, 56); bool may = camfall && (prev.type == SDL_MOUSEWHEEL || prev.type == SDL_KEYDOWN); CHECK("default", may || !moved, "an event its handler dealt with moves the camera"); if (camfall && prev.type == SDL_MOUSEWHEEL) CHECK("default", moved, "a wheel event no handler dealt with does not move the camera"); memcpy(camz, E.p, 56); camfall = false;
            CHECK("quit", !R.quit, "the loop waits for events after it was told to quit"); counts();
            int o = (int)r.range(0, 9); if (n-- <= 0) o = 8; h = h * 31 + (uint64_t)o; memset(&prev, 0, sizeof prev); CHECK("running", aa_rx_win_is_running(win), "the window is not running while its loop runs");
            switch (o) {
            case 0: case 1: *e = key(ks[r.range(0, 6)]); break; case 2: *e = r.coin(.8) ? wheel((int)r.range(1, 3)) : ev(SDL_USEREVENT); break; case 3: *e = ev(evs[r.range(1, 4)]); break;
            case 4: *e = ev(SDL_WINDOWEVENT); e->window.event = r.coin() ? SDL_WINDOWEVENT_EXPOSED : SDL_WINDOWEVENT_FOCUS_GAINED; break; case 5: *e = key(SDLK_BACKQUOTE); break;
            case 6: { aa_rx_win_lock(win); if (r.coin(.3)) aa_rx_win_lock(win), aa_rx_win_unlock(win); install(); aa_rx_win_unlock(win); return 0; }
            case 8: if (n < -1 && !R.stop && r.coin()) { aa_rx_win_stop(win); R.stop = true; return 0; } if (R.stop) return 0; *e = ev(SDL_QUIT); break;
            default: return 0; }
            camfall = happen(*e); prev = *e; return 1; };
        aa_rx_win_run(); counts(); CHECK("running", !aa_rx_win_is_running(win), "still running after the loop ended"); CHECK("stoponquit", R.soq || R.stop, "closing the window stopped the loop although it should not"); CHECK("quit", R.quit, "the loop ended although nothing told it to"); CHECK("swap", !R.swap_due, "an updated frame was not shown"); event((uint64_t)R.calls); distinct(h);
        finish(win); for (auto &d : R.all) CHECK("destructor", d->destroyed == 1, "the destructor of a display function ran %d times", d->destroyed);
    });
}

// ---------------------------------------------------------------- plans
struct Seg { Boxes *b; std::vector<std::vector<double>> p; };
struct Plan { std::vector<Seg> seg; size_t n = 0; aa_rx_mp_seq *own = nullptr; double tau = 0, phase = 0, lt = 0, ls = 0; bool have = false, skip = false; size_t ljudged = 0;
    // first and last waypoint of the segment that waypoint i belongs to
    std::pair<size_t, size_t> ends(size_t i) const { size_t a = 0; for (auto &g : seg) { if (i < a + g.p.size()) return {a, a + g.p.size() - 1}; a += g.p.size(); } return {a, a}; }
    double pred(double u) const { if (u < 0) u = 0; size_t i = (size_t)floor(u); if (i >= n) return -1; return i == ends(i).second ? (double)i : u; }
    void see(fg::Ctx *c, const Cam &m, double t, const std::vector<Boxes *> &bs) {
        std::vector<double> q; Boxes *b = nullptr; for (Boxes *x : bs) if (x->read(c, m, q)) { b = x; break; } CHECK("plan", b, "the frame shows no configuration of any scene of the plan"); if (!b) return; event();
        if (getenv("C30_WHERE")) fprintf(stderr, "t %.4f s %.4f n %zu tau %g\n", t, q[0], n, tau); double s = q[0]; size_t i = (size_t)std::max(0.0, floor(s + 1e-4)); CHECK("plan", s > -1e-3 && s < (double)n - 1 + 1e-3, "the configuration shown is outside the plan"); if (i >= n) return; size_t a = 0; const Seg *g = nullptr; for (auto &x : seg) { if (i < a + x.p.size()) { g = &x; break; } a += x.p.size(); } if (!g) return;
        size_t k = i - a; bool last = k + 1 == g->p.size(); double f = s - (double)i; CHECK("scene", g->b == b, "waypoint %zu of the plan is shown in the scene of another segment", i); if (g->b != b) return; CHECK("jump", !last || fabs(f) < 1e-3, "the display moves between the last waypoint of a segment and the first of the next (%g)", s);
        for (size_t j = 0; j < q.size(); j++) { double w = last || f < 1e-4 ? g->p[k][j] : g->p[k][j] * (1 - f) + g->p[k + 1][j] * f; CHECK("line", fabs(q[j] - w) < 2e-3, "joint %zu is shown at %g instead of %g between waypoints %zu and %zu", j, q[j], w, i, i + 1); }
        if (tau > 0) { double u = (t - phase) / tau, e = 1e-3; double c0 = pred(u - e), c1 = pred(u + e); bool ok = (c0 >= 0 && fabs(s - c0) < 5e-3) || (c1 >= 0 && fabs(s - c1) < 5e-3); ljudged++;
            if (c1 < 0 || c0 < 0) { bool w = s <= (t - lt) / tau + 5e-3; CHECK("wrap", ok || w, "after its end the plan goes on at %g instead of its start", s); if (w && !ok) phase = t - s * tau; } else CHECK("pace", ok, "the plan shows %g instead of %g", s, c1); }
        else if (have && s > ls + 1e-3 && floor(ls + 1e-3) == floor(s) && ends((size_t)floor(ls + 1e-3)).second > (size_t)floor(ls + 1e-3) && s < (double)ends(i).second - 1e-3 && !last) { tau = (t - lt) / (s - ls); phase = t - s * tau; }
        have = true; lt = t; ls = s; } };
SECTION(plan, 200, 3000) {
    Rng r = rng; int nf = (int)r.range(20, 120), ns_ = (int)r.range(1, 4); note("%d frames", nf);
    child([&] {
        setup(1000000000LL * r.range(1000000, 2000000)); Cam m; aa_rx_win *win = mkwin(r, m); aa_gl_globals *G = aa_rx_win_gl_globals(win); G->fps = r.uni(3, 12); Boxes A((size_t)r.range(2, 3)), B(4); std::vector<Boxes *> bs = {&A, &B}; { Buf E(ABOVE, 7); aa_rx_win_set_tf_cam(win, E); memcpy(m.E, ABOVE, 56); }
        std::vector<std::unique_ptr<Plan>> all; Plan *now = nullptr; int sets = 0; uint64_t h = 1; std::vector<double> cfg; size_t judged = 0;
        auto put = [&] {
            Plan *P = new Plan; all.emplace_back(P); bool one = r.coin(.4); int k = one ? 1 : (int)r.range(1, 4); size_t base = 0; P->own = one ? nullptr : aa_rx_mp_seq_create();
            for (int i = 0; i < k; i++) { Seg g; g.b = r.coin() ? &A : &B; size_t n = (size_t)r.range(1, 6); if (one && r.coin(.1)) n = 40; std::vector<double> flat; for (size_t j = 0; j < n; j++) { std::vector<double> q(g.b->n); for (auto &x : q) x = r.coin(.1) ? 0 : r.uni(-3, 3); q[0] = (double)(base + j); flat.insert(flat.end(), q.begin(), q.end()); g.p.push_back(q); } base += n; P->seg.push_back(g); { Buf f(flat.data(), flat.size()); if (one) W(aa_rx_win_set_display_plan(win, g.b->sg, n, f)); else aa_rx_mp_seq_append_all(P->own, g.b->sg, n, f); memset(f.p, 0x7f, 8 * flat.size()); } h = h * 31 + n; }
            P->n = base; if (!one) W(aa_rx_win_set_display_seq(win, P->own)); now = P; sets++; };
        bool first = true; put(); if (r.coin(.2)) put();
        fg::on_swap() = [&](fg::Ctx *c) { Loud l; double t = (double)(fg::ftime() % 1000000000000000LL) / 1e9; if (first) { first = false; return; } if (now) { size_t b = now->ljudged; now->see(c, m, t, bs); judged += now->ljudged - b; } else { std::vector<double> q; CHECK("config", A.read(c, m, q), "the configuration is not shown after the plan was replaced"); for (size_t j = 0; j < q.size() && j < cfg.size(); j++) CHECK("config", fabs(q[j] - cfg[j]) < 2e-3, "joint %zu is shown at %g instead of %g", j, q[j], cfg[j]); event(); } if (r.coin(.1)) fg::ftime() += r.range(0, 900000000); };
        for (int i = 0; i < nf; i++) { Step s; s.wait = true; if (r.coin(.03)) s.pre = [&] { aa_rx_win_lock(win); if (r.coin(.7)) put(); else { cfg.assign(A.n, 0); W(aa_rx_win_set_sg(win, A.sg)); if (r.coin(.8)) { for (auto &x : cfg) x = r.uni(-3, 3); Buf b(cfg.data(), A.n); W(aa_rx_win_set_config(win, A.n, b)); } now = nullptr; } aa_rx_win_unlock(win); }; LP->steps.push_back(s); }
        aa_rx_win_run(); count("plan_frames_predicted", judged); distinct(h * 1000 + (uint64_t)nf); finish(win); for (auto &P : all) if (P->own) aa_rx_mp_seq_destroy(P->own);
    });
}

// ---------------------------------------------------------------- moving the end-effector with the 3D mouse
extern "C" void aa_rx_win_get_config(struct aa_rx_win *, size_t, double *);
SECTION(workspace, 200, 3000) {
    Rng r = rng; size_t nj = (size_t)r.range(1, 9); bool unl = r.coin(.6); note("%zu joints", nj);
    child([&] {
        setup(1000000000LL * r.range(1, 100000)); Cam m; aa_rx_win *win = mkwin(r, m); aa_gl_globals *G = aa_rx_win_gl_globals(win); Arm A(r, nj, unl); A.start(r); const size_t n = A.nq; double dt = 1 / G->fps; if (!n) return;
        W(aa_rx_win_set_sg_sub(win, A.ssg)); { Buf q(A.na); for (size_t i = 0; i < A.na; i++) q[i] = A.qstart[i]; for (size_t i = 0; i < n; i++) if (A.lim[i]) q[(size_t)aa_rx_sg_sub_config(A.ssg, i)] = r.uni(A.lo[i], A.hi[i]); for (size_t i = 0; i < A.na; i++) A.qs[aa_rx_sg_config_name(A.sg, (aa_rx_config_id)i)] = q[i]; W(aa_rx_win_set_config(win, A.na, q)); }
        auto get = [&] { Buf b(A.na); aa_rx_win_get_config(win, A.na, b); return std::vector<double>(b.p, b.p + A.na); }; auto arm = [&](const std::vector<double> &q) { std::vector<double> x(n); for (size_t i = 0; i < n; i++) x[i] = q[(size_t)aa_rx_sg_sub_config(A.ssg, i)]; return x; };
        std::vector<double> last = get(); bool on = false, was = false; double a[6] = {0}; TF ref{eye3(), {{0, 0, 0}}}; bool haveref = false; size_t judged = 0; uint64_t h = n;
        auto frame = [&] { // what the frame that was just drawn did to the configuration
            std::vector<double> q = get(); std::vector<double> x0 = arm(last), x1 = arm(q); for (size_t i = 0; i < A.na; i++) { bool mine = false; for (size_t j = 0; j < n; j++) mine |= (size_t)aa_rx_sg_sub_config(A.ssg, j) == i; CHECK("others", (on && mine) || q[i] == last[i], on ? "a joint outside the chain moves" : "a joint moves although no motion is requested"); }
            TF E0 = A.fk(x0.data(), A.tip);
            if (on) { for (size_t i = 0; i < n; i++) if (A.lim[i]) CHECK("limit", !(x0[i] >= A.hi[i] && x1[i] > x0[i]) && !(x0[i] <= A.lo[i] && x1[i] < x0[i]), "joint %zu at %g moves further out of its limits %g, %g", i, x0[i], A.lo[i], A.hi[i]);
                L w[6] = {.5L * a[2], -.5L * a[0], .5L * a[1], 1.5L * a[5], -1.5L * a[3], 1.5L * a[4]}, wn = 0, en = 0, e[6] = {0}; for (L x : w) wn += fabsl(x);
                if (haveref) { TF D = E0 * inv(ref); Q4 dq = matq(D.R); if (dq[3] < 0) dq = -1.0L * dq; for (int i = 0; i < 3; i++) { e[i] = E0.p[(size_t)i] - ref.p[(size_t)i]; e[3 + i] = 2 * dq[(size_t)i]; } for (L x : e) en += fabsl(x); }
                Kin K(A, x0.data()); if (unl && n >= 6 && K.smin > .1 && en < .3) { std::vector<L> d(n); for (size_t i = 0; i < n; i++) d[i] = ((L)x1[i] - x0[i]) / dt; auto v = K.fwd(d); judged++; for (size_t i = 0; i < 6; i++) CHECK("follow", fabsl(v[i] - (w[i] - e[i])) < 1e-6L + .01L * wn + .6L * en, "velocity component %zu of the end-effector is %Lg instead of %Lg - %Lg", i, v[i], w[i], e[i]); }
                ref = {rotaa(V3{{w[3], w[4], w[5]}} , 1), V3{{0, 0, 0}}}; { V3 wv{{w[3], w[4], w[5]}}; L th = norm(wv); M3 R = th > 0 ? rotaa(V3{{wv[0] / th, wv[1] / th, wv[2] / th}}, th * dt) : eye3(); ref.R = R * E0.R; for (size_t i = 0; i < 3; i++) ref.p[i] = E0.p[i] + w[i] * dt; } haveref = true; }
            else { ref = E0; haveref = true; }
            last = q; event(); (void)was; };
        int nf = (int)r.range(4, 30); bool x = false, foc = true; double na_[6] = {0};
        for (int i = 0; i < nf; i++) { bool chg = r.coin(.4) || !i; bool nx = chg ? r.coin(.75) : x, nfoc = chg ? r.coin(.9) : foc; std::vector<int> raw(6); bool nv = chg && r.coin(.7); for (int &k : raw) k = r.coin(.3) ? (int)r.range(-30, 30) : (int)r.range(-200, 200); x = nx; foc = nfoc; h = h * 31 + (uint64_t)(x + 2 * foc + 4 * nv);
            Step s; s.wait = true; s.pre = [&, nx, nfoc, nv, raw] { frame(); fg::keys()[SDL_SCANCODE_X] = nx; auto &fl = fg::windows()[0]->flags; if (nfoc) fl |= SDL_WINDOW_INPUT_FOCUS; else fl &= ~(Uint32)SDL_WINDOW_INPUT_FOCUS; if (nv) { spnav_event e; memset(&e, 0, sizeof e); e.motion.type = SPNAV_EVENT_MOTION; e.motion.x = raw[0]; e.motion.y = raw[1]; e.motion.z = raw[2]; e.motion.rx = raw[3]; e.motion.ry = raw[4]; e.motion.rz = raw[5]; { fg::Lk l; fg::spq().push_back(e); } for (int k = 0; k < 6; k++) { double v = raw[(size_t)k] / 350.0; na_[k] = fabs(v) <= .1 ? 0 : (v - (v > 0 ? .1 : -.1)) / .9; } } on = nx && nfoc; memcpy(a, na_, sizeof a); }; LP->steps.push_back(s); }
        { Step s; s.wait = true; s.pre = frame; LP->steps.push_back(s); }
        aa_rx_win_run(); count("workspace_steps_judged", judged); distinct(h); finish(win);
    });
}

// ---------------------------------------------------------------- threads
static void nap(Rng &r) { switch (r.range(0, 6)) { case 0: sched_yield(); break; case 1: usleep((useconds_t)r.range(1, 300)); break; case 2: for (volatile int i = 0; i < 200; i = i + 1) {} break; default: break; } }
struct Op { uint64_t b, e; long v; };   // a write with the tickets around it
struct TDisp { std::atomic<int> dead{0}, gone{0}, in{0}, calls{0}; struct TShared *sh; };
struct TShared { long n = 0; int holder = 0; aa_rx_win *win; Rng r{1}; uint64_t h = 0; };
static int tdisplay(aa_rx_win *, void *c, aa_sdl_display_params *p) {
    TDisp *d = (TDisp *)c; TShared *s = d->sh; CHECK("usage", !d->gone, "a display function runs after its context was destroyed"); CHECK("usage", !d->dead, "a display function runs after it was replaced"); d->calls++; CHECK("exclusive", s->holder == 0, "the display function runs while another thread holds the window"); s->holder = 7; long n = s->n; nap(s->r); s->n = n + 1; s->h = s->h * 31 + (uint64_t)(n & 7); CHECK("exclusive", s->holder == 7, "another thread holds the window while the display function runs"); s->holder = 0; CHECK("usage", !d->gone, "the context of a display function is destroyed while it runs"); aa_sdl_display_params_set_update(p); return 0;
}
static void tdestroy(void *c) { ((TDisp *)c)->gone++; }
SECTION(threads, 160, 2400) {
    Rng r = rng; int mode = (int)r.range(0, 2), start = (int)r.range(0, 3); note("mode %d, start %d", mode, start);
    child([&] {
        setup(0); std::atomic<uint64_t> tick{1}; std::atomic<int> frames{0}; std::atomic<bool> drawn{false}; aa_rx_win *win = nullptr; Cam m; std::thread runner;
        Boxes bx((size_t)r.range(2, 4)); std::vector<Op> shown; std::vector<std::vector<Op>> writes; Rng er(r.u64()); int wheels = 0; bool closing = false; std::atomic<bool> quit{false};
        fg::on_wait() = [&](SDL_Event *e, int) -> int { Loud l; if (quit.load() && !closing) { closing = true; *e = ev(SDL_QUIT); return 1; } if (mode == 1 && er.coin(.4) && wheels < 5000) { wheels++; *e = wheel(er.coin() ? 1 : -1); return 1; } return 0; };
        uint64_t fb = 0; bool reading = false; fg::on_swap() = [&](fg::Ctx *c) { Loud l; frames++; if (mode != 0 || !drawn) return; std::vector<double> q; if (!reading) { reading = true; fb = tick++; return; } bool ok = bx.read(c, m, q); uint64_t e = tick++; CHECK("frame", ok, "a frame does not show the scene"); if (!ok) return; long v = lround(q[0] * 64); for (double x : q) if (fabs(x - (double)v / 64) > 4e-3) { fail("torn", "a frame shows joints of different configurations: %g and %g", q[0], x); return; } shown.push_back({fb, e, v}); fb = e; };
        auto go = [&] { if (start == 2) { runner = std::thread([&] { aa_rx_win_run(); }); } else aa_rx_win_run_async(); };
        // the loop may be started before there is a window
        if (start == 3) { go(); nap(r); if (r.coin()) usleep(2000); }
        if (r.coin(.3)) { std::thread([&] { win = mkwin(r, m); }).join(); } else win = mkwin(r, m);
        aa_rx_win_lock(win); aa_gl_globals *G = aa_rx_win_gl_globals(win); if (start != 3) G->fps = r.coin() ? 1000 : r.uni(100, 600); { Buf E(ABOVE, 7); aa_rx_win_set_tf_cam(win, E); memcpy(m.E, ABOVE, 56); } TShared sh; sh.win = win; sh.r = Rng(r.u64()); std::vector<std::unique_ptr<TDisp>> ds; auto mk = [&] { TDisp *d = new TDisp; d->sh = &sh; ds.emplace_back(d); return d; };
        if (mode != 2) { aa_rx_win_set_sg(win, bx.sg); Buf q(bx.n); std::fill(q.p, q.p + bx.n, 0.0); aa_rx_win_set_config(win, bx.n, q); } else { TDisp *d = mk(); aa_rx_win_set_display(win, tdisplay, d, tdestroy); } bool noq = r.coin(.3); if (noq) aa_rx_win_stop_on_quit(win, 0); aa_rx_win_unlock(win);
        if (start != 3) { CHECK("running", aa_rx_win_is_running(win), "a new window counts as stopped"); go(); }
        drawn = true; if (r.coin(.5)) { while (frames < 1) usleep(200); aa_rx_win_run(); CHECK("running", aa_rx_win_is_running(win), "starting the loop twice stops it"); }
        int T = (int)r.range(1, 3); std::vector<std::thread> th; writes.resize((size_t)T + 1); writes[(size_t)T].push_back({0, 0, 0}); long per = r.range(5, start == 3 ? 12 : 60); std::atomic<long> lockinc{0}; std::atomic<bool> done{false};
        auto spawn = [&](std::function<void(Rng &)> f) { uint64_t s = r.u64(); th.emplace_back([f, s] { Rng q(s); f(q); }); };
        if (mode == 0) for (int t = 0; t < T; t++) spawn([&, t](Rng &q) { auto &w = writes[(size_t)t]; for (long k = 1; k <= per; k++) { long v = t * per + k; Buf b(bx.n); std::fill(b.p, b.p + bx.n, (double)v / 64); uint64_t s = tick++; if (q.coin()) aa_rx_win_set_config(win, bx.n, b); else { Buf c2(2 * bx.n); for (size_t i = 0; i < bx.n; i++) c2[2 * i] = (double)v / 64; aa_dvec d = AA_DVEC_INIT(bx.n, c2.p, 2); aa_rx_win_set_bconfig(win, &d); } w.push_back({s, tick++, v}); nap(q); } });
        else if (mode == 1) {
            spawn([&](Rng &q) { for (long k = 1; k <= 4 * per; k++) { Buf E(7); E[0] = E[1] = E[2] = 0; E[3] = 1; E[4] = (double)k; E[5] = 2 * (double)k; E[6] = q.uni(-5, 5); aa_rx_win_set_tf_cam(win, E); nap(q); Buf F(7); aa_rx_win_get_tf_cam(win, F); event(); CHECK("camset", F[4] == (double)k && F[5] == 2 * (double)k, "after the camera was set to (%ld %ld) it is at (%g %g)", k, 2 * k, F[4], F[5]); } done = true; });
            for (int t = 0; t < T; t++) spawn([&](Rng &q) { double prev = -1; while (!done) { Buf F(7); aa_rx_win_get_tf_cam(win, F); bool first = F[6] == 40 && F[4] == 0; event(); CHECK("camtorn", F[5] == 2 * F[4] && F[0] == 0 && F[1] == 0 && F[2] == 0 && F[3] == 1, "a camera pose mixes two (%g %g)", F[4], F[5]); CHECK("camback", F[4] >= prev, "the camera goes back from %g to %g", prev, F[4]); prev = F[4]; (void)first; nap(q); } });
        } else {
            for (int t = 0; t < T; t++) spawn([&, t](Rng &q) { for (long k = 0; k < per; k++) { aa_rx_win_lock(win); bool rec = q.coin(.2); if (rec) aa_rx_win_lock(win); CHECK("exclusive", sh.holder == 0, "two threads hold the window"); sh.holder = 1 + t; long n = sh.n; nap(q); sh.n = n + 1; lockinc++; sh.h = sh.h * 31 + (uint64_t)t; CHECK("exclusive", sh.holder == 1 + t, "two threads hold the window"); sh.holder = 0; if (rec) aa_rx_win_unlock(win); aa_rx_win_unlock(win); event(); nap(q); } });
            spawn([&](Rng &q) { TDisp *cur = ds.back().get(); for (long k = 0; k < per; k++) { TDisp *d = mk(); aa_rx_win_set_display(win, tdisplay, d, tdestroy); cur->dead = 1; CHECK("destructor", cur->gone == 1, "the context of a replaced display function is destroyed %d times", (int)cur->gone); cur = d; event(); nap(q); } });
        }
        for (auto &t : th) t.join(); int f0 = frames; for (int k = 0; k < 20000 && frames < f0 + 3; k++) usleep(500); CHECK("alive", frames >= f0 + 3, "the display loop stalls");
        if (noq || r.coin()) { aa_rx_win_stop(win); quit = r.coin(); } else quit = true; int k = 0; while (aa_rx_win_is_running(win) && k++ < 20000) usleep(r.coin() ? 0 : 500); CHECK("stop", !aa_rx_win_is_running(win), "the display loop does not stop"); if (runner.joinable() && r.coin()) runner.join();
        fg::on_swap() = nullptr; aa_rx_win_destroy(win); if (runner.joinable()) runner.join(); CHECK("release", fg::windows().empty() && fg::contexts().empty(), "the window or its context remains after destroying it");
        if (mode == 0) { // every frame shows the last configuration set before it or one set meanwhile
            std::map<long, Op> by; uint64_t h = 0; for (auto &w : writes) for (auto &o : w) by[o.v] = o; const Op *pw = nullptr; for (auto &f : shown) { auto it = by.find(f.v); if (it == by.end()) { fail("shown", "a frame shows %ld, which nobody set", f.v); break; } Op o = it->second; CHECK("future", o.b < f.e, "a frame shows a configuration before it is set"); for (auto &x : by) if (x.second.b > o.e && x.second.e < f.b) { fail("stale", "a frame shows configuration %ld although %ld was set after it and before the frame", f.v, x.first); break; } if (pw) CHECK("back", !(o.e < pw->b), "a later frame goes back to an older configuration"); pw = &it->second; h = h * 31 + (uint64_t)f.v; event(); } distinct(h); count("frames_judged", shown.size()); }
        else if (mode == 2) { long c = 0; for (auto &d : ds) { c += d->calls; CHECK("destructor", d->gone == 1, "the context of a display function is destroyed %d times", (int)d->gone); } CHECK("exclusive", sh.n == c + lockinc, "%ld updates under the lock, %ld seen", c + (long)lockinc, sh.n); distinct(sh.h); } else distinct((uint64_t)frames * 1000 + (uint64_t)wheels);
    }, 120);
}
extern "C" const char *__tsan_default_options(void) { return "report_thread_leaks=0"; }   // the thread of run_async is never joined
VK_MAIN
