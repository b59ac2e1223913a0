// Stand-ins for OpenGL, SDL and libspnav: they keep the state a driver keeps,
// check every call the way a strict driver would, and record what is drawn.
#pragma once
#include "vk.hpp"
#include <SDL.h>
#define GL_GLEXT_PROTOTYPES
#include <SDL_opengl.h>
#include <spnav.h>
#include <time.h>
#include <deque>
#include <regex>

namespace fg {

struct Tex { int w = 0, h = 0; std::vector<uint8_t> px; };
struct Attr { bool on = false; GLuint buf = 0; int size = 0; int stride = 0; size_t off = 0; };
struct Shader { GLenum type = 0; std::string src; bool compiled = false; };
struct Program { std::vector<GLuint> sh; bool linked = false; std::map<std::string, int> attr, uni, kind; /* kind: 0 position, 1 normal, 2 texture */ std::map<int, std::pair<std::string, std::vector<float>>> val; };
struct Draw {
    GLenum mode = 0; size_t count = 0; std::vector<std::array<float, 4>> pos, nrm, uv; bool has_nrm = false, has_uv = false;
    std::vector<uint8_t> rgba; int tw = 0, th = 0; std::map<std::string, std::vector<float>> u; GLuint values = 0; std::string names[3]; std::vector<unsigned> idx; size_t nvert = 0;
};
struct Ctx {
    std::map<GLuint, std::vector<uint8_t>> buf; std::map<GLuint, Tex> tex; std::map<GLuint, Shader> sh; std::map<GLuint, Program> prog; std::set<GLuint> vao;
    std::map<int, Attr> attr; GLuint arr = 0, elt = 0, bt = 0, prog_cur = 0; std::set<GLenum> enabled; GLenum bs = 0, bd = 0; float cc[4] = {0, 0, 0, 0};
    std::vector<Draw> frame; bool cleared_c = false, cleared_d = false; int clears = 0; int vp[4] = {0, 0, 0, 0}; GLuint next = 1; uint64_t draws = 0;
};
struct Win { int w, h; Uint32 flags; std::string title; bool alive = true; };
// ---- state
inline std::recursive_mutex &mx() { static std::recursive_mutex m; return m; }
inline Ctx *&main_ctx() { static Ctx *c = nullptr; return c; }
inline thread_local Ctx *cur = nullptr;
inline int &cur_holders() { static int n = 0; return n; }
inline std::vector<Ctx *> &contexts() { static std::vector<Ctx *> v; return v; }
inline std::vector<Win *> &windows() { static std::vector<Win *> v; return v; }
inline std::function<void(Ctx *)> &on_swap() { static std::function<void(Ctx *)> f; return f; }
inline std::function<int(SDL_Event *, int)> &on_wait() { static std::function<int(SDL_Event *, int)> f; return f; }
inline Uint8 *keys() { static Uint8 k[SDL_NUM_SCANCODES]; return k; }
struct Mouse { int x = 0, y = 0; Uint32 b = 0; };
inline Mouse &mouse() { static Mouse m; return m; }
inline std::string &clipboard() { static std::string s; return s; }
inline std::deque<spnav_event> &spq() { static std::deque<spnav_event> q; return q; }
inline bool &have_spnav() { static bool b = true; return b; }
inline int &bad_shader() { static int b = 0; return b; }
// fake time (ns); 0 = real clock
inline std::atomic<long long> &ftime() { static std::atomic<long long> t{0}; return t; }
inline thread_local int inside = 0;   // running stand-in code
struct In { In() { inside++; } ~In() { inside--; } };
inline void oops(const char *fn, const char *what) { vk::fail("gl-misuse", "%s: %s", fn, what); }
inline Ctx *need(const char *fn) { In in; if (!cur) { oops(fn, "called in a thread that has no GL context"); static Ctx dummy; return &dummy; } return cur; }
struct Lk { In in; Lk() { mx().lock(); } ~Lk() { mx().unlock(); } };
inline size_t live(Ctx *c) { return c->buf.size() + c->tex.size(); }
inline Ctx *new_ctx() { Ctx *c = new Ctx; c->next = 1 + 1000 * (GLuint)contexts().size(); contexts().push_back(c); return c; }
inline void link_names(Ctx *c, Program &p) {
    int a = 2, u = 3;
    for (GLuint s : p.sh) {
        auto it = c->sh.find(s); if (it == c->sh.end()) continue;
        std::regex re("(attribute|uniform)\\s+(\\w+)\\s+(\\w+)\\s*;"); std::string t = it->second.src;
        for (std::sregex_iterator i(t.begin(), t.end(), re), e; i != e; ++i) { std::string k = (*i)[1], n = (*i)[3]; if (k == "attribute") { p.attr[n] = a; a += 3; p.kind[n] = (*i)[2] == "vec2" ? 2 : n.find("orm") != std::string::npos ? 1 : 0; } else if (!p.uni.count(n)) { p.uni[n] = u; u += 2; } }
    }
}
inline void uniform(const char *fn, GLint loc, const float *v, size_t n) {
    Lk l; Ctx *c = need(fn); if (!c->prog_cur) { oops(fn, "no program in use"); return; }
    Program &p = c->prog[c->prog_cur]; std::string name; for (auto &x : p.uni) if (x.second == loc) name = x.first;
    if (name.empty()) { oops(fn, "no such uniform location"); return; }
    p.val[loc] = {name, std::vector<float>(v, v + n)};
}
inline void draw(const char *fn, GLenum mode, const std::vector<unsigned> &idx) {
    Ctx *c = need(fn); c->draws++;
    if (!c->prog_cur) { oops(fn, "no program in use"); return; }
    Program &p = c->prog[c->prog_cur]; Draw d; d.mode = mode; d.count = idx.size(); d.idx = idx;
    for (auto &x : p.uni) { auto it = p.val.find(x.second); if (it == p.val.end()) { if (x.first.find("ampler") == std::string::npos) oops(fn, ("uniform never set: " + x.first).c_str()); } else d.u[x.first] = it->second.second; }
    for (auto &x : p.attr) {
        auto &A = c->attr[x.second]; int kd = p.kind[x.first]; bool isp = kd == 0, isn = kd == 1; d.names[kd] = x.first;
        if (!A.on) { if (isp) oops(fn, "vertex positions not enabled"); continue; }
        auto b = c->buf.find(A.buf); if (b == c->buf.end()) { oops(fn, ("attribute reads a buffer that does not exist: " + x.first).c_str()); continue; }
        size_t st = A.stride ? (size_t)A.stride : (size_t)A.size * 4; bool bad = false; auto &dst = isp ? d.pos : isn ? d.nrm : d.uv;
        if (isp) { d.values = A.buf; d.nvert = b->second.size() / st; } if (isn) d.has_nrm = true; if (!isp && !isn) d.has_uv = true;
        for (unsigned i : idx) {
            std::array<float, 4> v = {0, 0, 0, 1}; size_t o = A.off + (size_t)i * st;
            if (o + (size_t)A.size * 4 > b->second.size()) { bad = true; break; }
            memcpy(v.data(), b->second.data() + o, (size_t)A.size * 4); dst.push_back(v);
        }
        if (bad) { oops(fn, ("an index reads past the end of the attribute buffer: " + x.first).c_str()); dst.clear(); }
    }
    for (auto &A : c->attr) if (A.second.on) { bool known = false; for (auto &x : p.attr) known |= x.second == A.first; if (!known) oops(fn, "attribute enabled that the program does not have"); }
    if (c->bt) { auto t = c->tex.find(c->bt); if (t == c->tex.end()) oops(fn, "texture does not exist"); else { d.rgba = t->second.px; d.tw = t->second.w; d.th = t->second.h; } }
    c->frame.push_back(std::move(d));
}

// ---- interpreter for the straight-line subset of GLSL the shaders use
struct Val { int r = 0, c = 1; float d[16] = {0}; };
struct Glsl {
    std::map<std::string, Val> env; const Draw *dr = nullptr; std::vector<std::string> tok; size_t i = 0; bool ok = true;
    static std::vector<std::string> lex(const std::string &s) {
        std::vector<std::string> t; size_t k = 0;
        while (k < s.size()) {
            if (isspace((unsigned char)s[k])) { k++; continue; }
            if (isalpha((unsigned char)s[k]) || s[k] == '_') { size_t b = k; while (k < s.size() && (isalnum((unsigned char)s[k]) || s[k] == '_')) k++; t.push_back(s.substr(b, k - b)); }
            else if (isdigit((unsigned char)s[k]) || (s[k] == '.' && k + 1 < s.size() && isdigit((unsigned char)s[k + 1]))) { size_t b = k; while (k < s.size() && (isalnum((unsigned char)s[k]) || s[k] == '.')) k++; t.push_back(s.substr(b, k - b)); }
            else t.push_back(std::string(1, s[k++]));
        }
        return t;
    }
    std::string pk() { return i < tok.size() ? tok[i] : std::string(); }
    std::string nx() { return i < tok.size() ? tok[i++] : std::string(); }
    bool eat(const char *s) { if (pk() == s) { i++; return true; } return false; }
    static Val sc(double x) { Val v; v.r = 1; v.d[0] = (float)x; return v; }
    Val bin(char o, Val a, Val b) {
        Val z;
        if (o == '*' && a.c > 1) { if (a.c != b.r) { if (b.r == 1 && b.c == 1) { for (int k = 0; k < a.r * a.c; k++) a.d[k] *= b.d[0]; return a; } ok = false; return z; } z.r = a.r; z.c = b.c; for (int j = 0; j < b.c; j++) for (int k = 0; k < a.r; k++) { float s = 0; for (int m = 0; m < a.c; m++) s += a.d[m * a.r + k] * b.d[j * b.r + m]; z.d[j * z.r + k] = s; } return z; }
        if (a.r == 1 && a.c == 1 && (b.r > 1)) { Val t = b; for (int k = 0; k < b.r * b.c; k++) t.d[k] = a.d[0]; a = t; }
        if (b.r == 1 && b.c == 1 && (a.r > 1)) { Val t = a; for (int k = 0; k < a.r * a.c; k++) t.d[k] = b.d[0]; b = t; }
        if (a.r != b.r || a.c != b.c || a.c > 1) { ok = false; return z; }
        for (int k = 0; k < a.r; k++) a.d[k] = o == '+' ? a.d[k] + b.d[k] : o == '-' ? a.d[k] - b.d[k] : o == '*' ? a.d[k] * b.d[k] : a.d[k] / b.d[k];
        return a;
    }
    Val expr() { Val a = mul(); while (ok && (pk() == "+" || pk() == "-")) { char o = nx()[0]; a = bin(o, a, mul()); } return a; }
    Val mul() { Val a = un(); while (ok && (pk() == "*" || pk() == "/")) { char o = nx()[0]; a = bin(o, a, un()); } return a; }
    Val un() { if (eat("-")) { Val v = un(); for (float &x : v.d) x = -x; return v; } if (eat("+")) return un(); return post(); }
    Val post() {
        Val v = prim();
        while (ok && eat(".")) { std::string s = nx(); Val z; z.r = 0; for (char ch : s) { size_t k = std::string("xyzwrgbastpq").find(ch); if (k == std::string::npos || z.r > 3) { ok = false; return v; } z.d[z.r++] = v.d[k % 4]; } v = z; }
        return v;
    }
    static float dot(const Val &a, const Val &b) { float s = 0; for (int k = 0; k < a.r; k++) s += a.d[k] * b.d[k]; return s; }
    Val prim() {
        if (eat("(")) { Val v = expr(); if (!eat(")")) ok = false; return v; }
        std::string t = nx(); if (t.empty()) { ok = false; return Val(); }
        if (isdigit((unsigned char)t[0]) || t[0] == '.') return sc(atof(t.c_str()));
        if (!eat("(")) { auto it = env.find(t); if (it == env.end()) { ok = false; return Val(); } return it->second; }
        std::vector<Val> a; if (!eat(")")) { do a.push_back(expr()); while (ok && eat(",")); if (!eat(")")) ok = false; }
        if (!ok) return Val(); size_t n = a.size();
        auto map1 = [&](float (*f)(float)) { for (int k = 0; k < a[0].r; k++) a[0].d[k] = f(a[0].d[k]); return a[0]; };
        auto bc = [&](size_t k) { if (a[k].r == 1) for (int m = 1; m < 4; m++) a[k].d[m] = a[k].d[0]; };
        if (t == "vec2" || t == "vec3" || t == "vec4") { Val z; int R = t[3] - '0'; z.r = 0; if (n == 1 && a[0].r == 1) { z.r = R; for (int k = 0; k < R; k++) z.d[k] = a[0].d[0]; return z; } for (auto &v : a) for (int k = 0; k < v.r && z.r < R; k++) z.d[z.r++] = v.d[k]; if (z.r != R) ok = false; return z; }
        if (t == "mat3" && n == 1 && a[0].c == 4) { Val z; z.r = z.c = 3; for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) z.d[j * 3 + k] = a[0].d[j * 4 + k]; return z; }
        if (t == "float" && n == 1) return sc(a[0].d[0]);
        if (t == "length" && n == 1) return sc(sqrtf(dot(a[0], a[0])));
        if (t == "distance" && n == 2) { Val v = bin('-', a[0], a[1]); return sc(sqrtf(dot(v, v))); }
        if (t == "dot" && n == 2) return sc(dot(a[0], a[1]));
        if (t == "normalize" && n == 1) { float m = sqrtf(dot(a[0], a[0])); for (int k = 0; k < a[0].r; k++) a[0].d[k] /= m; return a[0]; }
        if (t == "reflect" && n == 2) { float s = 2 * dot(a[0], a[1]); for (int k = 0; k < a[0].r; k++) a[0].d[k] -= s * a[1].d[k]; return a[0]; }
        if (t == "cross" && n == 2) { Val z; z.r = 3; for (int k = 0; k < 3; k++) z.d[k] = a[0].d[(k + 1) % 3] * a[1].d[(k + 2) % 3] - a[0].d[(k + 2) % 3] * a[1].d[(k + 1) % 3]; return z; }
        if (t == "clamp" && n == 3) { bc(1); bc(2); for (int k = 0; k < a[0].r; k++) a[0].d[k] = std::min(std::max(a[0].d[k], a[1].d[k]), a[2].d[k]); return a[0]; }
        if (t == "max" && n == 2) { bc(1); for (int k = 0; k < a[0].r; k++) a[0].d[k] = std::max(a[0].d[k], a[1].d[k]); return a[0]; }
        if (t == "min" && n == 2) { bc(1); for (int k = 0; k < a[0].r; k++) a[0].d[k] = std::min(a[0].d[k], a[1].d[k]); return a[0]; }
        if (t == "pow" && n == 2) { bc(1); for (int k = 0; k < a[0].r; k++) a[0].d[k] = powf(a[0].d[k], a[1].d[k]); return a[0]; }
        if (t == "mix" && n == 3) { bc(2); for (int k = 0; k < a[0].r; k++) a[0].d[k] = a[0].d[k] * (1 - a[2].d[k]) + a[1].d[k] * a[2].d[k]; return a[0]; }
        if (t == "sqrt" && n == 1) return map1([](float x) { return sqrtf(x); });
        if (t == "abs" && n == 1) return map1([](float x) { return fabsf(x); });
        if (t == "inversesqrt" && n == 1) return map1([](float x) { return 1 / sqrtf(x); });
        if (t == "texture2D" && n == 2 && dr) { Val z; z.r = 4; if (!dr->tw || !dr->th || dr->rgba.empty()) { z.d[3] = 1; return z; } auto w = [](float x, int m) { float f = x - floorf(x); int k = (int)(f * (float)m); return std::min(std::max(k, 0), m - 1); }; int X = w(a[1].d[0], dr->tw), Y = w(a[1].d[1], dr->th); for (int k = 0; k < 4; k++) z.d[k] = (float)dr->rgba[(size_t)(4 * (Y * dr->tw + X) + k)] / 255.f; return z; }
        ok = false; return Val();
    }
    // run main() of a shader; false when it is not straight-line code we understand
    bool run(const std::string &src) {
        size_t m = src.find("void main"); if (m == std::string::npos) return false;
        size_t b = src.find('{', m), e = src.rfind('}'); if (b == std::string::npos || e == std::string::npos || e < b) return false;
        tok = lex(src.substr(b + 1, e - b - 1)); i = 0; ok = true;
        static const std::set<std::string> types = {"float", "vec2", "vec3", "vec4", "mat3", "mat4", "const", "highp", "mediump", "lowp"};
        while (ok && i < tok.size()) {
            if (eat(";")) continue;
            while (types.count(pk()) && i + 1 < tok.size() && (isalpha((unsigned char)tok[i + 1][0]) || tok[i + 1][0] == '_')) i++;
            std::string n = nx(); std::string mem; if (eat(".")) mem = nx();
            char op = 0; if (pk() == "+" || pk() == "-" || pk() == "*" || pk() == "/") op = nx()[0];
            if (!eat("=")) return false;
            Val v = expr(); if (!ok || !eat(";")) return false;
            if (op) { if (!mem.empty()) return false; v = bin(op, env[n], v); if (!ok) return false; }
            if (mem.empty()) env[n] = v; else { Val &t = env[n]; if (t.r == 0) t.r = 4; size_t q = 0; for (char ch : mem) { size_t k = std::string("xyzwrgba").find(ch); if (k == std::string::npos) return false; t.d[k % 4] = v.d[v.r == 1 ? 0 : q++]; } }
        }
        return ok;
    }
};
inline Val toval(const std::vector<float> &v) { Val z; if (v.size() == 16) z.r = z.c = 4; else if (v.size() == 9) z.r = z.c = 3; else z.r = (int)v.size(); for (size_t k = 0; k < v.size() && k < 16; k++) z.d[k] = v[k]; return z; }
inline Val v4(const std::array<float, 4> &a, int n) { Val z; z.r = n; for (int k = 0; k < n; k++) z.d[k] = a[(size_t)k]; return z; }
inline std::string source(Ctx *c, GLenum type) { for (auto &s : c->sh) if (s.second.type == type) return s.second.src; return ""; }
struct Shaded { bool ok_v = false, ok_f = false; float pos[4], color[4]; };
// clip-space position and colour the program computes for vertex k of a draw
inline Shaded shade(Ctx *c, const Draw &d, size_t k, bool frag = true) {
    Shaded s; Glsl g; g.dr = &d;
    for (auto &u : d.u) g.env[u.first] = toval(u.second);
    { static const std::regex rs("sampler2D\\s+(\\w+)"); std::string f = source(c, GL_FRAGMENT_SHADER); std::smatch m; if (std::regex_search(f, m, rs)) g.env[m[1]] = Glsl::sc(0); }
    g.env[d.names[0]] = k < d.pos.size() ? v4(d.pos[k], 3) : v4({0, 0, 0, 1}, 3);
    g.env[d.names[1]] = k < d.nrm.size() ? v4(d.nrm[k], 3) : v4({0, 0, 0, 1}, 3);
    g.env[d.names[2]] = k < d.uv.size() ? v4(d.uv[k], 2) : v4({0, 0, 0, 1}, 2);
    s.ok_v = g.run(source(c, GL_VERTEX_SHADER)); if (!s.ok_v || !g.env.count("gl_Position")) { s.ok_v = false; return s; }
    memcpy(s.pos, g.env["gl_Position"].d, sizeof s.pos);
    if (frag) { s.ok_f = g.run(source(c, GL_FRAGMENT_SHADER)) && g.env.count("gl_FragColor"); if (s.ok_f) memcpy(s.color, g.env["gl_FragColor"].d, sizeof s.color); }
    return s;
}
} // namespace fg

extern "C" {
using namespace fg;
#define GLF(name) Lk l_; Ctx *c = need(#name); (void)c
GLenum glGetError(void) { need("glGetError"); return GL_NO_ERROR; }
const GLubyte *glGetString(GLenum) { need("glGetString"); return (const GLubyte *)"stand-in"; }
GLuint glCreateShader(GLenum t) { GLF(glCreateShader); GLuint n = c->next++; c->sh[n].type = t; return n; }
void glShaderSource(GLuint s, GLsizei n, const GLchar *const *str, const GLint *len) { GLF(glShaderSource); if (!c->sh.count(s)) return oops("glShaderSource", "no such shader"); std::string t; for (int i = 0; i < n; i++) t += len && len[i] >= 0 ? std::string(str[i], (size_t)len[i]) : std::string(str[i]); c->sh[s].src = t; }
void glCompileShader(GLuint s) { GLF(glCompileShader); if (!c->sh.count(s)) return oops("glCompileShader", "no such shader"); c->sh[s].compiled = !bad_shader(); }
void glGetShaderiv(GLuint s, GLenum p, GLint *v) { GLF(glGetShaderiv); *v = p == GL_COMPILE_STATUS ? c->sh[s].compiled : p == GL_INFO_LOG_LENGTH ? 5 : 0; }
void glGetShaderInfoLog(GLuint, GLsizei n, GLsizei *, GLchar *b) { need("glGetShaderInfoLog"); if (n) snprintf(b, (size_t)n, "oops"); }
void glGetProgramInfoLog(GLuint, GLsizei n, GLsizei *, GLchar *b) { need("glGetProgramInfoLog"); if (n) snprintf(b, (size_t)n, "oops"); }
void glDeleteShader(GLuint s) { GLF(glDeleteShader); (void)s; }
void glDetachShader(GLuint, GLuint) { need("glDetachShader"); }
GLuint glCreateProgram(void) { GLF(glCreateProgram); GLuint n = c->next++; c->prog[n]; return n; }
void glAttachShader(GLuint p, GLuint s) { GLF(glAttachShader); if (!c->prog.count(p) || !c->sh.count(s)) return oops("glAttachShader", "no such object"); c->prog[p].sh.push_back(s); }
void glLinkProgram(GLuint p) { GLF(glLinkProgram); if (!c->prog.count(p)) return oops("glLinkProgram", "no such program"); auto &P = c->prog[p]; P.linked = P.sh.size() == 2; for (auto s : P.sh) P.linked &= c->sh[s].compiled; link_names(c, P); }
void glGetProgramiv(GLuint p, GLenum n, GLint *v) { GLF(glGetProgramiv); *v = n == GL_LINK_STATUS ? c->prog[p].linked : n == GL_INFO_LOG_LENGTH ? 5 : 0; }
void glUseProgram(GLuint p) { GLF(glUseProgram); if (p && !c->prog.count(p)) return oops("glUseProgram", "no such program"); c->prog_cur = p; }
GLint glGetAttribLocation(GLuint p, const GLchar *n) { GLF(glGetAttribLocation); auto &P = c->prog[p]; return P.attr.count(n) ? P.attr[n] : -1; }
GLint glGetUniformLocation(GLuint p, const GLchar *n) { GLF(glGetUniformLocation); auto &P = c->prog[p]; return P.uni.count(n) ? P.uni[n] : -1; }
void glGenBuffers(GLsizei n, GLuint *o) { GLF(glGenBuffers); for (int i = 0; i < n; i++) { o[i] = c->next++; c->buf[o[i]]; } }
void glDeleteBuffers(GLsizei n, const GLuint *o) { GLF(glDeleteBuffers); for (int i = 0; i < n; i++) { if (!c->buf.erase(o[i])) oops("glDeleteBuffers", "buffer does not exist or was deleted before"); if (c->arr == o[i]) c->arr = 0; if (c->elt == o[i]) c->elt = 0; } }
void glBindBuffer(GLenum t, GLuint b) { GLF(glBindBuffer); if (b && !c->buf.count(b)) return oops("glBindBuffer", "buffer does not exist or was deleted"); if (t == GL_ARRAY_BUFFER) c->arr = b; else if (t == GL_ELEMENT_ARRAY_BUFFER) c->elt = b; else oops("glBindBuffer", "unexpected target"); }
void glBufferData(GLenum t, GLsizeiptr n, const void *p, GLenum) { GLF(glBufferData); GLuint b = t == GL_ARRAY_BUFFER ? c->arr : c->elt; if (!b) return oops("glBufferData", "no buffer bound"); if (n < 0) return oops("glBufferData", "negative size"); auto &v = c->buf[b]; v.assign((size_t)n, 0); if (p && n) memcpy(v.data(), p, (size_t)n); }
void glGenTextures(GLsizei n, GLuint *o) { GLF(glGenTextures); for (int i = 0; i < n; i++) { o[i] = c->next++; c->tex[o[i]]; } }
void glDeleteTextures(GLsizei n, const GLuint *o) { GLF(glDeleteTextures); for (int i = 0; i < n; i++) { if (!c->tex.erase(o[i])) oops("glDeleteTextures", "texture does not exist or was deleted before"); if (c->bt == o[i]) c->bt = 0; } }
void glBindTexture(GLenum, GLuint b) { GLF(glBindTexture); if (b && !c->tex.count(b)) return oops("glBindTexture", "texture does not exist or was deleted"); c->bt = b; }
void glTexImage2D(GLenum, GLint, GLint, GLsizei w, GLsizei h, GLint, GLenum f, GLenum ty, const void *p) { GLF(glTexImage2D); if (!c->bt) return oops("glTexImage2D", "no texture bound"); if (f != GL_RGBA || ty != GL_UNSIGNED_BYTE) return oops("glTexImage2D", "unexpected pixel format"); auto &t = c->tex[c->bt]; t.w = w; t.h = h; t.px.assign((const uint8_t *)p, (const uint8_t *)p + 4 * (size_t)w * (size_t)h); }
void glTexParameteri(GLenum, GLenum, GLint) { need("glTexParameteri"); }
void glActiveTexture(GLenum) { need("glActiveTexture"); }
void glGenVertexArrays(GLsizei n, GLuint *o) { GLF(glGenVertexArrays); for (int i = 0; i < n; i++) { o[i] = c->next++; c->vao.insert(o[i]); } }
void glDeleteVertexArrays(GLsizei n, const GLuint *o) { GLF(glDeleteVertexArrays); for (int i = 0; i < n; i++) c->vao.erase(o[i]); }
void glBindVertexArray(GLuint v) { GLF(glBindVertexArray); if (v && !c->vao.count(v)) oops("glBindVertexArray", "no such vertex array"); }
void glEnable(GLenum e) { GLF(glEnable); c->enabled.insert(e); }
void glDisable(GLenum e) { GLF(glDisable); c->enabled.erase(e); }
void glBlendFunc(GLenum a, GLenum b) { GLF(glBlendFunc); c->bs = a; c->bd = b; }
void glDepthMask(GLboolean) { need("glDepthMask"); }
void glDepthFunc(GLenum) { need("glDepthFunc"); }
void glViewport(GLint x, GLint y, GLsizei w, GLsizei h) { GLF(glViewport); c->vp[0] = x; c->vp[1] = y; c->vp[2] = w; c->vp[3] = h; }
void glClearColor(GLfloat r, GLfloat g, GLfloat b, GLfloat a) { GLF(glClearColor); c->cc[0] = r; c->cc[1] = g; c->cc[2] = b; c->cc[3] = a; }
void glClear(GLbitfield m) { GLF(glClear); c->frame.clear(); c->clears++; if (m & GL_COLOR_BUFFER_BIT) c->cleared_c = true; if (m & GL_DEPTH_BUFFER_BIT) c->cleared_d = true; }
void glUniform1f(GLint l, GLfloat x) { uniform("glUniform1f", l, &x, 1); }
void glUniform1i(GLint l, GLint x) { float f = (float)x; uniform("glUniform1i", l, &f, 1); }
void glUniform2fv(GLint l, GLsizei, const GLfloat *v) { uniform("glUniform2fv", l, v, 2); }
void glUniform3f(GLint l, GLfloat x, GLfloat y, GLfloat z) { float v[3] = {x, y, z}; uniform("glUniform3f", l, v, 3); }
void glUniform3fv(GLint l, GLsizei, const GLfloat *v) { uniform("glUniform3fv", l, v, 3); }
void glUniform4fv(GLint l, GLsizei, const GLfloat *v) { uniform("glUniform4fv", l, v, 4); }
static void tpose(float *o, const GLfloat *v, int n, GLboolean t) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o[j * n + i] = t ? v[i * n + j] : v[j * n + i]; }
void glUniformMatrix3fv(GLint l, GLsizei, GLboolean t, const GLfloat *v) { float o[9]; tpose(o, v, 3, t); uniform("glUniformMatrix3fv", l, o, 9); }
void glUniformMatrix4fv(GLint l, GLsizei, GLboolean t, const GLfloat *v) { float o[16]; tpose(o, v, 4, t); uniform("glUniformMatrix4fv", l, o, 16); }
void glEnableVertexAttribArray(GLuint i) { GLF(glEnableVertexAttribArray); c->attr[(int)i].on = true; }
void glDisableVertexAttribArray(GLuint i) { GLF(glDisableVertexAttribArray); c->attr[(int)i].on = false; }
void glVertexAttribPointer(GLuint i, GLint size, GLenum type, GLboolean, GLsizei stride, const void *p) { GLF(glVertexAttribPointer); if (!c->arr) return oops("glVertexAttribPointer", "no array buffer bound"); if (type != GL_FLOAT || size < 1 || size > 4) return oops("glVertexAttribPointer", "unexpected layout"); auto &A = c->attr[(int)i]; A.buf = c->arr; A.size = size; A.stride = stride; A.off = (size_t)p; }
void glDrawElements(GLenum m, GLsizei n, GLenum t, const void *p) {
    GLF(glDrawElements); if (!c->elt) return oops("glDrawElements", "no index buffer bound"); if (t != GL_UNSIGNED_INT) return oops("glDrawElements", "unexpected index type"); if (n < 0) return oops("glDrawElements", "negative count");
    auto &v = c->buf[c->elt]; size_t o = (size_t)p; if (o + 4 * (size_t)n > v.size()) return oops("glDrawElements", "more indices drawn than the buffer holds");
    std::vector<unsigned> ix((size_t)n); if (n) memcpy(ix.data(), v.data() + o, 4 * (size_t)n); draw("glDrawElements", m, ix);
}
void glDrawArrays(GLenum m, GLint first, GLsizei n) { GLF(glDrawArrays); std::vector<unsigned> ix; for (int i = 0; i < n; i++) ix.push_back((unsigned)(first + i)); draw("glDrawArrays", m, ix); }

// ---- SDL
int SDL_Init(Uint32) { return 0; }
const char *SDL_GetError(void) { return "stand-in"; }
int SDL_GL_SetAttribute(SDL_GLattr, int) { return 0; }
SDL_bool SDL_SetHint(const char *, const char *) { return SDL_TRUE; }
int SDL_GL_SetSwapInterval(int) { return 0; }
SDL_Window *SDL_CreateWindow(const char *t, int, int, int w, int h, Uint32 f) { Lk l; Win *x = new Win{w, h, f | SDL_WINDOW_INPUT_FOCUS, t ? t : ""}; windows().push_back(x); return (SDL_Window *)x; }
void SDL_DestroyWindow(SDL_Window *w) { Lk l; for (size_t i = 0; i < windows().size(); i++) if ((SDL_Window *)windows()[i] == w) { delete windows()[i]; windows().erase(windows().begin() + (long)i); return; } oops("SDL_DestroyWindow", "no such window"); }
SDL_GLContext SDL_GL_CreateContext(SDL_Window *) { Lk l; Ctx *c = new_ctx(); main_ctx() = c; cur = c; return (SDL_GLContext)c; }
void SDL_GL_DeleteContext(SDL_GLContext x) { Lk l; Ctx *c = (Ctx *)x; bool found = false; for (size_t i = 0; i < contexts().size(); i++) if (contexts()[i] == c) found = true; if (!found) return oops("SDL_GL_DeleteContext", "no such context"); if (cur == c) cur = nullptr; for (size_t i = 0; i < contexts().size(); i++) if (contexts()[i] == c) { contexts().erase(contexts().begin() + (long)i); break; } if (main_ctx() == c) main_ctx() = nullptr; delete c; }
int SDL_GL_MakeCurrent(SDL_Window *w, SDL_GLContext x) { Lk l; bool f = !w; for (auto p : windows()) f |= (SDL_Window *)p == w; if (!f) { oops("SDL_GL_MakeCurrent", "no such window"); return -1; } cur = (Ctx *)x; return 0; }
void SDL_GL_SwapWindow(SDL_Window *w) { In in; bool f = false; { Lk l; for (auto p : windows()) f |= (SDL_Window *)p == w; } if (!f) return oops("SDL_GL_SwapWindow", "no such window"); Ctx *c = need("SDL_GL_SwapWindow"); if (on_swap()) on_swap()(c); }
const Uint8 *SDL_GetKeyboardState(int *n) { if (n) *n = SDL_NUM_SCANCODES; return keys(); }
Uint32 SDL_GetMouseState(int *x, int *y) { if (x) *x = mouse().x; if (y) *y = mouse().y; return mouse().b; }
SDL_Scancode SDL_GetScancodeFromKey(SDL_Keycode k) { if (k >= SDLK_a && k <= SDLK_z) return (SDL_Scancode)(SDL_SCANCODE_A + (k - SDLK_a)); if (k & SDLK_SCANCODE_MASK) return (SDL_Scancode)(k & ~SDLK_SCANCODE_MASK); return SDL_SCANCODE_UNKNOWN; }
SDL_Window *SDL_GetWindowFromID(Uint32 id) { Lk l; return id >= 1 && id <= windows().size() ? (SDL_Window *)windows()[id - 1] : nullptr; }
Uint32 SDL_GetWindowFlags(SDL_Window *w) { Lk l; for (auto p : windows()) if ((SDL_Window *)p == w) return p->flags; oops("SDL_GetWindowFlags", "no such window"); return 0; }
int SDL_SetWindowFullscreen(SDL_Window *w, Uint32 f) { Lk l; for (auto p : windows()) if ((SDL_Window *)p == w) { p->flags = (p->flags & ~(Uint32)SDL_WINDOW_FULLSCREEN_DESKTOP) | f; return 0; } oops("SDL_SetWindowFullscreen", "no such window"); return -1; }
int SDL_SetClipboardText(const char *t) { In in; clipboard() = t; return 0; }
int SDL_WaitEventTimeout(SDL_Event *e, int ms) {
    In in;
    int r = on_wait() ? on_wait()(e, ms) : 0;
    if (!r && ms > 0 && !ftime().load()) usleep((useconds_t)ms * 1000);
    else if (!r && ms > 0) ftime() += (long long)ms * 1000000;
    return r;
}
int SDL_PollEvent(SDL_Event *e) { In in; return on_wait() ? on_wait()(e, 0) : 0; }
// ---- spnav
int spnav_open(void) { return have_spnav() ? 0 : -1; }
int spnav_poll_event(spnav_event *e) { Lk l; if (spq().empty()) return 0; *e = spq().front(); spq().pop_front(); return e->type; }
// ---- clock
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec *t) { long long f = ftime().load(); if (!f) return __real_clock_gettime(id, t); t->tv_sec = f / 1000000000; t->tv_nsec = f % 1000000000; return 0; }
}
