// C24: Wavefront OBJ and MTL parsers against a generator that knows the contents.
#include "vk.hpp"
#include "reg.hpp"
#include <cmath>
#include <amino.h>
#include <amino/rx/wavefront.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
extern "C" double aa_rx_wf_material_get_specular_weight(const struct aa_rx_wf_material *);
using namespace vk;
namespace {
struct Tmp {   // scratch directory removed at exit
    std::string d;
    Tmp() { char t[] = "/tmp/vk24.XXXXXX"; if (!mkdtemp(t)) abort(); d = t; }
    ~Tmp() { if (getenv("KEEP")) return; if (d.size() > 10 && d.compare(0, 10, "/tmp/vk24.") == 0) { std::string c = "rm -rf '" + d + "'"; if (system(c.c_str())) {} } }
    std::string path(const std::string &n) { return d + "/" + n; }
    void put(const std::string &n, const std::string &t) { FILE *f = fopen(path(n).c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
};
Tmp &tmp() { static Tmp t; return t; }
struct Quiet {   // the parsers report to stderr and echo to stdout
    int e, o;
    Quiet() { fflush(stdout); fflush(stderr); e = dup(2); o = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); (void)e; }
    ~Quiet() { fflush(stdout); dup2(o, 1); close(o); close(e); }
};
std::string bl(Rng &r, int lo = 1) { std::string s; int n = (int)r.range(lo, lo + (r.coin(.8) ? 0 : 3)); while (n-- > 0) s += r.coin(.7) ? ' ' : '\t'; return s; }
std::string num(Rng &r, double *v) {
    char b[64];
    switch (r.range(0, 6)) {
    case 0: snprintf(b, sizeof b, "%ld", r.range(-100, 100)); break;
    case 1: snprintf(b, sizeof b, "%.*f", (int)r.range(1, 25), r.uni(-1, 1)); break;
    case 2: snprintf(b, sizeof b, "%.*f", (int)r.range(1, 9), r.uni(-1e4, 1e4)); break;
    case 3: { double m = r.uni(-10, 10); int e = (int)r.range(-12, 12); snprintf(b, sizeof b, "%.*fe%d", (int)r.range(1, 12), m, e); break; }
    case 4: snprintf(b, sizeof b, "-0.%06ld", r.range(0, 999999)); break;
    case 5: snprintf(b, sizeof b, "%ld.", r.range(-9, 9)); break;
    default: snprintf(b, sizeof b, "%.0f", r.uni(-1e18, 1e18) * (r.coin(.3) ? 1e6 : 1)); break;
    }
    *v = strtod(b, NULL); return b;
}
std::string eol(Rng &r) { return r.coin(.15) ? bl(r) + "# comment 1 2\n" : bl(r, 0) + "\n"; }
std::string id(Rng &r) { static const char *n[] = {"a", "Material.001", "m_2", "wood/oak", "v", "usemtl", "1", "x-y", "\"q\"", "m_2b"}; return n[r.range(0, 9)]; }
bool near(double a, double b) { return std::fabs(a - b) <= 1e-13 * std::fabs(b) + 1e-300; }

struct Mat { std::string name; bool has[7]; double v[7][3]; };
std::string genmtl(Rng &r, std::vector<Mat> &ms) {
    static const char *key[] = {"Ka", "Kd", "Ks", "Ke", "Ns", "Ni", "d"};
    std::string t; int n = (int)r.range(0, 6);
    if (r.coin(.3)) t += "# Blender MTL\n\n";
    for (int i = 0; i < n; i++) {
        Mat m; memset(m.has, 0, sizeof m.has); memset(m.v, 0, sizeof m.v); m.name = id(r) + (r.coin(.7) ? std::to_string(i) : "");
        t += bl(r, 0) + "newmtl" + bl(r) + m.name + eol(r);
        int k = (int)r.range(0, 10);
        while (k--) {
            int p = (int)r.range(0, 9);
            if (p < 7) { m.has[p] = true; t += bl(r, 0) + key[p]; for (int j = 0; j < (p < 4 ? 3 : 1); j++) t += bl(r) + num(r, &m.v[p][j]); t += eol(r); }
            else if (p == 7) t += "illum " + std::to_string(r.range(0, 9)) + eol(r);
            else if (p == 8) t += "map_Kd some file.png\n";
            else t += eol(r);
        }
        ms.push_back(m);
    }
    return t;
}
void checkmtl(const struct aa_rx_wf_mtl *mtl, const std::vector<Mat> &ms) {
    size_t c = aa_rx_wf_mtl_material_count(mtl);
    CHECK("mcount", c == ms.size(), "%zu materials instead of %zu", c, ms.size());
    CHECK("mnull", aa_rx_wf_mtl_get_material(mtl, c) == NULL, "material past the end");
    for (size_t i = 0; i < std::min(c, ms.size()); i++) {
        const struct aa_rx_wf_material *m = aa_rx_wf_mtl_get_material(mtl, i); const Mat &e = ms[i];
        CHECK("mname", m && e.name == aa_rx_wf_material_get_name(m), "material %zu has the wrong name", i); if (!m) continue;
        int h[7] = {aa_rx_wf_material_has_ambient(m), aa_rx_wf_material_has_diffuse(m), aa_rx_wf_material_has_specular(m), aa_rx_wf_material_has_emission(m),
                    aa_rx_wf_material_has_specular_weight(m), aa_rx_wf_material_has_ior(m), aa_rx_wf_material_has_alpha(m)};
        const double *p[4] = {aa_rx_wf_material_get_ambient(m), aa_rx_wf_material_get_diffuse(m), aa_rx_wf_material_get_specular(m), aa_rx_wf_material_get_emission(m)};
        double s[3] = {aa_rx_wf_material_get_specular_weight(m), aa_rx_wf_material_get_ior(m), aa_rx_wf_material_get_alpha(m)};
        for (int k = 0; k < 7; k++) {
            CHECK("mhas", !h[k] == !e.has[k], "material %s: presence of property %d is %d", e.name.c_str(), k, h[k]);
            if (e.has[k]) for (int j = 0; j < (k < 4 ? 3 : 1); j++) { double g = k < 4 ? p[k][j] : s[k - 4]; CHECK("mval", near(g, e.v[k][j]), "material %s property %d is %.17g instead of %.17g", e.name.c_str(), k, g, e.v[k][j]); }
        }
        event();
    }
}
struct Obj { std::vector<double> v, n; std::vector<int32_t> vi, ni, ti, mi; std::vector<std::string> mats, mtl; std::vector<std::vector<Mat>> mm; bool known = true; };
std::string genobj(Rng &r, Obj &o, const std::string &sub) {
    std::string t; int n = (int)r.range(0, r.coin(.01) ? 4000 : 60); int cur = -1; int nv = 0, nvt = 0; double x;
    for (int k = 0; k < n; k++) {
        int op = (int)r.range(0, 20);
        if (op < 6) { t += bl(r, 0) + "v"; for (int j = 0; j < 3; j++) { t += bl(r) + num(r, &x); o.v.push_back(x); } t += eol(r); nv++; }
        else if (op < 9) { t += bl(r, 0) + "vn"; for (int j = 0; j < 3; j++) { t += bl(r) + num(r, &x); o.n.push_back(x); } t += eol(r); }
        else if (op < 11) { t += bl(r, 0) + "vt"; for (int j = 0; j < 2; j++) t += bl(r) + num(r, &x); t += eol(r); nvt++; }
        else if (op < 16) {
            if (cur < 0) continue;   // faces before the first usemtl have no stated material
            t += bl(r, 0) + "f";
            for (int j = 0; j < 3; j++) {
                long a = r.range(1, r.coin(.9) ? 99 : 2000000), b = r.range(1, 99), c = r.range(1, 999); bool tx = r.coin(.5);
                t += bl(r) + std::to_string(a) + "/" + (tx ? std::to_string(b) : "") + "/" + std::to_string(c);
                o.vi.push_back((int)a - 1); o.ti.push_back(tx ? (int)b - 1 : -1); o.ni.push_back((int)c - 1);
            }
            o.mi.push_back(cur); t += eol(r);
        }
        else if (op == 16) { std::string m = id(r); t += bl(r, 0) + "usemtl" + bl(r) + m + eol(r); size_t i = 0; while (i < o.mats.size() && o.mats[i] != m) i++; if (i == o.mats.size()) o.mats.push_back(m); cur = (int)i; }
        else if (op == 17) t += bl(r, 0) + "o" + bl(r) + id(r) + eol(r);
        else if (op == 18) t += "s" + bl(r) + (r.coin(.5) ? "off\n" : "1\n");
        else if (op == 19) t += r.coin(.5) ? "l 1 2\n" : eol(r);
        else if (o.mtl.size() < 3) {
            std::vector<Mat> ms; std::string f = "m" + std::to_string(o.mtl.size()) + ".mtl"; std::string mt = genmtl(r, ms);
            tmp().put(sub + f, mt); o.mtl.push_back(f); o.mm.push_back(ms); t += "mtllib" + bl(r) + f + eol(r);
        }
    }
    return t;
}
template <class T> void cmp(const char *key, const T *p, size_t n, const std::vector<T> &e, bool exact) {
    CHECK(key, n == e.size(), "%s: %zu instead of %zu entries", key, n, e.size());
    for (size_t i = 0; i < std::min(n, e.size()); i++) CHECK(key, exact ? p[i] == e[i] : near((double)p[i], (double)e[i]), "%s: entry %zu is %.17g instead of %.17g", key, i, (double)p[i], (double)e[i]);
}
void shape(struct aa_rx_wf_obj *o) {   // consistency that holds for whatever was accepted
    const double *d; const int32_t *q; size_t nv, nn, a, b, c, m;
    aa_rx_wf_obj_get_vertices(o, &d, &nv); aa_rx_wf_obj_get_normals(o, &d, &nn);
    aa_rx_wf_obj_get_vertex_indices(o, &q, &a); aa_rx_wf_obj_get_normal_indices(o, &q, &b); aa_rx_wf_obj_get_uv_indices(o, &q, &c); aa_rx_wf_obj_get_texture_indices(o, &q, &m);
    CHECK("whole", nv % 3 == 0 && nn % 3 == 0, "accepted a file with %zu vertex and %zu normal coordinates", nv, nn);
    CHECK("faces", a == b && b == c && a == 3 * m, "index arrays of %zu, %zu, %zu and %zu entries", a, b, c, m);
}
}

SECTION(obj, 1500, 20000) {
    fresh_region(rng);
    std::string sub = rng.coin(.5) ? "" : "sub/"; if (!sub.empty()) mkdir(tmp().path("sub").c_str(), 0700);
    Obj e; std::string t = genobj(rng, e, sub); bool term = rng.coin(.7) || t.empty(); if (!term) t.pop_back(); tmp().put(sub + "t.obj", t);
    struct aa_rx_wf_obj *o; { Quiet q; std::string fn = tmp().path(sub + "t.obj"); LIB(o = aa_rx_wf_parse(fn.c_str())); }
    if (term) CHECK("accept", o != NULL, "a well-formed file of %zu bytes was rejected", t.size());
    distinct(std::hash<std::string>()(t)); note("obj %zu bytes", t.size());
    if (!o) return;
    const double *d; const int32_t *q; size_t n;
    aa_rx_wf_obj_get_vertices(o, &d, &n); cmp("vertices", d, n, e.v, false);
    aa_rx_wf_obj_get_normals(o, &d, &n); cmp("normals", d, n, e.n, false);
    aa_rx_wf_obj_get_vertex_indices(o, &q, &n); cmp("vindices", q, n, e.vi, true);
    aa_rx_wf_obj_get_normal_indices(o, &q, &n); cmp("nindices", q, n, e.ni, true);
    aa_rx_wf_obj_get_uv_indices(o, &q, &n); cmp("tindices", q, n, e.ti, true);
    aa_rx_wf_obj_get_texture_indices(o, &q, &n); cmp("mindices", q, n, e.mi, true);
    shape(o);
    CHECK("matcount", aa_rx_wf_obj_material_count(o) == e.mats.size(), "%zu materials", aa_rx_wf_obj_material_count(o));
    for (size_t i = 0; i <= e.mats.size(); i++) { const char *s = aa_rx_wf_obj_get_material_name(o, i); CHECK("matname", i == e.mats.size() ? s == NULL : s && e.mats[i] == s, "material %zu is named %s", i, s ? s : "nothing"); }
    CHECK("mtlcount", aa_rx_wf_obj_mtl_count(o) == e.mtl.size(), "%zu material files", aa_rx_wf_obj_mtl_count(o));
    for (size_t i = 0; i <= e.mtl.size(); i++) {
        const char *s = aa_rx_wf_obj_get_mtl_filename(o, i); const struct aa_rx_wf_mtl *m = aa_rx_wf_obj_get_mtl(o, i);
        CHECK("mtlname", i == e.mtl.size() ? s == NULL : s && e.mtl[i] == s, "material file %zu", i);
        CHECK("mtl", (i == e.mtl.size()) == (m == NULL), "material file %zu of %zu is %p", i, e.mtl.size(), (void *)m);
        if (m && i < e.mtl.size()) checkmtl(m, e.mm[i]);
    }
    aa_rx_wf_obj_destroy(o);
}
SECTION(mtl, 1500, 20000) {
    std::vector<Mat> ms; std::string t = genmtl(rng, ms); bool term = rng.coin(.7) || t.empty(); if (!term) t.pop_back(); tmp().put("t.mtl", t);
    struct aa_rx_wf_mtl *m; { Quiet q; std::string fn = tmp().path("t.mtl"); LIB(m = aa_rx_wf_mtl_parse(fn.c_str())); }
    if (term) CHECK("accept", m != NULL, "a well-formed file of %zu bytes was rejected", t.size());
    distinct(std::hash<std::string>()(t)); note("mtl %zu bytes", t.size());
    if (m) { checkmtl(m, ms); aa_rx_wf_mtl_destroy(m); }
}
SECTION(malformed, 3000, 40000) {
    // damaged files: rejected, or accepted with whole elements; never a crash or a leak
    fresh_region(rng);
    bool ismtl = rng.coin(.4); Obj e; std::vector<Mat> ms;
    std::string t = ismtl ? genmtl(rng, ms) : genobj(rng, e, "");
    int nm = (int)rng.range(1, 3);
    for (int i = 0; i < nm; i++) {
        size_t n = t.size(); size_t a = n ? (size_t)rng.range(0, (long)n - 1) : 0;
        switch (rng.range(0, 6)) {
        case 0: t.resize(a); break;                                            // truncation
        case 1: if (n) t[a] = (char)rng.range(0, 255); break;
        case 2: if (n) t.erase(a, (size_t)rng.range(1, 12)); break;
        case 3: t.insert(a, std::string((size_t)rng.range(1, 5), rng.pick(std::vector<char>{'\n', ' ', '9', '/', '-', '.', 'v', '\r', '#'}))); break;
        case 4: { size_t p = t.find(' ', a); if (p != std::string::npos) t[p] = '\n'; break; }
        case 5: { size_t p = t.find('\n', a); if (p != std::string::npos) t[p] = ' '; break; }
        case 6: { size_t p = t.find('\n', a); if (p != std::string::npos) t = t.substr(p + 1) + t.substr(0, p + 1); break; }
        }
    }
    std::string fn = ismtl ? "u.mtl" : "u.obj"; tmp().put(fn, t); fn = tmp().path(fn);
    Quiet q; 
    if (ismtl) { struct aa_rx_wf_mtl *m; LIB(m = aa_rx_wf_mtl_parse(fn.c_str())); count(m ? "accepted" : "rejected"); if (m) { for (size_t i = 0; i < aa_rx_wf_mtl_material_count(m); i++) CHECK("mnamed", aa_rx_wf_material_get_name(aa_rx_wf_mtl_get_material(m, i)) != NULL, "material without a name"); aa_rx_wf_mtl_destroy(m); } }
    else { struct aa_rx_wf_obj *o; LIB(o = aa_rx_wf_parse(fn.c_str())); count(o ? "accepted" : "rejected"); if (o) { shape(o); aa_rx_wf_obj_destroy(o); } }
    distinct(std::hash<std::string>()(t)); note("%s %zu bytes", ismtl ? "mtl" : "obj", t.size());
}
SECTION(badline, 2000, 20000) {
    // one line outside the grammar, in any place of a good file: always rejected
    static const char *bad[] = {"v 1 2\n", "v 1 2 \n", "v 1\n", "v\n", "v 1 2 3 4\n", "v 1 x 3\n", "v 1,2,3\n", "vn 1 2\n", "vn 1 2 \n", "vt 1 \n", "vt 1 2 3 4\n",
        "f 1//1 2//2\n", "f 1//1 2//2 3//3 4//4\n", "f 1/1/ 2/2/2 3/3/3\n", "q 1 2 3\n", "f a//1 2//2 3//3\n", "usemtl \n", "o \n", "mtllib missing.mtl\n", "mtllib .\n", "mtllib \n", "v 1 2 --3\n", "f 1//1 2//2 \n", "vv 1 2 3\n", "v1 2 3\n"};
    static const char *badm[] = {"Kd 1 2\n", "Kd 1 2 \n", "Kd 1 2 3 4\n", "Kd\n", "Kd x 2 3\n", "Ns\n", "Ns \n", "Ns 1 2\n", "d x\n", "newmtl \n", "newmtl\n", "zz 1\n", "Ka 1 \n", "Ni 1.0 x\n"};
    bool ismtl = rng.coin(.4); Obj e; std::vector<Mat> ms; bool first = ismtl && rng.coin(.2);
    std::string t = ismtl ? genmtl(rng, ms) : genobj(rng, e, "");
    if (ismtl && !first && ms.empty()) { t = "newmtl a\n" + t; }
    std::string b = ismtl ? badm[rng.range(0, (long)(sizeof badm / sizeof *badm) - 1)] : bad[rng.range(0, (long)(sizeof bad / sizeof *bad) - 1)];
    if (first) { b = rng.coin(.5) ? "Kd 1 2 3\n" : rng.coin(.5) ? "Ns 4\n" : rng.coin(.5) ? "d 1\n" : rng.coin(.5) ? "Ni 1\n" : "Ke 0 0 0\n"; t = b + t; }   // a property without a material
    else { size_t a = t.empty() ? 0 : (size_t)rng.range(0, (long)t.size()); size_t p = t.find('\n', a); p = p == std::string::npos ? t.size() : p + 1;
        if (ismtl) { size_t f = t.find('\n', t.find("newmtl")); if (f != std::string::npos && p <= f) p = f + 1; }
        t.insert(p, b); if (rng.coin(.1) && p + b.size() == t.size()) t.pop_back(); }
    std::string fn = ismtl ? "b.mtl" : "b.obj"; tmp().put(fn, t); fn = tmp().path(fn); if (rng.coin(.02)) { b = "(a directory)\n"; fn = tmp().path("."); }
    bool acc; { Quiet q; if (ismtl) { struct aa_rx_wf_mtl *m; LIB(m = aa_rx_wf_mtl_parse(fn.c_str())); acc = m; if (m) aa_rx_wf_mtl_destroy(m); } else { struct aa_rx_wf_obj *o; LIB(o = aa_rx_wf_parse(fn.c_str())); acc = o; if (o) aa_rx_wf_obj_destroy(o); } }
    std::string s = b; s.pop_back();
    CHECK("reject", !acc, "the line '%s' was accepted in a file of %zu bytes", s.c_str(), t.size());
    distinct(std::hash<std::string>()(t)); note("bad line '%s'", s.c_str());
}
VK_MAIN
