// C25: numeric text input and output against a model of the text.
#include "vk.hpp"
#include "reg.hpp"
#include <cmath>
#include <amino.h>
#include <unistd.h>
using namespace vk;

namespace {
template <class T> struct TB { T *p; TB(size_t n, T v) { p = (T *)malloc(sizeof(T) * n); for (size_t i = 0; i < n; i++) p[i] = v; } ~TB() { free(p); } TB(const TB &) = delete; };
struct Line { std::string text; std::vector<double> vals; size_t endoff; bool blank; };
std::string num(Rng &r, double *v) {
    char b[64];
    switch (r.range(0, 6)) {
    case 0: snprintf(b, sizeof b, "%ld", r.range(-100, 100)); break;
    case 1: snprintf(b, sizeof b, "%.17g", r.uni(-1e3, 1e3)); break;
    case 2: snprintf(b, sizeof b, "%e", r.uni(-1, 1) * pow(10, r.range(-300, 300))); break;
    case 3: snprintf(b, sizeof b, "%f", r.uni(-1e6, 1e6)); break;
    case 4: snprintf(b, sizeof b, "%+.3f", r.uni(-10, 10)); break;
    case 5: snprintf(b, sizeof b, "%a", r.uni(-10, 10)); break;
    default: snprintf(b, sizeof b, "%s", r.coin(.5) ? "-0" : "inf"); break;
    }
    *v = strtod(b, NULL); return b;
}
std::string blanks(Rng &r, int lo) { std::string s; int n = (int)r.range(lo, lo + 2); while (n-- > 0) s += r.coin(.5) ? ' ' : '\t'; return s; }
// a line of text: leading blanks, numbers, and something that ends it
Line mkline(Rng &r, size_t nnum, int tail) {
    Line l; l.text = blanks(r, 0);
    size_t lastend = 0; 
    for (size_t i = 0; i < nnum; i++) { double v; l.text += num(r, &v); l.vals.push_back(v); lastend = l.text.size(); l.text += (i + 1 < nnum) ? blanks(r, 1) : blanks(r, 0); }
    (void)lastend;
    l.endoff = nnum ? l.text.size() : 0;
    l.blank = nnum == 0;
    if (tail == 1) { if (!nnum && r.coin(.5)) l.endoff = 0; l.text += "# 1 2 3"; }
    if (tail == 2) { if (!l.text.empty() && l.text.back() != ' ' && l.text.back() != '\t') { l.text += ' '; if (nnum) l.endoff++; } l.text += "junk 4 5"; l.blank = false; }
    return l;
}
struct MemIn { FILE *f; std::string s; explicit MemIn(const std::string &t) : s(t) { f = s.empty() ? fopen("/dev/null", "r") : fmemopen((void *)s.data(), s.size(), "r"); } ~MemIn() { fclose(f); } };
struct MemOut { FILE *f; char *p = NULL; size_t n = 0; MemOut() { f = open_memstream(&p, &n); } std::string str() { fflush(f); return std::string(p, n); } ~MemOut() { fclose(f); free(p); } };
bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || a == b; }
std::string fmt(const char *f, double x) { char b[512]; snprintf(b, sizeof b, f, x); return b; }
}

SECTION(lines, 3000, 40000) {
    // a file of hostile line lengths, read line by line into a region of hostile size while other objects live in it
    fresh_region(rng);
    aa_mem_region_t *reg = aa_mem_region_create((size_t)rng.pick(std::vector<long>{0, 16, 32, 64, 128, 512, 4096}));
    int n = (int)rng.range(0, 20); std::vector<std::string> lines; std::string text;
    for (int i = 0; i < n; i++) {
        size_t len = (size_t)rng.pick(std::vector<long>{0, 1, 2, 15, 16, 17, 31, 40, 63, 64, 100, 200, rng.range(0, 700), rng.coin(.03) ? rng.range(700, 40000) : 5});
        if (rng.coin(.5)) { size_t fs = aa_mem_region_freesize(reg); if (fs > 0 && fs < 5000) len = fs - (size_t)rng.range(0, 1); }
        std::string s; for (size_t j = 0; j < len; j++) { int c = (int)rng.range(1, 255); s += c == '\n' ? 'x' : (char)c; }
        lines.push_back(s);
    }
    // reading interleaves with allocations, so sizes that fill the chunk are aimed at online
    bool trail = rng.coin(.5);
    struct Kept { char *p; std::string s; }; std::vector<Kept> kept;
    size_t nread = 0; uint64_t sig = 0;
    for (size_t i = 0; i < lines.size(); i++) {
        size_t fs = aa_mem_region_freesize(reg);
        if (rng.coin(.4) && fs > 0 && fs < 3000) { size_t len = fs - (size_t)std::min<long>((long)fs, rng.range(0, 2)); lines[i].assign(len, 'q'); for (auto &c : lines[i]) c = (char)rng.range('a', 'z'); }
        std::string one = lines[i] + ((i + 1 < lines.size() || trail) ? "\n" : "");
        if (one.empty()) one = "\n";
        MemIn in(one);
        char *p = aa_io_getline(in.f, reg);
        CHECK("null", p != NULL, "no line returned");
        if (!p) continue;
        CHECK("content", strlen(p) == lines[i].size() && !memcmp(p, lines[i].data(), lines[i].size()), "a line of %zu characters was read as %zu different ones (free space %zu)", lines[i].size(), strlen(p), fs);
        kept.push_back({p, lines[i]}); nread++;
        for (auto &k : kept) CHECK("live", !memcmp(k.p, k.s.c_str(), k.s.size() + 1), "an earlier line changed while another was read");
        if (rng.coin(.3) && kept.size()) { aa_mem_region_pop(reg, kept.back().p); kept.pop_back(); }
        sig = Rng::mix(sig ^ lines[i].size() ^ (uint64_t)fs << 20); distinct(sig);
    }
    note("%zu lines", nread);
    aa_mem_region_destroy(reg);
    // and as one file
    std::string t; for (auto &l : lines) t += l + "\n";
    MemIn in(t); aa_mem_region_t *loc = aa_mem_region_local_get(); size_t i = 0;
    for (; i < lines.size(); i++) { char *p = aa_io_getline(in.f, loc); CHECK("file", p && !strcmp(p, lines[i].c_str()), "line %zu of a file differs", i); aa_mem_region_pop(loc, p); }
    char *p = aa_io_getline(in.f, loc); CHECK("eof", p && !*p && feof(in.f), "text after the end of the file"); aa_mem_region_pop(loc, p);
}

SECTION(parse, 4000, 60000) {
    fresh_region(rng);
    size_t nn = (size_t)rng.pick(std::vector<long>{0, 1, 2, 3, 8, rng.range(0, 40)}); int tail = (int)rng.range(0, 2);
    Line l = mkline(rng, nn, tail);
    // exactly-sized copy, so that reading past the terminator is seen
    std::vector<char> ex(l.text.begin(), l.text.end()); ex.push_back(0);
    char *s = (char *)malloc(ex.size()); memcpy(s, ex.data(), ex.size());
    aa_mem_region_t *reg = aa_mem_region_create((size_t)rng.pick(std::vector<long>{0, 16, 64, 256}));
    if (rng.coin(.5)) aa_mem_region_alloc(reg, (size_t)rng.range(1, 100));
    char *pre = (char *)aa_mem_region_alloc(reg, 24); memset(pre, 0x5a, 24);
    double *X = NULL; char *end = NULL; bool want = rng.coin(.8);
    size_t c = aa_io_d_parse(s, reg, &X, want ? &end : NULL);
    CHECK("count", c == l.vals.size(), "parsed %zu of %zu numbers from '%s'", c, l.vals.size(), s);
    for (size_t i = 0; i < std::min(c, l.vals.size()); i++) CHECK("value", same(X[i], l.vals[i]), "number %zu of '%s' read as %.17g", i, s, X[i]);
    if (want && nn) CHECK("end", end == s + l.endoff, "parsing stopped at %ld instead of %zu of '%s'", (long)(end - s), l.endoff, s);
    // the array is allocated: further allocations do not disturb it
    std::vector<double> cp(X ? std::vector<double>(X, X + c) : std::vector<double>());
    for (int k = 0; k < 3; k++) { size_t z = (size_t)rng.range(1, 200); memset(aa_mem_region_alloc(reg, z), 0xEE, z); }
    for (size_t i = 0; i < c; i++) CHECK("kept", same(X[i], cp[i]), "parsed array overwritten by a later allocation");
    for (int i = 0; i < 24; i++) CHECK("pre", pre[i] == 0x5a, "memory before the parsed array changed");
    aa_mem_region_destroy(reg);
    // bounded parse with stride
    size_t n = (size_t)rng.range(0, (long)nn + 3), inc = (size_t)rng.range(1, 4);
    TB<double> Y(n ? (n - 1) * inc + 1 : 0, 777.0);
    c = aa_io_parsevector(s, n, Y.p, inc, want ? &end : NULL);
    size_t e = std::min(n, l.vals.size());
    CHECK("vcount", c == e, "parsed %zu instead of %zu numbers", c, e);
    for (size_t i = 0; i < e; i++) CHECK("vvalue", same(Y.p[i * inc], l.vals[i]), "number %zu read as %.17g", i, Y.p[i * inc]);
    for (size_t i = 0; i + 1 < n; i++) for (size_t j = 1; j < inc; j++) CHECK("vpad", Y.p[i * inc + j] == 777.0, "padding written at %zu", i * inc + j);
    if (want && e == nn && nn) CHECK("vend", end == s + l.endoff, "parsing stopped at %ld instead of %zu of '%s'", (long)(end - s), l.endoff, s);
    // from a file, region given or the thread's own
    {
        MemIn in(l.text + "\n" + "77 78\n");
        TB<double> Z(n ? (n - 1) * inc + 1 : 0, 777.0); double nx[2];
        LIB(c = aa_io_getvector(in.f, NULL, n, Z.p, inc));
        CHECK("getvec", c == e, "read %zu instead of %zu numbers", c, e);
        for (size_t i = 0; i < e; i++) CHECK("getval", same(Z.p[i * inc], l.vals[i]), "number %zu read as %.17g", i, Z.p[i * inc]);
        aa_mem_region_t *r2 = aa_mem_region_create(16); size_t q = aa_io_getvector(in.f, r2, 2, nx, 1); aa_mem_region_destroy(r2);
        CHECK("next", q == 2 && nx[0] == 77 && nx[1] == 78, "the following line was not read next");
    }
    const char *sb = aa_io_skipblank(s); size_t kb = strspn(s, " \t");
    CHECK("skip", sb == s + kb, "skipped %ld instead of %zu blanks", (long)(sb - s), kb);
    distinct(Rng::mix(nn ^ (uint64_t)tail << 8 ^ n << 16 ^ inc << 24 ^ std::hash<std::string>()(l.text) << 30));
    note("'%.40s'", s); free(s);
}

SECTION(matrix, 3000, 40000) {
    fresh_region(rng);
    size_t n = (size_t)rng.range(1, 8), m = (size_t)rng.pick(std::vector<long>{0, 1, 2, 5, rng.range(0, 60)});
    // heap: lines of exactly n numbers mixed with blank and comment lines, perhaps one bad line
    std::vector<double> vals; std::string text; size_t lineno = 0, bad = 0, badat = rng.coin(.25) && m ? (size_t)rng.range(1, (long)m) : 0;
    for (size_t i = 0; i < m; i++) {
        while (rng.coin(.25)) { Line b = mkline(rng, 0, rng.coin(.5) ? 1 : 0); text += b.text + "\n"; lineno++; }
        bool isbad = badat == i + 1; size_t k = isbad ? (n > 1 && rng.coin(.5) ? (size_t)rng.range(1, (long)n - 1) : 0) : n;
        Line l = mkline(rng, k, isbad ? 2 : rng.coin(.2) ? 1 : 0); lineno++;
        if (isbad && !bad) bad = lineno;
        if (!bad) vals.insert(vals.end(), l.vals.begin(), l.vals.end());
        text += l.text + (i + 1 < m || rng.coin(.5) ? "\n" : "");
    }
    {
        MemIn in(text); double *A = NULL; size_t elts = 0; size_t *ep = &elts; int mode = (int)rng.range(0, 3);
        if (mode == 1) { elts = (size_t)rng.range(1, 20); A = (double *)malloc(elts * sizeof *A); }
        if (mode == 2) elts = (size_t)rng.range(0, 20);
        if (mode == 3) ep = NULL;
        ssize_t r;
        LIB(r = aa_io_fread_matrix_heap(in.f, n, &A, ep));
        if (bad) CHECK("badline", r == -(ssize_t)bad, "a bad line %zu was reported as %zd", bad, r);
        else {
            CHECK("cols", r == (ssize_t)m, "%zd of %zu columns read", r, m);
            if (r == (ssize_t)m) for (size_t i = 0; i < vals.size(); i++) CHECK("value", same(A[i], vals[i]), "element %zu read as %.17g instead of %.17g", i, A[i], vals[i]);
            if (ep && mode != 2) CHECK("elts", elts >= vals.size(), "capacity %zu for %zu elements", elts, vals.size());
        }
        free(A); note("heap m %zu n %zu mode %d bad %zu", m, n, mode, bad);
        distinct(Rng::mix(n ^ m << 8 ^ (uint64_t)mode << 16 ^ bad << 20 ^ std::hash<std::string>()(text)));
    }
    {   // fixed size
        size_t lda = m + (size_t)rng.range(0, 3); if (!lda) lda = 1;
        TB<double> A(n * lda, 555.0); std::vector<std::vector<double>> rows(m); std::string t; size_t tot = 0;
        for (size_t i = 0; i < m; i++) { Line l = mkline(rng, rng.coin(.2) ? (size_t)rng.range(0, (long)n) : n, (int)rng.range(0, 1)); rows[i] = l.vals; tot += l.vals.size(); t += l.text + "\n"; }
        MemIn in(t); size_t c; LIB(c = aa_io_fread_matrix_fix(in.f, m, n, A.p, lda));
        CHECK("fixcount", c == tot, "%zu of %zu elements read", c, tot);
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < rows[i].size(); j++) CHECK("fixvalue", same(A.p[j * lda + i], rows[i][j]), "element %zu,%zu read as %.17g", i, j, A.p[j * lda + i]);
        for (size_t j = 0; j < n; j++) for (size_t i = m; i < lda; i++) CHECK("fixpad", A.p[j * lda + i] == 555.0, "padding written");
    }
}

SECTION(print, 2000, 20000) {
    size_t m = (size_t)rng.range(0, rng.coin(.01) ? 150 : 6), n = (size_t)rng.range(0, rng.coin(.01) ? 150 : 6), lda = m + (size_t)rng.range(0, 3), inc = (size_t)rng.range(1, 4); if (!lda) lda = 1;
    TB<double> A(n * lda, 0.0), P(m * n, 0.0), x(n ? (n - 1) * inc + 1 : 0, 0.0), xc(n, 0.0); TB<float> F(m * n, 0.0f), xf(n, 0.0f);
    double sc = pow(10, (double)rng.range(-3, 6));
    for (size_t i = 0; i < n * lda; i++) A.p[i] = rng.uni(-sc, sc);
    for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) { P.p[j * m + i] = A.p[j * lda + i]; F.p[j * m + i] = (float)A.p[j * lda + i]; }
    for (size_t i = 0; i < n; i++) { x.p[i * inc] = xc.p[i] = rng.uni(-sc, sc); xf.p[i] = (float)xc.p[i]; }
    auto rowtxt = [&](const std::vector<double> &v) { std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? "\t" : "") + fmt("%f", v[i]); return s + "\n"; };
    std::vector<double> xv(xc.p, xc.p + n), xfv(xf.p, xf.p + n);
    std::string ex = rowtxt(xv), exf = rowtxt(xfv), er, erf, ec;
    for (size_t i = 0; i < m; i++) { std::vector<double> r, rf; for (size_t j = 0; j < n; j++) { r.push_back(A.p[j * lda + i]); rf.push_back(F.p[j * m + i]); } er += rowtxt(r); erf += rowtxt(rf); }
    for (size_t j = 0; j < n; j++) { std::vector<double> r; for (size_t i = 0; i < m; i++) r.push_back(A.p[j * lda + i]); ec += rowtxt(r); }
    std::string g;
    { MemOut o; aa_io_d_print(o.f, n, x.p, inc); g = o.str(); CHECK("dprint", g == ex, "vector printed as '%s'", g.c_str()); }
    { MemOut o; aa_dump_vec(o.f, xc.p, n); g = o.str(); CHECK("dumpvec", g == ex, "vector printed as '%s'", g.c_str()); }
    { MemOut o; aa_io_d_gemp(o.f, CblasRowMajor, m, n, A.p, lda); g = o.str(); CHECK("gemprow", g == er, "rows printed as '%s'", g.c_str()); }
    { MemOut o; aa_dump_mat(o.f, P.p, m, n); g = o.str(); CHECK("dumpmat", g == er, "matrix printed as '%s'", g.c_str()); }
    { MemOut o; aa_dump_matf(o.f, F.p, m, n); g = o.str(); CHECK("dumpmatf", g == erf, "matrix printed as '%s'", g.c_str()); }
    {
        MemOut o; aa_io_d_gemp(o.f, CblasColMajor, m, n, A.p, lda); g = o.str(); CHECK("gempcol", g == ec, "columns printed as '%s'", g.c_str());
        if (m && n) {   // and back
            MemIn in(g); double *B = NULL; size_t el = 0; ssize_t r = aa_io_fread_matrix_heap(in.f, m, &B, &el);
            CHECK("roundcols", r == (ssize_t)n, "%zd of %zu columns read back", r, n);
            if (r == (ssize_t)n) for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) CLOSE("round", B[j * m + i], A.p[j * lda + i], 5.1e-7 + 1e-15 * sc);
            free(B);
        }
    }
    distinct(Rng::mix(m ^ n << 8 ^ lda << 16 ^ inc << 24 ^ rng.u64() << 32)); note("print m %zu n %zu lda %zu inc %zu", m, n, lda, inc);
}

SECTION(readrealloc, 600, 6000) {
    // a stream arriving in pieces of hostile sizes is accumulated without loss
    size_t total = (size_t)rng.pick(std::vector<long>{0, 1, 15, 16, 17, 100, 1000, 5000}); std::string data; for (size_t i = 0; i < total; i++) data += (char)rng.range(0, 255);
    int fd[2]; if (pipe(fd)) return;
    size_t max = (size_t)rng.pick(std::vector<long>{0, 1, 8, 15, 16, 17, 31, 64}), off = 0; void *buf = max ? malloc(max) : NULL;
    size_t sent = 0; int reads = 0; bool ok = true;
    while (ok) {
        if (sent < total) { size_t k = std::min(total - sent, (size_t)rng.range(1, 200)); if (write(fd[1], data.data() + sent, k) != (ssize_t)k) { ok = false; break; } sent += k; }
        else if (fd[1] >= 0) { close(fd[1]); fd[1] = -1; }
        ssize_t r = aa_read_realloc(fd[0], &buf, off, &max); reads++;
        CHECK("err", r >= 0, "read failed"); if (r < 0) break;
        if (r == 0) break;
        off += (size_t)r; CHECK("cap", off <= max, "%zu bytes in a buffer of %zu", off, max);
        if (off > max) break;
        CHECK("bytes", off <= total && !memcmp(buf, data.data(), off), "accumulated bytes differ after %zu", off);
    }
    if (fd[1] >= 0) close(fd[1]);
    close(fd[0]);
    CHECK("total", off == total, "%zu of %zu bytes", off, total);
    free(buf); distinct(Rng::mix(total ^ (uint64_t)reads << 32)); note("total %zu reads %d", total, reads);
}
VK_MAIN
