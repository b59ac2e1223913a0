// Runtime-monitoring framework shared by all harnesses.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <memory>
#include <mutex>
#include <atomic>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <array>
#include <execinfo.h>
#include <pthread.h>
extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" __attribute__((weak)) void __sanitizer_symbolize_pc(void *, const char *, char *, size_t);
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes(void);

namespace vk {

struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    static uint64_t mix(uint64_t z) {
        z += 0x9e3779b97f4a7c15ULL;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    void reseed(uint64_t x) { s[0] = mix(x); s[1] = mix(s[0] ^ 0x1234567); if (!s[0] && !s[1]) s[0] = 1; }
    uint64_t u64() {
        uint64_t a = s[0], b = s[1];
        uint64_t r = a + b;
        s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        return r;
    }
    double u01() { return (double)(u64() >> 11) * 0x1.0p-53; }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    // inclusive
    long range(long lo, long hi) { return lo + (long)(u64() % (uint64_t)(hi - lo + 1)); }
    bool coin(double p = 0.5) { return u01() < p; }
    double gauss() { double u = u01(), v = u01(); if (u < 1e-300) u = 1e-300; return std::sqrt(-2*std::log(u))*std::cos(2*M_PI*v); }
    template<class T> const T &pick(const std::vector<T> &v) { return v[(size_t)(u64() % v.size())]; }
    // log-uniform magnitude in [10^a,10^b]
    double logu(double a, double b) { return std::pow(10.0, uni(a, b)); }
    double sgn() { return coin() ? 1.0 : -1.0; }
};

struct State {
    std::string section;
    uint64_t seed = 1, caseno = 0;
    bool thorough = false, again = false, noheap = false;   // again: this case is being repeated for the heap balance
    uint64_t events = 0, cases = 0;
    std::unordered_set<uint32_t> distinct;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::pair<uint64_t, std::string>> viol; // key -> (case, msg)
    std::vector<std::string> samples;
    uint64_t nviol = 0;
    char *status = nullptr;
    std::mutex mtx;
    std::string desc;
};
inline State &st() { static State s; return s; }

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t fnv(const std::string &s) { return fnv(s.data(), s.size()); }

// record that the monitors judged n observations
inline void event(uint64_t n = 1) { __atomic_fetch_add(&st().events, n, __ATOMIC_RELAXED); }
// record a distinct non-trivial situation
inline void distinct(uint64_t h) { if (!st().again && st().distinct.size() < 60000) st().distinct.insert((uint32_t)(Rng::mix(h) >> 32)); }
inline void count(const char *name, uint64_t n = 1) { if (!st().again) st().counters[name] += n; }
inline void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char *fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    st().desc = b;
    if (st().status) { snprintf(st().status, 4000, "%llu\n%s\n", (unsigned long long)st().caseno, b); }
    if (st().samples.size() < 3 && st().desc.size()) st().samples.push_back(st().section + "#" + std::to_string(st().caseno) + ": " + st().desc);
}
inline void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
inline void fail(const char *key, const char *fmt, ...) {
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    std::lock_guard<std::mutex> l(st().mtx);
    st().nviol++;
    std::string k(key);
    if (!st().viol.count(k)) {
        st().viol[k] = { st().caseno, std::string(b) + (st().desc.empty() ? "" : "  [" + st().desc + "]") };
        fprintf(stderr, "VKFAIL %s/%s case=%llu: %s [%s]\n", st().section.c_str(), key,
                (unsigned long long)st().caseno, b, st().desc.c_str());
    }
}
#define CHECK(key, cond, ...) do { vk::event(); if (!(cond)) vk::fail(key, __VA_ARGS__); } while (0)

// |a-b| small relative to scale; NaN is never close
inline bool near(double a, double b, double tol) { double d = std::fabs(a - b); return d <= tol; }
inline double maxdiff(const double *a, const double *b, size_t n) {
    double m = 0; for (size_t i = 0; i < n; i++) { double d = std::fabs(a[i] - b[i]); if (!(d <= m)) m = d; if (d != d) return NAN; } return m; }
#define CLOSE(key, a, b, tol) do { double _a = (a), _b = (b), _t = (tol); vk::event(); \
    if (!(std::fabs(_a - _b) <= _t)) vk::fail(key, "%s = %.17g, expected %.17g (tol %.3g)", #a, _a, _b, _t); } while (0)
#define CLOSEV(key, a, b, n, tol) do { const double *_a = (a), *_b = (b); double _t = (tol); size_t _n = (size_t)(n); vk::event(); \
    double _m = vk::maxdiff(_a, _b, _n); if (!(_m <= _t)) vk::fail(key, "%s differs from reference by %.6g (tol %.3g) got %s want %s", #a, _m, _t, \
        vk::vstr(_a, _n).c_str(), vk::vstr(_b, _n).c_str()); } while (0)

inline std::string vstr(const double *v, size_t n) {
    std::string s = "("; char b[40];
    for (size_t i = 0; i < n && i < 16; i++) { snprintf(b, sizeof b, "%s%.10g", i ? " " : "", v[i]); s += b; }
    if (n > 16) s += " ...";
    return s + ")";
}

struct Section { const char *name; uint64_t quick, thorough; void (*fn)(Rng &); double cpu; };
inline std::vector<Section> &sections() { static std::vector<Section> v; return v; }
struct Reg { Reg(const char *n, uint64_t q, uint64_t t, void (*f)(Rng &), double cpu = 40) { sections().push_back({n, q, t, f, cpu}); } };
#define SECTION(name, quick, thorough) \
    static void vk_sec_##name(vk::Rng &rng); \
    static vk::Reg vk_reg_##name(#name, quick, thorough, vk_sec_##name); \
    static void vk_sec_##name(vk::Rng &rng)

inline void on_prof(int) {
    static const char m[] = "VKHANG no progress within the per-case CPU budget\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(97);
}
inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

// Heap balance: one case in leak_every() is run again, with the same data, until a
// run leaves the heap no larger than it found it; growth in every one of five runs is a leak.
#if defined(__SANITIZE_THREAD__)
inline int &leak_every() { static int v = 0; return v; }
#else
inline int &leak_every() { static int v = 10; return v; }
#endif
inline void no_heap_balance() { st().noheap = true; }   // called by a case the library gives no way to free
struct LeakTrace {   // the last run records where every block still live came from
    std::map<const volatile void *, std::pair<size_t, std::array<void *, 20>>> live; bool on = false, in = false; pthread_t self;
    static LeakTrace &t() { static LeakTrace *x = new LeakTrace; return *x; }
    static void m(const volatile void *p, size_t n) { LeakTrace &x = t(); if (!x.on || x.in || !pthread_equal(x.self, pthread_self())) return; x.in = true; auto &e = x.live[p]; e.first = n; e.second.fill(nullptr); backtrace(e.second.data(), 20); x.in = false; }
    static void f(const volatile void *p) { LeakTrace &x = t(); if (!x.on || x.in || !pthread_equal(x.self, pthread_self())) return; x.in = true; x.live.erase(p); x.in = false; }
    void start() { static int once = __sanitizer_install_malloc_and_free_hooks(m, f); (void)once; live.clear(); self = pthread_self(); in = false; on = true; }
    std::string stop() { on = false; std::map<std::string, size_t> w; for (auto &e : live) { std::string k; for (int i = 2; i < 20 && e.second.second[i]; i++) { char b[256] = ""; __sanitizer_symbolize_pc((char *)e.second.second[i] - 1, "%f", b, sizeof b); if (b[0] == '?' || !b[0] || !strncmp(b, "vk::", 4) || !strncmp(b, "std::", 5) || !strncmp(b, "void std::", 10) || strstr(b, "__sanitizer") || strstr(b, "__asan") || strstr(b, "__gnu_cxx") || strstr(b, "::_M_") || !strncmp(b, "operator new", 12) || strstr(b, "malloc") || strstr(b, "alloc(")) continue; k += (k.empty() ? "" : " < ") + std::string(b).substr(0, 60); if (std::count(k.begin(), k.end(), '<') > 2) break; } w[k] += e.second.first; } std::string r; for (auto &x : w) { r += "; " + std::to_string(x.second) + " from " + x.first; if (r.size() > 700) break; } live.clear(); return r; }
};
// a library call that ends the process is a violation (reported like a crash)
inline bool &in_case() { static bool b = false; return b; }
inline void on_exit_in_case() { if (in_case()) { fprintf(stderr, "SUMMARY: LibrarySanitizer: exit-called\n"); fflush(nullptr); _exit(98); } }
inline void leakcheck(void (*fn)(Rng &), uint64_t seed) {
    State &s = st(); size_t grown[5]; uint64_t nv = s.nviol; std::string where;
    for (int k = 0; k < 5; k++) {
        size_t b = __sanitizer_get_current_allocated_bytes();
        if (k == 4) LeakTrace::t().start();
        s.again = true; { Rng r(seed); fn(r); } s.again = false;
        size_t e = __sanitizer_get_current_allocated_bytes();
        if (k == 4) where = LeakTrace::t().stop();
        if (s.nviol != nv) { LeakTrace::t().on = false; return; }
        s.counters["heap_balance_runs"]++;
        if (k < 4 && e <= b) { s.events++; return; }
        grown[k] = e - b;
    }
    fail("heap", "each run of this case leaves memory allocated on the heap (%zu, %zu, %zu, %zu bytes)%s", grown[0], grown[1], grown[2], grown[3], where.c_str());
}

// hook a harness may define: called after every case
inline std::function<void()> &after_case() { static std::function<void()> f; return f; }

inline int run_main(int argc, char **argv) { atexit(on_exit_in_case);
    std::string sec, out; uint64_t from = 0, to = 0; std::string statusf;
    State &s = st();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing arg\n"); exit(2); } return argv[++i]; };
        if (a == "--list") { for (auto &x : sections()) printf("%s %llu %llu\n", x.name, (unsigned long long)x.quick, (unsigned long long)x.thorough); return 0; }
        else if (a == "--section") sec = nx();
        else if (a == "--from") from = strtoull(nx().c_str(), 0, 10);
        else if (a == "--to") to = strtoull(nx().c_str(), 0, 10);
        else if (a == "--seed") s.seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--out") out = nx();
        else if (a == "--status") statusf = nx();
        else if (a == "--thorough") s.thorough = true;
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
    }
    const Section *S = nullptr;
    for (auto &x : sections()) if (sec == x.name) S = &x;
    if (!S) { fprintf(stderr, "no section %s\n", sec.c_str()); return 2; }
    s.section = sec;
    if (!statusf.empty()) {
        int fd = open(statusf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, 4096)) { perror("status"); return 2; }
        s.status = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    signal(SIGPROF, on_prof);
    for (uint64_t c = from; c < to; c++) {
        s.caseno = c; s.desc.clear();
        if (s.status) snprintf(s.status, 4000, "%llu\n\n", (unsigned long long)c);
        struct itimerval tv = {{0, 0}, {(time_t)S->cpu, 0}};
        setitimer(ITIMER_PROF, &tv, nullptr);
        const uint64_t cs = Rng::mix(s.seed) ^ fnv(sec) ^ Rng::mix(c * 2654435761ULL + 17);
        uint64_t nv0 = s.nviol;
        s.noheap = false;
        in_case() = true;
        { Rng r(cs); S->fn(r); }
        if (leak_every() && !s.noheap && __sanitizer_get_current_allocated_bytes && c % (uint64_t)leak_every() == 0 && s.nviol == nv0) leakcheck(S->fn, cs);
        in_case() = false;
        if (after_case()) after_case()();
        s.cases++;
        if (s.nviol > 2000) break;
    }
    struct itimerval z = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &z, nullptr);
    if (!out.empty()) {
        FILE *f = fopen(out.c_str(), "w");
        if (!f) { perror("out"); return 2; }
        fprintf(f, "{\"section\":\"%s\",\"cases\":%llu,\"events\":%llu,\"viol\":[", sec.c_str(), (unsigned long long)s.cases, (unsigned long long)s.events);
        bool first = true;
        for (auto &v : s.viol) { fprintf(f, "%s{\"key\":\"%s\",\"case\":%llu,\"msg\":\"%s\"}", first ? "" : ",", jesc(v.first).c_str(), (unsigned long long)v.second.first, jesc(v.second.second).c_str()); first = false; }
        fprintf(f, "],\"samples\":["); first = true;
        for (auto &x : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
        fprintf(f, "],\"counters\":{"); first = true;
        for (auto &x : s.counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", x.first.c_str(), (unsigned long long)x.second); first = false; }
        fprintf(f, "},\"distinct\":["); first = true;
        for (auto x : s.distinct) { fprintf(f, "%s%u", first ? "" : ",", x); first = false; }
        fprintf(f, "]}\n");
        fclose(f);
    }
    return s.viol.empty() ? 0 : 1;
}

// Exact-size heap array of doubles (ASan red zones on both sides), NaN-filled.
struct Buf {
    double *p; size_t n;
    explicit Buf(size_t n_) : p((double *)malloc(sizeof(double) * (n_ ? n_ : 1))), n(n_) { for (size_t i = 0; i < n; i++) p[i] = NAN; }
    Buf(const double *src, size_t n_) : Buf(n_) { memcpy(p, src, n * sizeof(double)); }
    ~Buf() { free(p); }
    void wipe() { for (size_t i = 0; i < n; i++) p[i] = NAN; } // before the next callee writes it: a skipped output must not look right
    Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
    operator double *() { return p; }
};

} // namespace vk
#define VK_MAIN int main(int argc, char **argv) { return vk::run_main(argc, argv); }
