// C02: pools, region lists, bit vectors, growable vectors, heap sort, memory swap against models.
#include "vk.hpp"
#include <amino.h>
#include <deque>
using namespace vk;
// heap.h has no C linkage for C++: bind to the C symbols
typedef int (*hcmp)(const void *, const void *);
void c_heapify(uint8_t *, size_t, size_t, size_t, hcmp) __asm__("aa_aheap_heapify");
void c_sort(void *, size_t, size_t, hcmp) __asm__("aa_aheap_sort");
void c_build(uint8_t *, size_t, size_t, hcmp) __asm__("aa_aheap_build");

SECTION(pool, 6000, 60000) {
    aa_mem_pool_t pool;
    size_t size = (size_t)rng.pick(std::vector<long>{1, 4, 8, 15, 16, 17, 24, 40, 64, 100});
    size_t cnt = (size_t)rng.pick(std::vector<long>{0, 1, 2, 3, 7, 16});
    aa_mem_pool_init(&pool, size, cnt);
    struct B { uint8_t *p; uint8_t t; };
    std::vector<B> live; std::set<uint8_t *> freed;
    int nops = (int)rng.range(5, 80); uint64_t sig = 0; size_t peak = 0, totalreg = 0; (void)totalreg;
    for (int k = 0; k < nops; k++) {
        int op = (int)rng.range(0, 9);
        if (op < 5) {
            uint8_t *p = (uint8_t *)aa_mem_pool_alloc(&pool);
            for (auto &b : live) CHECK("overlap", !(p < b.p + size && b.p < p + size), "pool returned memory of a live object");
            CHECK("align", (uintptr_t)p % 8 == 0, "pool object misaligned");
            if (!freed.empty()) { CHECK("reuse", freed.count(p) == 1, "pool ignored %zu freed objects", freed.size()); freed.erase(p); }
            uint8_t t = (uint8_t)rng.u64(); memset(p, t, size); live.push_back({p, t});
        } else if (op < 9 && !live.empty()) {
            size_t i = (size_t)rng.range(0, (long)live.size() - 1);
            aa_mem_pool_free(&pool, live[i].p); freed.insert(live[i].p);
            live.erase(live.begin() + (long)i);
        } else if (op == 9 && rng.coin(0.1)) { aa_mem_pool_release(&pool); live.clear(); freed.clear(); }
        peak = std::max(peak, live.size());
        for (auto &b : live) { event(); for (size_t j = 0; j < size; j++) if (b.p[j] != b.t) { fail("corrupt", "live pool object of %zu bytes changed at %zu", size, j); break; } }
        sig = Rng::mix(sig ^ (uint64_t)op ^ live.size() << 8 ^ freed.size() << 20 ^ size << 32); distinct(sig);
    }
    note("object size %zu initial count %zu ops %d peak %zu", size, cnt, nops, peak);
    aa_mem_pool_destroy(&pool);
}

namespace { void collect(void *cx, void *e) { ((std::vector<long> *)cx)->push_back(*(long *)e); } }
SECTION(rlist, 6000, 60000) {
    aa_mem_region_t *reg = aa_mem_region_create((size_t)rng.range(0, 400));
    struct aa_mem_rlist *l = aa_mem_rlist_alloc(reg);
    std::deque<long> ref; std::deque<std::unique_ptr<long>> owned;
    int nops = (int)rng.range(3, rng.coin(.01) ? 2000 : 60); uint64_t sig = 0; std::string ops;
    for (int k = 0; k < nops; k++) {
        int op = (int)rng.range(0, 6); long v = (long)(rng.u64() & 0xffffff);
        switch (op) {
        case 0: aa_mem_rlist_push_cpy(l, &v, sizeof v); ref.push_front(v); break;
        case 1: owned.emplace_back(new long(v)); aa_mem_rlist_push_ptr(l, owned.back().get()); ref.push_front(v); break;
        case 2: aa_mem_rlist_enqueue_cpy(l, &v, sizeof v); ref.push_back(v); break;
        case 3: owned.emplace_back(new long(v)); aa_mem_rlist_enqueue_ptr(l, owned.back().get()); ref.push_back(v); break;
        case 4: case 5: {
            long *p = (long *)aa_mem_rlist_pop(l);
            if (ref.empty()) CHECK("pop-empty", p == NULL, "pop of an empty list returned data");
            else { CHECK("pop", p && *p == ref.front(), "pop returned the wrong element"); ref.pop_front(); }
            break; }
        case 6: aa_mem_region_alloc(reg, (size_t)rng.range(0, 60)); break;
        }
        std::vector<long> got; aa_mem_rlist_map(l, collect, &got);
        CHECK("content", got.size() == ref.size() && std::equal(got.begin(), got.end(), ref.begin()), "list holds %zu elements, model %zu (op %d)", got.size(), ref.size(), op);
        sig = Rng::mix(sig ^ (uint64_t)op ^ ref.size() << 8); distinct(sig); ops += (char)('0' + op);
    }
    note("list ops %s", ops.c_str());
    aa_mem_region_destroy(reg);
}

SECTION(bits, 4000, 40000) {
    size_t n = (size_t)rng.pick(std::vector<long>{1, 2, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 200});
    size_t w = aa_bits_words(n);
    CHECK("words", w == (n + AA_BITS_BITS - 1) / AA_BITS_BITS, "words(%zu) = %zu", n, w);
    CHECK("size", aa_bits_size(n) == w * sizeof(aa_bits), "size(%zu)", n);
    std::vector<bool> ra(n), rb(n);
    aa_bits *a = (aa_bits *)calloc(w, sizeof(aa_bits)), *b = (aa_bits *)calloc(w, sizeof(aa_bits));
    for (int k = 0; k < 60; k++) {
        size_t i = (size_t)rng.range(0, (long)n - 1); int v = rng.coin() ? (int)rng.range(1, 9) : 0;
        if (rng.coin()) { aa_bits_set(a, i, v); ra[i] = v != 0; } else { aa_bits_set(b, i, v); rb[i] = v != 0; }
        if (k % 6 == 5) {
            switch (rng.range(0, 2)) {
            case 0: aa_bits_and(a, b, n); for (size_t j = 0; j < n; j++) ra[j] = ra[j] && rb[j]; break;
            case 1: aa_bits_or(a, b, n); for (size_t j = 0; j < n; j++) ra[j] = ra[j] || rb[j]; break;
            case 2: aa_bits_xor(a, b, n); for (size_t j = 0; j < n; j++) ra[j] = ra[j] != rb[j]; break;
            }
        }
        bool ok = true;
        for (size_t j = 0; j < n; j++) ok = ok && aa_bits_get(a, j) == (int)ra[j] && aa_bits_get(b, j) == (int)rb[j];
        CHECK("content", ok, "bit vector of %zu bits differs from model", n);
    }
    note("bit vectors of %zu bits", n); distinct(rng.u64());
    free(a); free(b);
}

AA_VECTOR_DEF(long, tv)
SECTION(vector, 3000, 30000) {
    tv v; tv_init(&v, (size_t)rng.range(0, 4)); if (v.max == 0) { free(v.data); v.data = NULL; }
    std::vector<long> ref; int n = (int)rng.range(1, rng.coin(.02) ? 5000 : 200);
    for (int i = 0; i < n; i++) { long x = (long)rng.u64(); tv_push(&v, x); ref.push_back(x); CHECK("cap", v.size <= v.max, "size exceeds capacity"); }
    CHECK("content", v.size == ref.size() && std::equal(ref.begin(), ref.end(), v.data), "vector of %d elements differs from model", n);
    note("%d pushes", n); distinct((uint64_t)n); free(v.data);
}

namespace {
size_t g_esz; uint64_t g_cmps;
int cmp_elem(const void *a, const void *b) {
    g_cmps++;
    unsigned char x = *(const unsigned char *)a, y = *(const unsigned char *)b; return (x > y) - (x < y);
}
}
SECTION(heap, 6000, 60000) {
    size_t esz = (size_t)rng.pick(std::vector<long>{1, 2, 3, 4, 7, 8, 9, 12, 16, 17, 24, 40});
    size_t n = (size_t)rng.range(0, rng.coin(.004) ? 3000 : rng.coin(0.2) ? 200 : 20);
    int keys = (int)rng.pick(std::vector<long>{1, 2, 5, 250});
    std::vector<std::string> ref;
    uint8_t *d = (uint8_t *)malloc(esz * n + 1);
    // first byte is the key; remaining bytes are a payload that must travel with it
    for (size_t i = 0; i < n; i++) {
        d[i * esz] = (uint8_t)rng.range(0, keys - 1);
        for (size_t j = 1; j < esz; j++) d[i * esz + j] = (uint8_t)rng.u64();
        ref.push_back(std::string((char *)d + i * esz, esz));
    }
    uint8_t *e = (uint8_t *)malloc(esz * n ? esz * n : 1); memcpy(e, d, esz * n); free(d);
    g_cmps = 0;
    note("heap: %zu elements of %zu bytes, %d keys", n, esz, keys);
    if (rng.coin(0.5)) {
        c_build(e, n, esz, cmp_elem);
        for (size_t i = 1; i < n; i++) CHECK("heap-order", e[((i - 1) / 2) * esz] >= e[i * esz], "heap order violated at %zu of %zu", i, n);
        // raise or lower the root and restore
        if (n && rng.coin()) {
            std::string old((char *)e, esz); ref.erase(std::find(ref.begin(), ref.end(), old));
            e[0] = (uint8_t)rng.range(0, keys - 1); ref.push_back(std::string((char *)e, esz));
            c_heapify(e, n, esz, 0, cmp_elem);
            for (size_t i = 1; i < n; i++) CHECK("heapify-order", e[((i - 1) / 2) * esz] >= e[i * esz], "heap order violated after root change");
        }
    } else {
        c_sort(e, n, esz, cmp_elem);
        for (size_t i = 1; i < n; i++) CHECK("sorted", e[(i - 1) * esz] <= e[i * esz], "not sorted at %zu of %zu", i, n);
        if (n > 1) CHECK("cost", (double)g_cmps <= 10.0 * (double)n * (std::log2((double)n) + 2), "heap sort of %zu made %llu comparisons", n, (unsigned long long)g_cmps);
    }
    std::vector<std::string> got; for (size_t i = 0; i < n; i++) got.push_back(std::string((char *)e + i * esz, esz));
    std::sort(got.begin(), got.end()); std::sort(ref.begin(), ref.end());
    CHECK("permutation", got == ref, "elements lost or torn: %zu elements of %zu bytes", n, esz);
    distinct(n * 1000 + esz * 10 + (uint64_t)keys);
    free(e);
}

SECTION(swap, 3000, 30000) {
    size_t n = (size_t)rng.range(0, rng.coin(.01) ? 3000 : 70), oa = (size_t)rng.range(0, 9), ob = (size_t)rng.range(0, 9);
    std::vector<uint8_t> A(n + oa + 8), B(n + ob + 8);
    for (auto &x : A) x = (uint8_t)rng.u64(); for (auto &x : B) x = (uint8_t)rng.u64();
    auto A0 = A, B0 = B;
    aa_memswap(A.data() + oa, B.data() + ob, n);
    bool ok = true;
    for (size_t i = 0; i < A.size(); i++) ok = ok && A[i] == ((i >= oa && i < oa + n) ? B0[i - oa + ob] : A0[i]);
    for (size_t i = 0; i < B.size(); i++) ok = ok && B[i] == ((i >= ob && i < ob + n) ? A0[i - ob + oa] : B0[i]);
    CHECK("swap", ok, "memswap of %zu bytes at offsets %zu,%zu", n, oa, ob);
    note("swap %zu bytes", n); distinct(n * 100 + oa * 10 + ob);
    // flexbuf and the dup helpers
    aa_flexbuf_t *fb = aa_flexbuf_alloc(n + 1); CHECK("flexbuf", fb->n == n + 1, "flexbuf size");
    memset(fb->d, 7, n + 1); aa_flexbuf_free(fb);
    void *d = aa_mem_dup(A.data(), A.size()); CHECK("dup", !memcmp(d, A.data(), A.size()), "dup"); free(d);
}
VK_MAIN
