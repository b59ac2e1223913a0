// C01: region allocator histories against a shadow model.
#include "vk.hpp"
#include <amino.h>
#include <amino.hpp>
using namespace vk;

namespace {
struct Block { uint8_t *p; size_t n; uint64_t id; };
struct Mark { void *p; size_t depth; size_t fr; };   // depth: number of live blocks when taken

struct Model {
    aa_mem_region_t *reg;
    std::vector<Block> blocks;
    std::vector<Mark> marks;
    uint64_t next = 1;
    uint64_t sig = 0;
    size_t maxchunks = 1;

    static uint8_t pat(uint64_t id, size_t i) { return (uint8_t)(Rng::mix(id * 1000003 + i) >> 56); }
    void add(void *p, size_t n, bool fill) {
        Block b{(uint8_t *)p, n, next++};
        CHECK("align", ((uintptr_t)p % 16) == 0, "block %p of %zu bytes is not 16-byte aligned", p, n);
        for (auto &o : blocks)
            if (o.n && n && b.p < o.p + o.n && o.p < b.p + n)
                fail("overlap", "block %p+%zu overlaps live block %p+%zu", p, n, o.p, o.n);
        if (fill) for (size_t i = 0; i < n; i++) b.p[i] = pat(b.id, i);
        blocks.push_back(b);
    }
    void verify() {
        for (auto &b : blocks) {
            event();
            for (size_t i = 0; i < b.n; i++)
                if (b.p[i] != pat(b.id, i)) { fail("corrupt", "live block #%llu (%zu bytes) changed at offset %zu", (unsigned long long)b.id, b.n, i); return; }
        }
    }
    void truncate(size_t depth) {
        blocks.resize(depth);
        while (!marks.empty() && marks.back().depth > depth) marks.pop_back();
    }
};

size_t pick_size(Rng &r, aa_mem_region_t *reg) {
    size_t fr = aa_mem_region_freesize(reg);
    switch (r.range(0, 11)) {
    case 0: return 0;
    case 1: return (size_t)r.range(1, 17);
    case 2: return fr;
    case 3: return fr ? fr - 1 : 1;
    case 4: return fr + 1;
    case 5: return fr > 16 ? fr - (size_t)r.range(0, 16) : (size_t)r.range(1, 64);
    case 6: return fr + (size_t)r.range(1, 40);
    case 7: return (size_t)r.range(1, 700);
    case 8: return 16 * (size_t)r.range(1, 12);
    default: return (size_t)r.range(1, 100);
    }
}

void history(Rng &rng, aa_mem_region_t *reg, int nops, bool &destroyed) {
    (void)destroyed;
    Model m; m.reg = reg;
    std::string ops;
    for (int k = 0; k < nops; k++) {
        int op = (int)rng.range(0, 15);
        size_t n = pick_size(rng, reg);
        if (n > 6000) n = n % 6000;
        size_t chunks0 = aa_mem_region_chunk_count(reg), free0 = aa_mem_region_freesize(reg);
        char code = '?';
        switch (op) {
        case 0: case 1: case 2: case 3: {
            code = 'a';
            void *p = aa_mem_region_alloc(reg, n);
            if (n <= free0) CHECK("grow-needlessly", aa_mem_region_chunk_count(reg) == chunks0, "alloc of %zu with %zu free created a chunk", n, free0);
            m.add(p, n, true);
            break; }
        case 4: {
            code = 'z';
            uint8_t *p = (uint8_t *)aa_mem_region_zalloc(reg, n);
            bool z = true; for (size_t i = 0; i < n; i++) z = z && p[i] == 0;
            CHECK("zalloc", z, "zalloc(%zu) not zeroed", n);
            m.add(p, n, true);
            break; }
        case 5: {
            code = 'd';
            std::vector<uint8_t> src(n ? n : 1);
            uint64_t id = m.next;
            for (size_t i = 0; i < n; i++) src[i] = Model::pat(id, i);
            void *p = aa_mem_region_dup(reg, src.data(), n);
            m.add(p, n, false);
            break; }
        case 6: {
            code = 's';
            std::string s; size_t l = n % 300;
            for (size_t i = 0; i < l; i++) s += (char)rng.range('a', 'z');
            char *p = aa_mem_region_strdup(reg, s.c_str());
            CHECK("strdup", s == p, "strdup changed a %zu-char string", l);
            m.add(p, l + 1, true);
            break; }
        case 7: {
            code = 'p';
            // lengths around the free space of the top chunk
            size_t l = rng.coin(0.6) ? (free0 < 4000 ? free0 + (size_t)rng.range(-2 < -(long)free0 ? -(long)free0 : -2, 3) : (size_t)rng.range(0, 200)) : (size_t)rng.range(0, 400);
            std::string s; for (size_t i = 0; i < l; i++) s += (char)rng.range('A', 'Z');
            char *p = aa_mem_region_printf(reg, "%s:%d", s.c_str(), (int)l);
            CHECK("printf", (s + ":" + std::to_string(l)) == p, "region printf of %zu chars wrong", l);
            m.add(p, strlen(p) + 1, true);
            break; }
        case 8: {
            code = 't';
            uint8_t *p = (uint8_t *)aa_mem_region_tmpalloc(reg, n);
            CHECK("align", (uintptr_t)p % 16 == 0, "tmpalloc not aligned");
            for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(i * 7 + 3);
            m.verify();
            if (rng.coin() ) {  // commit
                uint8_t *q = (uint8_t *)aa_mem_region_alloc(reg, n);
                CHECK("tmpalloc-stable", p == q, "alloc(%zu) after tmpalloc(%zu) moved", n, n);
                bool ok = true; for (size_t i = 0; i < n; i++) ok = ok && q[i] == (uint8_t)(i * 7 + 3);
                CHECK("tmpalloc-content", ok, "tmpalloc contents lost on commit");
                m.add(q, n, true);
            }
            break; }
        case 9: {
            code = 'r';
            // grow a temporary buffer step by step, as a line reader does
            size_t cap = aa_mem_region_freesize(reg);
            size_t used = cap > 3000 ? (size_t)rng.range(0, 300) : cap;
            uint8_t *p = (uint8_t *)aa_mem_region_ptr(reg);
            for (size_t i = 0; i < used; i++) p[i] = (uint8_t)(i * 13 + 1);
            for (int step = 0; step < 3; step++) {
                size_t want = used + (size_t)rng.range(0, 400);
                p = (uint8_t *)aa_mem_region_tmprealloc(reg, want);
                CHECK("tmprealloc-room", aa_mem_region_freesize(reg) >= want, "tmprealloc(%zu) left only %zu", want, aa_mem_region_freesize(reg));
                bool ok = true; for (size_t i = 0; i < used; i++) ok = ok && p[i] == (uint8_t)(i * 13 + 1);
                CHECK("tmprealloc-content", ok, "tmprealloc(%zu) lost buffered bytes", want);
                for (size_t i = used; i < want; i++) p[i] = (uint8_t)(i * 13 + 1);
                used = want;
            }
            uint8_t *q = (uint8_t *)aa_mem_region_alloc(reg, used);
            CHECK("tmpalloc-stable", p == q, "alloc after tmprealloc moved");
            m.add(q, used, true);
            break; }
        case 10: case 11:
            code = 'm';
            m.marks.push_back({aa_mem_region_ptr(reg), m.blocks.size(), aa_mem_region_freesize(reg)});
            break;
        case 12: case 13: {
            if (m.marks.empty()) break;
            code = 'P';
            // pop a recent mark (nested scopes unwind in order), sometimes several at once
            size_t i = m.marks.size() - 1;
            while (i > 0 && rng.coin(0.35)) i--;
            Mark k2 = m.marks[i];
            bool again = rng.coin(0.3);
            aa_mem_region_pop(reg, k2.p);
            CHECK("pop-reclaims", aa_mem_region_freesize(reg) >= k2.fr, "pop to a mark taken with %zu bytes free leaves only %zu", k2.fr, aa_mem_region_freesize(reg));
            m.marks.resize(i);
            m.truncate(k2.depth);
            if (again) { m.marks.push_back(k2); }
            break; }
        case 14: {
            if (m.blocks.empty() || !rng.coin(0.5)) break;
            code = 'B';
            // pop a block: it and everything allocated after it go away
            size_t i = (size_t)rng.range(std::max<long>(0, (long)m.blocks.size() - 6), (long)m.blocks.size() - 1);
            void *p = m.blocks[i].p;
            aa_mem_region_pop(reg, p);
            CHECK("pop-reclaims", aa_mem_region_freesize(reg) >= m.blocks[i].n, "pop of a %zu byte block leaves only %zu free", m.blocks[i].n, aa_mem_region_freesize(reg));
            m.truncate(i);
            break; }
        case 15:
            if (!rng.coin(0.15)) break;
            code = 'R';
            aa_mem_region_release(reg);
            m.blocks.clear(); m.marks.clear();
            CHECK("release-merge", aa_mem_region_chunk_count(reg) == 1, "release left %zu chunks", aa_mem_region_chunk_count(reg));
            break;
        }
        ops += code;
        m.verify();
        size_t cc = aa_mem_region_chunk_count(reg), walk = 0;
        for (struct aa_mem_region_node *p = reg->node; p; p = p->next) walk++;
        CHECK("chunk-count", cc == walk, "chunk count %zu, the region holds %zu", cc, walk);
        m.maxchunks = std::max(m.maxchunks, cc);
        m.sig = Rng::mix(m.sig ^ (uint64_t)code ^ (cc << 8) ^ ((uint64_t)m.blocks.size() << 16));
        distinct(m.sig);
    }
    note("ops=%s blocks_made=%llu maxchunks=%zu", ops.substr(0, 300).c_str(), (unsigned long long)m.next - 1, m.maxchunks);
    count("blocks", m.next - 1);
    count("ops", (uint64_t)nops);
    if (m.maxchunks > 1) count("multi_chunk_histories");
    m.verify();
}
}

SECTION(region, 16000, 160000) {
    static const std::vector<size_t> init = {0, 1, 8, 15, 16, 17, 48, 64, 100, 128, 255, 256, 1000, 4096};
    size_t sz = rng.pick(init);
    int nops = (int)rng.range(5, 60);
    bool d = false;
    {
        if (rng.coin()) {
            aa_mem_region_t r; aa_mem_region_init(&r, sz);
            history(rng, &r, nops, d);
            aa_mem_region_destroy(&r);
        } else {
            aa_mem_region_t *r = aa_mem_region_create(sz);
            history(rng, r, nops, d);
            aa_mem_region_destroy(r);
        }
    }
}

// destroy returns every chunk
SECTION(leak, 60, 400) {
    std::vector<std::pair<int, size_t>> plan;
    for (int i = 0; i < 200; i++) plan.push_back({(int)rng.range(0, 5), (size_t)rng.range(0, 900)});
    auto go = [&]() {
        aa_mem_region_t *r = aa_mem_region_create((size_t)64);
        std::vector<void *> mk;
        for (auto &p : plan) {
            if (p.first < 3) aa_mem_region_alloc(r, p.second);
            else if (p.first == 3) { if (mk.size() < 64) mk.push_back(aa_mem_region_ptr(r)); }
            else if (p.first == 4 && !mk.empty()) { void *m = mk.back(); mk.pop_back(); aa_mem_region_pop(r, m); }
            else if (p.first == 5 && p.second < 20) { aa_mem_region_release(r); mk.clear(); }
        }
        aa_mem_region_destroy(r);
    };
    go();
    size_t b0 = __sanitizer_get_current_allocated_bytes();
    for (int i = 0; i < 20; i++) go();
    size_t b1 = __sanitizer_get_current_allocated_bytes();
    note("200-op plan repeated 20 times");
    CHECK("leak", b1 <= b0 + 1024, "heap grew from %zu to %zu over 20 create/destroy cycles", b0, b1);
    distinct(rng.u64());
}

// steady state: mark/alloc/pop cycles do not accumulate memory or chunks
SECTION(steady, 60, 600) {
    aa_mem_region_t *r = aa_mem_region_create((size_t)rng.range(0, 2000));
    uint8_t *keep = (uint8_t *)aa_mem_region_alloc(r, 64); memset(keep, 0x5a, 64);
    int na = (int)rng.range(1, 6); std::vector<size_t> sz; size_t tot = 0;
    for (int i = 0; i < na; i++) { sz.push_back((size_t)rng.range(0, 3000)); tot += sz.back() + 32; }
    auto cyc = [&]() { void *m = aa_mem_region_ptr(r); for (size_t n : sz) memset(aa_mem_region_alloc(r, n), 1, n); aa_mem_region_pop(r, m); };
    for (int i = 0; i < 20; i++) cyc();
    size_t b0 = __sanitizer_get_current_allocated_bytes(), c0 = aa_mem_region_chunk_count(r);
    void *p0 = aa_mem_region_ptr(r);
    for (int i = 0; i < 50; i++) cyc();
    note("cycle of %d allocations, %zu bytes", na, tot);
    CHECK("steady-heap", __sanitizer_get_current_allocated_bytes() <= b0 + 512, "balanced cycles grow the heap: %zu -> %zu", b0, __sanitizer_get_current_allocated_bytes());
    CHECK("steady-chunks", aa_mem_region_chunk_count(r) <= c0, "balanced cycles accumulate chunks");
    CHECK("steady-top", aa_mem_region_ptr(r) == p0, "balanced cycle moved the top of the region");
    for (int i = 0; i < 64; i++) if (keep[i] != 0x5a) { fail("corrupt", "block below the mark changed"); break; }
    aa_mem_region_destroy(r);
    distinct(rng.u64());
}

// Thread-local flavour and the C++ scope guard / containers over a region
SECTION(cxx, 3000, 30000) {
    aa_mem_region_local_init((size_t)rng.pick(std::vector<long>{1, 16, 64, 256, 4096}));
    aa_mem_region_t *reg = aa_mem_region_local_get();
    struct Rec {
        static void go(Rng &rng, aa_mem_region_t *reg, int depth, uint64_t &sig) {
            std::vector<std::pair<uint8_t *, size_t>> mine;
            std::vector<uint8_t> tag;
            std::vector<int> vref; std::map<int, int> mref;
            auto body = [&](aa_mem_region_t *r) {
                amino::RegionVector<int>::type v{amino::RegionVector<int>::allocator(r)};
                amino::RegionList<int>::type l{amino::RegionList<int>::allocator(r)};
                amino::RegionMap<int, int>::type mp{std::less<int>(), amino::RegionMap<int, int>::allocator(r)};
                int steps = (int)rng.range(1, 10);
                for (int i = 0; i < steps; i++) {
                    switch (rng.range(0, 4)) {
                    case 0: { size_t n = (size_t)rng.range(1, 200); uint8_t *p = (uint8_t *)aa_mem_region_local_alloc(n); uint8_t t = (uint8_t)rng.u64(); memset(p, t, n); mine.push_back({p, n}); tag.push_back(t); break; }
                    case 1: { for (int k = 0; k < 5; k++) { int x = (int)rng.range(0, 1000); v.push_back(x); l.push_back(x); vref.push_back(x); } break; }
                    case 2: { int a = (int)rng.range(0, 9), b = (int)rng.u64(); mp[a] = b; mref[a] = b; break; }
                    case 3: if (depth < 6) go(rng, reg, depth + 1, sig); break;
                    case 4: { size_t n = (size_t)rng.range(1, 300); memset(aa_mem_region_local_tmpalloc(n), 0x55, n); break; }
                    }
                    for (size_t k = 0; k < mine.size(); k++) { event(); for (size_t j = 0; j < mine[k].second; j++) if (mine[k].first[j] != tag[k]) { fail("scope-corrupt", "block of an open scope changed"); break; } }
                    CHECK("container", std::vector<int>(v.begin(), v.end()) == vref && std::vector<int>(l.begin(), l.end()) == vref, "region vector/list contents differ from model");
                    bool same = mp.size() == mref.size();
                    for (auto &kv : mref) same = same && mp.count(kv.first) && mp[kv.first] == kv.second;
                    CHECK("container", same, "region map contents differ from model");
                    sig = Rng::mix(sig + (uint64_t)i * 31 + (uint64_t)depth);
                }
            };
            if (rng.coin()) { amino::RegionScope s; body(s); }
            else { amino::RegionScope s(reg); body(s.reg()); }
        }
    };
    uint64_t sig = 0;
    Rec::go(rng, reg, 0, sig);
    note("scope nest sig=%llx", (unsigned long long)sig);
    distinct(sig);
    aa_mem_region_local_release();
    if (rng.coin()) aa_mem_region_local_destroy();
}
VK_MAIN
