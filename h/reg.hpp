// Monitor for the thread-local scratch region: LIB(call) checks that the call
// left the calling thread's region exactly as it found it.  Findings carry the
// key prefix "region:" and are judged by the scratch-memory property only.
#pragma once
#include "vk.hpp"
#include <amino.h>
namespace vk {
struct RegMon {
    const char *what; aa_mem_region_t *reg; uint8_t *sent; size_t chunks;
    explicit RegMon(const char *w) : what(w), reg(aa_mem_region_local_get()) {
        sent = (uint8_t *)aa_mem_region_alloc(reg, 16);
        memset(sent, 0xA5, 16);
        chunks = aa_mem_region_chunk_count(reg);
    }
    ~RegMon() {
        uint8_t *now = (uint8_t *)aa_mem_region_ptr(reg);
        st().events++; st().counters["region_balance_observations"]++;
        size_t fr = aa_mem_region_freesize(reg), top = aa_mem_region_topsize(reg), cc = aa_mem_region_chunk_count(reg);
        // balanced: the top is right after the sentinel, or all later chunks were
        // merged into one empty chunk above the sentinel's
        bool ok = now == sent + 16 || (fr == top && cc <= chunks + 1);
        for (int i = 0; i < 16 && ok; i++) ok = sent[i] == 0xA5;
        if (!ok) {
            std::string w(what); size_t p = w.find('(');
            std::string k = p == std::string::npos ? w : w.substr(0, p);
            size_t e = k.rfind('='); if (e != std::string::npos) k = k.substr(e + 1);
            k.erase(std::remove(k.begin(), k.end(), ' '), k.end());
            fail(("region:" + k).c_str(), "scratch region not restored (%ld bytes, %zu chunks before, %zu after) by %s", (long)(now - sent - 16), chunks, cc, what);
        }
        aa_mem_region_pop(reg, sent);
    }
};
// Start a case with a thread-local region of hostile size
inline void fresh_region(Rng &r) {
    static const std::vector<size_t> sz = {16, 64, 256, 1024, 4096, 65536};
    aa_mem_region_local_init(r.pick(sz));
}
}
#define LIB(...) do { vk::RegMon _m(#__VA_ARGS__); __VA_ARGS__; } while (0)
