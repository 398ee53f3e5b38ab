// UNITS:
#include "common.h"
#include <new>
#include <map>
static long g_live = 0;   // bytes obtained by new[] and not yet released
static bool g_in = false; // inside the allocator
static void *get(size_t n, bool count) { char *p = (char *)malloc(n + 16); *(size_t *)p = count ? n : 0; if (count) g_live += n; return p + 16; }
static void put(void *p) { if (p) { char *q = (char *)p - 16; g_live -= *(size_t *)q; free(q); } }
void *operator new[](size_t n) throw(std::bad_alloc) { return get(n, true); }
void operator delete[](void *p) throw() { put(p); }
void *operator new(size_t n) throw(std::bad_alloc) { return get(n, g_in); }
void operator delete(void *p) throw() { put(p); }
#include "thread/BlockAllocator.h"
struct Live { unsigned char *p; unsigned char tag; };
static std::string hist;
static void *take(BlockAllocator &a) { g_in = true; void *p = a.allocate(); g_in = false; return p; }
static void give(BlockAllocator &a, void *p) { g_in = true; a.deallocate(p); g_in = false; }
static void run(int sz, int steps, int maxlive, int mode) {
    long base = g_live; {
    g_in = true; BlockAllocator a(sz); g_in = false; std::vector<Live> live; std::map<unsigned char *, int> at; int peak = 0; long peakmem = 0; unsigned char tag = 0;
    std::string what = fmt("element size %d, %d steps, at most %d live, mode %d", sz, steps, maxlive, mode);
    CASE(what);
    a.deallocate(0);
    bool grow = true; long per = 0;
    for (int s = 0; s < steps; ++s) {
        bool alloc = live.empty() || (int(live.size()) < maxlive && (mode == 0 ? rng.range(0, 1) : mode == 1 ? grow : mode == 2 ? rng.range(0, 9) < (grow ? 8 : 2) : mode >= 4 ? int(live.size()) < maxlive - (mode == 5) * rng.range(0, maxlive / 4) : grow));
        if (int(live.size()) >= maxlive) grow = false; if (live.empty()) grow = true;
        if (alloc) {
            unsigned char *p = (unsigned char *)take(a);
            if (!p) { FAIL(fmt("step %d: null returned", s)); return; }
            if ((size_t)p % sizeof(size_t)) { FAIL(fmt("step %d: misaligned block", s)); return; }
            // overlap with the neighbours in address order
            std::map<unsigned char *, int>::iterator i = at.lower_bound(p);
            if (i != at.end() && i->first < p + sz) { FAIL(fmt("step %d with %d live: block overlaps one still held", s, int(live.size()))); return; }
            if (i != at.begin()) { --i; if (i->first + sz > p) { FAIL(fmt("step %d with %d live: block overlaps one still held", s, int(live.size()))); return; } }
            at[p] = 1; Live l = { p, ++tag }; memset(p, l.tag, sz); live.push_back(l);
        } else {
            int k = mode == 1 ? 0 : mode == 3 ? int(live.size()) - 1 : rng.range(0, int(live.size()) - 1);
            if (mode == 1) k = s % 2 ? 0 : int(live.size()) - 1;
            Live l = live[k];
            for (int j = 0; j < sz; ++j) if (l.p[j] != l.tag) { FAIL(fmt("step %d with %d live: byte %d of a held block was overwritten", s, int(live.size()), j)); return; }
            live[k] = live.back(); live.pop_back(); at.erase(l.p); give(a, l.p);
        }
        if (int(live.size()) > peak) peak = live.size();
        if (g_live - base > peakmem) peakmem = g_live - base;
    }
    for (size_t k = 0; k < live.size(); ++k) { for (int j = 0; j < sz; ++j) if (live[k].p[j] != live[k].tag) { FAIL(fmt("after all steps, %d live: byte %d of a held block was overwritten", int(live.size()), j)); return; } }
    for (size_t k = 0; k < live.size(); ++k) give(a, live[k].p);
    // memory is bounded by the number of live blocks: whole chunks of blocks, each with at least one live, in addition to bookkeeping
    double chunk = 512.0 * ((sz + 7) / 8 + 1) * 8, bound = ((peak + 511) / 512 + 1) * chunk + 100000 + 64.0 * peak;
    CHECK(peakmem <= bound, fmt("%ld bytes held for at most %d live blocks", peakmem, peak));
    CHECK(g_live - base < 64 * 1024 + chunk, fmt("%ld bytes still held with nothing allocated", g_live - base));
    // reuse after everything has been released
    long before = g_live; std::vector<void *> v; for (int r = 0; r < 40; ++r) { for (int i = 0; i < 600; ++i) v.push_back(take(a)); for (int i = 0; i < 600; ++i) give(a, v[i]); v.clear(); }
    CHECK(g_live - before < 3 * chunk + 65536, fmt("%ld bytes more after allocating and releasing 600 blocks 40 times", g_live - before));
    }
    CHECK(g_live == base, fmt("%ld bytes not released by the destructor", g_live - base));
}
int main() {
    int T = g_thorough() ? 10 : 1;
    for (int t = 0; t < T; ++t) for (int mode = 0; mode < 6; ++mode) {
        for (int i = 0; i < 30; ++i) run(rng.range(1, 64), rng.range(1, 3000), rng.range(1, 1600), mode);
        for (int i = 0; i < 4; ++i) run(rng.range(1, 24), mode >= 4 ? 60000 : 20000, rng.range(2000, 6000), mode);
        for (int k = 0; k < 12; ++k) { static const int L[] = { 1, 2, 511, 512, 513, 1023, 1024, 1025, 1536, 2048, 2049, 4097 }; run(1 + 8 * (k % 3), 6 * L[k], L[k], mode); }
    }
    return done("element sizes 1..64 bytes, up to 20000 steps and 6000 live blocks, six orders of release, including a steady number of live blocks", "random histories, every block filled and checked");
}
