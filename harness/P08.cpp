// The bit set against std::set.
#define PBT_LEAK
#define PBT_CASE_SECS 60
#include "susagen.h"
#include <set>
#define PBT_EXAMPLES {{1999999, 0}, {1999999, 1}}

using pbt::Gen;
static bool memory_for(size_t bytes)
{
    FILE* f = std::fopen("/proc/meminfo", "r"); char l[200]; unsigned long long kb = 0;
    while (f && std::fgets(l, sizeof l, f)) if (std::sscanf(l, "MemAvailable: %llu", &kb) == 1) break;
    if (f) std::fclose(f);
    return kb * 1024 > 3 * bytes;
}

// indices beyond 32 bits
static void huge(Gen& g)
{
    bool bytes_beyond = g.flip(); g.label("beyond 32 bits"); g.nontrivial(); g.no_leak_check = true;
    const size_t base = (size_t)1 << (bytes_beyond ? 35 : 32), n = base + 8 + g.draw(5000);
    if (!memory_for(n / 8)) { NOTE(g, "no memory for a set of size " << n); return; }
    susa::bitset b(n); std::set<size_t> m;
    size_t k = 1 + g.draw(3); while (k--) { size_t i = base + g.draw(n - base - 1); b.set(i); m.insert(i); }
    NOTE(g, "bitset of size " << n << " with " << m.size() << " members from " << *m.begin());
    for (size_t i : m) for (size_t j : {i, i - 1, i + 1, i - base, i / 8, (size_t)(uint32_t)i, (size_t)(uint32_t)(i / 8) * 8 + i % 8})
        PBT_CHECK(b.exists(j) == (m.count(j) != 0), "exists(" << j << ") is " << b.exists(j) << " after set(" << i << ")");
    size_t r = *m.rbegin(); b.reset(r); m.erase(r); PBT_CHECK(!b.exists(r), "exists(" << r << ") after reset()");
    b.set(base + 3); m.insert(base + 3);
    PBT_CHECK(b.any(), "any() of a set of size " << n << " with member " << base + 3);
    if (bytes_beyond) return;
    size_t p = b.pop(); PBT_CHECK(p == *m.begin(), "pop() of a set of size " << n << " returned " << p << " instead of " << *m.begin());
}

static void property(Gen& g)
{
    if (g.once_in(2000000)) return huge(g);
    struct S { std::unique_ptr<susa::bitset> b; std::set<size_t> m; size_t n; };
    auto fresh = [&](S& s) {
        s.n = g.once_in(60) ? 0 : g.once_in(100) ? (g.once_in(8) ? (size_t)g.range(60000, 140000) : (size_t)g.range(500, 9000)) : g.once_in(4) ? (size_t)8 * g.range(1, 12) - (size_t)g.draw(1) : g.size(1, 90);
        s.b.reset(new susa::bitset(s.n)); s.m.clear(); };
    std::vector<S> s(2);
    fresh(s[0]); fresh(s[1]);
    NOTE(g, "bitsets of sizes " << s[0].n << ", " << s[1].n << ":");
    auto verify = [&](int k, const char* when) {
        S& x = s[k];
        PBT_CHECK(x.b->any() == !x.m.empty(), "bitset of size " << x.n << ": any() is " << x.b->any() << " with " << x.m.size() << " members after " << when);
        size_t stride = x.n > 30000 ? 1 + g.draw(400) : x.n > 500 ? 1 + g.draw(60) : 1;
        for (size_t i = 0; i < x.n + 20; i += stride)
            PBT_CHECK(x.b->exists(i) == (x.m.count(i) != 0), "bitset of size " << x.n << ": exists(" << i << ") is " << x.b->exists(i) << " after " << when);
        for (size_t i : {x.n, x.n + 1, x.n + 8, x.n + 64, (size_t)1 << 32, (size_t)1 << 35, SIZE_MAX, SIZE_MAX - 7})
            if (i >= x.n) PBT_CHECK(!x.b->exists(i), "bitset of size " << x.n << ": exists(" << i << ") beyond the size after " << when);
    };
    size_t steps = g.range(1, 60); int special = 0;
    for (size_t t = 0; t < steps; t++)
    {
        int k = (int)g.draw(1); S& x = s[k];
        size_t i = g.once_in(8) ? (g.flip() ? x.n + g.size(0, 70) : g.pick({SIZE_MAX, (size_t)1 << 32, ((size_t)1 << 35) + 3, SIZE_MAX - 5, (size_t)1 << 63}))
                   : x.n ? (size_t)g.range(0, x.n - 1) : 0;
        const char* nm = "";
        switch (g.draw(11))
        {
        case 0: case 1: x.b->set(i); if (i < x.n) x.m.insert(i); nm = "set"; break;
        case 2: case 3: x.b->push(i); if (i < x.n) x.m.insert(i); nm = "push"; break;
        case 4: x.b->reset(i); x.m.erase(i); nm = "reset"; break;
        case 5: { size_t e = x.m.empty() ? x.n : *x.m.begin(); size_t p = x.b->pop(); if (!x.m.empty()) x.m.erase(x.m.begin()); nm = "pop";
                  PBT_CHECK(p == e, "bitset of size " << x.n << ": pop() returned " << p << " instead of " << e); break; }
        case 6: { if (!g.once_in(2)) break; x.b->set(); for (size_t j = 0; j < x.n; j++) x.m.insert(j); nm = "set all"; special++; break; }
        case 7: { if (!g.once_in(2)) break; x.b->reset(); x.m.clear(); nm = "reset all"; special++; break; }
        case 8: { S& y = s[1 - k]; y.b.reset(new susa::bitset(*x.b)); y.m = x.m; y.n = x.n; nm = "copy"; special++; break; }
        case 9: { S& y = s[g.draw(1)]; *x.b = *y.b; x.m = y.m; x.n = y.n; nm = "assignment"; special++; break; }
        case 10: { if (!g.once_in(3)) break; fresh(x); nm = "a new set"; break; }
        default: { // drain
            if (!g.once_in(4) || (x.n > 9000 && x.m.size() > 500)) break;
            size_t c = 0; while (x.b->any() && c <= x.n + 2) { size_t p = x.b->pop(); PBT_CHECK(!x.m.empty() && p == *x.m.begin(), "bitset of size " << x.n << ": pop() returned " << p << " while draining"); x.m.erase(x.m.begin()); c++; }
            PBT_CHECK(x.m.empty(), "draining stopped early"); nm = "draining"; special++; break; }
        }
        NOTE(g, " " << nm << (k ? "'" : "") << "(" << i << ")");
        if (*nm) { g.label(nm); verify(k, nm); if (special && t % 4 == 0) verify(1 - k, nm); }
    }
    verify(0, "everything"); verify(1, "everything");
    g.nontrivial(special > 0 && (!s[0].m.empty() || !s[1].m.empty() || steps > 4));
    g.weight = steps;
}
#include "pbt_main.h"
