// Every build configuration gives the same results.
#include "operations.h"
#include "trap.h"
#include <iostream>
using namespace ops;

#define CONFIGURATION(K) size_t variant_##K(size_t op, uint64_t seed, size_t scale, uint64_t shared_seed, std::vector<double>& out);
#include "variants.h" // written by run.py: CONFIGURATION(0) CONFIGURATION(1) ...
#undef CONFIGURATION
static const struct { const char* flags; size_t (*f)(size_t, uint64_t, size_t, uint64_t, std::vector<double>&); } CONFIG[] = {
#define CONFIGURATION(K) {VARIANT_FLAGS_##K, variant_##K},
#include "variants.h"
};
static const size_t NCONF = sizeof CONFIG / sizeof *CONFIG;

static bool close(double a, double b) { if (a == b || (a != a && b != b)) return true; return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)); }

static void property(pbt::Gen& g)
{
    size_t op = g.draw(NOPS - 1); uint64_t seed = g.draw(100000), shared_seed = g.draw(1000); size_t scale = g.once_in(20) ? (size_t)g.range(6, g.once_in(20) ? 90 : 30) : g.size(0, 5);
    NOTE(g, OPS[op].name << " (seed " << seed << ", size " << scale << ")"); g.label(OPS[op].name); g.nontrivial();
    std::vector<double> want; { const Shared shared(Src(shared_seed, 3)); Src s(seed, scale); Digest d; d.out = &want; OPS[op].f(s, shared, d); }
    for (size_t k = 0; k < NCONF; k++)
    {
        std::vector<double> got; size_t n = 0; std::streambuf *o = std::cout.rdbuf(nullptr), *e = std::cerr.rdbuf(nullptr);
        bool st = pbt::stopped([&] { n = CONFIG[k].f(op, seed, scale, shared_seed, got); });
        std::cout.rdbuf(o); std::cerr.rdbuf(e);
        PBT_CHECK(!st, OPS[op].name << " is stopped when built with " << CONFIG[k].flags);
        PBT_CHECK(n == NOPS, "the configuration has " << n << " operations instead of " << NOPS);
        PBT_CHECK(got.size() == want.size(), OPS[op].name << " delivers " << got.size() << " instead of " << want.size() << " values when built with " << CONFIG[k].flags);
        for (size_t i = 0; i < want.size(); i++) PBT_CHECK(close(want[i], got[i]), OPS[op].name << ": value " << i << " is " << pbt::str(got[i]) << " instead of " << pbt::str(want[i]) << " when built with " << CONFIG[k].flags);
        for (size_t i = 0; i < want.size(); i++) if (std::memcmp(&want[i], &got[i], 8) && want[i] == want[i]) { g.label("rounded differently"); break; }
    }
}
#include "pbt_main.h"
