// susa::rng against the standard library's MT19937, through mixed histories.
#include "susagen.h"
#include <random>
using namespace sg;

struct Ref
{
    std::mt19937 e;
    uint32_t word() { return (uint32_t)e(); }
    double uni() { return (double)word() / 4294967295.0; }
    void polar(double& a, double& b) { double x, y, w; do { x = 2 * uni() - 1; y = 2 * uni() - 1; w = x * x + y * y; } while (w >= 1); w = std::sqrt(-2 * std::log(w) / w); a = x * w; b = y * w; }
};
static bool near(double a, double b, double t) { return std::fabs(a - b) <= t * std::max(1.0, std::fabs(b)); }
static uint32_t anyseed(Gen& g) { static const uint32_t s[] = {0, 1, 5489, 0xffffffffu, 0x80000000u, 0x7fffffffu}; return g.once_in(4) ? s[g.draw(5)] : (uint32_t)g.draw(0xffffffffull); }
static uint32_t anymask(Gen& g) { return g.flip() ? 0xffffffffu : g.flip() ? (uint32_t)((1ull << g.range(1, 32)) - 1) : (uint32_t)g.draw(0xffffffffull); }

static void property(Gen& g)
{
    struct Pair { std::unique_ptr<susa::rng> s; Ref r; };
    std::vector<Pair> p(3);
    auto create = [&](Pair& x) { if (g.once_in(4)) { x.s.reset(new susa::rng()); x.r.e.seed(5489u); } else { uint32_t s = anyseed(g); x.s.reset(new susa::rng(s)); x.r.e.seed(s); NOTE(g, "rng(" << s << ") "); } };
    for (auto& x : p) create(x);
    size_t n = g.range(1, 25), used = 0; bool copied = false, big = false;
    for (size_t k = 0; k < n; k++)
    {
        size_t i = g.draw(2), j = g.draw(2); susa::rng& s = *p[i].s; Ref& r = p[i].r; uint64_t op = g.draw(11);
        unsigned len = g.once_in(6) ? (unsigned)(g.once_in(800) ? g.range(65500, 70000) : g.range(500, 1500)) : (unsigned)g.size(1, 80); uint32_t m = anymask(g);
        std::ostringstream w; w << "step " << k << ", generator " << i << ": ";
        NOTE(g, "#" << i << ":" << op << "(" << len << ") ");
        switch (op)
        {
        case 0: { uint32_t v = s.rand_mask(m), e = r.word() & m; PBT_CHECK(v == e, w.str() << "rand_mask(" << m << ") is " << v << " instead of " << e); used++; break; }
        case 1: { susa::matrix<unsigned> v = s.rand_mask(m, len); PBT_CHECK(v.no_rows() == len && v.no_cols() == 1, w.str() << "rand_mask of " << len << " is " << v.no_rows() << "x" << v.no_cols());
                  for (unsigned q = 0; q < len; q++) { uint32_t e = r.word() & m; PBT_CHECK(v(q) == e, w.str() << "rand_mask(" << m << "," << len << ") has " << v(q) << " instead of " << e << " at " << q); } used += len; break; }
        case 2: { double v = s.rand(), e = r.uni(); PBT_CHECK(v >= 0 && v <= 1 && near(v, e, 1e-14), w.str() << "rand() is " << v << " instead of " << e); used++; break; }
        case 3: { susa::matrix<double> v = s.rand(len); PBT_CHECK(v.no_rows() == len && v.no_cols() == 1, w.str() << "rand of " << len << " is " << v.no_rows() << "x" << v.no_cols());
                  for (unsigned q = 0; q < len; q++) { double e = r.uni(); PBT_CHECK(v(q) >= 0 && v(q) <= 1 && near(v(q), e, 1e-14), w.str() << "rand(" << len << ") has " << v(q) << " instead of " << e << " at " << q); } used += len; break; }
        case 4: { unsigned rows = g.size(1, 30), cols = g.size(1, 30); susa::matrix<double> v = s.rand(rows, cols); PBT_CHECK(v.no_rows() == rows && v.no_cols() == cols, w.str() << "rand(" << rows << "," << cols << ") is " << v.no_rows() << "x" << v.no_cols());
                  for (unsigned q = 0; q < rows * cols; q++) { double e = r.uni(); PBT_CHECK(v(q) >= 0 && v(q) <= 1 && near(v(q), e, 1e-14), w.str() << "rand(" << rows << "," << cols << ") has " << v(q) << " instead of " << e << " at " << q); } used += rows * cols; break; }
        case 5: { auto v = s.bernoulli(len); PBT_CHECK(v.no_rows() == len && v.no_cols() == 1, w.str() << "bernoulli of " << len << " is " << v.no_rows() << "x" << v.no_cols());
                  for (unsigned q = 0; q < len; q++) { int e = r.word() & 1; PBT_CHECK(v(q) == e, w.str() << "bernoulli(" << len << ") has " << (int)v(q) << " instead of " << e << " at " << q); } used += len; break; }
        case 6: { double v = s.randn(), a, b; r.polar(a, b); PBT_CHECK(std::isfinite(v) && near(v, a, 1e-10), w.str() << "randn() is " << v << " instead of " << a); used++; break; }
        case 7: { susa::matrix<double> v = s.randn(len); PBT_CHECK(v.no_rows() == len && v.no_cols() == 1, w.str() << "randn of " << len << " is " << v.no_rows() << "x" << v.no_cols());
                  double sum = 0, sq = 0;
                  for (unsigned q = 0; q < len; q += 2) { double a, b; r.polar(a, b); PBT_CHECK(std::isfinite(v(q)) && near(v(q), a, 1e-10), w.str() << "randn(" << len << ") has " << v(q) << " instead of " << a << " at " << q);
                      sum += v(q); sq += v(q) * v(q); if (q + 1 < len) { PBT_CHECK(std::isfinite(v(q + 1)) && near(v(q + 1), b, 1e-10), w.str() << "randn(" << len << ") has " << v(q + 1) << " instead of " << b << " at " << q + 1); sum += v(q + 1); sq += v(q + 1) * v(q + 1); } }
                  const double t = 40; PBT_CHECK(std::fabs(sum) <= std::sqrt(2 * t * len) && sq <= len + 2 * std::sqrt(len * t) + 2 * t && sq >= len - 2 * std::sqrt(len * t), w.str() << len << " normal deviates have the mean " << sum / len << " and the second moment " << sq / len);
                  used += len; break; }
        case 8: { uint32_t seed = anyseed(g); s.init(seed); r.e.seed(seed); break; }
        case 9: { if (i != j) { *p[i].s = *p[j].s; p[i].r = p[j].r; copied = true; } break; }
        case 10: { if (i != j) { p[i].s.reset(new susa::rng(*p[j].s)); p[i].r = p[j].r; copied = true; } break; }
        default: create(p[i]); break;
        }
        if (used > 1248) big = true;
    }
    for (auto& x : p) { uint32_t v = x.s->rand_mask(0xffffffffu), e = x.r.word(); PBT_CHECK(v == e, "a generator is not where its history puts it: " << v << " instead of " << e); }
    g.label(big ? "several blocks of state" : used > 624 ? "two blocks of state" : "short"); if (copied) g.label("copied"); g.nontrivial(used > 1); g.weight = used;
}
#include "pbt_main.h"
