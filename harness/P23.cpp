// susa::mt against the standard library's MT19937 and the requested distributions.
#include "susagen.h"
#include <random>
using namespace sg;

struct Ref
{
    std::mt19937 e;
    std::vector<double> prob; std::map<size_t, unsigned> position; // of the stored distribution: index seen for a place in the order
    uint32_t word() { return (uint32_t)e(); }
    double closed() { return (double)word() / 4294967295.0; }
    double open() { return ((double)word() + 0.5) / 4294967296.0; }
    void polar(double& a, double& b) { double x, y, w; do { x = 2 * closed() - 1; y = 2 * closed() - 1; w = x * x + y * y; } while (w >= 1); w = std::sqrt(-2 * std::log(w) / w); a = x * w; b = y * w; }
};
static bool near(double a, double b, double t) { return std::fabs(a - b) <= t * std::max(1.0, std::fabs(b)); }
static uint32_t anyseed(Gen& g) { static const uint32_t s[] = {0, 1, 5489, 0xffffffffu, 0x80000000u, 0x7fffffffu}; return g.once_in(4) ? s[g.draw(5)] : (uint32_t)g.draw(0xffffffffull); }
static uint32_t anymask(Gen& g) { return g.flip() ? 0xffffffffu : g.flip() ? (uint32_t)((1ull << g.range(1, 32)) - 1) : (uint32_t)g.draw(0xffffffffull); }
static std::vector<double> anyprob(Gen& g)
{
    size_t n = g.once_in(150) ? g.range(100, 400) : g.size(2, 12); std::vector<double> p(n); double s = 0; bool eq = g.once_in(5);
    for (auto& v : p) { v = eq ? 1 : g.once_in(3) ? 0 : (double)g.range(1, 40); s += v; }
    if (s == 0) { p[g.draw(n - 1)] = 1; s = 1; }
    for (auto& v : p) v /= s;
    return p;
}
static susa::matrix<double> vec(Gen& g, const std::vector<double>& p) { bool col = g.flip(); susa::matrix<double> m(col ? p.size() : 1, col ? 1 : p.size()); for (size_t i = 0; i < p.size(); i++) m(i) = p[i]; return m; }
// an index drawn with the real u from a distribution in the given order of probabilities
static void judge(unsigned got, const std::vector<double>& p, std::vector<double> order, bool sorted, double u, const std::string& what, std::map<size_t, unsigned>* position)
{
    PBT_CHECK(got < p.size(), what << " is " << got << ", there are " << p.size() << " probabilities");
    PBT_CHECK(p[got] > 0, what << " is " << got << ", which has the probability zero of " << pbt::str(p));
    double cum = 0; bool ok = false; size_t place = 0, hits = 0;
    for (size_t i = 0; i < order.size(); i++)
    {
        double lo = cum; cum += order[i]; if (order[i] == 0) continue;
        if (u >= lo - 1e-9 && u < cum + 1e-9) { hits++; if (sorted ? p[got] == order[i] : got == i) { ok = true; place = i; } }
    }
    PBT_CHECK(ok, what << " is " << got << " for the uniform real " << u << " and the probabilities " << pbt::str(p));
    if (sorted && position && hits == 1) // one place in the order is always the same index, and different ones differ
    {
        for (auto& q : *position) PBT_CHECK((q.first == place) == (q.second == got), what << " is " << got << " for place " << place << " and was " << q.second << " for place " << q.first << " of the ascending order of " << pbt::str(p));
        (*position)[place] = got;
    }
}
static void property(Gen& g)
{
    struct Pair { std::unique_ptr<susa::mt> s; Ref r; };
    std::vector<Pair> p(2);
    auto create = [&](Pair& x) { x.r = Ref(); if (g.once_in(4)) { x.s.reset(new susa::mt()); x.r.e.seed(5489u); } else { uint32_t s = anyseed(g); x.s.reset(new susa::mt(s)); x.r.e.seed(s); NOTE(g, "mt(" << s << ") "); } };
    for (auto& x : p) create(x);
    size_t n = g.range(1, 25), used = 0; bool copied = false;
    for (size_t k = 0; k < n; k++)
    {
        size_t i = g.draw(1), j = 1 - i; susa::mt& s = *p[i].s; Ref& r = p[i].r; uint64_t op = g.draw(13);
        unsigned len = g.once_in(6) ? (unsigned)(g.once_in(800) ? g.range(65500, 70000) : g.range(500, 1500)) : (unsigned)g.size(1, 60);
        std::ostringstream w; w << "step " << k << ", generator " << i << ": ";
        NOTE(g, "#" << i << ":" << op << "(" << len << ") ");
        switch (op)
        {
        case 0: { uint32_t m = anymask(g), v = s.rand_mask(m), e = r.word() & m; PBT_CHECK(v == e, w.str() << "rand_mask(" << m << ") is " << v << " instead of " << e); used++; break; }
        case 1: { uint32_t m = anymask(g); susa::matrix<unsigned> v = s.rand_mask(m, len); PBT_CHECK(v.no_rows() == len && v.no_cols() == 1, w.str() << "rand_mask of " << len << " is " << v.no_rows() << "x" << v.no_cols());
                  for (unsigned q = 0; q < len; q++) { uint32_t e = r.word() & m; PBT_CHECK(v(q) == e, w.str() << "rand_mask(" << m << "," << len << ") has " << v(q) << " instead of " << e << " at " << q); } used += len; break; }
        case 2: { susa::matrix<double> v = s.rand(len); PBT_CHECK(v.no_rows() == len && v.no_cols() == 1, w.str() << "rand of " << len << " is " << v.no_rows() << "x" << v.no_cols());
                  for (unsigned q = 0; q < len; q++) { double e = r.closed(); PBT_CHECK(v(q) >= 0 && v(q) <= 1 && near(v(q), e, 1e-14), w.str() << "rand(" << len << ") has " << v(q) << " instead of " << e << " at " << q); } used += len; break; }
        case 3: { susa::matrix<double> v = s.randn(len); PBT_CHECK(v.no_rows() == len && v.no_cols() == 1, w.str() << "randn of " << len << " is " << v.no_rows() << "x" << v.no_cols());
                  for (unsigned q = 0; q < len; q += 2) { double a, b; r.polar(a, b); PBT_CHECK(std::isfinite(v(q)) && near(v(q), a, 1e-10), w.str() << "randn(" << len << ") has " << v(q) << " instead of " << a << " at " << q);
                      if (q + 1 < len) PBT_CHECK(std::isfinite(v(q + 1)) && near(v(q + 1), b, 1e-10), w.str() << "randn(" << len << ") has " << v(q + 1) << " instead of " << b << " at " << q + 1); } used += len; break; }
        case 4: case 5: { for (unsigned q = 0; q < std::min(len, 20u); q++) { uint64_t c = g.draw(5); double u = r.open(), pr = c == 0 ? 0.0 : c == 1 ? 1.0 : c == 2 ? std::min(1.0, u + 1e-8) : c == 3 ? std::max(0.0, u - 1e-8) : g.real(0, 1); // also right beside the draw
                      unsigned v = s.bernoulli(pr); PBT_CHECK(v == (u <= pr ? 1u : 0u) || (v <= 1 && std::fabs(u - pr) < 1e-9), w.str() << "bernoulli(" << pr << ") is " << v << " for the uniform real " << u); } used += 20; break; }
        case 6: { for (unsigned q = 0; q < std::min(len, 20u); q++) { uint32_t max = g.flip() ? (uint32_t)g.range(1, 12) : (uint32_t)g.range(1, 0xffffffffll), e = r.word() % max + 1, v = s.randint(max);
                      PBT_CHECK(v >= 1 && v <= max && v == e, w.str() << "randint(" << max << ") is " << v << " instead of " << e); } used += 20; break; }
        case 7: case 8: { std::vector<double> pr = anyprob(g), o = pr; std::sort(o.begin(), o.end()); std::map<size_t, unsigned> pos; auto P = vec(g, pr);
                  for (unsigned q = 0; q < std::min(len, 40u); q++) { double u = r.open(); unsigned v = s.nonuniform(P); judge(v, pr, o, true, u, w.str() + "nonuniform", &pos); } used += 40; break; }
        case 9: { std::vector<double> pr = anyprob(g); susa::matrix<unsigned> v = s.nonuniform(vec(g, pr), len); PBT_CHECK(v.no_rows() == len && v.no_cols() == 1, w.str() << "nonuniform of " << len << " is " << v.no_rows() << "x" << v.no_cols());
                  for (unsigned q = 0; q < len; q++) judge(v(q), pr, pr, false, r.open(), w.str() + "element of bulk nonuniform", nullptr);
                  // it may draw one more real than it needs
                  uint32_t a = r.word(), x = s.rand_mask(0xffffffffu); if (x != a) { a = r.word(); PBT_CHECK(x == a, w.str() << "the word after " << len << " bulk draws is " << x << " instead of " << a); }
                  used += len; break; }
        case 10: { r.prob = anyprob(g); r.position.clear(); s.set_probabilities(vec(g, r.prob)); break; }
        case 11: { if (r.prob.empty()) break; std::vector<double> o = r.prob; std::sort(o.begin(), o.end());
                  for (unsigned q = 0; q < std::min(len, 40u); q++) { double u = r.open(); judge(s.nonuniform(), r.prob, o, true, u, w.str() + "nonuniform()", &r.position); } g.label("stored distribution"); used += 40; break; }
        case 12: { if (g.flip()) *p[i].s = *p[j].s; else p[i].s.reset(new susa::mt(*p[j].s)); p[i].r = p[j].r; copied = true; break; }
        default: create(p[i]); break;
        }
    }
    for (auto& x : p) { uint32_t v = x.s->rand_mask(0xffffffffu), e = x.r.word(); PBT_CHECK(v == e, "a generator is not where its history puts it: " << v << " instead of " << e); }
    g.label(used > 1248 ? "several blocks of state" : used > 624 ? "two blocks of state" : "short"); if (copied) g.label("copied"); g.nontrivial(used > 1); g.weight = used;
}
#include "pbt_main.h"
