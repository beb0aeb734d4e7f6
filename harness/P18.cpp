// The BCJR decoder of convolutional codes against posterior sums over all terminated paths.
#include "susagen.h"
using namespace sg;
typedef long double L;

struct Code { unsigned n, m; std::vector<uint32_t> gen; };
static uint32_t digits(uint32_t v) { uint32_t r = 0, p = 1; while (v) { r += (v & 7) * p; v >>= 3; p *= 10; } return r; }
static int sign(const Code& c, uint32_t window, unsigned j) { return __builtin_popcount(window & c.gen[j]) & 1 ? 1 : -1; }

struct Oracle
{
    const Code& c; const std::vector<double>& y; double snr, p; size_t stages;
    std::vector<L> one, zero;
    L branch(size_t t, uint32_t window) const // window: the bit (bit m) and the m bits before it, oldest in bit 0
    { L s = 0; for (unsigned j = 0; j < c.n; j++) s += (L)y[t * c.n + j] * sign(c, window, j); return 2 * (L)snr * s + std::log((window >> c.m) & 1 ? (L)p : 1 - (L)p); }
    // every input sequence that ends with m zeros
    void enumerate()
    {
        size_t k = stages - c.m; one.assign(stages, 0); zero.assign(stages, 0);
        for (uint64_t s = 0; s < (1ull << k); s++)
        {
            L e = 0; uint32_t st = 0;
            for (size_t t = 0; t < stages; t++) { uint32_t b = t < k ? (s >> t) & 1 : 0, w = st | b << c.m; e += branch(t, w); st = w >> 1; }
            L w = std::exp(e); for (size_t t = 0; t < stages; t++) (t < k && (s >> t & 1) ? one : zero)[t] += w;
        }
    }
    // the same sums by recursion over the time; each step's are known up to a common factor
    static void unit(std::vector<std::vector<L>>& f, size_t t, size_t x, size_t n) { if (x + 1 < n) return; L s = 0; for (L v : f[t]) s += v; for (L& v : f[t]) v /= s; }
    void recurse()
    {
        size_t S = (size_t)1 << c.m; std::vector<std::vector<L>> f(stages + 1, std::vector<L>(S, 0)), b = f; f[0][0] = 1; b[stages][0] = 1; one.assign(stages, 0); zero.assign(stages, 0);
        std::vector<std::vector<L>> w(stages, std::vector<L>(2 * S));
        for (size_t t = 0; t < stages; t++) for (size_t x = 0; x < 2 * S; x++) w[t][x] = std::exp(branch(t, x));
        for (size_t t = 0; t < stages; t++) for (size_t x = 0; x < 2 * S; x++) f[t + 1][x >> 1] += f[t][x & (S - 1)] * w[t][x], unit(f, t + 1, x, 2 * S);
        for (size_t t = stages; t-- > 0;) for (size_t x = 0; x < 2 * S; x++) b[t][x & (S - 1)] += b[t + 1][x >> 1] * w[t][x], unit(b, t, x, 2 * S);
        for (size_t t = 0; t < stages; t++) for (size_t x = 0; x < 2 * S; x++) (x >> c.m ? one : zero)[t] += f[t][x & (S - 1)] * w[t][x] * b[t + 1][x >> 1];
    }
};

static void property(Gen& g)
{
    static const struct { unsigned n, m, g[3]; } good[] = {{2,2,{7,5}},{2,1,{3,1}},{2,3,{15,17}},{3,2,{5,7,7}},{3,3,{13,15,17}},{2,4,{23,35}},{1,2,{7}}};
    Code c; bool known = g.once_in(3);
    if (known) { auto& k = good[g.draw(6)]; c.n = k.n; c.m = k.m; for (unsigned j = 0; j < k.n; j++) { uint32_t v = 0, p = 1; for (unsigned d = k.g[j]; d; d /= 10, p *= 8) v += d % 10 * p; c.gen.push_back(v); } }
    else { c.n = g.once_in(5) ? g.range(1, g.once_in(3) ? 32 : 8) : g.range(1, 3); c.m = g.once_in(2500) ? g.once_in(40) ? 9 : g.range(6, 8) : g.once_in(40) ? 5 : g.once_in(12) ? 4 : g.range(1, 3); for (unsigned j = 0; j < c.n; j++) c.gen.push_back((uint32_t)g.draw((2u << c.m) - 1)); }
    bool longer = g.once_in(300) && c.m < 4; size_t info = c.m > 8 ? g.range(1, 2) : longer ? g.range(60, 2500) : g.once_in(25) && c.m < 4 ? g.range(1, 60) : g.range(1, 7), stages = info + c.m; bool brute = info <= 7;
    std::vector<uint8_t> bits(stages, 0); if (info > 60) { pbt::Rng b = g.bulk(); for (size_t i = 0; i < info; i++) bits[i] = b.upto(1); } else for (size_t i = 0; i < info; i++) bits[i] = g.flip();
    pbt::Rng nb = g.bulk(); auto noise_of = [&](double a) { return longer ? a * ((double)nb.upto(2000000) / 1e6 - 1) : g.real(-a, a); };
    double p = g.flip() ? 0.5 : g.real(0.05, 0.95), snr = g.real(0.05, 3.0), noise = g.flip() ? 0.0 : g.real(0.0, 2.0); bool arbitrary = g.once_in(6), dflt = p == 0.5 && g.flip();
    std::vector<double> y(stages * c.n); uint32_t st = 0;
    for (size_t t = 0; t < stages; t++) { uint32_t w = st | (uint32_t)bits[t] << c.m; for (unsigned j = 0; j < c.n; j++) y[t * c.n + j] = arbitrary ? noise_of(2) : sign(c, w, j) + (noise > 0 ? noise * noise_of(1) : 0.0); st = w >> 1; }
    // keep every intermediate value of the decoder within the range of its type
    double ymax = 0; for (double v : y) ymax = std::max(ymax, std::fabs(v));
    double worst = 2 * ymax * c.n * (c.m + 1) * 2; if (snr * worst > 250) snr = 250 / worst;
    NOTE(g, "(" << c.n << ",1," << c.m << ") code, " << info << " bits, ebn0 " << snr << ", prior " << p << ", noise " << (arbitrary ? -1 : noise));
    g.label("memory " + std::to_string(c.m)); g.label(arbitrary ? "arbitrary input" : noise > 0 ? "noisy" : "noiseless"); g.label(brute ? "enumerated" : "recursion"); g.nontrivial(info > 1); g.weight = stages << (c.m + 1);
    susa::ccode code(c.n, 1, c.m); for (unsigned j = 0; j < c.n; j++) code.set_generator(digits(c.gen[j]), j);
    susa::matrix<double> Y = g.flip() ? susa::matrix<double>(y.size(), 1) : susa::matrix<double>(1, y.size()); for (size_t i = 0; i < y.size(); i++) Y(i) = y[i];
    if (g.once_in(4)) { susa::matrix<uint8_t> x(3, 1, (uint8_t)1); code.encode(x); } // an earlier use leaves no trace
    if (g.once_in(4)) code.set_internal_state((uint32_t)g.draw((1u << c.m) - 1));
    Oracle o{c, y, snr, p, stages, {}, {}}; if (brute) o.enumerate(); else o.recurse();
    susa::matrix<double> R;
    for (int rep = 0; rep < 2; rep++)
    {
        R = dflt ? code.decode_bcjr(Y, snr) : code.decode_bcjr(Y, snr, p);
        PBT_CHECK(R.size() >= stages, "decode_bcjr returns " << R.size() << " values for " << stages << " bits");
        for (size_t t = 0; t < stages; t++)
        { double e = (double)(o.one[t] / o.zero[t]), v = R(t);
          PBT_CHECK(std::fabs(v - e) <= 1e-8 * e, "decode_bcjr" << (rep ? " (again)" : "") << ": the ratio of bit " << t << " of " << info << "+" << c.m << " is " << v << " instead of " << e << " for a (" << c.n << ",1," << c.m << ") code at Eb/N0 " << snr << " and prior " << p); }
        if (g.flip()) break;
    }
    for (size_t i = 0; i < y.size(); i++) PBT_CHECK(Y(i) == y[i], "decode_bcjr changed its input");
    if (known && !arbitrary && noise == 0 && p == 0.5 && snr >= 1.2)
    { g.label("recovery"); for (size_t t = 0; t < stages; t++) PBT_CHECK((R(t) > 1) == (bits[t] == 1), "bit " << t << " of a noiseless codeword is not recovered at Eb/N0 " << snr); }
}
#include "pbt_main.h"
