// The BCJR equalizer against posterior sums over all terminated symbol sequences.
#include "susagen.h"
using namespace sg;
typedef long double L;

template <class T> static void one(Gen& g, double range, double tol)
{
    std::vector<T> taps, pam; size_t nt = g.once_in(600) ? g.once_in(100) ? 10 : g.range(6, 8) : g.once_in(30) ? 5 : g.once_in(6) ? 4 : g.range(2, 3), l = nt - 1;
    for (size_t i = 0; i < nt; i++) taps.push_back((T)g.sint(16) / (T)8);
    if (g.flip()) pam = {-1, 1}; else { pam.push_back((T)g.sint(16) / (T)8); do pam.push_back((T)g.sint(16) / (T)8); while (pam[1] == pam[0] && (pam.pop_back(), pam.push_back(pam[0] + 1), false)); }
    bool longer = g.once_in(300) && nt < 5; size_t N = nt > 8 ? g.range(1, 2) : longer ? g.range(60, 2000) : g.once_in(25) ? g.range(1, 60) : g.range(1, 8), n = N + l; bool brute = N <= 8;
    std::vector<unsigned> x(n, 0); if (longer) { pbt::Rng b = g.bulk(); for (size_t i = 0; i < N; i++) x[i] = b.upto(1); } else for (size_t i = 0; i < N; i++) x[i] = g.flip();
    pbt::Rng nb = g.bulk(); auto noise_of = [&](double a) { return longer ? a * ((double)nb.upto(2000000) / 1e6 - 1) : g.real(-a, a); };
    auto out = [&](size_t t, uint64_t hist) { L v = 0; for (size_t k = 0; k < nt; k++) v += (L)taps[k] * pam[hist >> k & 1]; (void)t; return v; }; // bit k: the symbol k steps ago
    bool arbitrary = g.once_in(6); double noise = g.flip() ? 0.0 : g.real(0.0, 2.0); std::vector<T> y; uint64_t h = 0;
    for (size_t t = 0; t < n; t++) { h = h << 1 | x[t]; y.push_back(arbitrary ? (T)noise_of(4) : (T)(out(t, h) + (noise > 0 ? noise * noise_of(1) : 0.0))); }
    double ebn0 = g.real(0.05, 4.0), worst = 1e-9; // keep every intermediate value within the range of the type
    for (size_t t = 0; t < n; t++) for (uint64_t w = 0; w < (2u << l); w++) { double e = (double)(y[t] - out(t, w)); worst = std::max(worst, e * e); }
    if (ebn0 * worst * 2 * (l + 1) > range) ebn0 = range / worst / 2 / (l + 1);
    T eb = (T)ebn0;
    NOTE(g, "bcjr<" << tname<T>() << "> taps " << pbt::str(taps) << " alphabet " << pbt::str(pam) << " received " << pbt::str(y) << " ebn0 " << ebn0);
    g.label(std::string(tname<T>()) + " " + std::to_string(nt) + " taps"); g.label(arbitrary ? "arbitrary input" : noise > 0 ? "noisy" : "noiseless"); g.label(brute ? "enumerated" : "recursion"); g.nontrivial(N > 1); g.weight = n << nt;
    std::vector<L> one(n, 0), zero(n, 0); auto metric = [&](size_t t, uint64_t w) { L e = (L)y[t] - out(t, w); return -(L)eb * e * e; };
    if (brute)
        for (uint64_t s = 0; s < (1ull << N); s++)
        {
            L e = 0; uint64_t w = 0; for (size_t t = 0; t < n; t++) { w = w << 1 | (t < N ? s >> t & 1 : 0); e += metric(t, w); }
            L p = std::exp(e); for (size_t t = 0; t < n; t++) (t < N && (s >> t & 1) ? one : zero)[t] += p;
        }
    else
    {
        auto unit = [](std::vector<L>& v) { L s = 0; for (L x : v) s += x; for (L& x : v) x /= s; }; // up to a common factor
        size_t S = (size_t)1 << l; std::vector<std::vector<L>> f(n + 1, std::vector<L>(S, 0)), b = f; f[0][0] = b[n][0] = 1;
        for (size_t t = 0; t < n; t++) for (size_t w = 0; w < 2 * S; w++) { f[t + 1][w & (S - 1)] += f[t][w >> 1] * std::exp(metric(t, w)); if (w + 1 == 2 * S) unit(f[t + 1]); }
        for (size_t t = n; t-- > 0;) for (size_t w = 0; w < 2 * S; w++) { b[t][w >> 1] += b[t + 1][w & (S - 1)] * std::exp(metric(t, w)); if (w + 1 == 2 * S) unit(b[t]); }
        for (size_t t = 0; t < n; t++) for (size_t w = 0; w < 2 * S; w++) (w & 1 ? one : zero)[t] += f[t][w >> 1] * std::exp(metric(t, w)) * b[t + 1][w & (S - 1)];
    }
    susa::matrix<T> tm(1, nt), pm = g.flip() ? susa::matrix<T>(2, 1) : susa::matrix<T>(1, 2), Y = g.flip() ? susa::matrix<T>(n, 1) : susa::matrix<T>(1, n);
    for (size_t i = 0; i < nt; i++) tm(i) = taps[i]; pm(0) = pam[0]; pm(1) = pam[1]; for (size_t i = 0; i < n; i++) Y(i) = y[i];
    susa::channel<T> ch(tm, pm); susa::matrix<T> R;
    for (int rep = 0; rep < 2; rep++)
    {
        R = ch.decode_bcjr(Y, eb);
        PBT_CHECK(R.size() == n, "decode_bcjr returns " << R.size() << " values for " << n << " received ones");
        for (size_t t = 0; t < n; t++)
        { double e = (double)(one[t] / zero[t]), v = R(t);
          PBT_CHECK(std::fabs(v - e) <= tol * e, "decode_bcjr" << (rep ? " (again)" : "") << ": the ratio at position " << t << " is " << v << " instead of " << e << " for taps " << pbt::str(taps) << ", alphabet " << pbt::str(pam) << ", received " << pbt::str(y) << ", Eb/N0 " << ebn0); }
        if (g.flip()) break;
    }
    for (size_t i = 0; i < n; i++) PBT_CHECK(Y(i) == y[i], "decode_bcjr changed its input");
    if (!arbitrary && noise == 0)
    { // the sent sequence is recovered wherever every other one is far away
        for (size_t t = 0; t < n; t++) { double e = (double)(one[t] / zero[t]); if (e > 2 || e < 0.5) PBT_CHECK((R(t) > 1) == (e > 1), "position " << t << " is decided wrongly"); }
    }
}
static void property(Gen& g) { if (g.once_in(3)) one<float>(g, 40, 2e-3); else one<double>(g, 400, 1e-8); }
#include "pbt_main.h"
