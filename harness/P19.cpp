// Channels with inter-symbol interference: encoding, and detection against exhaustive search.
#include "susagen.h"
using namespace sg;

template <class T> struct Chan { std::vector<T> taps, pam; size_t l() const { return taps.size() - 1; } };
template <class T> static T tapval(Gen& g) { if constexpr (std::is_integral<T>::value) return (T)g.sint(6); else return (T)g.sint(40) / (T)8; }
template <class T> static std::string show(const Chan<T>& c) { return "taps " + pbt::str(c.taps) + " alphabet " + pbt::str(c.pam); }
template <class T> static susa::matrix<T> col(const std::vector<T>& v) { susa::matrix<T> m(v.size(), 1); for (size_t i = 0; i < v.size(); i++) m(i) = v[i]; return m; }

// the channel's output for the symbol indices x between two copies of the state's symbols
template <class T> static std::vector<T> encode(const Chan<T>& c, const std::vector<unsigned>& x, unsigned state)
{
    size_t l = c.l(), P = c.pam.size(); std::vector<T> s;
    std::vector<T> mem; { unsigned t = state; for (size_t i = 0; i < l; i++) { mem.push_back(c.pam[t % P]); t /= P; } } // most recent first
    s.assign(mem.rbegin(), mem.rend()); for (unsigned i : x) s.push_back(c.pam[i]); s.insert(s.end(), mem.rbegin(), mem.rend());
    std::vector<T> y; for (size_t i = l; i < s.size(); i++) { T v = 0; for (size_t k = 0; k <= l; k++) v += c.taps[k] * s[i - k]; y.push_back(v); }
    return y;
}
template <class T> static long double distance(const std::vector<T>& a, const std::vector<T>& b) { long double d = 0; for (size_t i = 0; i < a.size(); i++) { long double e = (long double)a[i] - b[i]; d += e * e; } return d; }

template <class T> static void one(Gen& g)
{
    Chan<T> c; size_t nt = g.once_in(5) ? 4 : g.range(2, 3), P = nt == 4 ? 2 : g.range(2, 4); if (g.once_in(30)) { nt = 5; P = 2; }
    if (g.once_in(100)) { nt = g.range(2, 3); P = g.range(5, nt == 2 ? 16 : 9); }
    bool longer = g.once_in(1500); if (longer) { if (g.flip()) { P = 2; nt = g.range(6, 18); } else { nt = 2; P = g.range(17, 300); } } // encoded only, except over wide alphabets
    else if (g.once_in(800)) { switch (g.draw(2)) { case 0: P = 2; nt = g.range(6, 11); break; case 1: P = g.range(16, 19); nt = 3; break; default: P = 4; nt = 5; } } // hundreds of states
    const bool wide = longer && nt == 2;
    for (size_t i = 0; i < nt; i++) c.taps.push_back(tapval<T>(g));
    if (g.once_in(3)) for (size_t i = 0; i < P; i++) c.pam.push_back((T)(2 * (int)i - (int)P + 1)); // the usual alphabet
    else while (c.pam.size() < P) { T v = (T)g.sint(longer ? 200 : 8); while (std::find(c.pam.begin(), c.pam.end(), v) != c.pam.end()) v += 1; c.pam.push_back(v); }
    bool lasting = !longer && nt <= 3 && P <= 4 && g.once_in(300); // a sequence of hundreds of symbols
    if (!lasting && !wide && g.once_in(4))
    { // large amplitudes
        T f = std::is_integral<T>::value ? (T)g.range(2, 12) : (T)std::ldexp(1.0, (int)g.range(4, 12)), h = std::is_integral<T>::value ? (T)g.range(1, 4) : (T)std::ldexp(1.0, (int)g.range(0, 12));
        for (auto& v : c.taps) v *= f; for (auto& v : c.pam) v *= h; g.label("large amplitudes");
    }
    size_t l = c.l(), S = 1; for (size_t i = 0; i < l; i++) S *= P;
    size_t N = lasting ? g.range(100, 1500) : wide ? g.range(1, 4) : g.once_in(20) ? g.range(1, 60) : g.range(1, 7); size_t total = 1; for (size_t i = 0; i < N && total <= 4096; i++) total *= P;
    pbt::Rng bulk = g.bulk(); auto val = [&] { return lasting ? std::is_integral<T>::value ? (T)((int)bulk.upto(12) - 6) : (T)((double)bulk.upto(80) - 40) / (T)8 : tapval<T>(g); };
    std::vector<unsigned> x(N); for (auto& v : x) v = (unsigned)(lasting ? bulk.upto(P - 1) : g.draw(P - 1));
    std::vector<T> xs; for (unsigned i : x) xs.push_back(c.pam[i]);
    unsigned state = g.flip() ? 0 : (unsigned)g.draw(S - 1);
    susa::matrix<T> taps(1, nt), pam = g.flip() ? susa::matrix<T>(P, 1) : susa::matrix<T>(1, P); for (size_t i = 0; i < nt; i++) taps(i) = c.taps[i]; for (size_t i = 0; i < P; i++) pam(i) = c.pam[i];
    susa::channel<T> ch(taps, pam);
    if (S > 200) g.label("hundreds of states"); g.label(P > 4 || nt > 5 ? std::string("larger channel") : std::string(tname<T>()) + " " + std::to_string(nt) + " taps, alphabet of " + std::to_string(P)); g.nontrivial(N > 1); g.weight = N * S * P;
    if (!longer && !std::is_integral<T>::value && g.once_in(3))
    { // unknown initial state, no noise (its metric needs fractions)
        size_t M = std::max(N, l + 2); while (x.size() < M) { x.push_back((unsigned)g.draw(P - 1)); xs.push_back(c.pam[x.back()]); }
        if (c.taps[0] == 0) { g.label("first tap zero (skipped)"); g.nontrivial(false); return; } // the first symbol leaves no trace
        std::vector<T> y(M + l, T(0)); for (size_t i = 0; i < M; i++) for (size_t k = 0; k <= l; k++) y[i + k] += c.taps[k] * xs[i];
        NOTE(g, show(c) << " unknown initial state, symbols " << pbt::str(xs)); g.label("unknown state");
        susa::matrix<T> d = ch.decode_mlse(col(y));
        PBT_CHECK(d.size() == M, "decode_mlse without initial state returns " << d.size() << " symbols instead of " << M);
        for (size_t i = 0; i < M; i++) PBT_CHECK(d(i) == xs[i], "decode_mlse without initial state: symbol " << i << " is " << d(i) << " instead of " << xs[i] << " for " << show(c) << ", symbols " << pbt::str(xs));
        return;
    }
    NOTE(g, show(c) << " state " << state << " symbols " << pbt::str(xs));
    std::vector<T> y = encode(c, x, state);
    susa::matrix<T> Y = ch.encode_isi(col(xs), state);
    PBT_CHECK(Y.size() == y.size(), "encode_isi of " << N << " symbols returns " << Y.size() << " values instead of " << y.size());
    for (size_t i = 0; i < y.size(); i++) PBT_CHECK(Y(i) == y[i], "encode_isi: value " << i << " is " << Y(i) << " instead of " << y[i] << " for " << show(c) << ", state " << state << ", symbols " << pbt::str(xs));
    if (longer && !wide) { g.label("encoding only"); return; }
    if (lasting) g.label("hundreds of symbols"); if (wide) g.label("wide alphabet");
    uint64_t kind = g.draw(3); std::vector<T> r = y; // 0: noiseless
    if (kind == 1) for (auto& v : r) v += val() / (T)8;
    if (kind == 2) for (auto& v : r) v += val();
    if (kind == 3) for (auto& v : r) v = (T)(2 * val());
    g.label(kind == 0 ? "noiseless" : kind == 1 ? "weak noise" : kind == 2 ? "strong noise" : "arbitrary input");
    susa::matrix<T> R = g.flip() ? col(r) : susa::matrix<T>(susa::transpose(col(r)));
    susa::matrix<T> d = ch.decode_mlse(R, state);
    for (size_t i = 0; i < r.size(); i++) PBT_CHECK(R(i) == r[i], "decode_mlse changed its input");
    PBT_CHECK(d.size() == N, "decode_mlse returns " << d.size() << " symbols instead of " << N);
    std::vector<unsigned> di(N);
    for (size_t i = 0; i < N; i++) { size_t k = std::find(c.pam.begin(), c.pam.end(), (T)d(i)) - c.pam.begin(); PBT_CHECK(k < P, "decode_mlse: symbol " << i << " is " << d(i) << ", not of the " << show(c)); di[i] = k; }
    long double got = distance(encode(c, di, state), r), best;
    if (total <= 4096)
    {
        best = distance(y, r); std::vector<unsigned> s(N, 0);
        for (size_t q = 0; q < total; q++) { best = std::min(best, distance(encode(c, s, state), r)); for (size_t i = 0; i < N && ++s[i] == P; i++) s[i] = 0; }
        g.label("exhaustive");
    }
    else
    { // dynamic programming over the last l symbols (index: most recent in the lowest digit)
        const long double INF = 1e300L; std::vector<long double> m(S, INF), nx; m[state] = 0;
        std::vector<unsigned> tail; { unsigned t = state; for (size_t i = 0; i < l; i++) { tail.insert(tail.begin(), t % P); t /= P; } }
        for (size_t t = 0; t < r.size(); t++)
        {
            nx.assign(S, INF);
            for (size_t s = 0; s < S; s++) if (m[s] < INF) for (size_t a = 0; a < P; a++)
            {
                if (t >= N && a != tail[t - N]) continue;
                long double v = (long double)c.taps[0] * c.pam[a]; size_t q = s; for (size_t k = 1; k <= l; k++) { v += (long double)c.taps[k] * c.pam[q % P]; q /= P; }
                size_t to = (s * P + a) % S; nx[to] = std::min(nx[to], m[s] + (v - r[t]) * (v - r[t]));
            }
            m = nx;
        }
        best = m[state]; g.label("dynamic programming");
    }
    const long double tol = std::is_integral<T>::value ? 0 : std::is_same<T, float>::value ? 1e-5L * (1 + best) * (1 + N / 60) : 1e-12L * (1 + best) * (1 + N / 60);
    PBT_CHECK(got <= best + tol, "decode_mlse: the detected sequence " << pbt::str(di) << " has the squared distance " << (double)got << ", the minimum is " << (double)best << " for " << show(c) << ", state " << state << ", received " << pbt::str(r));
}
static void property(Gen& g) { with_type<double, int, float>(g, [&](auto t) { one<decltype(t)>(g); }); }
#include "pbt_main.h"
